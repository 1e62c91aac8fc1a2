#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: edit here, then run it."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

def st(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}
def me(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=("echo output", "status code of YASL_execute"), note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=list(mech), observe_at=list(observe), hook_needed=False),
                  _note=note, _na=na))

# ---------------------------------------------------------------- data structures
prop("T01", "Tables behave as finite maps",
     "After any history of insertions, overwrites, removals, clears, copies and unions, a table holds exactly the keys the history leaves in it with the last value stored, reports that number as its length, finds each of them and no other, and enumerates each exactly once. Copies and unions share nothing with their sources, keys of different types are different keys, and a key that cannot be hashed is refused with a TypeError and leaves the table unchanged.",
     ["histories"], "every history of table operations over any keys, including the ones that make the table grow, shrink and pile up removals",
     "the tests use a few fixed tables of a handful of keys; they never remove an absent key, never fill, empty and refill, and never hit two keys on one probe sequence",
     ["data-structures/YASL_Table.c", "interpreter/table_methods.c", "util/hash_function.c", "std/yasl-std-collections.c"],
     [me("open addressing with double hashing, tombstones and resizing", "data-structures/YASL_Table.c: YASL_Table_getindex, YASL_Table_insert_fast, YASL_Table_rm, table_resize"), me("table methods", "interpreter/table_methods.c")],
     [st("items", "slots: empty, tombstone or key and value", "struct YASL_Table"), st("count", "number of live keys", "struct YASL_Table")],
     note="all operation sequences to the stated depth; bulk phases cross each growth and shrink threshold")
prop("T02", "collections.set behaves as a finite set",
     "After any history of additions, removals, clears, copies and set operators, a set holds exactly the elements the history leaves in it, each once, and its length, membership, listing, equality and subset comparisons agree with that. Operators and copies leave their operands unchanged, and an element that cannot be hashed is refused with a TypeError.",
     ["histories"], "every history of set operations and every pair of operand sets",
     "the tests check a few fixed small sets, no history with removals and none that resizes",
     ["data-structures/YASL_Set.c", "std/yasl-std-collections.c"],
     [me("open addressing with double hashing, tombstones and resizing", "data-structures/YASL_Set.c"), me("set methods and operators", "std/yasl-std-collections.c")],
     [st("items", "slots", "struct YASL_Set"), st("count", "number of elements", "struct YASL_Set")],
     note="all operation sequences to the stated depth, all pairs of subsets of a 6-element universe")
prop("T03", "Lists behave as finite sequences",
     "After any history of push, pop, insert, assignment, reverse, clear, copy and concatenation, a list holds exactly the sequence the history describes, and indexing from either end, length, iteration, search, count, join, spread, printing and equality all agree with that sequence. An index outside the list, or a pop from an empty list, raises a ValueError and an argument of the wrong type a TypeError.",
     ["histories"], "every history of list operations, every index from below the first to beyond the last position, every capacity step",
     "the tests apply each method once or twice to a fixed list",
     ["data-structures/YASL_List.c", "interpreter/list_methods.c"],
     [me("growable array", "data-structures/YASL_List.c"), me("list methods", "interpreter/list_methods.c")],
     [st("items/count/size", "elements, length, capacity", "struct YASL_List")],
     note="all operation sequences to the stated depth")
prop("T04", "list.sort orders every list, whatever pivots are drawn",
     "Sorting a list of numbers or of strings leaves it holding the same elements in non-decreasing order, for every initial arrangement and every outcome of the random pivot choice. A list mixing numbers and strings, or holding anything else, is refused with a ValueError.",
     ["inputs", "schedules"], "every arrangement with ties and every sequence of random draws",
     "the tests sort a few lists under whatever pivots one seed gives",
     ["interpreter/list_methods.c", "interpreter/YASL_Object.c"],
     [me("quicksort with random pivots", "interpreter/list_methods.c: sort, list_sort"), me("ordering of values", "interpreter/YASL_Object.c: yasl_object_cmp")],
     note="rand() is replaced by the explorer: every pivot is a choice point")

exec(open(os.path.join(HERE, "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "props_more.py")) else None

def main():
    built = {f[:-4].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.endswith(".cpp")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if p["_na"]:
            na.append(dict(property=i, reason=p["_na"]))
        elif i not in built:
            na.append(dict(property=i, reason="no check yet: the explorer space for it is not built"))
        else:
            checks.append(dict(property=i, quick_cmd="python3 /verif/run.py %s --tier quick" % i,
                               thorough_cmd="python3 /verif/run.py %s --tier thorough" % i,
                               technique="bounded-exhaustive explicit-state exploration of the real interpreter against a reference model",
                               level="model_checking", level_note=p["_note"] or "exhaustive within the bounds stated in the evidence"))
    m = dict(version=1, setup_cmd="python3 /verif/run.py --build-all", checks=checks, not_applicable=na,
             notes="Every check enumerates all cases of its bounded spaces (depth-first over choice sequences) and runs each on YASL built from /repo's working tree; no hooks in /repo.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

main()
