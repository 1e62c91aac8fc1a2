// L01: control flow follows the structure of the program.
#include "ref.hpp"
#include "dead.hpp"
using namespace mc;
using namespace ref;

namespace {
// Grammar of loop nests.  Every statement leaves a mark in the output; locals are declared before, inside and
// after the loops, so a jump that loses or leaves a value is seen.
struct G {
	Chooser &ch;
	bool infn;
	int nextlocal = 0;
	int marks = 0;
	int budget;                       // statements left
	bool light;                       // fewer kinds of loop and condition, for larger nests
	vector<string> vars;              // integer variables in scope

	S mark() { return echo(bin("~", Sx("m" + std::to_string(marks++)), var(vars.empty() ? "a" : vars.back()))); }
	E cond() {
		// on a variable in scope: hits on the first, second or no iteration
		const string &v = vars[vars.size() - 1 - (light ? 0 : ch.choose((uint32_t)std::min<size_t>(2, vars.size())))];
		return bin("==", var(v), I(light ? 1 : ch.choose(2)));
	}
	Block body(int depth, int loops, bool last) {
		Block b;
		size_t keep = vars.size();
		while (budget > 0) {
			uint32_t n = 4 + (loops ? 2 : 0) + (infn ? 1 : 0) + (depth > 0 ? 2 : 0);
			uint32_t o = ch.choose(n);
			if (o == 0) break;
			budget--;
			if (o == 1) { b.push_back(mark()); continue; }
			if (o == 2) {
				string n2 = "x" + std::to_string(nextlocal++);
				b.push_back(let(n2, bin("+", var(vars.back()), I(10))));
				b.push_back(echo(var(n2)));
				vars.push_back(n2);
				continue;
			}
			if (o == 3) { if (light) throw Prune{}; b.push_back(aug("a", "+", I(1))); continue; }
			o -= 4;
			if (loops) {
				if (o == 0) { b.push_back(ch.flip() ? iff(cond(), { brk() }) : brk()); if (b.back()->k == BREAK) break; continue; }
				if (o == 1) { b.push_back(ch.flip() ? iff(cond(), { cont() }) : cont()); if (b.back()->k == CONTINUE) break; continue; }
				o -= 2;
			}
			if (infn) {
				if (o == 0) { b.push_back(iff(cond(), { ret({ var(vars.back()) }) })); continue; }
				o -= 1;
			}
			if (o == 0) { b.push_back(loop(depth - 1, loops + 1)); continue; }
			// if / else
			size_t k2 = vars.size();
			E c = cond();
			Block t = body(depth - 1, loops, false);
			vars.resize(k2);
			Block e;
			if (ch.flip()) { e = body(depth - 1, loops, false); vars.resize(k2); if (e.empty()) throw Prune{}; }
			b.push_back(iff(c, t, e));
		}
		vars.resize(keep);
		(void)last;
		return b;
	}
	S loop(int depth, int loops) {
		string v = "i" + std::to_string(nextlocal++);
		uint32_t kind = light ? 2 * ch.choose(2) : ch.choose(4);
		if (kind == 0) {                // while, counting in a variable of its own scope
			vars.push_back(v);
			Block b = body(depth, loops, true);
			vars.pop_back();
			b.insert(b.begin(), aug(v, "+", I(1)));
			return iff(lit(vbool(true)), { let(v, I(-1)), whil(bin("<", var(v), I(2)), b), echo(bin("~", Sx("w"), var(v))) });
		}
		vars.push_back(v);
		Block b = body(depth, loops, true);
		vars.pop_back();
		if (kind == 1) return forc(let(v, I(0)), bin("<", var(v), I(3)), aug(v, "+", I(1)), b);
		if (kind == 2) return forin(v, listlit({ I(0), I(1), I(2) }), b);
		return forin(v, lit(vstr("01")), b);
	}
};

void gen(Chooser &ch, Case &c, int budget, int depth, bool light) {
	uint32_t where = light ? 2 * ch.choose(2) : ch.choose(3);       // top level, a block, a function
	G g{ ch, where == 2 };
	g.budget = budget;
	g.light = light;
	g.vars = { "a" };
	S l = g.loop(depth, 1);
	Block in = { let("a", I(0)), l, let("z", I(77)), echo(listlit({ var("a"), var("z") })) };
	Block prog;
	if (where == 0) prog = in;
	else if (where == 1) prog = { iff(lit(vbool(true)), in) };
	else {
		in.push_back(ret({ Sx("end") }));
		prog = { let("q", I(5)), fndecl("f", { "p" }, in), echo(call(var("f"), { I(1) })), echo(var("q")) };
	}
	bool semi = true;
	fill(c, prog, semi);
	if (c.status == SYNTAX) throw Prune{};
}

// if / elseif / else chains over every combination of truthy and falsy conditions
void gen_if(Chooser &ch, Case &c, int n) {
	static const vector<Val> V = { vundef(), vbool(false), vbool(true), vint(0), vint(1), vflt(0.0), vstr(""), vstr("a"), vlist({}) };
	bool var_ = ch.flip();               // constants fold, variables do not
	Block pre;
	auto mkcond = [&](int i) -> E {
		const Val &v = ch.pick(V);
		E e = v.k == LIST ? listlit({}) : lit(v);
		if (!var_) return e;
		string nm = "c" + std::to_string(i);
		pre.push_back(let(nm, e));
		return var(nm);
	};
	bool hasels = ch.flip();
	vector<S> chain;
	for (int i = 0; i < n; i++) chain.push_back(iff(mkcond(i), { let("t", I(i)), echo(bin("~", Sx("b"), var("t"))) }));
	if (hasels) chain.back()->els = { echo(Sx("else")) };
	for (int i = n - 2; i >= 0; i--) { chain[(size_t)i + 1]->isconst = true; chain[(size_t)i]->els = { chain[(size_t)i + 1] }; }
	Block in = pre;
	in.push_back(chain[0]);
	in.push_back(let("z", I(3)));
	in.push_back(echo(var("z")));
	Block prog = in;
	if (ch.flip()) prog = { fndecl("f", {}, in), expr(call(var("f"), {})) };
	fill(c, prog);
}

// while / for with conditions of every type, constant and not
void gen_cond(Chooser &ch, Case &c) {
	static const vector<Val> V = { vundef(), vbool(false), vbool(true), vint(0), vint(1), vflt(0.0), vstr(""), vstr("a"), vlist({}) };
	const Val &v = ch.pick(V);
	E e = v.k == LIST ? listlit({}) : lit(v);
	Block in = { let("n", I(0)) };
	if (ch.flip()) { in.push_back(let("c", e)); e = var("c"); }
	uint32_t form = ch.choose(4);
	Block b = { let("t", var("n")), aug("n", "+", I(1)), echo(var("t")), iff(bin(">", var("n"), I(2)), { brk() }) };
	if (form == 0) in.push_back(whil(e, b));
	else if (form == 1) in.push_back(forc(let("k", I(0)), e, aug("k", "+", I(1)), b));
	else if (form == 2) in.push_back(whil(un("!", e), b));
	else in.push_back(echo(tern(e, Sx("yes"), Sx("no"))));
	in.push_back(let("z", I(3)));
	in.push_back(echo(listlit({ var("z"), var("n") })));
	Block prog = in;
	if (ch.flip()) prog = { fndecl("f", {}, in), expr(call(var("f"), {})) };
	fill(c, prog);
}

// break / continue / return where they do not belong are refused before anything runs
void gen_bad(Chooser &ch, Case &c) {
	Block leaf;
	switch (ch.choose(3)) { case 0: leaf = { brk() }; break; case 1: leaf = { cont() }; break; default: leaf = { ret({ I(1) }) }; }
	int depth = 1 + (int)ch.choose(3);
	for (int i = 0; i < depth; i++) {
		string n = std::to_string(i);
		switch (ch.choose(5)) {
		case 0: leaf = { iff(lit(vbool(true)), leaf) }; break;
		case 1: leaf = { let("n" + n, I(0)), whil(bin("<", var("n" + n), I(2)), [&] { Block b = leaf; b.insert(b.begin(), aug("n" + n, "+", I(1))); return b; }()) }; break;
		case 2: leaf = { forin("v" + n, listlit({ I(1), I(2) }), leaf) }; break;
		case 3: leaf = { fndecl("f" + n, {}, leaf), expr(call(var("f" + n), {})) }; break;
		default: leaf = { let("g" + n, fnlit({}, leaf)), expr(call(var("g" + n), {})) }; break;
		}
	}
	Block prog = { echo(Sx("start")) };
	prog.insert(prog.end(), leaf.begin(), leaf.end());
	prog.push_back(echo(Sx("end")));
	fill(c, prog);
}

Reg r({ "L01", "Every program of a grammar of nested loops, conditionals and jumps (while, C-style for, for-in over lists and strings; break, continue and return, guarded and not; locals before, inside and after the loops), at the top level, in a block and in a function; every if/elseif/else chain over nine kinds of condition; every placement of break, continue and return in nests of blocks, loops and functions.",
	{ "The reference evaluator interprets the syntax tree directly" },
	[](std::vector<Space> &v, bool th) {
		int b = th ? 4 : 3;
		v.push_back({ "loop nests", "at most " + std::to_string(b) + " statements in the loops, nesting 3", [b](Chooser &ch, Case &c) { gen(ch, c, b, 2, false); }, 5 });
		v.push_back({ "deeper loop nests", "at most " + std::to_string(b + 2) + " statements in the loops, nesting " + (th ? "3" : "2") + ", while and for-in, conditions on the innermost variable", [b, th](Chooser &ch, Case &c) { gen(ch, c, b + 2, th ? 2 : 1, true); }, 5 });
		v.push_back({ "if chains", "up to " + string(th ? "4" : "3") + " conditions of 9 kinds", [th](Chooser &ch, Case &c) { int n = 1 + (int)ch.choose(th ? 4 : 3); gen_if(ch, c, n); }, 4 });
		v.push_back({ "loop conditions", "9 kinds of condition, 4 forms, constant and variable", [](Chooser &ch, Case &c) { gen_cond(ch, c); }, 2 });
		v.push_back({ "code that never runs", "77 statements and expressions, good and bad, in " + string(th ? "3" : "2") + " nested places of 44, which run or never do", [th](Chooser &ch, Case &c) { gen_dead(ch, c, th ? 3 : 2); }, 3 });
		v.push_back({ "misplaced jumps", "nests of up to 3 blocks, loops and functions", [](Chooser &ch, Case &c) { gen_bad(ch, c); }, 3 });
	} });
}
