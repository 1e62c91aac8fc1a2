// L06: loops and comprehensions visit every element exactly once.
// BUILD: variant=asan wrap=rand
#include "ref.hpp"
#include <algorithm>
using namespace mc;
using namespace ref;
static int rnd;
extern "C" int __wrap_rand(void) { return rnd++; }

namespace {
// ---------------------------------------------------------------- nests, against the evaluator
struct G {
	Chooser &ch; int budget; vector<string> vars; bool small;
	E coll() {
		uint32_t n = small ? 6 : 12;
		uint32_t k = ch.choose(n + (vars.empty() ? 0 : 1));
		if (k == n) return var(vars[ch.choose((uint32_t)vars.size())]);
		switch (k) {
		case 0: return var("l");
		case 1: return var("n");
		case 2: return Sx("ab");
		case 3: return listlit({});
		case 4: return tablelit({ Sx("k"), I(7) });
		case 5: if (budget <= 0) throw Prune{}; return comp();
		case 6: return slice(var("l"), I(1), nullptr);
		case 7: return call(var("mk"), { I(2) });
		case 8: return index(var("n"), I(1));
		case 9: return Sx("");
		case 10: return bin("+", var("l"), listlit({ Sx("z") }));
		default: return I(5);
		}
	}
	string newvar() { static const vector<string> V = { "x", "y", "z" }; return ch.flip() || vars.empty() ? V[std::min<size_t>(2, vars.size())] : vars.back(); }   // new, or shadowing
	E elem() {
		uint32_t k = ch.choose(small ? 4 : 6);
		string v = vars[ch.choose((uint32_t)vars.size())];
		switch (k) {
		case 0: return var(v);
		case 1: return listlit({ var(v), var(vars.front()) });
		case 2: return call(var("find"), { var("l"), var(v) });
		case 3: if (budget <= 0) throw Prune{}; return comp();
		case 4: return call(paren(fnlit({}, { ret({ var(v) }) })), {});
		default: return call(var("every"), { var("n") });
		}
	}
	E cond() {
		string v = vars[ch.choose((uint32_t)vars.size())];
		switch (ch.choose(small ? 3 : 5)) {
		case 0: return nullptr;
		case 1: return bin("!=", var(v), I(2));
		case 2: return bin("!=", call(var("find"), { var("l"), var(v) }), I(1));
		case 3: return lit(vbool(false));
		default: return bin("==", var(v), var(vars.front()));
		}
	}
	E comp() {
		budget--;
		E c = coll();
		string v = newvar();
		vars.push_back(v);
		E x = elem(), y = cond();
		vars.pop_back();
		if (!small && ch.flip()) return tablecomp(I(1), listlit({ x }), v, slice(paren(listcomp(var("q"), "q", c)), I(0), I(1)), y);
		return listcomp(x, v, c, y);
	}
	Block loop(bool infn) {
		budget--;
		E c = coll();
		string v = newvar();
		vars.push_back(v);
		Block b;
		uint32_t k = ch.choose(5);
		string w = vars[ch.choose((uint32_t)vars.size())];
		if (k == 1) b.push_back(iff(bin("==", var(w), I(2)), { brk() }));
		if (k == 2) b.push_back(iff(bin("==", var(w), I(2)), { cont() }));
		if (k == 3) { if (!infn) throw Prune{}; b.push_back(iff(bin("==", var(w), I(2)), { ret({ listlit({ Sx("left"), var(w) }) }) })); }
		if (k == 4) b.push_back(assign(v, listlit({ var(v), I(0) })));
		if (budget > 0 && ch.flip()) { Block in = loop(infn); b.insert(b.end(), in.begin(), in.end()); }
		else b.push_back(echo(elem()));
		vars.pop_back();
		Block r = { forin(v, c, b) };
		return r;
	}
};
Block prelude() {
	Block b;
	b.push_back(let("l", listlit({ I(1), I(2), I(3) })));
	b.push_back(let("n", listlit({ listlit({ I(1) }), listlit({ I(2), I(3) }), listlit({}) })));
	b.push_back(fndecl("find", { "c", "v" }, { forin("q", var("c"), { forin("r", listlit({ var("q"), I(2) }), { iff(bin("==", var("r"), var("v")), { ret({ var("q") }) }) }) }), ret({ lit(vundef()) }) }));
	b.push_back(fndecl("mk", { "k" }, { ret({ listcomp(listlit({ var("i"), var("k") }), "i", var("l"), bin("==", var("i"), var("k"))) }) }));
	b.push_back(fndecl("every", { "c" }, { let("t", I(0)), forin("q", var("c"), { forin("r", var("q"), { aug("t", "+", var("r")) }) }), ret({ var("t") }) }));
	return b;
}
void gen_nest(Chooser &ch, Case &c, int budget, bool small, bool comps) {
	G g{ ch, budget, {}, small };
	Block b = prelude();
	if (comps) {
		E e = g.comp();
		switch (ch.choose(small ? 1 : 3)) {
		case 0: b.push_back(echo(e)); break;
		case 1: b.push_back(fndecl("f", { "n" }, { let("a", I(9)), let("r", e), ret({ listlit({ var("a"), var("r") }) }) })); b.push_back(echo(call(var("f"), { var("n") }))); break;
		default: b.push_back(forin("o", listlit({ I(8), I(9) }), { echo(listlit({ var("o"), paren(e) })) })); break;
		}
	} else {
		bool infn = ch.flip();
		Block in = g.loop(infn);
		if (infn) {
			in.push_back(ret({ Sx("end") }));
			b.push_back(fndecl("f", {}, in));
			b.push_back(forin("o", listlit({ I(8), I(9) }), { echo(listlit({ var("o"), call(var("f"), {}) })) }));
		} else b.insert(b.end(), in.begin(), in.end());
	}
	b.push_back(echo(listlit({ var("l"), var("n") })));
	fill(c, b);
	c.nolibs = true;
}
// ---------------------------------------------------------------- every collection, every way to visit it
struct C { string make, lits; vector<string> e; bool ordered; };   // statements making c, printed elements
const vector<string> KEYS = { "1", "1.0", "'1'", "true", "''", "-9" };
string show(const string &lit) { if (lit[0] != '\'') return lit; return lit.substr(1, lit.size() - 2); }
string ident(const string &lit) { return show(lit) + " " + lit; }
C choose_coll(Chooser &ch, bool th) {
	C c; c.ordered = true;
	uint32_t k = ch.choose(4);
	if (k == 0) {                                         // list, by a history
		vector<string> e; string m = "let c = [];";
		int n = (int)ch.choose(th ? 6 : 5), id = 1;
		for (int i = 0; i < n; i++) {
			switch (ch.choose(4)) {
			case 0: m += " c->push(" + std::to_string(id) + ");"; e.push_back(std::to_string(id++)); break;
			case 1: if (e.empty()) throw Prune{}; m += " c->pop();"; e.pop_back(); break;
			case 2: m += " c->insert(0, 'i" + std::to_string(id) + "');"; e.insert(e.begin(), "i" + std::to_string(id++)); break;
			default: if (e.empty()) throw Prune{}; m += " c = c + c;"; { auto f = e; e.insert(e.end(), f.begin(), f.end()); } break;
			}
		}
		c.make = m; c.e = e;
	} else if (k == 1) {                                  // str, as a literal, a piece of one, or put together
		static const vector<std::pair<string, string>> A = { { "a", "a" }, { "\\x00", string("\0", 1) }, { "\\n", "\n" }, { "\\xff", "\xff" } };
		int n = (int)ch.choose(th ? 6 : 5);
		string t;
		for (int i = 0; i < n; i++) { auto &a = ch.pick(A); t += a.first; c.e.push_back(a.second); }
		switch (ch.choose(3)) {
		case 0: c.make = "let c = '" + t + "';"; break;
		case 1: c.make = "let c = ('xy" + t + "z')[2:-1];"; break;
		default: c.make = "let c = ''; for i <- ['" + t + "', ''] { c ~= i; };"; break;
		}
	} else if (k == 2) {                                  // table, by a history: removed keys leave gaps
		vector<string> e; string m = "let c = {};";
		int n = (int)ch.choose(th ? 6 : 5);
		for (int i = 0; i < n; i++) {
			string key = KEYS[ch.choose(5)];
			if (ch.flip()) { m += " c[" + key + "] = " + std::to_string(i) + ";"; if (std::find(e.begin(), e.end(), ident(key)) == e.end()) e.push_back(ident(key)); }
			else { auto it = std::find(e.begin(), e.end(), ident(key)); if (it == e.end()) throw Prune{}; e.erase(it); m += ch.flip() ? " c->remove(" + key + ");" : " c[" + key + "] = undef;"; }
		}
		for (auto &x : e) { string key; for (auto &kk : KEYS) if (x == ident(kk)) key = kk; c.e.push_back(show(key)); }
		c.make = m; c.ordered = false;
	} else {                                              // table that grew, then lost every step-th key
		static const vector<int> N = { 1, 7, 8, 9, 16, 17, 40, 100, 300 };
		int n = N[ch.choose((uint32_t)N.size())], step = (int)ch.choose(4) + 1;
		bool ints = ch.flip();
		c.make = string("let c = {}; for let i = 0; i < ") + std::to_string(n) + "; i += 1 { c[" + (ints ? "i" : "'k' ~ i") + "] = i; }; for let i = 0; i < " + std::to_string(n) + "; i += " + std::to_string(step + 0) + " { " + (ch.flip() ? string("c->remove(") + (ints ? "i" : "'k' ~ i") + ")" : string("c[") + (ints ? "i" : "'k' ~ i") + "] = undef") + "; };";
		for (int i = 0; i < n; i++) if (i % step) c.e.push_back((ints ? "" : "k") + std::to_string(i));
		c.ordered = false;
	}
	return c;
}
const int NV = 15;
void gen_coll(Chooser &ch, Case &c, bool th) {
	C k = choose_coll(ch, th);
	uint32_t v = ch.choose(NV);
	vector<string> out;                                   // items, each printed as <item> and a bar
	auto &e = k.e;
	string s = k.make + "\nlet s = '';\nlet bar = '|';\n";
	size_t at = 0;
	bool some = false;                                    // out holds how many items there are, not which
	switch (v) {
	case 0: s += "for x <- c { s ~= x ~ bar; };"; out = e; break;
	case 1: s += "for x <- [y for y <- c] { s ~= x ~ bar; };"; out = e; break;
	case 2: s += "let q = [[y] for y <- c]; for x <- q { s ~= x[0] ~ bar; };"; out = e; break;
	case 3: s += "let t = {y: y for y <- c}; for x <- t { s ~= x ~ bar; };"; for (auto &x : e) if (std::find(out.begin(), out.end(), x) == out.end()) out.push_back(x); if (!k.ordered) out = e; k.ordered = false; break;
	case 4: if (e.size() > 20) throw Prune{}; s += "for x <- c { for y <- c { s ~= x ~ y ~ bar; }; };"; for (auto &x : e) for (auto &y : e) out.push_back(x + y); break;
	case 5: if (e.size() > 20) throw Prune{}; s += "for r <- [[x ~ y for y <- c] for x <- c] { for z <- r { s ~= z ~ bar; }; };"; for (auto &x : e) for (auto &y : e) out.push_back(x + y); break;
	case 6: at = e.empty() ? 0 : ch.choose((uint32_t)std::min<size_t>(e.size(), 6)); s += "let n = 0; for x <- c { if n == " + std::to_string(at) + " { break; }; n += 1; s ~= x ~ bar; };"; for (size_t i = 0; i < at && i < e.size(); i++) out.push_back(e[i]); some = true; break;
	case 7: at = e.empty() ? 0 : ch.choose((uint32_t)std::min<size_t>(e.size(), 6)); s += "let n = -1; for x <- c { n += 1; if n == " + std::to_string(at) + " { continue; }; s ~= x ~ bar; };"; for (size_t i = 0; i < e.size(); i++) if (i != at) out.push_back(e[i]); some = true; break;
	case 8: s += "for x <- c { c = undef; s ~= x ~ bar; };"; out = e; break;
	case 9: s += "const it = fn() { const d = c; c = undef; return d; }; for x <- it() { s ~= x ~ bar; x = 5; };"; out = e; break;
	case 10: s += "let n = 0; const it = fn() { n += 1; return c; }; for x <- it() { s ~= x ~ bar; }; for y <- [z for z <- it()] { n += 0; }; s ~= n ~ bar;"; out = e; out.push_back("2"); break;
	case 11: s += "const w = fn(k) { for x <- c { for y <- c { if k == 0 { return s; }; k -= 1; s ~= y ~ bar; }; }; return s; }; w(3); for x <- c { s ~= x ~ bar; };"; if (e.size() > 20) throw Prune{};
		for (size_t i = 0, kk = 3; i < e.size() && kk; i++) for (size_t j = 0; j < e.size() && kk; j++, kk--) out.push_back(e[j]);
		for (auto &x : e) out.push_back(x);
		some = !k.ordered;
		break;
	case 12: s += "for x <- [y for y <- c if false] { s ~= 'wrong'; }; for x <- [y for y <- c if true] { s ~= x ~ bar; };"; out = e; break;
	case 13: s += "let fs = []; for x <- c { const z = x; fs->push(fn() { return z; }); }; for f <- fs { s ~= f() ~ bar; };"; out = e; break;
	case 14: s += "let fs = [fn() { return [y for y <- c]; } for y <- c]; for f <- fs[:2] { for x <- f() { s ~= x ~ bar; }; };"; for (size_t i = 0; i < std::min<size_t>(2, e.size()); i++) for (auto &x : e) out.push_back(x); break;
	}
	s += "\necho s;\n";
	c.src = s; c.key = s;
	c.transitions = 1 + e.size();
	c.states.push_back(fp(k.make));
	bool ordered = k.ordered;
	if (some && ordered) some = false;
	c.custom = [s, out, ordered, some, e]() -> string {
		rnd = 0;
		Outcome r = run_program(s);
		count_traces(1);
		string bad;
		if (r.badheap) bad += "heap fault: " + r.heapmsg + "\n";
		if (r.leaked) bad += std::to_string(r.leaked) + " heap blocks still live\n";
		if (r.status) bad += "status " + std::to_string(r.status) + " " + r.err + "\n";
		vector<string> got; string cur;
		for (char ch : r.out) if (ch == '|') { got.push_back(cur); cur.clear(); } else cur += ch;
		if (cur != "\n") bad += "rest " + printable(cur) + "\n";
		auto want = out;
		for (auto &w : want) w.erase(std::remove(w.begin(), w.end(), '\0'), w.end());   // echo drops them
		if (some) {                                       // which elements depends on the order: each is one, none twice too often
			if (got.size() != want.size()) bad += "visited " + std::to_string(got.size()) + " times, expected " + std::to_string(want.size()) + "\n";
			for (auto &g : got) if (g.empty() ? false : std::find(e.begin(), e.end(), g) == e.end()) bad += "visited " + printable(g) + "\n";
			return bad;
		}
		if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
		if (got != want) { bad += "visited"; for (auto &g : got) bad += " <" + printable(g) + ">"; bad += "\nexpected"; for (auto &g : want) bad += " <" + printable(g) + ">"; bad += "\n"; }
		return bad;
	};
}
// Tables of every number of entries, with every offset of their keys: whatever slots the entries are in, each is visited once.
void gen_slots(Chooser &ch, Case &c, int maxn, int maxoff) {
	int n = (int)ch.choose((uint32_t)maxn + 1), off = (int)ch.choose((uint32_t)maxoff);
	uint32_t form = ch.choose(4);
	static const char *const K[] = { "i", "'k' ~ i", "i * 31", "i->tofloat() / 4.0" };
	string s = "fn key(i) { return " + string(K[form]) + "; };\nlet c = {};\nfor let i = " + std::to_string(off) + "; i < " + std::to_string(n + off) + "; i += 1 { c[key(i)] = i; };\n";
	// what was not visited, how often anything was, and whether all ways agree
	s += "let seen = {}; let k = 0;\nfor x <- c { seen[x] = c[x]; k += 1; };\nlet lost = [];\nfor let i = " + std::to_string(off) + "; i < " + std::to_string(n + off) + "; i += 1 { if seen[key(i)] != i { lost->push(i); }; };\n"
		"echo lost; echo k; echo len c; echo len seen; echo len [x for x <- c]; echo len c->keys(); echo len c->values();\n"
		"let t = 0; for x <- c->values() { t += x; }; for x <- [c[y] for y <- c] { t += x; }; echo t;\n";
	string m = std::to_string(n) + "\n";
	c.src = s;
	c.out = "[]\n" + m + m + m + m + m + m + std::to_string((int64_t)n * (2 * off + n - 1)) + "\n";
	c.transitions = (uint64_t)n;
	c.states.push_back(fp(s));
}
// ---------------------------------------------------------------- the collection changes under the loop: still ends, nothing stale is touched
void gen_change(Chooser &ch, Case &c, int n) {
	bool table = ch.flip();
	static const vector<string> LOPS = { "c->push(9)", "c->pop()", "c->insert(0, 'q' ~ k)", "c->clear()", "c->reverse()", "c[0] = 'r' ~ k", "c = [7]", "d = c + c", "x = c", "c->sort()", "d = [y for y <- c]", "d = c->copy()", "c->push(c->copy())" };
	static const vector<string> TOPS = { "c[k ~ 'n'] = k", "c->remove(x)", "c[x] = undef", "c->clear()", "c[x] = 'r' ~ k", "c = {'z': 1}", "d = c | {'u': 1}", "x = c", "c[1] = 'o'", "d = [y for y <- c]", "c->remove('b')", "for i <- [1, 2, 3, 4, 5, 6, 7, 8, 9] { c[i ~ 'm'] = i; }", "for i <- [1, 2, 3, 4, 5, 6, 7, 8, 9] { c->remove(i ~ 'm'); }" };
	auto &O = table ? TOPS : LOPS;
	string body; for (int i = 0; i < n; i++) body += ch.pick(O) + "; ";
	uint32_t form = ch.choose(3);
	string s = string("let c = ") + (table ? "{'a' ~ '': 1, 'b': 'v' ~ 'w', 'c': 3}" : "['a' ~ '', 'b' ~ '1', 'c' ~ '2']") + ";\nlet d = undef; let k = 0;\n";
	string guard = "k += 1; if k > 30 { return 'stop'; }; ";
	if (form == 0) s += "const f = fn() { for x <- c { " + guard + body + "}; return 'end'; }; f();\n";
	else if (form == 1) s += "const f = fn() { for x <- c { for x <- c { " + guard + body + "}; }; return 'end'; }; f();\n";
	else s += "const g = fn(x) { k += 1; if k > 30 { c = []; return c[5]; }; " + body + " return x; }; let r = [g(x) for x <- c];\n";
	s += "echo 'done';\n";
	c.src = s; c.key = s;
	c.transitions = (uint64_t)n;
	c.states.push_back(fp(s));
	c.custom = [s, form]() -> string {
		rnd = 0;
		Outcome r = run_program(s);
		count_traces(1);
		string bad;
		if (r.badheap) bad += "heap fault: " + r.heapmsg + "\n";
		if (r.leaked && s.find("x = c") == string::npos && s.find("c->push(c") == string::npos) bad += std::to_string(r.leaked) + " heap blocks still live\n";
		if (r.status == 0 ? r.out != "done\n" : r.status != 5 && r.status != 7) bad += "status " + std::to_string(r.status) + " output " + r.out + " " + r.err + "\n";
		return bad;
	};
}
Reg reg({ "L06",
	"loops and comprehensions over every kind of collection, nested to the bound, leaving them early, with the collection made by every history of changes: the elements visited are compared with those the collection holds",
	{ "a table's elements are its keys, in no particular order", "how a loop goes on over a collection that the program changes meanwhile is unspecified; only that it uses no stale memory is checked" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "comprehensions", "up to 2 nested, few forms", [](Chooser &ch, Case &c) { gen_nest(ch, c, 2, true, true); }, 3 });
		v.push_back({ "loops", "up to 2 loops and comprehensions nested, few forms", [](Chooser &ch, Case &c) { gen_nest(ch, c, 2, true, false); }, 3 });
		if (th) {
			v.push_back({ "comprehensions, more forms", "up to 2 nested", [](Chooser &ch, Case &c) { gen_nest(ch, c, 2, false, true); }, 3 });
			v.push_back({ "loops, more forms", "up to 2 loops and comprehensions nested", [](Chooser &ch, Case &c) { gen_nest(ch, c, 2, false, false); }, 3 });
			v.push_back({ "deeper comprehensions", "up to 3 nested, few forms", [](Chooser &ch, Case &c) { gen_nest(ch, c, 3, true, true); }, 4 });
			v.push_back({ "deeper loops", "up to 3 loops and comprehensions nested, few forms", [](Chooser &ch, Case &c) { gen_nest(ch, c, 3, true, false); }, 4 });
		}
		v.push_back({ "collections", string("histories of up to ") + (th ? "5" : "4") + " changes, strings of up to " + (th ? "5" : "4") + " bytes, tables of up to 300 keys, 15 ways to visit them", [th](Chooser &ch, Case &c) { gen_coll(ch, c, th); }, 3 });
		int mn = th ? 400 : 200, mo = th ? 40 : 8;
		v.push_back({ "table sizes", "tables of 0 to " + std::to_string(mn) + " entries, keys starting at 0 to " + std::to_string(mo - 1) + ", 4 forms of key", [mn, mo](Chooser &ch, Case &c) { gen_slots(ch, c, mn, mo); }, 2 });
		v.push_back({ "changing collections", string(th ? "3" : "2") + " changes of 13 inside a loop, 3 forms", [th](Chooser &ch, Case &c) { gen_change(ch, c, th ? 3 : 2); }, 2 });
	} });
}
