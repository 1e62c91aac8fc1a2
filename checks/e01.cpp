// E01: a program means the same whether its operands are literals, constants, variables or parameters.
#include "probe.hpp"
using namespace mc;
using namespace ref;

namespace {
const vector<string> BIN2 = { "+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>", "~", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "&&", "||", "??" };
const vector<string> UNS = { "-", "+", "!", "^", "len " };
const vector<string> LITS = { "0", "1", "2", "5", "64", "9223372036854775807", "0.0", "1.0", "2.5", "0.5", "true", "false", "undef", "''", "'a'", "'b'", "[]", "[1]", "{}", "0x10", "1.0e300" };
// the same, fewer, in the order they are cut off
const vector<string> SMALL = { "1", "0", "2.0", "0.0", "true", "''", "undef", "'a'", "9223372036854775807", "63" };

struct Leaf { string lit; };
struct T { string op; vector<T> c; int leaf = -1; };
T leafT(int i) { T t; t.leaf = i; return t; }
T node(const string &op, vector<T> c) { T t; t.op = op; t.c = c; return t; }
string txt(const T &t, const vector<string> &names) {
	if (t.leaf >= 0) return names[(size_t)t.leaf];
	if (t.op == "?:") return "(" + txt(t.c[0], names) + " ? " + txt(t.c[1], names) + " : " + txt(t.c[2], names) + ")";
	if (t.c.size() == 1) return "(" + t.op + txt(t.c[0], names) + ")";
	return "(" + txt(t.c[0], names) + " " + t.op + " " + txt(t.c[1], names) + ")";
}
// All ways of supplying the operands; each must behave like the first.
string src_for(const T &t, const vector<string> &lits, int mode, int use) {
	vector<string> n;
	string pre, e, post;
	for (size_t i = 0; i < lits.size(); i++) {
		string v = "v" + std::to_string(i);
		bool var = mode == 1 || mode == 2 || mode == 3 || (mode >= 4 && ((mode - 4) & (1 << i)));
		n.push_back(var ? v : lits[i]);
		if (mode == 1 || mode >= 4) pre += "let " + v + " = " + lits[i] + "; ";
		if (mode == 2) pre += "const " + v + " = " + lits[i] + "; ";
	}
	e = txt(t, n);
	switch (use) {
	case 0: e = "probe(" + e + ");"; break;
	case 1: e = "let r = " + e + "; probe(r);"; break;
	case 2: e = "probe([0, " + e + "][1]);"; break;
	case 3: e = "if " + e + " { probe(1); } else { probe(2); };"; break;
	case 4: e = "const g = fn() { return " + e + "; }; probe(g());"; break;
	case 5: e = "probe({'k': " + e + "}.k);"; break;
	case 6: e = "let r = 7; r = " + e + "; probe(r);"; break;
	case 7: e = e + "; probe('done');"; break;
	case 8: e = "const r = [7]; r[0] = " + e + "; probe(r[0]);"; break;
	case 9: e = "probe([" + e + " for q <- [1]][0]);"; break;
	case 10: e = "probe(\"#{" + e + "}\");"; break;
	case 11: e = "while " + e + " { probe(1); break; }; probe(2);"; break;
	case 12: e = "assert " + e + "; probe(3);"; break;
	case 13: e = "probe([x for x <- [4] if " + e + "]->pop());"; break;
	case 14: e = "match [" + e + "] { [let m] { probe(m); }; };"; break;
	}
	if (mode == 3) {
		string a, p;
		for (size_t i = 0; i < lits.size(); i++) { p += (i ? ", v" : "v") + std::to_string(i); a += (i ? ", " : "") + lits[i]; }
		return "const f = fn(" + p + ") { " + e + " };\nf(" + a + ");\n";
	}
	return pre + "\n" + e + "\n";
}
struct Obs { int status; vector<Val> v; string err; };
Obs observe(const string &src, string &bad) {
	Outcome o = run_program(src, probe::opts({}));
	count_traces(1);
	if (o.badheap) bad += "heap fault: " + o.heapmsg + "\n";
	if (o.leaked) bad += std::to_string(o.leaked) + " heap blocks still live\n";
	string e = o.err;
	size_t p = e.find("(line ");
	if (p != string::npos) e = e.substr(0, p);
	return { o.status, probe::got(), e };
}
void finish(Case &c, const T &t, const vector<string> &lits, int mode, int use, const string &A = "", const string &B = "") {
	string a = A.empty() ? src_for(t, lits, 1, use) : A, b = B.empty() ? src_for(t, lits, mode, use) : B;
	c.src = "--- reference\n" + a + "--- variant\n" + b;
	c.key = b;
	c.transitions = 2;
	c.states.push_back(fp(b));
	c.custom = [a, b]() -> string {
		string bad;
		Obs x = observe(a, bad), y = observe(b, bad);
		if (x.status == SYNTAX || y.status == SYNTAX) bad += "does not compile\n";
		if (x.status != y.status) bad += "status " + std::to_string(x.status) + " with variables, " + std::to_string(y.status) + " here\n";
		if (x.err != y.err) bad += "error text differs: " + x.err + " / " + y.err + "\n";
		if (x.v.size() != y.v.size()) bad += "different number of values\n";
		else for (size_t i = 0; i < x.v.size(); i++) if (!probe::same(x.v[i], y.v[i])) bad += "with variables " + probe::desc(x.v[i]) + ", here " + probe::desc(y.v[i]) + "\n";
		return bad;
	};
}
const int USES = 15;
bool usable(int use, const T &t) { return !(use == 7 && false) && !t.op.empty(); }

void gen_one(Chooser &ch, Case &c) {
	bool un = ch.flip();
	vector<string> lits;
	T t;
	if (un) { t = node(ch.pick(UNS), { leafT(0) }); lits = { ch.pick(LITS) }; }
	else { t = node(ch.pick(BIN2), { leafT(0), leafT(1) }); lits = { ch.pick(LITS), ch.pick(LITS) }; }
	int use = (int)ch.choose(USES);
	int mode = (int)ch.choose(un ? 3 : 5);
	static const int modes[] = { 0, 2, 3, 5, 6 };
	if (use == 10 && (lits[0][0] == '\'' || (lits.size() > 1 && lits[1][0] == '\''))) throw Prune{};
	if (use == 11 && un && false) throw Prune{};
	if (!usable(use, t)) throw Prune{};
	finish(c, t, lits, modes[mode], use);
}
void gen_tree(Chooser &ch, Case &c, int nl, int nops) {
	uint32_t shape = ch.choose(6);
	vector<string> L(SMALL.begin(), SMALL.begin() + nl);
	auto op = [&] { return BIN2[ch.choose((uint32_t)nops)]; };
	T t; int n;
	switch (shape) {
	case 0: { string a = op(), b = op(); t = node(a, { node(b, { leafT(0), leafT(1) }), leafT(2) }); n = 3; break; }
	case 1: { string a = op(), b = op(); t = node(a, { leafT(0), node(b, { leafT(1), leafT(2) }) }); n = 3; break; }
	case 2: { string u = ch.pick(UNS), b = op(); t = node(u, { node(b, { leafT(0), leafT(1) }) }); n = 2; break; }
	case 3: { string u = ch.pick(UNS), b = op(); t = node(b, { node(u, { leafT(0) }), leafT(1) }); n = 2; break; }
	case 4: { string u = ch.pick(UNS), b = ch.pick(UNS); t = node(u, { node(b, { leafT(0) }) }); n = 1; break; }
	default: t = node("?:", { node(op(), { leafT(0), leafT(1) }), leafT(2), node(ch.pick(UNS), { leafT(2) }) }); n = 3; break;
	}
	vector<string> lits;
	for (int i = 0; i < n; i++) lits.push_back(ch.pick(L));
	static const int modes[] = { 0, 2, 5, 8 };          // all literal, constants, first or last variable
	int mode = modes[ch.choose(4)];
	finish(c, t, lits, mode, 0);
}
// Code that a literal condition makes unreachable, or a branch that it always takes.
void gen_dead(Chooser &ch, Case &c, int budget, uint32_t nconds) {
	static const vector<string> CONDS = { "false", "true", "0", "undef", "''", "1", "0.0", "'x'", "[]", "0.0 / 0.0" };
	string a, b;                                        // with a variable condition, with the literal
	int marks = 0, vars = 0, id = 0;
	string indent;
	std::function<void(int, int, bool)> body = [&](int depth, int max, bool loop) {
		for (int i = 0; i < max && budget > 0; i++) {
			uint32_t o = ch.choose(depth > 0 ? 10 : 4);
			if (o == 0) break;
			budget--;
			auto both = [&](const string &s) { a += s; b += s; };
			if (o == 1) { both("probe(" + std::to_string(marks++) + "); "); continue; }
			if (o == 2) { string n = "l" + std::to_string(vars++); both("let " + n + " = " + std::to_string(100 + vars) + "; probe(" + n + "); "); continue; }
			if (o == 3) { if (!loop) { both("probe(acc()); "); } else both(ch.flip() ? "break; " : "n += 1; if n > 9 { break; }; continue; "); continue; }
			string cond = CONDS[ch.choose(nconds)], v = "c" + std::to_string(id++);
			bool t = cond == "true" || cond == "1" || cond == "0" || cond == "0.0" || cond == "'x'" || cond == "[]";
			a += "let " + v + " = " + cond + "; ";
			b += "let " + v + " = 0; ";
			if (o == 4) { a += "if " + v; b += "if " + cond; both(" { "); body(depth - 1, 2, loop); both("}; "); }
			else if (o == 5) { a += "if " + v; b += "if " + cond; both(" { "); body(depth - 1, 2, loop); both("} else { "); body(depth - 1, 2, loop); both("}; "); }
			else if (o == 6) {
				a += "while " + v; b += "while " + cond; both(" { n += 1; if n > 9 { break; }; "); body(depth - 1, 2, true); both("}; ");
				(void)t;
			} else if (o == 7) { a += "probe(" + v; b += "probe(" + cond; both(" ? acc() : acc() + 10); "); }
			else if (o == 8) { static const char *L[] = { " && acc()", " || acc()", " ?? acc()" }; const char *l = L[ch.choose(3)]; a += "probe(" + v; b += "probe(" + cond; both(string(l) + "); "); }
			else if (o == 9) {
				a += "if acc() > 1000 { probe('never'); } elseif " + v; b += "if acc() > 1000 { probe('never'); } elseif " + cond;
				both(" { "); body(depth - 1, 1, loop); both("} else { "); body(depth - 1, 1, loop); both("}; ");
			}
		}
	};
	bool infn = ch.flip();
	string pre = "let n = 0; let calls = 0; const acc = fn() { calls += 1; return calls; };\n";
	body(2, 3, false);
	string tail = "let z = 77; probe(z); probe(calls); probe(n);";
	if (infn) { pre += "const f = fn() { let p = 55; "; tail += " probe(p); }; f();"; }
	else { pre += "let p = 55; "; tail += " probe(p);"; }
	finish(c, T{}, {}, 0, 0, pre + a + tail + "\n", pre + b + tail + "\n");
}
Reg reg({ "E01",
	"every operator over every pair of literals in every place an expression can stand, supplied as literals, constants, parameters or mixed; every tree of two operators; every nest of statements under literal conditions: each compared with the same program over variables",
	{ "oracle: the real interpreter on the same program with its operands in variables, which the compiler cannot evaluate (its results are checked by N01, N02, L01)", "error texts are compared up to the line" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "one operator", "25 binary, 5 unary operators, 21 literals, 15 places, 5 ways", [](Chooser &ch, Case &c) { gen_one(ch, c); }, 4 });
		v.push_back({ "two operators", string(th ? "10" : "6") + " literals, " + (th ? "25" : "22") + " operators, 4 ways", [th](Chooser &ch, Case &c) { gen_tree(ch, c, th ? 9 : 5, th ? 25 : 22); }, 4 });
		int b = th ? 4 : 3;
		v.push_back({ "literal conditions", "at most " + std::to_string(b) + " statements, nesting 2, " + (th ? "5" : "4") + " literals", [b, th](Chooser &ch, Case &c) { gen_dead(ch, c, b, th ? 5 : 4); }, 5 });
	} });
}
