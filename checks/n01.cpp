// N01: integer arithmetic is 64-bit two's complement, wherever and however the operands arrive.
#include "probe.hpp"
#include <algorithm>
using namespace mc;
using namespace ref;

namespace {
vector<int64_t> ints(bool th) {
	vector<int64_t> v;
	for (int64_t i = -10; i <= 10; i++) v.push_back(i);
	for (int b : {4, 7, 8, 15, 16, 31, 32, 33, 52, 53, 54, 61, 62, 63}) {
		if (!th && (b == 4 || b == 15 || b == 33 || b == 52 || b == 61)) continue;
		int64_t p = b == 63 ? INT64_MIN : (int64_t)1 << b;
		for (int64_t d = -2; d <= 2; d++) {
			if (!th && (d == -2 || d == 2)) continue;
			v.push_back((int64_t)((uint64_t)p + (uint64_t)d));
			v.push_back((int64_t)(0 - (uint64_t)p + (uint64_t)d));
		}
	}
	for (int64_t x : std::initializer_list<int64_t>{3037000499ll, 3037000500ll, -3037000500ll, 2097151ll, 2097152ll, 1000000007ll, 0x5555555555555555ll, (int64_t)0xAAAAAAAAAAAAAAAAull, 63ll, 64ll, 1000000000000000000ll}) v.push_back(x);
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
const vector<string> OPS = { "+", "-", "*", "//", "%", "/", "**", "|", "^", "&", "&^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "===", "!==" };
string text(int64_t i) {
	if (i == INT64_MIN) return "(-9223372036854775807 - 1)";
	return i < 0 ? "(" + std::to_string(i) + ")" : std::to_string(i);
}
string hex(int64_t i) {
	char b[40];
	if (i < 0) return text(i);
	snprintf(b, sizeof b, "0x%llx", (long long)i);
	return b;
}
Val expect(const string &op, int64_t a, int64_t b, int &st) {
	st = 0;
	if (op == "===" || op == "!==") return vbool((a == b) == (op == "==="));
	try { return binop(op, vint(a), vint(b)); } catch (int s) { st = s; return vundef(); }
}
// One operand against all others: one program per (op, a, how).
void gen_bin(Chooser &ch, Case &c, bool th) {
	static vector<int64_t> V = ints(th);
	string op = OPS[ch.choose((uint32_t)OPS.size())];
	int64_t a = V[ch.choose((uint32_t)V.size())];
	int64_t b = V[ch.choose((uint32_t)V.size())];
	uint32_t how = ch.choose(5);
	if ((op == "<<" || op == ">>") && (b < 0 || b > 63)) throw Prune{};
	if (how == 4 && (op == "===" || op == "!==" || op == "==" || op == "!=" || op[0] == '<' || op[0] == '>') && op != "<<" && op != ">>") throw Prune{};
	string l = text(a), r = text(b), src;
	switch (how) {
	case 0: src = "probe(" + l + " " + op + " " + r + ");\n"; break;                 // literals, folded where that is done
	case 1: src = "probe(A " + op + " B);\n"; break;                                // from C
	case 2: src = "let x = " + hex(a) + "; const y = " + hex(b) + "; probe(x " + op + " y);\n"; break;
	case 3: src = "fn f(p, q) { let z = p " + op + " q; return z; }; let o = f(" + l + ", B); probe(o);\n"; break;
	case 4: src = "let x = A; x " + op + "= " + r + "; probe(x);\n"; break;
	}
	int st; Val want = expect(op, a, b, st);
	c.src = src; c.key = src + " A=" + std::to_string(a) + " B=" + std::to_string(b);
	c.status = st;
	c.states.push_back(fp(op + std::to_string(a) + "," + std::to_string(b)));
	c.custom = [src, a, b, want, st]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", vint(a)}, {"B", vint(b)}}));
		count_traces(1);
		Case e; e.status = st;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (st) { if (!g.empty()) return "a value although an error was due"; return ""; }
		if (g.size() != 1) return "no value";
		if (!probe::same(g[0], want)) return "got " + probe::desc(g[0]) + ", expected " + probe::desc(want);
		return "";
	};
}
void gen_un(Chooser &ch, Case &c) {
	static vector<int64_t> V = ints(true);
	static const vector<string> U = { "-", "+", "^", "!", "- -", "^^", "^-", "-^", "->tostr", "->toint", "->tofloat", "->tobool", "->tochar" };
	string op = U[ch.choose(12)];
	int64_t a = V[ch.choose((uint32_t)V.size())];
	uint32_t how = ch.choose(2);
	string x = how ? "A" : text(a), src;
	Val want;
	uint64_t ua = (uint64_t)a;
	if (op == "-") want = vint((int64_t)(0 - ua));
	else if (op == "+" || op == "- -" || op == "^^") want = vint(a);
	else if (op == "^") want = vint(~a);
	else if (op == "!") want = vbool(false);
	else if (op == "^-") want = vint((int64_t)~(0 - ua));
	else if (op == "-^") want = vint((int64_t)(0 - ~ua));
	else if (op == "->tostr") want = vstr(std::to_string(a));
	else if (op == "->toint") want = vint(a);
	else if (op == "->tofloat") want = vflt((double)a);
	else if (op == "->tobool") want = vbool(true);
	src = op[0] == '-' && op.size() > 1 && op[1] == '>' ? "probe(" + x + op + "());\n" : "probe(" + op + x + ");\n";
	c.src = src; c.key = src + " A=" + std::to_string(a);
	c.states.push_back(fp(op + std::to_string(a)));
	c.custom = [src, a, want]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", vint(a)}}));
		count_traces(1);
		string w = compare(Case{}, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (g.size() != 1) return "no value";
		return probe::same(g[0], want) ? "" : "got " + probe::desc(g[0]) + ", expected " + probe::desc(want);
	};
}
// Two operators: intermediate results wrap too.
void gen_two(Chooser &ch, Case &c, bool th) {
	static const vector<int64_t> small = { 0, 1, -1, 2, 3, 7, -5, 62, INT64_MAX, INT64_MIN, INT64_MAX - 1, 4294967296ll, 3037000500ll };
	static const vector<int64_t> tiny = { 0, 1, -1, 3, 62, INT64_MAX, INT64_MIN, 4294967296ll };
	const auto &V = th ? small : tiny;
	string o1 = OPS[ch.choose(13)], o2 = OPS[ch.choose(13)];
	int64_t a = ch.pick(V), b = ch.pick(V), d = ch.pick(V);
	bool left = ch.flip();
	uint32_t how = ch.choose(2);
	auto ex = [&](E x, E y, E z) { return left ? bin(o2, bin(o1, x, y), z) : bin(o1, x, bin(o2, y, z)); };
	E e = how ? ex(var("A"), var("B"), var("D")) : ex(I(a), I(b), I(d));
	int st = 0; Val want;
	try {
		Val x = vint(a), y = vint(b), z = vint(d);
		auto chk = [](const string &o, const Val &p, const Val &q) { if ((o == "<<" || o == ">>") && (p.k != INT || q.k != INT || q.i < 0 || q.i > 63)) throw Prune{}; return binop(o, p, q); };
		want = left ? chk(o2, chk(o1, x, y), z) : chk(o1, x, chk(o2, y, z));
	} catch (int s) { st = s; }
	Render r;
	string src = "probe(" + r.ex(e) + ");\n";
	c.src = src; c.key = src + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d);
	c.transitions = 2;
	c.states.push_back(fp(c.key));
	c.custom = [src, a, b, d, st, want]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", vint(a)}, {"B", vint(b)}, {"D", vint(d)}}));
		count_traces(1);
		Case e; e.status = st;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (st) return g.empty() ? "" : "a value although an error was due";
		if (g.size() != 1) return "no value";
		return probe::same(g[0], want) ? "" : "got " + probe::desc(g[0]) + ", expected " + probe::desc(want);
	};
}

Reg reg({ "N01",
	"every operator x every pair of a set of ints around 0, powers of two and the limits x five ways for the operands to arrive; every pair of operators in both groupings over the extreme ints",
	{ "shift counts outside 0..63 are not specified", "an int power whose exact value does not fit is the smallest int; negative exponents give floats" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "binary", std::to_string(ints(th).size()) + "^2 pairs, 21 operators, 5 ways", [th](Chooser &ch, Case &c) { gen_bin(ch, c, th); }, 3 });
		v.push_back({ "unary and conversions", std::to_string(ints(true).size()) + " ints, 12 operators", [](Chooser &ch, Case &c) { gen_un(ch, c); }, 2 });
		v.push_back({ "two operators", "13 x 13 operators, " + string(th ? "13" : "8") + "^3 operands, 2 groupings, literals and variables", [th](Chooser &ch, Case &c) { gen_two(ch, c, th); }, 4 });
	} });
}
