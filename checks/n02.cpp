// N02: order and equality of numbers; floats follow IEEE 754 double arithmetic; an int meeting a float is converted.
#include "probe.hpp"
#include <algorithm>
#include <limits>
using namespace mc;
using namespace ref;

namespace {
vector<Val> nums(bool th) {
	double inf = std::numeric_limits<double>::infinity();
	vector<double> f = { 0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 0.1, 1e15, 9007199254740992.0, -9223372036854775808.0, 1e300, -1e300, 5e-324, inf, -inf, NAN };
	vector<int64_t> i = { 0, 1, -1, 2, 3, -7, 9007199254740993ll, INT64_MAX, INT64_MIN };
	if (th) {
		for (double x : { 0.2, 0.3, 1.0 / 3, 2.0, 10.0, 1e-5, 1e16, 1e21, 9007199254740991.0, 9223372036854775808.0, 4503599627370497.5, 1.7976931348623157e308, 2.2250738585072014e-308, -3.5, 1.4142135623730951 }) f.push_back(x);
		for (int64_t x : { 10ll, 1ll << 31, 1ll << 53, (1ll << 53) + 2, -(1ll << 53) - 1 }) i.push_back(x);
	}
	vector<Val> v;
	for (double x : f) v.push_back(vflt(x));
	for (int64_t x : i) v.push_back(vint(x));
	return v;
}
const vector<string> OPS = { "+", "-", "*", "/", "**", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "//", "%", "|", "^", "&", "&^" };
string text(const Val &v) {
	if (v.k == INT) return v.i == INT64_MIN ? "(-9223372036854775807 - 1)" : v.i < 0 ? "(" + std::to_string(v.i) + ")" : std::to_string(v.i);
	if (std::isnan(v.f)) return "(0.0 / 0.0)";
	if (std::isinf(v.f)) return v.f < 0 ? "(-1.0 / 0.0)" : "(1.0 / 0.0)";
	char b[1200];
	double a = fabs(v.f);
	snprintf(b, sizeof b, a < 1e-4 && a ? "%.1080f" : "%.60f", a);       // exact in decimal
	string s = b;
	while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
	return std::signbit(v.f) ? "(-" + s + ")" : s;
}
string shown(const Val &v) { return probe::desc(v); }
void gen_bin(Chooser &ch, Case &c, bool th) {
	static vector<Val> V = nums(th);
	string op = OPS[ch.choose((uint32_t)OPS.size())];
	Val a = ch.pick(V), b = ch.pick(V);
	uint32_t how = ch.choose(5);
	bool cmp = op == "==" || op == "!=" || op == "===" || op == "!==" || op[0] == '<' || op[0] == '>';
	if (how == 4 && cmp) throw Prune{};
	if (a.k == INT && b.k == INT && !cmp) throw Prune{};           // N01
	int st = 0; Val want;
	if (!((op == "//" || op == "%") && b.k == INT && b.i == 0)) try { want = binop(op, a, b); } catch (int s) { st = s; }
	else st = DIV0;
	string src, l = text(a), r = text(b);
	switch (how) {
	case 0: src = "probe(" + l + " " + op + " " + r + ");\n"; break;
	case 1: src = "probe(A " + op + " B);\n"; break;
	case 2: src = "const x = " + l + "; let y = B; probe(x " + op + " y);\n"; break;
	case 3: src = "fn f(p, q) { return p " + op + " q; }; probe(f(A, " + r + "));\n"; break;
	case 4: src = "let x = A; x " + op + "= " + r + "; probe(x);\n"; break;
	}
	c.src = src; c.key = src + " A=" + shown(a) + " B=" + shown(b);
	c.states.push_back(fp(op + shown(a) + "," + shown(b)));
	c.custom = [src, a, b, want, st]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", a}, {"B", b}}));
		count_traces(1);
		Case e; e.status = st;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (st) return g.empty() ? "" : "a value although an error was due";
		if (g.size() != 1) return "no value";
		return probe::same(g[0], want) ? "" : "got " + probe::desc(g[0]) + ", expected " + probe::desc(want);
	};
}
// Order and equality of three numbers, as seen by sorting, counting, matching and keys as well as by the operators.
void gen_order(Chooser &ch, Case &c, bool th) {
	static const vector<Val> base = [] {
		vector<Val> v;
		for (int64_t d : { 0ll, 1ll, 3ll, 9007199254740991ll, 9007199254740992ll, 9007199254740993ll, 9223372036854775806ll, INT64_MAX - 0ll }) { v.push_back(vint(d)); v.push_back(vint(-d)); }
		v.push_back(vint(INT64_MIN)); v.push_back(vint(INT64_MIN + 1)); v.push_back(vint(4294967296ll)); v.push_back(vint(4294967297ll)); v.push_back(vint(-4294967297ll));
		for (double d : { 0.0, 1.0, 1.5, 3.0, 9007199254740992.0, 9223372036854775808.0, 1e300, (double)INFINITY, 0.5 }) { v.push_back(vflt(d)); v.push_back(vflt(-d)); }
		v.push_back(vflt(NAN));
		return v;
	}();
	static const vector<string> O = { "<", "<=", ">", ">=", "==", "!=", "===", "!==" };
	Val a = ch.pick(base), b = ch.pick(base), d = th ? ch.pick(base) : base[ch.choose(6)];
	string src, want;
	auto add = [&](const string &x, const Val &p, const string &y, const Val &q) {
		for (auto &o : O) {
			if (o.size() == 3 && p.k == FLOAT && q.k == FLOAT) {        // signed zeros and nans: not specified
				if (p.f == 0 || std::isnan(p.f) || std::isnan(q.f)) continue;
				src += "echo " + x + " " + o + " " + y + ";\n"; want += (p.f == q.f) == (o == "===") ? "true\n" : "false\n";
				continue;
			}
			src += "echo " + x + " " + o + " " + y + ";\n"; want += truthy(binop(o, p, q)) ? "true\n" : "false\n"; }
	};
	add("A", a, "B", b); add("B", b, "D", d); add("A", a, "D", d); add("A", a, "A", a);
	src += "const x = A; const y = B; fn f(p, q) { return p < q ? 1 : p == q ? 2 : p > q ? 3 : 4; }; echo f(x, y); echo f(B, D);\n";
	auto f = [](const Val &p, const Val &q) { return truthy(binop("<", p, q)) ? "1\n" : truthy(binop("==", p, q)) ? "2\n" : truthy(binop(">", p, q)) ? "3\n" : "4\n"; };
	want += f(a, b); want += f(b, d);
	c.src = src; c.key = shown(a) + "," + shown(b) + "," + shown(d);
	c.states.push_back(fp(c.key));
	c.transitions = 34;
	c.custom = [src, a, b, d, want]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", a}, {"B", b}, {"D", d}}));
		count_traces(1);
		Case e; e.out = want;
		return compare(e, o);
	};
}
int64_t toint(double d, bool &ok) { ok = d > -9.2e18 && d < 9.2e18; return ok ? (int64_t)d : 0; }
void gen_un(Chooser &ch, Case &c) {
	static vector<Val> V = nums(true);
	static const vector<string> U = { "-", "+", "!", "^", "->toint", "->tofloat", "->tobool", "->tostr", "if", "&&", "??" };
	string op = ch.pick(U);
	Val a = ch.pick(V);
	if (a.k != FLOAT) throw Prune{};
	uint32_t how = ch.choose(2);
	string x = how ? "A" : text(a), src;
	int st = 0; Val want;
	if (op == "-") want = vflt(-a.f);
	else if (op == "+") want = a;
	else if (op == "!") want = vbool(std::isnan(a.f));
	else if (op == "^") st = TYPE;
	else if (op == "->toint") { bool ok; want = vint(toint(a.f, ok)); if (!ok) throw Prune{}; }
	else if (op == "->tofloat") want = a;
	else if (op == "->tobool") want = vbool(!std::isnan(a.f));
	else if (op == "->tostr") want = vstr(fmtfloat(a.f));
	else if (op == "if") want = vint(std::isnan(a.f) ? 2 : 1);
	else if (op == "&&") want = std::isnan(a.f) ? a : vint(5);
	else want = a;
	if (op == "if") src = "probe(" + x + " ? 1 : 2);\n";
	else if (op == "&&") src = "probe(" + x + " && 5);\n";
	else if (op == "??") src = "probe(" + x + " ?? 5);\n";
	else src = op.size() > 1 ? "probe(" + x + op + "());\n" : "probe(" + op + x + ");\n";
	c.src = src; c.key = src + " A=" + shown(a);
	c.states.push_back(fp(op + shown(a)));
	c.custom = [src, a, want, st]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", a}}));
		count_traces(1);
		Case e; e.status = st;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (st) return g.empty() ? "" : "a value although an error was due";
		if (g.size() != 1) return "no value";
		return probe::same(g[0], want) ? "" : "got " + probe::desc(g[0]) + ", expected " + probe::desc(want);
	};
}
// Three numbers, two operators, as literals and as variables: rounding happens after each operation.
void gen_two(Chooser &ch, Case &c, bool th) {
	static const vector<Val> small = { vflt(0.1), vflt(3.0), vflt(1e300), vflt(-0.0), vint(3), vint(9007199254740993ll), vflt(0.2), vint(-7), vflt(1e15), vflt(INFINITY) };
	const vector<Val> V(small.begin(), th ? small.end() : small.begin() + 7);
	static const vector<string> O = { "+", "-", "*", "/", "**", "<", "==" };
	string o1 = ch.pick(O), o2 = ch.pick(O);
	Val a = ch.pick(V), b = ch.pick(V), d = ch.pick(V);
	bool left = ch.flip();
	uint32_t how = ch.choose(2);
	string x = how ? "A" : text(a), y = how ? "B" : text(b), z = how ? "D" : text(d);
	string src = "probe(" + (left ? "(" + x + " " + o1 + " " + y + ") " + o2 + " " + z : x + " " + o1 + " (" + y + " " + o2 + " " + z + ")") + ");\n";
	int st = 0; Val want;
	try { want = left ? binop(o2, binop(o1, a, b), d) : binop(o1, a, binop(o2, b, d)); } catch (int s) { st = s; }
	c.src = src; c.key = src + shown(a) + "," + shown(b) + "," + shown(d);
	c.transitions = 2;
	c.states.push_back(fp(c.key));
	c.custom = [src, a, b, d, st, want]() -> string {
		Outcome o = run_program(src, probe::opts({{"A", a}, {"B", b}, {"D", d}}));
		count_traces(1);
		Case e; e.status = st;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (st) return g.empty() ? "" : "a value although an error was due";
		if (g.size() != 1) return "no value";
		return probe::same(g[0], want) ? "" : "got " + probe::desc(g[0]) + ", expected " + probe::desc(want);
	};
}
Reg reg({ "N02",
	"every comparison of three numbers around the limits of exactness; every operator x every pair of a set with zeroes, units, halves, limits of exactness, largest, smallest, infinities and nan x five ways for the operands to arrive; two operators over a smaller set",
	{ "float results are compared bit for bit (all nans alike) with the C library's double arithmetic", "comparing an int with a float compares as floats", "toint of a float outside the range of int is not specified" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "binary", std::to_string(nums(th).size()) + "^2 pairs, 19 operators, 5 ways", [th](Chooser &ch, Case &c) { gen_bin(ch, c, th); }, 3 });
		v.push_back({ "order", string("40^2 pairs x ") + (th ? "40" : "6") + " third numbers, 8 comparisons of each two", [th](Chooser &ch, Case &c) { gen_order(ch, c, th); }, 2 });
		v.push_back({ "unary, conversion, truth", "32 floats, 11 uses, 2 ways", [](Chooser &ch, Case &c) { gen_un(ch, c); }, 2 });
		v.push_back({ "two operators", "7 x 7 operators, 2 groupings, literals and variables", [th](Chooser &ch, Case &c) { gen_two(ch, c, th); }, 3 });
	} });
}
