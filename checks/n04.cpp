// N04: the math library computes the functions it names, exactly where the result is an int, for every number.
// BUILD: budget=300 tbudget=3000
#include "probe.hpp"
#include <algorithm>
#include <limits>
using namespace mc;
using namespace ref;

namespace {
const double INF = std::numeric_limits<double>::infinity();
string S(int64_t i) { return std::to_string(i); }
typedef std::function<string(const Val &)> Judge;      // "" or what is wrong
struct Call { string fn; vector<Val> args; Judge ok; int status = 0; };
// Several ways for a call to be made; each call of the case is judged on its own.
const char *WAYS[] = { "direct", "stored", "from a function", "as an operand", "in a loop" };
void run_calls(Case &c, uint32_t way, const vector<Call> &calls) {
	string src; vector<std::pair<string, Val>> g;
	if (way == 1) src += "const M = math;\n";
	for (size_t i = 0; i < calls.size(); i++) {
		string al;
		for (size_t j = 0; j < calls[i].args.size(); j++) {
			string n = "A" + S(i) + "_" + S(j);
			g.push_back({ n, calls[i].args[j] });
			al += (j ? ", " : "") + n;
		}
		string call = "math." + calls[i].fn + "(" + al + ")";
		switch (way) {
		case 0: src += "probe(" + call + ");\n"; break;
		case 1: src += "const f" + S(i) + " = M['" + calls[i].fn + "'];\nprobe(f" + S(i) + "(" + al + "));\n"; break;
		case 2: src += "fn g" + S(i) + "() { const r = " + call + "; return r; };\nprobe(g" + S(i) + "());\n"; break;
		case 3: src += "probe([1, 'x', " + call + ", 'y'][2]);\n"; break;
		case 4: src += "let r" + S(i) + " = undef; for let i = 0; i < 3; i += 1 { r" + S(i) + " = " + call + "; }\nprobe(r" + S(i) + ");\n"; break;
		}
	}
	c.src = src;
	string key = WAYS[way];
	for (auto &k : calls) { string d = k.fn; for (auto &a : k.args) d += " " + probe::desc(a); c.states.push_back(fp(d)); key += ";" + d; }
	c.key = key;
	c.transitions = (int)calls.size();
	c.custom = [src, g, calls]() -> string {
		Outcome o = run_program(src, probe::opts(g, false));
		count_traces(1);
		Case e;
		for (auto &k : calls) if (k.status) e.status = k.status;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &got = probe::got();
		for (size_t i = 0; i < calls.size(); i++) {
			string d = "math." + calls[i].fn + "(";
			for (auto &a : calls[i].args) d += probe::desc(a) + ",";
			d += "): ";
			if (calls[i].status) return got.size() == i ? "" : d + "a value although an error was due";
			if (i >= got.size()) return d + "no value";
			string why = calls[i].ok(got[i]);
			if (!why.empty()) return d + "got " + probe::desc(got[i]) + ", " + why;
		}
		return "";
	};
}
Judge exactly(const Val &v) { return [v](const Val &g) { return probe::same(g, v) ? string() : "expected " + probe::desc(v); }; }
Judge near(double x) {
	return [x](const Val &g) -> string {
		if (g.k == FLOAT && ((std::isnan(x) && std::isnan(g.f)) || g.f == x || std::fabs(g.f - x) <= std::fabs(x) * 4e-16)) return "";
		return "expected about " + probe::desc(vflt(x));
	};
}

const vector<Val> &pool() {
	static const vector<Val> v = [] {
		vector<Val> v;
		for (int64_t i : { 0ll, 1ll, -1ll, 2ll, 7ll, -40ll, 9007199254740992ll, 9007199254740993ll, 9007199254740994ll, -9007199254740993ll, 9223372036854775806ll, 9223372036854775807ll }) v.push_back(vint(i));
		v.push_back(vint(INT64_MIN)); v.push_back(vint(INT64_MIN + 1));
		for (double d : { 0.0, 0.5, -0.5, 1.0, -1.0, 2.5, 1e15, 9007199254740992.0, -9223372036854775808.0, 1e300, -1e300, 5e-324, 0.7071067811865476, 3.141592653589793, 710.0, -745.2 }) v.push_back(vflt(d));
		v.push_back(vflt(-0.0)); v.push_back(vflt(INF)); v.push_back(vflt(-INF)); v.push_back(vflt(NAN));
		return v;
	}();
	return v;
}
// greatest or least argument
bool big(const Val &v) { return v.k == INT && (v.i > 9007199254740992ll || v.i < -9007199254740992ll); }
Call extremum(bool mx, const vector<Val> &a) {
	Call k; k.fn = mx ? "max" : "min"; k.args = a;
	bool nan = false;
	for (auto &x : a) nan |= x.k == FLOAT && std::isnan(x.f);
	if (a.empty()) k.ok = exactly(vflt(mx ? -INF : INF));
	else if (nan) k.ok = exactly(vflt(NAN));
	else k.ok = [a, mx](const Val &g) -> string {
		bool among = false;
		for (auto &x : a) among |= x.k == g.k && (x.k == INT ? x.i == g.i : x.f == g.f);
		if (!among) return "which is none of the arguments";
		for (auto &x : a) if (truthy(binop(mx ? ">" : "<", x, g))) return "although there is " + probe::desc(x);
		return "";
	};
	return k;
}
// an int beyond 2^53 and a float next to it compare as floats: no order
bool ordered(const vector<Val> &a) {
	for (auto &x : a) if (big(x)) for (auto &y : a) if (y.k == FLOAT && std::fabs(y.f) > 1e15 && std::fabs(y.f) < 1e19) return false;
	return true;
}
void gen_ext(Chooser &ch, Case &c, uint32_t most, uint32_t npool) {
	uint32_t n = ch.choose(most + 1), way = ch.choose(n > 2 ? 1 : 5);
	vector<Val> a;
	static const vector<Val> few = { vint(0), vint(-3), vint(9007199254740993ll), vint(9007199254740992ll), vflt(0.0), vflt(2.5), vflt(-INF), vflt(NAN), vint(INT64_MAX), vint(INT64_MIN), vflt(1e300), vflt(0.5) };
	for (uint32_t i = 0; i < n; i++) a.push_back(n > 2 ? few[ch.choose(npool)] : ch.pick(pool()));
	if (!ordered(a)) throw Prune{};
	run_calls(c, way, { extremum(true, a), extremum(false, a) });
}
// functions of one number
void gen_one(Chooser &ch, Case &c) {
	static const vector<std::pair<string, double (*)(double)>> F = {
		{ "exp", [](double x) { return exp(x); } }, { "log", [](double x) { return log(x); } }, { "sqrt", [](double x) { return sqrt(x); } },
		{ "sin", [](double x) { return sin(x); } }, { "cos", [](double x) { return cos(x); } }, { "tan", [](double x) { return tan(x); } },
		{ "asin", [](double x) { return asin(x); } }, { "acos", [](double x) { return acos(x); } }, { "atan", [](double x) { return atan(x); } },
		{ "ceil", [](double x) { return ceil(x); } }, { "floor", [](double x) { return floor(x); } },
		{ "deg", [](double x) { return x * (180.0 / M_PI); } }, { "rad", [](double x) { return x * (M_PI / 180.0); } } };
	uint32_t way = ch.choose(5), group = ch.choose(5);
	Val x = ch.pick(pool());
	vector<Call> calls;
	if (group == 4) {
		Call k; k.fn = "abs"; k.args = { x };
		if (x.k == INT && x.i == INT64_MIN) throw Prune{};             // no such int
		if (x.k == INT) k.ok = exactly(vint(x.i < 0 ? -x.i : x.i));
		else if (x.f == 0) k.ok = [](const Val &g) { return g.k == FLOAT && g.f == 0 ? string() : string("expected zero"); };
		else k.ok = exactly(vflt(std::fabs(x.f)));
		calls = { k };
	} else for (size_t i = group; i < F.size(); i += 4) {
		Call k; k.fn = F[i].first; k.args = { x };
		double want = F[i].second(num(x));
		k.ok = F[i].first == "ceil" || F[i].first == "floor" || F[i].first == "sqrt" ? exactly(vflt(want)) : near(want);
		calls.push_back(k);
	}
	run_calls(c, way, calls);
}
// divisors and multiples
uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t r = a % b; a = b; b = r; } return a; }
vector<Call> divisors(const Val &a, const Val &b) {
	double lim = 9e18;
	if ((a.k == FLOAT && !(std::fabs(a.f) < lim)) || (b.k == FLOAT && !(std::fabs(b.f) < lim))) throw Prune{};
	int64_t x = a.k == INT ? a.i : (int64_t)a.f, y = b.k == INT ? b.i : (int64_t)b.f;
	Call g, l; g.fn = "gcd"; l.fn = "lcm"; g.args = l.args = { a, b };
	if (x <= 0 || y <= 0) { g.ok = l.ok = exactly(vundef()); return { g, l }; }
	uint64_t d = gcd((uint64_t)x, (uint64_t)y);
	g.ok = exactly(vint((int64_t)d));
	__int128 m = (__int128)(x / (int64_t)d) * y;
	if (m > INT64_MAX) return { g };                                   // no such int
	l.ok = exactly(vint((int64_t)m));
	return { g, l };
}
void gen_div_small(Chooser &ch, Case &c, int64_t n) {
	int64_t a = (int64_t)ch.choose((uint32_t)n + 2) - 1, b0 = (int64_t)ch.choose((uint32_t)(n + 8) / 8) * 8 - 1;
	vector<Call> calls;
	for (int64_t b = b0; b < b0 + 8 && b <= n; b++) for (auto &k : divisors(vint(a), vint(b))) calls.push_back(k);
	run_calls(c, 0, calls);
}
void gen_div_big(Chooser &ch, Case &c) {
	static const vector<Val> B = [] {
		vector<Val> v = pool();
		for (int64_t i : { 3ll, 6ll, 12ll, 4294967296ll, 4294967297ll, 3037000499ll, 3037000500ll, 6074001000ll, 4611686018427387904ll, 1000000007ll, 999999999989ll, 614889782588491410ll, 6469693230ll, 7540113804746346429ll, 4660046610375530309ll }) v.push_back(vint(i));
		for (double d : { 12.9, 18.0, 1e18, 4294967296.5 }) v.push_back(vflt(d));
		return v;
	}();
	uint32_t way = ch.choose(5);
	Val a = ch.pick(B), b = ch.pick(B);
	run_calls(c, way, divisors(a, b));
}
// primes
bool prime(uint64_t n) {
	if (n < 2) return false;
	for (uint64_t d = 2; d * d <= n; d++) if (n % d == 0) return false;
	return true;
}
Call isprime(const Val &v, bool want) { Call k; k.fn = "isprime"; k.args = { v }; k.ok = exactly(vbool(want)); return k; }
void gen_prime(Chooser &ch, Case &c, int64_t n) {
	int64_t from = (int64_t)ch.choose((uint32_t)(n / 50)) * 50 - 100;
	bool flt = ch.flip();
	if (flt && from > 1000) throw Prune{};
	vector<Call> calls;
	for (int64_t i = from; i < from + 50; i++) calls.push_back(isprime(flt ? vflt((double)i + (i < 0 ? -0.25 : 0.25)) : vint(i), i >= 0 && prime((uint64_t)i)));
	run_calls(c, 0, calls);
}
// Products and squares of the primes around the end of the table of small primes and around powers of two, and what lies next to them.
void gen_prime_big(Chooser &ch, Case &c, bool th) {
	static const vector<int64_t> Q = [th] {
		vector<int64_t> q;
		for (int64_t around : { 199ll, 256ll, 1024ll, 65536ll, th ? 1048576ll : 99991ll })
			for (int64_t i = around - 20; i < around + 24; i++) if (prime((uint64_t)i)) q.push_back(i);
		return q;
	}();
	int64_t p = ch.pick(Q), q = ch.pick(Q);
	vector<Call> calls;
	for (int64_t d = -2; d <= 2; d++) calls.push_back(isprime(vint(p * q + d), prime((uint64_t)(p * q + d))));
	if (p == q) for (int64_t m : { -p, -p * p, p * 2, p * 4, p, p + 1 }) calls.push_back(isprime(vint(m), m > 0 && prime((uint64_t)m)));
	run_calls(c, ch.choose(1), calls);
}
void gen_negative(Chooser &ch, Case &c) {
	// as unsigned numbers many of these are primes
	static const int64_t N[] = { -1, -2, -3, -59, -83, -95, -179, -189, INT64_MIN, INT64_MIN + 1, INT64_MIN + 29, -4294967296ll, -1000000007ll };
	int64_t n = N[ch.choose(13)];
	uint32_t way = ch.choose(5);
	run_calls(c, way, { isprime(vint(n), false) });
}
// the constants, and random numbers that are ints and use all their bits
void gen_rest(Chooser &ch, Case &c) {
	uint32_t n = 1 + ch.choose(60);
	c.key = "rand " + S(n);
	string src = "probe(math.pi); probe(math.inf); probe(math.nan); let l = [];\nfor let i = 0; i < " + S(n) + "; i += 1 { l->push(math.rand()); };\nfor x <- l { probe(x); };\n";
	c.src = src; c.transitions = (int)n;
	c.custom = [src, n]() -> string {
		Outcome o = run_program(src, probe::opts({}, false));
		count_traces(1);
		Case e; string w = compare(e, o);
		if (!w.empty()) return w;
		auto &g = probe::got();
		if (g.size() != n + 3) return "values are missing";
		if (!probe::same(g[0], vflt(M_PI)) || !probe::same(g[1], vflt(INF)) || !probe::same(g[2], vflt(NAN))) return "wrong constant";
		for (size_t i = 3; i < g.size(); i++) if (g[i].k != INT) return "a random number that is no int";
		return "";
	};
}
Reg reg({ "N04",
	"every function of math on every number of a pool with units, halves, limits of exactness and of the types, infinities and nan; max and min of every tuple; gcd and lcm of every pair of a range and of large numbers; isprime of a range, of negative numbers and around products of primes",
	{ "functions of the C library are compared with the C library, exactly for sqrt, ceil and floor", "ties and the sign of zero, results that are no int, and ints beyond 2^53 compared with floats of that size are not specified" },
	[](vector<Space> &v, bool th) {
		uint32_t n = th ? 5 : 4, p = th ? 12 : 8;
		v.push_back({ "one number", "14 functions x 34 numbers x 5 ways", gen_one, 2 });
		v.push_back({ "max and min", "0..2 arguments out of 34 in 5 ways, 3.." + S(n) + " out of " + S(p), [=](Chooser &ch, Case &c) { gen_ext(ch, c, n, p); }, 3 });
		v.push_back({ "gcd and lcm", "pairs of -1.." + S(th ? 400 : 100), [=](Chooser &ch, Case &c) { gen_div_small(ch, c, th ? 400 : 100); }, 2 });
		v.push_back({ "gcd and lcm, large", "53^2 pairs x 5 ways", gen_div_big, 2 });
		v.push_back({ "primes", "-100.." + S(th ? 400000 : 40000), [=](Chooser &ch, Case &c) { gen_prime(ch, c, th ? 400000 : 40000); }, 1 });
		v.push_back({ "products of primes", "around 199, 256, 1024, 65536 and " + string(th ? "2^20" : "99991"), [=](Chooser &ch, Case &c) { gen_prime_big(ch, c, th); }, 2 });
		v.push_back({ "negative numbers", "13 numbers x 5 ways", gen_negative, 2 });
		v.push_back({ "constants and rand", "1..60 numbers", gen_rest, 1 });
	} });
}
