// T04: list.sort puts any list in order, whatever pivots the random generator picks.
// BUILD: wrap=rand
#include "mc.hpp"
#include <algorithm>
#include <cmath>
using namespace mc;

namespace {
Chooser *g_ch;
int g_range, g_budget, g_cycle;
}
extern "C" int __real_rand(void);
extern "C" int __wrap_rand(void) {
	if (!g_ch) return __real_rand();
	if (g_budget-- > 0) return (int)g_ch->choose_env((uint32_t)g_range);
	return g_cycle++;                 // fair from here on
}

namespace {
struct V { std::string lit, show; int kind; double d; long i; std::string s; };
V I(long i) { return { std::to_string(i), std::to_string(i), 0, (double)i, i, "" }; }
V F(double d, const char *t) { return { t, t, 1, d, 0, "" }; }
V S(const std::string &s) {
	std::string l = "'";
	char b[8];
	for (unsigned char c : s) { snprintf(b, sizeof b, "\\x%02x", c); l += b; }
	return { l + "'", s, 2, 0, 0, s };
}
int cmp(const V &a, const V &b) {
	if (a.kind == 2) return a.s < b.s ? -1 : a.s > b.s;
	if (a.kind == 0 && b.kind == 0) return a.i < b.i ? -1 : a.i > b.i;
	return a.d < b.d ? -1 : a.d > b.d;
}

// Elements written as expressions and looked for by comparison: for values that do not print exactly.
void make_exact(Chooser &ch, Case &c, const std::vector<V> &l, int range, int budget, int start = 0) {
	std::string lit, src;
	for (auto &v : l) lit += (lit.empty() ? "" : ", ") + v.lit;
	std::vector<V> want = l;
	std::stable_sort(want.begin(), want.end(), [](const V &a, const V &b) { return cmp(a, b) < 0; });
	src = "let l = [" + lit + "];\nl->sort();\nlet w = [";
	for (size_t i = 0; i < want.size(); i++) src += (i ? ", " : "") + want[i].lit;
	src += "];\nlet i = 0; for x <- l { if x != w[i] { echo i; }; i += 1; };\necho len l;\n";
	c.src = src;
	c.key = lit + " from " + std::to_string(start);
	c.states.push_back(fp(lit));
	c.transitions = l.size();
	std::string out = std::to_string(l.size()) + "\n";
	c.custom = [&ch, src, out, range, budget, start]() -> std::string {
		g_ch = &ch; g_range = range; g_budget = budget; g_cycle = start;
		Outcome o = run_program(src, true);
		g_ch = nullptr;
		count_traces(1);
		std::string bad;
		if (o.status != 0 || o.out != out) bad = "not in order: status " + std::to_string(o.status) + ", positions that are wrong and length: " + o.out + o.err + "\n";
		if (o.badheap) bad += "heap fault: " + o.heapmsg + "\n";
		if (o.leaked) bad += "leak\n";
		return bad;
	};
}
V E(double d, const std::string &t) { return { t, t, 1, d, 0, "" }; }
const std::vector<V> &floats() {
	static const std::vector<V> v = [] {
		std::vector<V> v;
		auto p2 = [&](double m, int e) { v.push_back(E(std::ldexp(m, e), std::to_string((int)m) + ".0 * 2.0 ** " + std::to_string(e))); };
		// the first ones are tried in threes
		v.push_back(E(1.0, "1.0")); v.push_back(E(1.0 + std::ldexp(1, -52), "(1.0 + 2.0 ** -52)")); v.push_back(E(1.0 - std::ldexp(1, -53), "(1.0 - 2.0 ** -53)"));
		p2(1, -70); p2(2, -70); p2(-1, -70); p2(1, 1000); p2(3, 1000); p2(-1, 1000);
		v.push_back(E(INFINITY, "math.inf")); v.back().lit = "(2.0 ** 2000)"; v.push_back(E(-INFINITY, "(-(2.0 ** 2000))"));
		v.push_back(E(0.0, "0.0")); v.push_back(I(0)); v.push_back(I(1)); v.push_back(I(-1)); v.push_back(E(0.5, "0.5")); v.push_back(E(-0.5, "-0.5"));
		const size_t n = v.size(); (void)n;
		p2(1, -1074); p2(3, -1074); p2(-1, -1074); p2(1, -1022); p2(1, 1023); p2(-1, 1023); p2(1, 63); p2(-1, 63); p2(1, 64); p2(1, 53); p2(3, 31); p2(1, 32);
		v.push_back(I(2)); v.push_back(I(-2)); v.push_back(I(1L << 31)); v.push_back(I(1L << 32)); v.push_back(I(-(1L << 31))); v.push_back(I(1L << 52)); v.push_back(I(-(1L << 52)));
		v.push_back(E(4294967296.5, "4294967296.5")); v.push_back(E(2147483647.5, "2147483647.5")); v.push_back(E(-2147483648.5, "-2147483648.5")); v.push_back(E(-0.0, "-0.0")); v.push_back(E(1e15 + 0.125, "1000000000000000.125"));
		return v;
	}();
	return v;
}
const std::vector<V> &texts() {
	static const std::vector<V> v = [] {
		std::vector<V> v;
		const std::string a(20, 'a'), b(300, 'b');
		for (auto &s : std::vector<std::string>{ "", std::string(1, 0), std::string("a\0", 2), std::string("a\0b", 3), std::string("a\0c", 3), "a", "aa", a, a + "a", a + "b", a + "\xff", a + "\x7f", "\x80", "\xff", "\x7f", "\x01", "\xff\xff", "B", "b", b, b + "a", b + "b", b + std::string(1, 0), "ba", "0", "10", "9", "-1", " ", "\n", "~" }) v.push_back(S(s));
		return v;
	}();
	return v;
}
void gen_exact(Chooser &ch, Case &c, const std::vector<V> &u, size_t k, int n) {
	std::vector<V> l;
	bool flt = false, big = false;
	for (int i = 0; i < n; i++) { l.push_back(u[ch.choose((uint32_t)std::min(k, u.size()))]); if (l.back().kind == 1) flt = true; if (std::labs(l.back().i) > 9007199254740991L) big = true; }
	if (flt && big) throw Prune{};
	make_exact(ch, c, l, n, n > 2 ? 2 : 0);
}
// Long lists of every usual shape, from every start of the cycle of pivots.
void gen_shapes(Chooser &ch, Case &c, int top, int starts) {
	int n = 3 + ch.choose((uint32_t)(top - 2)), shape = ch.choose(11), str = ch.choose(2), start = ch.choose((uint32_t)starts);
	std::vector<V> l;
	for (int i = 0; i < n; i++) {
		int x = 0;
		switch (shape) {
		case 0: x = i; break;
		case 1: x = n - i; break;
		case 2: x = std::min(i, n - i); break;
		case 3: x = std::max(i, n - i); break;
		case 4: x = 4; break;
		case 5: x = i % 2; break;
		case 6: x = i % 3 == 1; break;
		case 7: x = i == n - 1 ? 0 : i + 1; break;
		case 8: x = i == 0 ? n : i; break;
		case 9: x = i * 7 % 11; break;
		default: x = i == n / 2 ? -1 : 5; break;
		}
		if (str) { char b[8]; snprintf(b, sizeof b, "%03d", x + 1); l.push_back(S(b)); }
		else l.push_back(i % 4 == 3 ? E(x + 0.0, std::to_string(x) + ".0") : I(x));
	}
	make_exact(ch, c, l, 1, 0, start);
}

void make(Chooser &ch, Case &c, const std::vector<V> &l, int range, int budget) {
	std::string lit;
	for (auto &v : l) lit += (lit.empty() ? "" : ", ") + v.lit;
	c.src = "let l = [" + lit + "]; let m = l; echo l->sort(); for x <- m { echo x; }; echo len l;\n";
	c.key = c.src;
	std::vector<V> want = l;
	std::stable_sort(want.begin(), want.end(), [](const V &a, const V &b) { return cmp(a, b) < 0; });
	c.transitions = l.size();
	uint64_t h = 1;
	for (auto &v : l) h = fnv(v.lit.data(), v.lit.size(), h);
	c.states.push_back(h);
	c.custom = [&ch, src = c.src, want, range, budget]() -> std::string {
		g_ch = &ch; g_range = range; g_budget = budget; g_cycle = 0;
		Outcome o = run_program(src);
		g_ch = nullptr;
		count_traces(1);
		// equal elements may come out in any order: compare class by class
		std::vector<std::string> got;
		size_t a = 0, b;
		while ((b = o.out.find('\n', a)) != std::string::npos) { got.push_back(o.out.substr(a, b - a)); a = b + 1; }
		std::string bad;
		if (o.status != 0) bad = "status " + std::to_string(o.status) + "\n";
		else if (got.size() != want.size() + 2 || got[0] != "undef" || got.back() != std::to_string(want.size())) bad = "wrong number of elements\n";
		else {
			size_t i = 0;
			while (i < want.size() && bad.empty()) {
				size_t j = i;
				std::vector<std::string> x, y;
				while (j < want.size() && cmp(want[i], want[j]) == 0) { x.push_back(want[j].show); y.push_back(got[j + 1]); j++; }
				std::sort(x.begin(), x.end());
				std::sort(y.begin(), y.end());
				if (x != y) bad = "not in order\n";
				i = j;
			}
		}
		if (o.badheap) bad += "heap fault: " + o.heapmsg + "\n";
		if (o.leaked) bad += "leak\n";
		if (!bad.empty()) bad += "got:\n" + o.out + o.err;
		return bad;
	};
}

// All orderings (with ties) of n elements: sequences whose values are exactly 0..k.
void gen_orders(Chooser &ch, Case &c, int n, int range, int budget, bool str) {
	std::vector<int> p;
	int mx = -1;
	uint32_t dir = ch.choose(1);
	(void)dir;
	for (int i = 0; i < n; i++) { p.push_back((int)ch.choose((uint32_t)n)); mx = std::max(mx, p.back()); }
	std::vector<bool> seen((size_t)mx + 1);
	for (int x : p) seen[(size_t)x] = true;
	for (bool b : seen) if (!b) throw Prune{};
	std::vector<V> l;
	for (int x : p) l.push_back(str ? S(std::string((size_t)x, 'a')) : I(x * 3 - 4));
	make(ch, c, l, range, budget);
}

void gen_values(Chooser &ch, Case &c, int n, bool strings, int range, int budget) {
	static const std::vector<V> nums = { I(0), F(0.5, "0.5"), F(1.0, "1.0"), I(1), I(-1), I(9007199254740992L), I(9007199254740993L), I(9007199254740994L), I(9223372036854775807L), I(-9223372036854775807L), F(-1.5, "-1.5"), I(9223372036854775806L) };
	static const std::vector<V> strs = { S(""), S("a"), S("ab"), S("b"), S("aa"), S("A"), S("\xc3\xa9"), S("z"), S("a~") };
	const auto &u = strings ? strs : nums;
	std::vector<V> l;
	bool big = false, flt = false;
	for (int i = 0; i < n; i++) { l.push_back(ch.pick(u)); if (l.back().kind == 1) flt = true; if (std::labs(l.back().i) > 9007199254740991L) big = true; }
	if (big && flt && !strings) throw Prune{};
	make(ch, c, l, range, budget);
}

void gen_mixed(Chooser &ch, Case &c) {
	static const char *const BAD[] = { "undef", "true", "[]", "{}", "fn(x) { return x; }", "'s'", "1" };
	uint32_t base = ch.choose(2), b = ch.choose(7), pos = ch.choose(3);
	bool bad = !(base == 0 && b == 6) && !(base == 1 && b == 5);
	if (!bad) throw Prune{};
	std::vector<std::string> l = base == 0 ? std::vector<std::string>{ "3", "1" } : std::vector<std::string>{ "'q'", "'p'" };
	l.insert(l.begin() + pos, BAD[b]);
	c.src = "let l = [" + l[0] + ", " + l[1] + ", " + l[2] + "];\necho len l;\nl->sort();\necho 'unreachable';\n";
	c.out = "3\n";
	c.status = 7;
	c.line = 3;
}

Reg r({ "T04",
	"every list in the space is sorted under every sequence of pivot choices (rand() is replaced by the explorer) and the result compared with the ordered multiset",
	{ "pivot choices are exhaustive up to the stated number of draws, then cyclic (fair): an unfair generator can make the sort run for ever", "NaN and ints beyond 2^53 mixed with floats are outside the space" },
	[](std::vector<Space> &v, bool th) {
		for (int n = 1; n <= 4; n++)
			v.push_back({ "orders" + std::to_string(n), "all orderings with ties of " + std::to_string(n) + " ints, all pivots for 6 draws", [n](Chooser &ch, Case &c) { gen_orders(ch, c, n, n == 1 ? 1 : n, 6, false); }, 2 });
		v.push_back({ "orders5", "all orderings with ties of 5 strings, all pivots for " + std::to_string(th ? 6 : 5) + " draws", [th](Chooser &ch, Case &c) { gen_orders(ch, c, 5, 5, th ? 6 : 5, true); }, 4 });
		v.push_back({ "orders6", "all orderings with ties of 6 ints, all pivots for " + std::to_string(th ? 4 : 2) + " draws", [th](Chooser &ch, Case &c) { gen_orders(ch, c, 6, 6, th ? 4 : 2, false); }, 4 });
		if (th) v.push_back({ "orders7", "all orderings with ties of 7 ints, all pivots for 1 draw", [](Chooser &ch, Case &c) { gen_orders(ch, c, 7, 7, 1, false); }, 4 });
		v.push_back({ "numbers", "all lists of 3 out of 12 numbers, all pivots for 4 draws", [](Chooser &ch, Case &c) { gen_values(ch, c, 3, false, 3, 4); }, 2 });
		v.push_back({ "strings", "all lists of 3 out of 9 strings, all pivots for 4 draws", [](Chooser &ch, Case &c) { gen_values(ch, c, 3, true, 3, 4); }, 2 });
		v.push_back({ "float pairs", "every pair of 41 floats and ints: neighbours, smallest, largest, infinite, zeros, ints of 32 bits", [](Chooser &ch, Case &c) { gen_exact(ch, c, floats(), 99, 2); }, 1 });
		v.push_back({ "float triples", std::string("every three of the first ") + (th ? "41" : "25") + " of them, all pivots for 2 draws", [th](Chooser &ch, Case &c) { gen_exact(ch, c, floats(), th ? 99 : 25, 3); }, 2 });
		v.push_back({ "text pairs", "every pair of 31 strings: nuls, high bytes, long common beginnings", [](Chooser &ch, Case &c) { gen_exact(ch, c, texts(), 99, 2); }, 1 });
		if (th) v.push_back({ "text triples", "every three of them, all pivots for 2 draws", [](Chooser &ch, Case &c) { gen_exact(ch, c, texts(), 99, 3); }, 2 });
		v.push_back({ "shapes", std::string("lists of 3 to ") + (th ? "150" : "48") + " elements in 11 shapes, numbers or strings, from 8 starts of the pivots", [th](Chooser &ch, Case &c) { gen_shapes(ch, c, th ? 150 : 48, 8); }, 2 });
		v.push_back({ "mixed", "lists of 3 with one element of another type", gen_mixed, 2 });
	} });
}
