// S02: indexing and slicing lists and strings, for every pair of bounds.
#include "ref.hpp"
using namespace mc;
using std::string; using std::vector;

namespace {
string N(int64_t k) { return k == INT64_MIN ? "(-9223372036854775807 - 1)" : k < 0 ? "(-" + std::to_string(-k) + ")" : std::to_string(k); }
const int LF = 5;
// A list of 10, 11, ... made in different ways (spare room behind it, or none).
string mklist(int f, int n, string &pre) {
	string e; for (int i = 0; i < n; i++) e += (i ? ", " : "") + std::to_string(10 + i);
	switch (f) {
	case 0: pre = "const x = [" + e + "];\n"; break;
	case 1: pre = "const x = [];\n"; for (int i = 0; i < n; i++) pre += "x->push(" + std::to_string(10 + i) + ");\n"; break;
	case 2: pre = "const x = [" + e + (n ? ", " : "") + "7, 8, 9];\nx->pop(); x->pop(); x->pop();\n"; break;
	case 3: pre = "const x = [9, " + e + (n ? ", " : "") + "9][1:-1];\n"; break;
	default: pre = "const x = [" + e + "] + [];\n"; break;
	}
	return "x";
}
string mkstr(int f, int n, string &pre) {
	string s; for (int i = 0; i < n; i++) s += (char)('a' + i);
	switch (f) {
	case 0: pre = "const x = '" + s + "';\n"; break;
	case 1: pre = "const x = '" + s.substr(0, n / 2) + "' ~ '" + s.substr(n / 2) + "';\n"; break;
	case 2: pre = "const x = 'z" + s + "z'[1:-1];\n"; break;
	case 3: pre = "const x = ('z' ~ '" + s + "z')[1:-1];\n"; break;
	default: pre = "const x = 'zz" + s + "yy'[1:-1][1:-1];\n"; break;
	}
	return "x";
}
struct Bound { string txt; bool absent; int64_t v; };
vector<Bound> bounds(int r, bool wide) {
	vector<Bound> b = { {"", true, 0}, {"undef", true, 0} };
	for (int i = -r; i <= r; i++) b.push_back({ N(i), false, i });
	if (wide) for (int64_t v : { INT64_MIN, INT64_MIN + 1, INT64_MIN + 3, (int64_t)-4294967296LL, (int64_t)-4294967295LL, (int64_t)-256, (int64_t)256, (int64_t)4294967296LL, (int64_t)4294967297LL, INT64_MAX - 1, INT64_MAX }) b.push_back({ N(v), false, v });
	return b;
}
std::pair<int, int> cut(int n, const Bound &a, const Bound &b) {
	__int128 s = a.absent ? 0 : a.v, e = b.absent ? n : b.v;
	if (s < 0) s += n;
	if (e < 0) e += n;
	if (s < 0) s = 0;
	if (e < 0) e = 0;
	if (s > n) s = n;
	if (e > n) e = n;
	if (s > e) s = e;
	return { (int)s, (int)e };
}
string showlist(int from, int to) { string r = "["; for (int i = from; i < to; i++) r += (i > from ? ", " : "") + std::to_string(10 + i); return r + "]"; }
string chars(int from, int to) { string r; for (int i = from; i < to; i++) r += (char)('a' + i); return r; }

void slices(Chooser &ch, Case &c, int maxlen, int r, bool wide) {
	bool str = ch.flip();
	int n = (int)ch.choose((uint32_t)maxlen + 1), f = (int)ch.choose(LF);
	static const vector<Bound> B[4] = { bounds(4, false), bounds(8, false), bounds(4, true), bounds(8, true) };
	const auto &bs = B[(r > 4) + 2 * wide];
	const Bound &a = ch.pick(bs);
	string pre; str ? mkstr(f, n, pre) : mklist(f, n, pre);
	c.src = pre + "const lo = " + (a.absent ? "undef" : a.txt) + ";\n";
	for (auto &b : bs) {                                // all the other ends in one program
		auto k = cut(n, a, b);
		c.src += "echo x[" + a.txt + ":" + b.txt + "];\n";
		c.out += (str ? chars(k.first, k.second) : showlist(k.first, k.second)) + "\n";
		if (a.txt.empty() || b.txt.empty()) continue;
		c.src += "echo len x[lo:" + b.txt + "];\n";     // bounds that are not literals
		c.out += std::to_string(k.second - k.first) + "\n";
		c.transitions++;
	}
	c.src += "echo x;\n";
	c.out += (str ? chars(0, n) : showlist(0, n)) + "\n";
	c.states.push_back(fp(c.src));
}
void twice(Chooser &ch, Case &c, int maxlen, int r) {
	bool str = ch.flip();
	int n = (int)ch.choose((uint32_t)maxlen + 1);
	static const vector<Bound> bs = bounds(4, false);
	(void)r;
	const Bound &a = ch.pick(bs), &b = ch.pick(bs);
	if (a.txt == "undef" || b.txt == "undef") throw Prune{};
	auto k = cut(n, a, b);
	int m = k.second - k.first;
	string pre; str ? mkstr((int)ch.choose(LF), n, pre) : mklist((int)ch.choose(LF), n, pre);
	c.src = pre + "const y = x[" + a.txt + ":" + b.txt + "];\n";
	for (auto &p : bs) for (auto &q : bs) {
		if (p.txt == "undef" || q.txt == "undef") continue;
		auto j = cut(m, p, q);
		c.src += "echo y[" + p.txt + ":" + q.txt + "];\n";
		c.out += (str ? chars(k.first + j.first, k.first + j.second) : showlist(k.first + j.first, k.first + j.second)) + "\n";
		c.transitions++;
	}
	c.src += "echo x;\necho y;\n";
	c.out += (str ? chars(0, n) + "\n" + chars(k.first, k.second) : showlist(0, n) + "\n" + showlist(k.first, k.second)) + "\n";
	c.states.push_back(fp(c.src));
}
// One index: read it, or refuse it with a ValueError.
void index(Chooser &ch, Case &c, int maxlen) {
	bool str = ch.flip();
	int n = (int)ch.choose((uint32_t)maxlen + 1), f = (int)ch.choose(LF);
	static const vector<Bound> bs = bounds(8, true);
	const Bound &b = ch.pick(bs);
	if (b.absent) throw Prune{};
	bool ok = b.v >= -(int64_t)n && b.v < n;
	int at = ok ? (int)(b.v < 0 ? b.v + n : b.v) : 0;
	string pre; str ? mkstr(f, n, pre) : mklist(f, n, pre);
	string e = b.txt;
	if (ch.flip()) { pre += "const i = " + b.txt + ";\n"; e = "i"; }
	c.src = pre + "echo 'on';\n";
	c.out = "on\n";
	switch (ch.choose(str ? 2 : 4)) {
	case 0: c.src += "echo x[" + e + "];\n"; if (ok) c.out += (str ? chars(at, at + 1) : std::to_string(10 + at)) + "\n"; break;
	case 1: c.src += "echo [x[" + e + "], 5][0];\n"; if (ok) c.out += (str ? chars(at, at + 1) : std::to_string(10 + at)) + "\n"; break;
	case 2: c.src += "x[" + e + "] = 'new';\necho x;\n"; if (ok) { c.out += "["; for (int i = 0; i < n; i++) c.out += (i ? ", " : "") + (i == at ? string("new") : std::to_string(10 + i)); c.out += "]\n"; } break;
	case 3: c.src += "x[" + e + "] += 100;\necho x;\n"; if (ok) { c.out += "["; for (int i = 0; i < n; i++) c.out += (i ? ", " : "") + std::to_string(10 + i + (i == at ? 100 : 0)); c.out += "]\n"; } break;
	}
	c.src += "echo 'off';\n";
	if (ok) c.out += "off\n"; else c.status = 7;
	c.states.push_back(fp(c.src));
}
// Bounds and indices that are not ints, things that cannot be cut.
void types(Chooser &ch, Case &c) {
	static const vector<string> BAD = { "1.0", "true", "'1'", "[1]", "{}", "len", "S02" };
	static const vector<string> OBJ = { "[1, 2]", "'ab'", "{1: 2}", "5", "1.5", "true", "undef", "fn(x) { return x; }" };
	string o = ch.pick(OBJ);
	uint32_t form = ch.choose(8);
	string bad = ch.pick(BAD);
	if (bad == "len" || bad == "S02") bad = bad == "len" ? "x->tostr" : "fn(a) { return a; }";
	bool seq = o == "[1, 2]" || o == "'ab'";
	string src = "const x = " + o + ";\nconst bad = " + bad + ";\necho 'on';\n", e;
	if (bad == "x->tostr") throw Prune{};
	int st = 5;
	switch (form) {
	case 0: e = "x[bad:1]"; break;
	case 1: e = "x[1:bad]"; break;
	case 2: e = "x[bad:]"; break;
	case 3: e = "x[:bad]"; break;
	case 4: e = "x[bad:bad]"; break;
	case 5: e = "x[0:1]"; if (seq) st = 0; break;
	case 6: e = "x[:]"; if (seq) st = 0; break;
	case 7: e = "x[bad]"; if (!seq) throw Prune{}; if (bad == "'1'") throw Prune{}; break;
	}
	c.src = src + "const y = " + e + ";\necho 'off';\n";
	c.out = st ? "on\n" : "on\noff\n";
	c.status = st;
	if (st) c.line = 4;
	c.states.push_back(fp(c.src));
}
// A slice of a list is a list of its own; elements are shared, not copied.
void alias(Chooser &ch, Case &c) {
	int n = 1 + (int)ch.choose(4);
	int a = (int)ch.choose((uint32_t)n + 1), b = (int)ch.choose((uint32_t)n + 1);
	if (a > b) throw Prune{};
	uint32_t order = ch.choose(3);
	vector<int> x, y;
	for (int i = 0; i < n; i++) x.push_back(i);
	for (int i = a; i < b; i++) y.push_back(x[(size_t)i]);
	c.src = "let e = [['v0'], ['v1'], ['v2'], ['v3'], ['v4']];\nlet x = [";
	for (int i = 0; i < n; i++) c.src += (i ? ", e[" : "e[") + std::to_string(i) + "]";
	c.src += "];\nlet y = x[" + std::to_string(a) + ":" + std::to_string(b) + "];\n";
	auto show = [](const vector<int> &v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ", [v" : "[v") + std::to_string(v[i]) + "]"; return r + "]\n"; };
	for (int k = 0; k < 2; k++) {
		bool on_x = ch.flip();
		auto &v = on_x ? x : y; string nm = on_x ? "x" : "y";
		switch (ch.choose(5)) {
		case 0: c.src += nm + "->push(e[4]);\n"; v.push_back(4); break;
		case 1: if (v.empty()) throw Prune{}; c.src += nm + "->pop();\n"; v.pop_back(); break;
		case 2: if (v.empty()) throw Prune{}; c.src += nm + "[-1] = e[0];\n"; v.back() = 0; break;
		case 3: c.src += nm + "->clear();\n"; v.clear(); break;
		case 4: c.src += nm + "->reverse();\n"; std::reverse(v.begin(), v.end()); break;
		}
		c.transitions++;
	}
	if (order == 1) { c.src += "x = undef; e = undef;\n"; x.clear(); }
	if (order == 2) { c.src += "y = undef;\n"; }
	if (order != 1) { c.src += "echo x;\n"; c.out += show(x); }
	if (order != 2) { c.src += "echo y;\n"; c.out += show(y); }
	if (order == 0) {                                   // the elements themselves are the same ones
		c.src += "for let i = 0; i < 5; i += 1 { e[i][0] = 'w'; };\necho x ~ y;\n";
		auto w = [](size_t m) { string r = "["; for (size_t i = 0; i < m; i++) r += i ? ", [w]" : "[w]"; return r + "]"; };
		c.out += w(x.size()) + w(y.size()) + "\n";
	}
	c.states.push_back(fp(c.src));
}
// Chains: lists and tables of lists and strings, read, written and cut at depth.
void nested(Chooser &ch, Case &c) {
	static const vector<std::pair<string, string>> E = {
		{"x[1][2]", "6"}, {"x[1][-1]", "6"}, {"x[-1][0]", "g"}, {"x[2][1:]", "hi"}, {"x[2][1:][1]", "i"}, {"x[1:][0][1:]", "[5, 6]"}, {"x[0].k[1]", "2"},
		{"x[0]['k'][1:][0]", "2"}, {"x[:2][1][:1]", "[4]"}, {"x[0].s[::]", ""}, {"x[0].s[1:2]", "y"}, {"(x[1] + x[1])[2:4]", "[6, 4]"}, {"(x[2] ~ x[0].s)[2:4]", "ix"},
		{"x[x[1][0] - 4].k", "[1, 2, 3]"}, {"x[1][x[0].k[0]:x[0].k[2]]", "[5, 6]"}, {"x[1][x[0].k[0]]", "5"}, {"x[2][x[0].k[0]:][0]", "h"}, {"[x[1], x[2]][1][1:]", "hi"},
		{"f(x)[1:][0]", "[4, 5, 6]"}, {"f(x[1])[1:]", "[5, 6]"}, {"f(x[2])[1]", "h"}, {"x[1][1:]->push(9)", "[5, 6, 9]"}, {"x[2][1:]->toupper()[0]", "H"}, {"x[1][:1] + x[1][1:]", "[4, 5, 6]"},
		{"x[2][:1] ~ x[2][1:]", "ghi"}, {"len x[1][1:]", "2"}, {"-x[1][1]", "-5"}, {"!x[1][5:]", "false"}, {"x[1][1:] == [5, 6]", "true"}, {"x[1][true ? 0 : 1:true ? 1 : 2]", "[4]"}, {"x[1][undef ?? 1:]", "[5, 6]"},
	};
	auto &e = ch.pick(E);
	if (e.second.empty()) throw Prune{};
	const auto *e2 = &ch.pick(E);
	if (e2->second.empty()) throw Prune{};
	c.src = "fn f(a) { return a; };\nconst x = [{.k: [1, 2, 3], .s: 'xyz'}, [4, 5, 6], 'ghi'];\n";
	string a = e.second, b = e2->second;
	switch (ch.choose(4)) {
	case 0: c.src += "echo " + e.first + ";\necho " + e2->first + ";\n"; c.out = a + "\n" + b + "\n"; break;
	case 1: c.src += "echo [" + e.first + ", " + e2->first + "];\n"; c.out = "[" + a + ", " + b + "]\n"; break;
	case 2: c.src += "echo f(" + e.first + ") ~ '' ~ f(" + e2->first + ");\n"; c.out = a + b + "\n"; break;
	case 3: c.src += "let p = 0; let q = 0; p, q = " + e.first + ", " + e2->first + ";\necho p; echo q;\n"; c.out = a + "\n" + b + "\n"; break;
	}
	c.src += "echo x;\n";
	c.states.push_back(fp(c.src));
	c.out += "[{k: [1, 2, 3], s: xyz}, [4, 5, 6], ghi]\n";
}
Reg reg({ "S02",
	"every length, every way to make the sequence, every pair of bounds, present, absent or undef, also as slices of slices; every index, read and written; every wrong type; mutations of list and slice",
	{ "a bound past an end means the end, an empty or reversed range gives an empty sequence" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "slices", string(th ? "length 0..12, bounds -8..8" : "length 0..7, bounds -8..8") + " and 11 extremes", [th](Chooser &ch, Case &c) { slices(ch, c, th ? 12 : 7, 8, true); }, 3 });
		v.push_back({ "slices of slices", string(th ? "length 0..7" : "length 0..5") + ", bounds -4..4", [th](Chooser &ch, Case &c) { twice(ch, c, th ? 7 : 5, 4); }, 3 });
		v.push_back({ "indices", "length 0..5, -8..8 and 11 extremes, read, written, updated", [](Chooser &ch, Case &c) { index(ch, c, 5); }, 3 });
		v.push_back({ "types", "8 objects, 8 forms, 6 wrong bounds", [](Chooser &ch, Case &c) { types(ch, c); }, 2 });
		v.push_back({ "own list", "length 1..4, every cut, 2 of 5 mutations on either", [](Chooser &ch, Case &c) { alias(ch, c); }, 3 });
		v.push_back({ "chains", "pairs of 30 expressions in 4 contexts", [](Chooser &ch, Case &c) { nested(ch, c); }, 2 });
	} });
}
