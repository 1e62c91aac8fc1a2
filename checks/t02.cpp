// T02: collections.set behaves as a finite set.
#include "mc.hpp"
#include <algorithm>
using namespace mc;

namespace {
struct Key { std::string lit, show; int id; };
const std::vector<std::vector<Key>> GROUPS = {
	{ {"1", "1", 0}, {"1.0", "1.0", 1}, {"'1'", "1", 2}, {"true", "true", 3} },
	{ {"0", "0", 0}, {"0.0", "0.0", 1}, {"nz", "0.0", 1}, {"''", "", 2} },
	{ {"-1", "-1", 0}, {"65536", "65536", 1}, {"4294967296", "4294967296", 2}, {"false", "false", 3} },
	{ {"31", "31", 0}, {"62", "62", 1}, {"0", "0", 2}, {"('x' ~ 'a')[1:2]", "a", 3} },
};
using Model = std::set<int>;

void contents(std::string &src, std::string &out, const std::string &v, const Model &m, const std::function<std::string(int)> &show) {
	src += "q = '~'; for k <- (" + v + ")->tolist() { q ~= \"#{k}|\"; };\necho q; echo len (" + v + ");\n";
	out += "~";
	for (int i : m) out += show(i) + "|";
	out += "\n" + std::to_string(m.size()) + "\n";
}
const char *B(bool b) { return b ? "true\n" : "false\n"; }
void compare_all(std::string &src, std::string &out, const Model &s, const Model &u) {
	src += "echo s == u; echo s != u; echo s < u; echo s <= u; echo s > u; echo s >= u;\n";
	bool sub = std::includes(u.begin(), u.end(), s.begin(), s.end()), sup = std::includes(s.begin(), s.end(), u.begin(), u.end());
	out += B(s == u);
	out += B(s != u);
	out += B(sub && s != u);
	out += B(sub);
	out += B(sup && s != u);
	out += B(sup);
}
Model op(int k, const Model &a, const Model &b) {
	Model r;
	switch (k) {
	case 0: std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); break;
	case 1: std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); break;
	case 2: std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); break;
	case 3: std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(r, r.end())); break;
	}
	return r;
}
const char *const OPS[] = { "|", "&", "^", "&^" };
uint64_t mfp(const Model &m) { uint64_t h = 99; for (int i : m) h = fnv(&i, sizeof i, h); return h; }

void gen_short(Chooser &ch, Case &c, int depth) {
	const auto &g = GROUPS[ch.choose((uint32_t)GROUPS.size())];
	auto show = [&](int id) { for (auto &k : g) if (k.id == id) return k.show; return std::string("?"); };
	Model s, u;
	std::string src = "let z = 0.0; let nz = -z; let q = ''; let r = undef; let s = collections.set(); let u = collections.set();\n", out;
	for (int i = 0; i < depth; i++) {
		uint32_t o = ch.choose(17);
		if (o < 4) { src += "s->add(" + g[o].lit + ");"; s.insert(g[o].id); }
		else if (o < 8) { src += "s->remove(" + g[o - 4].lit + ");"; s.erase(g[o - 4].id); }
		else if (o == 8) { src += "s->clear();"; s.clear(); }
		else if (o == 9) { src += "u = s->copy();"; u = s; }
		else if (o == 10) { src += "r = s; s = u; u = r;"; std::swap(s, u); }
		else if (o < 15) { src += std::string("s = s ") + OPS[o - 11] + " u;"; s = op((int)o - 11, s, u); }
		else if (o == 15) { src += "s = collections.set(" + g[0].lit + ", " + g[1].lit + ", " + g[0].lit + ");"; s = { g[0].id, g[1].id }; }
		else { src += "s = collections.set([" + g[3].lit + ", " + g[2].lit + ", " + g[3].lit + "]);"; s = { g[3].id, g[2].id }; }
		src += "echo len s;";
		out += std::to_string(s.size()) + "\n";
		for (auto &k : g) { src += "echo s[" + k.lit + "];"; out += B(s.count(k.id)); }
		src += "\n";
		c.states.push_back(mfp(s) * 31 + mfp(u));
	}
	if (&g != &GROUPS[1]) { contents(src, out, "s", s, show); contents(src, out, "u", u, show); }
	compare_all(src, out, s, u);
	c.src = src; c.out = out; c.sorted_lines = true; c.transitions = depth;
}

// Every pair of subsets, every operator and comparison; operands unchanged.
void gen_algebra(Chooser &ch, Case &c, int n) {
	static const std::vector<std::string> lit = { "1", "1.0", "'1'", "true", "'a'", "-5", "false" };
	static const std::vector<std::string> show = { "1", "1.0", "1", "true", "a", "-5", "false" };
	Model s, u;
	std::string a, b;
	for (int i = 0; i < n; i++) {
		uint32_t k = ch.choose(4);
		if (k & 1) { s.insert(i); a += (a.empty() ? "" : ", ") + lit[i]; }
		if (k & 2) { u.insert(i); b = lit[i] + (b.empty() ? "" : ", ") + b; }
	}
	auto sh = [](int i) { return show[i]; };
	std::string src = "let q = ''; let s = collections.set(" + a + "); let u = collections.set(" + b + ");\n", out;
	for (int k = 0; k < 4; k++) contents(src, out, std::string("s ") + OPS[k] + " u", op(k, s, u), sh);
	compare_all(src, out, s, u);
	contents(src, out, "s", s, sh);
	contents(src, out, "u", u, sh);
	c.src = src; c.out = out; c.sorted_lines = true; c.transitions = 10;
	c.states = { mfp(s) * 31 + mfp(u) };
}

void gen_churn(Chooser &ch, Case &c, int depth, const std::vector<int> &sizes) {
	static const char *const FORM[] = { "i", "'k' ~ i->tostr()", "i * 31", "i->tofloat() / 2.0" };
	uint32_t form = ch.choose(4);
	int n = ch.pick(sizes), hi = 2 * n;
	Model s, u;
	std::string src = "let q = ''; let s = collections.set(); let u = collections.set();\nfn K(i) { return " + std::string(FORM[form]) + "; };\n", out;
	auto loop = [&](int a, int b, int step, const std::string &body) {
		src += "for let i = " + std::to_string(a) + "; i < " + std::to_string(b) + "; i += " + std::to_string(step) + " { " + body + " };\n";
	};
	for (int d = 0; d < depth; d++) {
		uint32_t o = ch.choose(10);
		switch (o) {
		case 0: loop(0, n, 1, "s->add(K(i));"); for (int i = 0; i < n; i++) s.insert(i); break;
		case 1: loop(n, hi, 1, "s->add(K(i));"); for (int i = n; i < hi; i++) s.insert(i); break;
		case 2: loop(0, n, 1, "s->remove(K(i));"); for (int i = 0; i < n; i++) s.erase(i); break;
		case 3: loop(n, hi, 1, "s->remove(K(i));"); for (int i = n; i < hi; i++) s.erase(i); break;
		case 4: loop(0, hi, 3, "s->remove(K(i));"); for (int i = 0; i < hi; i += 3) s.erase(i); break;
		case 5: loop(0, hi, 1, "s->add(K(i)); s->remove(K(i));"); for (int i = 0; i < hi; i++) s.erase(i); break;
		case 6: src += "s->clear();\n"; s.clear(); break;
		case 7: src += "u = s; s = s->copy();\n"; u = s; break;
		case 8: src += "s = u | s;\n"; s = op(0, u, s); break;
		case 9: src += "s = s ^ u;\n"; s = op(2, s, u); break;
		}
		src += "echo len s;\n";
		out += std::to_string(s.size()) + "\n";
		c.states.push_back(mfp(s) * 31 + mfp(u));
	}
	loop(0, hi, 1, "echo s[K(i)]; echo u[K(i)];");
	for (int i = 0; i < hi; i++) { out += B(s.count(i)); out += B(u.count(i)); }
	src += "echo len s->tolist(); echo len u->tolist();";
	out += std::to_string(s.size()) + "\n" + std::to_string(u.size()) + "\n";
	compare_all(src, out, s, u);
	c.src = src; c.out = out; c.transitions = (uint64_t)depth * n;
}

void gen_unhash(Chooser &ch, Case &c) {
	static const char *const BAD[] = { "[]", "[1]", "{}", "{.a: 1}", "fn(x) { return x; }", "s", "undef" };
	uint32_t b = ch.choose(7), how = ch.choose(4);
	std::string bad = BAD[b];
	c.src = "let s = collections.set(1, 'a');\necho len s;\n";
	c.out = "2\n";
	c.status = 5;
	c.line = 3;
	switch (how) {
	case 0: c.src += "s->add(" + bad + ");\n"; break;
	case 1: c.src += "let u = collections.set(1, " + bad + ");\n"; break;
	case 2: c.src += "let u = collections.set([1, 'b', " + bad + "]);\n"; break;
	case 3: c.src += "s->remove(" + bad + "); echo len s; echo s[" + bad + "]; echo s['a'];\n"; c.out += "2\nfalse\ntrue\n"; c.status = 0; c.line = -1; break;
	}
}

// What an operation gives is a set of its own: changing any of the sets involved leaves the others alone.
void gen_own(Chooser &ch, Case &c) {
	Model s, u, r;
	for (int i = 0; i < 3; i++) if (ch.flip()) s.insert(i);
	uint32_t e = ch.choose(8);
	if (e < 5) for (int i = 1; i < 4; i++) if (ch.flip()) u.insert(i);
	auto args = [](const Model &m) { std::string t; for (int i : m) t += (t.empty() ? "" : ", ") + std::to_string(i); return t; };
	std::string out, src = "let q = ''; let s = collections.set(" + args(s) + "); let u = collections.set(" + args(u) + ");\nlet r = ";
	switch (e) {
	case 0: case 1: case 2: case 3: src += std::string("s ") + OPS[e] + " u"; r = op((int)e, s, u); break;
	case 4: src += "u | s"; r = op(0, u, s); break;
	case 5: src += "s->copy()"; r = s; break;
	case 6: src += "collections.set(s->tolist())"; r = s; break;
	default: src += "s & s"; r = s; break;
	}
	src += ";\n";
	Model *M[] = { &s, &u, &r };
	static const char *NM[] = { "s", "u", "r" };
	for (int k = 0; k < 2; k++) {
		uint32_t t = ch.choose(3);
		std::string n = NM[t];
		switch (ch.choose(4)) {
		case 0: src += n + "->add(9);\n"; M[t]->insert(9); break;
		case 1: src += n + "->remove(1);\n"; M[t]->erase(1); break;
		case 2: src += n + "->clear();\n"; M[t]->clear(); break;
		case 3: src += n + "->add(0);\n"; M[t]->insert(0); break;
		}
		for (int i = 0; i < 3; i++) contents(src, out, NM[i], *M[i], [](int x) { return std::to_string(x); });
	}
	c.src = src; c.out = out; c.sorted_lines = true;
	c.states.push_back(mfp(s) * 31 + mfp(u) * 7 + mfp(r));
	c.transitions = 3;
}
Reg r({ "T02",
	"every program in the enumerated operation histories is run and compared, after each operation, with a finite-set model",
	{ "NaN elements are outside the space", "element order is not specified: compared as multisets" },
	[](std::vector<Space> &v, bool th) {
		int d = th ? 5 : 4;
		v.push_back({ "short", "all sequences of " + std::to_string(d) + " operations out of 17 over 4 elements, 4 groups", [d](Chooser &ch, Case &c) { gen_short(ch, c, d); }, 3 });
		int n = th ? 7 : 6;
		v.push_back({ "algebra", "all pairs of subsets of " + std::to_string(n) + " elements, all operators and comparisons", [n](Chooser &ch, Case &c) { gen_algebra(ch, c, n); }, 3 });
		std::vector<int> sz = th ? std::vector<int>{ 1, 3, 7, 10, 11, 12, 15, 16, 21, 22, 23, 24, 30, 31, 32, 43, 44, 62, 130 } : std::vector<int>{ 3, 11, 22, 23, 31, 44, 62 };
		int cd = th ? 4 : 3;
		v.push_back({ "churn", "all sequences of " + std::to_string(cd) + " bulk phases out of 10, " + std::to_string(sz.size()) + " sizes, 4 element forms", [cd, sz](Chooser &ch, Case &c) { gen_churn(ch, c, cd, sz); }, 3 });
		v.push_back({ "own", "8 operations that give a set x subsets of 3 elements x all pairs of 4 changes of any of the sets", gen_own, 3 });
		v.push_back({ "unhashable", "7 unhashable values x 4 operations", gen_unhash, 2 });
	} });
}
