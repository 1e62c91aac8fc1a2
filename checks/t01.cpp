// T01: tables behave as finite maps.
#include "mc.hpp"
#include "gen.hpp"
using namespace mc;

namespace {
struct Key { std::string lit, show; int id; };
using Model = std::map<int, std::string>;       // key id -> echo form of the value

const std::vector<std::vector<Key>> GROUPS = {
	{ {"1", "1", 0}, {"1.0", "1.0", 1}, {"'1'", "1", 2}, {"true", "true", 3} },
	{ {"0", "0", 0}, {"0.0", "0.0", 1}, {"nz", "0.0", 1}, {"''", "", 2} },
	{ {"'a'", "a", 0}, {"'b'", "b", 1}, {"('x' ~ 'a')[1:2]", "a", 0}, {"'ab'", "ab", 2} },
	{ {"-1", "-1", 0}, {"65536", "65536", 1}, {"4294967296", "4294967296", 2}, {"false", "false", 3} },
	{ {"31", "31", 0}, {"62", "62", 1}, {"0", "0", 2}, {"93", "93", 3} },
	{ {"'\\x00'", "", 0}, {"'\\x00\\x00'", "", 1}, {"''", "", 2}, {"'\\xff'", "\xff", 3} },
};

struct Prog {
	std::string src, out;
	uint64_t steps = 0;
	std::vector<uint64_t> states;
	void note(const Model &m) {
		uint64_t h = 77;
		for (auto &p : m) { h = fnv(&p.first, sizeof p.first, h); h = fnv(p.second.data(), p.second.size(), h); }
		states.push_back(h);
		steps++;
	}
};

void observe(Prog &p, const char *t, const Model &m, const std::vector<Key> &g) {
	p.src += std::string("echo len ") + t + ";";
	p.out += std::to_string(m.size()) + "\n";
	for (auto &k : g) {
		p.src += std::string("echo ") + t + "[" + k.lit + "];";
		p.out += (m.count(k.id) ? m.at(k.id) : "undef") + "\n";
	}
	p.src += "\n";
}
// Every key and value exactly once, whatever the order: through keys(), values() and the for loop.
void enumerate(Prog &p, const char *t, const Model &m, const std::map<int, std::string> &shows) {
	p.src += std::string("s = '~'; for k <- ") + t + "->keys() { s ~= \"#{k}|\"; };\necho s;\n";
	p.src += std::string("s = '~'; for v <- ") + t + "->values() { s ~= \"#{v}|\"; };\necho s;\n";
	p.src += std::string("s = '~'; for k <- ") + t + " { s ~= \"#{k}=#{" + t + "[k]}|\"; };\necho s;\n";
	std::string a = "~", b = "~", c = "~";
	for (auto &e : m) {
		a += shows.at(e.first) + "|";
		b += e.second + "|";
		c += shows.at(e.first) + "=" + e.second + "|";
	}
	p.out += a + "\n" + b + "\n" + c + "\n";
}
std::map<int, std::string> shows(const std::vector<Key> &g) {
	std::map<int, std::string> r;
	for (auto &k : g) if (!r.count(k.id)) r[k.id] = k.show;
	return r;
}

void finish(Case &c, Prog &p) {
	c.src = std::move(p.src);
	c.out = std::move(p.out);
	c.sorted_lines = true;
	c.transitions = p.steps;
	c.states = std::move(p.states);
}

// All operation sequences over four keys.
void gen_short(Chooser &ch, Case &c, int depth, const std::vector<int> &groups) {
	const auto &g = GROUPS[ch.pick(groups)];
	bool zero = &g == &GROUPS[1];
	Prog p;
	Model t, u;
	p.src = "let z = 0.0; let nz = -z; let s = ''; let t = {}; let u = {}; let r = undef;\n";
	for (int i = 0; i < depth; i++) {
		uint32_t op = ch.choose(21);
		if (op < 8) {
			auto &k = g[op / 2];
			std::string v = op % 2 ? "'x'" : std::to_string(i);
			p.src += "t[" + k.lit + "] = " + v + ";";
			t[k.id] = op % 2 ? "x" : v;
		} else if (op < 12) {
			auto &k = g[op - 8];
			p.src += "t[" + k.lit + "] = undef;";
			t.erase(k.id);
		} else if (op < 16) {
			auto &k = g[op - 12];
			p.src += "t->remove(" + k.lit + ");";
			t.erase(k.id);
		} else if (op == 16) {
			p.src += "t->clear();";
			t.clear();
		} else if (op == 17) {
			p.src += "u = t->copy();";
			u = t;
		} else if (op == 18) {
			p.src += "r = t; t = u; u = r;";
			std::swap(t, u);
		} else if (op == 19) {
			p.src += "t = t | u;";
			for (auto &e : u) t[e.first] = e.second;
		} else {
			p.src += "t = {" + g[0].lit + ": t, " + g[3].lit + ": 7, " + g[1].lit + ": undef}; t[" + g[0].lit + "] = 8;";
			t.clear();
			t[g[3].id] = "7";
			t[g[0].id] = "8";
		}
		p.note(t);
		observe(p, "t", t, g);
	}
	observe(p, "u", u, g);
	if (!zero) { enumerate(p, "t", t, shows(g)); enumerate(p, "u", u, shows(g)); }
	p.src += "echo t == u; echo u == t; echo t != u; echo t == t->copy();\n";
	bool eq = t == u;
	p.out += std::string(eq ? "true\ntrue\nfalse\n" : "false\nfalse\ntrue\n") + "true\n";
	finish(c, p);
}

// Phases of many insertions and removals, crossing every growth and shrink threshold and piling up removals.
void gen_churn(Chooser &ch, Case &c, int depth, const std::vector<int> &sizes) {
	static const char *const FORM[] = { "i", "'k' ~ i->tostr()", "i * 31", "i->tofloat() / 2.0", "i * 65536 - 300", "i->tostr()" };
	uint32_t form = ch.choose(6);
	int n = ch.pick(sizes);
	Prog p;
	std::map<int, int> t;
	int gen = 0, hi = 0;
	// values of every kind, the falsy ones among them
	p.src = "let s = ''; let t = {}; let u = {};\nfn K(i) { return " + std::string(FORM[form]) + "; };\n"
		"fn V(x) { const m = x % 6; if m == 0 { return false; }; if m == 1 { return ''; }; if m == 2 { return 0.0; }; if m == 3 { return 'v' ~ x; }; if m == 4 { return [x]; }; return x; };\n";
	auto V = [](int x) -> std::string { switch (x % 6) { case 0: return "false"; case 1: return ""; case 2: return "0.0"; case 3: return "v" + std::to_string(x); case 4: return "[" + std::to_string(x) + "]"; default: return std::to_string(x); } };
	auto lit = [&](int g) { return "V(" + std::to_string(g) + ")"; };
	auto loop = [&](int a, int b, int step, const std::string &body) {
		p.src += "for let i = " + std::to_string(a) + "; i < " + std::to_string(b) + "; i += " + std::to_string(step) + " { " + body + " };\n";
	};
	bool copied = false;
	std::map<int, int> u;
	for (int d = 0; d < depth; d++) {
		uint32_t op = ch.choose(11);
		gen += 1000;
		hi = std::max(hi, 2 * n);
		switch (op) {
		case 0: loop(0, n, 1, "t[K(i)] = V(i + " + std::to_string(gen) + ");"); for (int i = 0; i < n; i++) t[i] = i + gen; break;
		case 1: loop(n, 2 * n, 1, "t[K(i)] = V(i + " + std::to_string(gen) + ");"); for (int i = n; i < 2 * n; i++) t[i] = i + gen; break;
		case 2: loop(0, n, 1, "t->remove(K(i));"); for (int i = 0; i < n; i++) t.erase(i); break;
		case 3: loop(n, 2 * n, 1, "t[K(i)] = undef;"); for (int i = n; i < 2 * n; i++) t.erase(i); break;
		case 4: loop(0, 2 * n, 3, "t->remove(K(i));"); for (int i = 0; i < 2 * n; i += 3) t.erase(i); break;
		case 5: loop(0, 2 * n, 1, "t[K(i)] = i; t->remove(K(i));"); for (int i = 0; i < 2 * n; i++) t.erase(i); break;
		case 6: loop(0, 2 * n - 1, 1, "t[K(i)] = i; t[K(i + 1)] = " + lit(gen) + "; t->remove(K(i));");
			for (int i = 0; i < 2 * n - 1; i++) { t[i] = i; t[i + 1] = gen; t.erase(i); } break;
		case 7: p.src += "t->clear();\n"; t.clear(); break;
		case 8: p.src += "u = t; t = t->copy();\n"; u = t; copied = true; break;
		case 10: loop(0, 2 * n, 1, "if i % 17 != 5 { t->remove(K(i)); };"); for (int i = 0; i < 2 * n; i++) if (i % 17 != 5) t.erase(i); break;   // few are left: the table shrinks
		case 9: p.src += "t = u | t;\n"; { auto m = u; for (auto &e : t) m[e.first] = e.second; t = m; } break;
		}
		uint64_t h = 5;
		for (auto &e : t) h = fnv(&e, sizeof e, h);
		p.states.push_back(fnv(&n, sizeof n, h));
		p.steps += n;
		p.src += "echo len t;\n";
		p.out += std::to_string(t.size()) + "\n";
	}
	auto dump = [&](const char *nm, std::map<int, int> &m) {
		loop(0, hi, 1, std::string("echo ") + nm + "[K(i)];");
		for (int i = 0; i < hi; i++) p.out += (m.count(i) ? V(m[i]) : "undef") + "\n";
		p.src += std::string("s = '~'; for k <- ") + nm + " { s ~= \"#{" + nm + "[k]}|\"; };\necho s;\n";
		p.out += "~";
		for (auto &e : m) p.out += V(e.second) + "|";
		p.out += "\n";
		p.src += std::string("echo len ") + nm + ";echo len " + nm + "->keys(); echo len " + nm + "->values();\n";
		for (int k = 0; k < 3; k++) p.out += std::to_string(m.size()) + "\n";
	};
	dump("t", t);
	if (copied) dump("u", u);
	p.src += "echo t == u;\n";
	bool same = t.size() == u.size();
	for (auto &e : t) same = same && u.count(e.first) && V(u[e.first]) == V(e.second);
	p.out += same ? "true\n" : "false\n";
	finish(c, p);
}

// Keys that cannot be hashed are refused and leave the table as it was.
void gen_unhash(Chooser &ch, Case &c) {
	static const char *const BAD[] = { "[]", "[1]", "{}", "t", "fn(x) { return x; }", "collections.set()", "undef", "echo_" };
	static const char *const GOOD[] = { "1", "1.5", "'a'", "true", "''" };
	uint32_t b = ch.choose(7), g = ch.choose(5), how = ch.choose(5);
	std::string bad = BAD[b], good = GOOD[g];
	c.src = "let t = {.a: 1}; t[" + good + "] = 2;\necho t[" + good + "];\n";
	c.out = "2\n";
	c.line = 3;
	c.status = 5;
	switch (how) {
	case 0: c.src += "t[" + bad + "] = 3;\n"; break;
	case 1: c.src += "let u = {" + good + ": 1, " + bad + ": 2};\n"; break;
	case 2: c.src += "let u = collections.table(" + good + ", 1, " + bad + ", 2);\n"; break;
	case 3: c.src += "echo t[" + bad + "];\n"; c.out += "undef\n"; c.status = 0; c.line = -1; break;
	case 4: c.src += "t->remove(" + bad + "); echo len t;\n"; c.out += good == "'a'" ? "1\n" : "2\n"; c.status = 0; c.line = -1; break;
	}
}

// Constructors: literals and collections.table, with pairs whose value is undef left out.
void gen_construct(Chooser &ch, Case &c) {
	const auto &g = GROUPS[ch.choose(2) * 3];
	uint32_t form = ch.choose(2), n = ch.choose(5);
	std::string body;
	Model m;
	bool used[4] = {};
	for (uint32_t i = 0; i < n; i++) {
		uint32_t k = ch.choose(4);
		if (used[k]) throw Prune{};
		used[k] = true;
		uint32_t v = ch.choose(3);
		std::string val = v == 0 ? "undef" : v == 1 ? std::to_string(i) : "[1]";
		if (i) body += ", ";
		body += g[k].lit + (form ? ", " : ": ") + val;
		if (v) m[g[k].id] = v == 1 ? val : "[1]";
	}
	Prog p;
	p.src = "let s = '';\nlet t = " + (form ? "collections.table(" + body + ")" : "{" + body + "}") + ";\n";
	observe(p, "t", m, g);
	enumerate(p, "t", m, shows(g));
	p.src += "t->clear();";
	Model e;
	observe(p, "t", e, g);
	p.note(m);
	finish(c, p);
}

// What an operation gives is a table of its own: changing any of the tables involved leaves the others alone.
void gen_own(Chooser &ch, Case &c) {
	static const std::vector<Key> G = { {"1", "1", 0}, {"'k'", "k", 1}, {"2.5", "2.5", 2}, {"9", "9", 3} };
	Prog p;
	Model t, u, r;
	auto lit = [&](const Model &m) { std::string x; for (auto &e : m) x += (x.empty() ? "" : ", ") + G[(size_t)e.first].lit + ": '" + e.second + "'"; return "{" + x + "}"; };
	for (int i = 0; i < 3; i++) if (ch.flip()) t[i] = "t";
	uint32_t e = ch.choose(6);
	if (e < 2) for (int i = 1; i < 4; i++) if (ch.flip()) u[i] = "u";
	p.src = "let s = ''; let t = " + lit(t) + "; let u = " + lit(u) + ";\nlet r = ";
	switch (e) {
	case 0: p.src += "t | u"; r = t; for (auto &x : u) r[x.first] = x.second; break;
	case 1: p.src += "u | t"; r = u; for (auto &x : t) r[x.first] = x.second; break;
	case 2: p.src += "t->copy()"; r = t; break;
	case 3: p.src += "{k: t[k] for k <- t}"; r = t; break;
	case 4: p.src += "t | t"; r = t; break;
	case 5: p.src += "t->copy()->copy()"; r = t; break;
	}
	p.src += ";\n";
	Model *M[] = { &t, &u, &r };
	static const char *NM[] = { "t", "u", "r" };
	for (int k = 0; k < 2; k++) {
		uint32_t w = ch.choose(3);
		std::string n = NM[w];
		switch (ch.choose(5)) {
		case 0: p.src += n + "[9] = 'n';\n"; (*M[w])[3] = "n"; break;
		case 1: p.src += n + "->remove(1);\n"; M[w]->erase(0); break;
		case 2: p.src += n + "->clear();\n"; M[w]->clear(); break;
		case 3: p.src += n + "['k'] = 'm';\n"; (*M[w])[1] = "m"; break;
		case 4: p.src += n + "[2.5] = undef;\n"; M[w]->erase(2); break;
		}
		for (int i = 0; i < 3; i++) { observe(p, NM[i], *M[i], G); enumerate(p, NM[i], *M[i], shows(G)); p.note(*M[i]); }
	}
	finish(c, p);
}
Reg r({ "T01",
	"every program in the enumerated operation histories is run and compared, after each operation, with a finite-map model",
	{ "NaN keys and keys given twice in one literal are outside the space", "iteration order is not specified: compared as multisets" },
	[](std::vector<Space> &v, bool th) {
		int d = th ? 5 : 4;
		v.push_back({ "short", "all sequences of " + std::to_string(d - 1) + " operations out of 21 over 4 keys, 6 key groups", [d](Chooser &ch, Case &c) { gen_short(ch, c, d - 1, { 0, 1, 2, 3, 4, 5 }); }, 2 });
		v.push_back({ "short-deeper", "all sequences of " + std::to_string(d) + " operations out of 21 over 4 keys, 2 key groups", [d](Chooser &ch, Case &c) { gen_short(ch, c, d, { 1, 4 }); }, 3 });
		std::vector<int> sz = th ? std::vector<int>{ 1, 3, 7, 10, 11, 12, 15, 16, 21, 22, 23, 24, 30, 31, 32, 42, 43, 44, 61, 62, 70, 130 } : std::vector<int>{ 3, 11, 16, 22, 23, 31, 44, 62, 130 };
		int cd = th ? 4 : 3;
		v.push_back({ "churn", "all sequences of " + std::to_string(cd) + " bulk phases out of 11, " + std::to_string(sz.size()) + " sizes, 6 key forms", [cd, sz](Chooser &ch, Case &c) { gen_churn(ch, c, cd, sz); }, 3 });
		v.push_back({ "own", "6 operations that give a table x subsets of 3 keys x all pairs of 5 changes of any of the tables", gen_own, 3 });
		v.push_back({ "unhashable", "7 unhashable keys x 5 good keys x 5 operations", gen_unhash, 2 });
		v.push_back({ "construct", "all literals and collections.table calls of up to 4 distinct keys, values undef/int/list", gen_construct, 3 });
	} });
}
