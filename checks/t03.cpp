// T03: lists behave as finite sequences.
#include "mc.hpp"
#include <algorithm>
#include <memory>
using namespace mc;

namespace {
struct V { std::string lit, show; int cls; };       // cls: equality class for search/count
const std::vector<V> VALS = { {"1", "1", 1}, {"1.0", "1.0", 1}, {"'a'", "a", 2}, {"undef", "undef", 3}, {"true", "true", 4}, {"''", "", 5}, {"[7]", "[7]", -1} };
using L = std::vector<int>;

std::string show(const L &l) {
	std::string r = "[";
	for (size_t i = 0; i < l.size(); i++) r += (i ? ", " : "") + VALS[l[i]].show;
	return r + "]";
}
uint64_t fpl(const L &l) { uint64_t h = 3; for (int x : l) h = fnv(&x, sizeof x, h); return h; }
std::string N(long i) { return std::to_string(i); }

void full(std::string &src, std::string &out, const char *nm, const L &l) {
	std::string n = nm;
	src += "echo " + n + "; echo len " + n + ";\n";
	out += show(l) + "\n" + N((long)l.size()) + "\n";
	long c = (long)l.size();
	for (long i = -c; i < c; i++) {
		src += "echo " + n + "[" + N(i) + "];";
		out += VALS[l[i < 0 ? i + c : i]].show + "\n";
	}
	src += "\nq = ''; for e <- " + n + " { q ~= \"#{e};\"; };\necho q;\n";
	for (int x : l) out += VALS[x].show + ";";
	out += "\n";
	for (auto &v : VALS) {
		long k = 0;
		for (int x : l) if (VALS[x].cls == v.cls && v.cls >= 0) k++;
		src += "echo " + n + "->count(" + v.lit + ");";
		out += N(k) + "\n";
		if (k) { src += "echo " + n + "[" + n + "->search(" + v.lit + ")] == " + v.lit + ";"; out += "true\n"; }
		else { src += "echo " + n + "->search(" + v.lit + ");"; out += "undef\n"; }
	}
	src += "\necho " + n + "->join(','); echo " + n + "->join(''); echo collections.list(" + n + "->spread());\n";
	std::string j, k;
	for (size_t i = 0; i < l.size(); i++) { j += (i ? "," : "") + VALS[l[i]].show; k += VALS[l[i]].show; }
	out += j + "\n" + k + "\n" + show(l) + "\n";
}

// Sequences of operations; an operation that must fail ends the history.
void gen_ops(Chooser &ch, Case &c, int depth, int nv) {
	L l, m;
	std::string src = "let q = ''; let r = undef; let l = []; let m = [];\n", out;
	bool failed = false;
	int line = 1;
	for (int d = 0; d < depth && !failed; d++) {
		line++;
		long n = (long)l.size();
		uint32_t o = ch.choose(10);
		switch (o) {
		case 0: { int v = (int)ch.choose(nv); src += "l->push(" + VALS[v].lit + ");"; l.push_back(v); break; }
		case 1:
			src += "echo l->pop();";
			if (l.empty()) failed = true;
			else { out += VALS[l.back()].show + "\n"; l.pop_back(); }
			break;
		case 2: {
			long i = (long)ch.choose((uint32_t)(2 * n + 3)) - n - 1;
			int v = (int)ch.choose(nv);
			src += "l->insert(" + N(i) + ", " + VALS[v].lit + ");";
			if (i < -n || i > n) failed = true;
			else l.insert(l.begin() + (i < 0 ? i + n : i), v);
			break;
		}
		case 3: {
			long i = (long)ch.choose((uint32_t)(2 * n + 2)) - n - 1;
			int v = (int)ch.choose(nv);
			src += "l[" + N(i) + "] = " + VALS[v].lit + ";";
			if (i < -n || i >= n) failed = true;
			else l[i < 0 ? i + n : i] = v;
			break;
		}
		case 4: src += "l->reverse();"; std::reverse(l.begin(), l.end()); break;
		case 5: src += "l->clear();"; l.clear(); break;
		case 6: src += "m = l->copy();"; m = l; break;
		case 7: src += "r = l; l = m; m = r;"; std::swap(l, m); break;
		case 8: src += "l = l + m;"; l.insert(l.end(), m.begin(), m.end()); break;
		case 9: {
			int v = (int)ch.choose(nv);
			src += "l = [undef, " + VALS[v].lit + "]; m = [x for x <- l];";
			l = { 3, v }; m = l; break;
		}
		}
		if (failed) { c.line = line; c.status = 7; }
		else { src += "echo len l;"; out += N((long)l.size()) + "\n"; }
		src += "\n";
		c.states.push_back(fpl(l) * 7 + fpl(m));
	}
	full(src, failed ? *std::make_unique<std::string>() : out, "l", l);
	if (!failed) full(src, out, "m", m);
	src += "echo l == m; echo l != m; echo l == l->copy();\n";
	if (!failed) {
		bool eq = l.size() == m.size();
		for (size_t i = 0; eq && i < l.size(); i++) eq = VALS[l[i]].cls == VALS[m[i]].cls;
		out += eq ? "true\nfalse\n" : "false\ntrue\n";
		out += "true\n";
	}
	c.src = src; c.out = out; c.transitions = depth;
}

// Growth: long runs of push/insert/pop around the capacity steps.
void gen_grow(Chooser &ch, Case &c, int depth, const std::vector<int> &sizes) {
	std::vector<long> l;
	std::string src = "let l = [];\n", out;
	int g = 0;
	for (int d = 0; d < depth; d++) {
		uint32_t o = ch.choose(6);
		int n = o < 4 ? ch.pick(sizes) : 0;
		g += 1000;
		std::string lim = "for let i = 0; i < " + N(n) + "; i += 1 { ";
		switch (o) {
		case 0: src += lim + "l->push(i + " + N(g) + "); };\n"; for (int i = 0; i < n; i++) l.push_back(i + g); break;
		case 1: src += lim + "l->insert(0, i + " + N(g) + "); };\n"; for (int i = 0; i < n; i++) l.insert(l.begin(), i + g); break;
		case 2: src += lim + "if len l > 0 { l->pop(); }; };\n"; for (int i = 0; i < n && !l.empty(); i++) l.pop_back(); break;
		case 3: src += lim + "l->insert(len l // 2, i + " + N(g) + "); };\n"; for (int i = 0; i < n; i++) l.insert(l.begin() + (long)(l.size() / 2), i + g); break;
		case 4: src += "l = l->copy(); l->reverse();\n"; std::reverse(l.begin(), l.end()); break;
		case 5: src += "l = l + l;\n"; { auto k = l; l.insert(l.end(), k.begin(), k.end()); } break;
		}
		uint64_t h = 9;
		for (long x : l) h = fnv(&x, sizeof x, h);
		c.states.push_back(h);
		src += "echo len l;\n";
		out += N((long)l.size()) + "\n";
	}
	src += "for x <- l { echo x; };\nfor let i = 0; i < len l; i += 1 { echo l[i]; echo l[i - len l]; };\n";
	for (long x : l) out += N(x) + "\n";
	for (long x : l) out += N(x) + "\n" + N(x) + "\n";
	c.src = src; c.out = out; c.transitions = depth;
}

// Nested and shared lists: printing, aliasing, comparison.
void gen_nest(Chooser &ch, Case &c) {
	// three list variables; each gets up to two elements out of {1, earlier list variables}
	std::string src, out;
	std::vector<std::string> sh(3);
	std::vector<std::vector<int>> els(3);
	for (int i = 0; i < 3; i++) {
		uint32_t n = ch.choose(3);
		std::string lit = "[";
		for (uint32_t k = 0; k < n; k++) {
			int e = (int)ch.choose((uint32_t)i + 2);
			els[i].push_back(e);
			lit += (k ? ", " : "") + (e == 0 ? std::string("1") : e == i + 1 ? std::string("'s'") : "v" + N(e - 1));
		}
		src += "let v" + N(i) + " = " + lit + "];\n";
	}
	auto render = [&]() {
		for (int i = 0; i < 3; i++) {
			sh[i] = "[";
			for (size_t k = 0; k < els[i].size(); k++) {
				int e = els[i][k];
				sh[i] += (k ? ", " : "") + (e == 0 ? "1" : e == i + 1 ? "s" : e == 9 ? "9" : sh[e - 1]);
			}
			sh[i] += "]";
		}
	};
	render();
	src += "echo v0; echo v1; echo v2;\n";
	for (int i = 0; i < 3; i++) out += sh[i] + "\n";
	uint32_t w = ch.choose(3);
	src += "v" + N(w) + "->push(9); echo v0; echo v1; echo v2;\n";
	els[w].push_back(9);
	render();
	for (int i = 0; i < 3; i++) out += sh[i] + "\n";
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		src += "echo v" + N(i) + " == v" + N(j) + ";";
		out += sh[i] == sh[j] ? "true\n" : "false\n";
	}
	c.src = src + "\n"; c.out = out;
	c.states.push_back(fp(sh[0] + "/" + sh[1] + "/" + sh[2]));
}

// Index and argument types.
void gen_types(Chooser &ch, Case &c) {
	static const char *const BAD[] = { "'a'", "1.0", "undef", "true", "[]", "{}" };
	uint32_t b = ch.choose(6), how = ch.choose(6);
	std::string bad = BAD[b];
	c.src = "let l = [1, 2];\necho l;\n";
	c.out = "[1, 2]\n";
	c.status = 5;
	c.line = 3;
	switch (how) {
	case 0: c.src += "echo l[" + bad + "];\n"; break;
	case 1: c.src += "l[" + bad + "] = 3;\n"; break;
	case 2: c.src += "l->insert(" + bad + ", 3);\n"; break;
	case 3: c.src += "echo l + " + (bad == "[]" ? "1" : bad) + ";\n"; break;
	case 4: if (bad == "'a'") throw Prune{}; c.src += "l->join(" + bad + ");\n"; if (bad == "undef") { c.status = 0; c.line = -1; } break;
	case 5: c.src += "l[0](" + bad + ");\n"; break;
	}
	c.src += "echo 'unreachable';\n";
	if (c.status == 0) throw Prune{};
}

// What an operation gives is a list of its own: changing any of the lists involved leaves the others alone.
void gen_own(Chooser &ch, Case &c) {
	using W = std::vector<int>;
	W a, b, r;
	for (int i = (int)ch.choose(4); i > 0; i--) a.push_back(10 - 3 * i);
	static const char *E[] = { "a + b", "a + a", "a->copy()", "[x for x <- a]", "a[0:]", "a[:len a]", "a[0:len a]", "collections.list(a->spread())", "b + a", "a->copy()->copy()", "[a[i] for i <- a->copy()]" };
	uint32_t e = ch.choose(10);
	if (e == 0 || e == 8) for (int i = (int)ch.choose(4); i > 0; i--) b.push_back(40 + 2 * i);
	r = a;
	if (e == 0) r.insert(r.end(), b.begin(), b.end());
	if (e == 1) r.insert(r.end(), a.begin(), a.end());
	if (e == 8) { r = b; r.insert(r.end(), a.begin(), a.end()); }
	auto lit = [](const W &w) { std::string t; for (size_t i = 0; i < w.size(); i++) t += (i ? ", " : "") + N(w[i]); return "[" + t + "]"; };
	c.src = "let a = " + lit(a) + "; let b = " + lit(b) + ";\nlet r = " + E[e] + ";\n";
	W *L[] = { &a, &b, &r };
	static const char *NM[] = { "a", "b", "r" };
	for (int k = 0; k < 2; k++) {
		uint32_t t = ch.choose(3), m = ch.choose(7);
		W &w = *L[t];
		std::string n = NM[t];
		switch (m) {
		case 0: c.src += n + "->push(99);\n"; w.push_back(99); break;
		case 1: if (w.empty()) throw Prune{}; c.src += n + "->pop();\n"; w.pop_back(); break;
		case 2: c.src += n + "->clear();\n"; w.clear(); break;
		case 3: c.src += n + "->reverse();\n"; std::reverse(w.begin(), w.end()); break;
		case 4: c.src += n + "->sort();\n"; std::sort(w.begin(), w.end()); break;
		case 5: c.src += n + "->insert(0, 98);\n"; w.insert(w.begin(), 98); break;
		case 6: if (w.empty()) throw Prune{}; c.src += n + "[-1] = 97;\n"; w.back() = 97; break;
		}
		c.src += "echo a; echo b; echo r;\n";
		c.out += lit(a) + "\n" + lit(b) + "\n" + lit(r) + "\n";
	}
	c.states.push_back(fp(c.out));
	c.transitions = 3;
}
Reg r({ "T03",
	"every program in the enumerated operation histories is run and compared, after each operation, with a sequence model",
	{ "which of several equal elements search finds is not specified", "lists that contain themselves are outside the space" },
	[](std::vector<Space> &v, bool th) {
		int d = th ? 5 : 4;
		v.push_back({ "ops", "all histories of " + std::to_string(d - 1) + " operations (every index in range and one beyond) with 7 values", [d](Chooser &ch, Case &c) { gen_ops(ch, c, d - 1, 7); }, 4 });
		v.push_back({ "ops-deeper", "all histories of " + std::to_string(d) + " operations (every index in range and one beyond) with 2 values", [d](Chooser &ch, Case &c) { gen_ops(ch, c, d, 2); }, 4 });
		std::vector<int> sz = th ? std::vector<int>{ 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33 } : std::vector<int>{ 1, 4, 5, 8, 17 };
		v.push_back({ "grow", "all sequences of 3 bulk phases, sizes around the capacity steps", [sz](Chooser &ch, Case &c) { gen_grow(ch, c, 3, sz); }, 3 });
		v.push_back({ "nest", "all acyclic sharings of 3 lists of up to 2 elements, one mutation", gen_nest, 4 });
		v.push_back({ "own", "10 operations that give a list x operands of 0 to 3 elements x all pairs of 7 changes of any of the lists", gen_own, 3 });
		v.push_back({ "types", "6 wrong types x 6 operations", gen_types, 2 });
	} });
}
