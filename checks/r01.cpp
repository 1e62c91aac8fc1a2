// R01: an error reports its class, the line of the statement it comes from, and the calls that led there.
// BUILD: wrap=rand
#include "mc.hpp"
#include <algorithm>
#include <regex>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;
extern "C" int __wrap_rand(void) { static int n; return n++; }

namespace {
struct Kind { const char *text; int status; const char *prefix; int extra = 0; };   // extra: calls the statement itself makes that show up; for syntax errors, lines until the error can be seen
const vector<Kind> &kinds() {
	static const vector<Kind> v = {
		{ "echo 1 + [g]", 5, "TypeError: " }, { "let z = [] - 1", 5, "TypeError: " }, { "let z = -g", 5, "TypeError: " }, { "let z = len 5", 5, "TypeError: " },
		{ "let z = 1 // g0", 6, "DivisionByZeroError" }, { "let z = [1, 2 % g0, 3]", 6, "DivisionByZeroError" }, { "assert g0 == 1", 10, "AssertError: " }, { "g->nosuch(1, 2)", 5, "TypeError: " },
		{ "let z = g[5]", 7, "ValueError: " }, { "g[5] = 1", 7, "ValueError: " }, { "let z = g['x']", 5, "TypeError: " }, { "let z = 'ab'[2]", 7, "ValueError: " }, { "g0(1)", 5, "TypeError: " },
		{ "let z = {[g0]: 1}", 5, "TypeError: " }, { "let z = g[1:'a']", 5, "TypeError: " }, { "let z = g0[1:2]", 5, "TypeError: " }, { "let z = 'a' < 1", 5, "TypeError: " }, { "for q <- 5 { echo q; }", 5, "TypeError: " },
		{ "let z = 'ab'->rep(-1)", 7, "ValueError: " }, { "let z = math.sqrt('x')", 5, "TypeError: " }, { "collections.set([g])", 5, "TypeError: " }, { "let z = g0 == 0 ? 1 // g0 : 2", 6, "DivisionByZeroError" },
		{ "g0 = 1 + g0 // g0", 6, "DivisionByZeroError" }, { "let z = \"a#{1 // g0}b\"", 6, "DivisionByZeroError" }, { "let z = [1 // g0 for q <- [1]]", 6, "DivisionByZeroError", 1 }, { "let z = (fn(q) { return q // g0; })(1)", 6, "DivisionByZeroError", 1 },
		{ "let z = 'k' ~ afile", 5, "TypeError: " }, { "echo afile", 5, "TypeError: " }, { "g, g1 = 1, 1 // g0", 6, "DivisionByZeroError" }, { "if 1 // g0 { echo 1; }", 6, "DivisionByZeroError" }, { "while 1 // g0 { echo 1; }", 6, "DivisionByZeroError" },
		{ "require('no-such-file.yasl')", 2, "" }, { "afile->read('q')", 7, "ValueError: " }, { "io.open('x', 'zz')", 7, "ValueError: " }, { "mt.set(1, 2)", 5, "TypeError: " }, { "g->join(1)", 5, "TypeError: " }, { "g->insert(9, 9)", 7, "ValueError: " },
		{ "let z = ''; let yy = g0 // g0; let u = 1", 6, "DivisionByZeroError" }, { "boom()", 2, "HostError" }, { "let z = boom() ?? 1", 2, "HostError" },
	};
	return v;
}
const vector<Kind> &syntax() {
	static const vector<Kind> v = {
		{ "echo )", 4, "" }, { "let = 5", 4, "" }, { "let z 5", 4, "" }, { "echo 1 +* 2", 4, "" }, { "echo nosuchvar", 4, "" }, { "nosuchvar = 1", 4, "" }, { "KC = 2", 4, "" }, { "KC += 2", 4, "" }, { "let dup = 1; let dup = 2", 4, "" },
		{ "echo [1, 2", 4, "", 1 }, { "echo {1: }", 4, "" }, { "f(", 4, "", 1 }, { "echo 0x", 4, "" }, { "echo 'abc", 4, "" }, { "echo \"a#{1\"", 4, "" }, { "echo '\\q'", 4, "" }, { "in = 1", 4, "" }, { "echo 1 ? 2", 4, "", 1 }, { "echo x y", 4, "" }, { "let z = $", 4, "" },
		{ "if true echo 1", 4, "" }, { "fn 5(x) { }", 4, "" }, { "1 = 2", 4, "" }, { "f(1) = 2", 4, "" }, { "echo const", 4, "" },
	};
	return v;
}
// What may stand before the failing statement.
const vector<string> &fillers() {
	static const vector<string> v = [] {
		string longline = "let long = 0"; for (int i = 0; i < 40; i++) longline += " + " + std::to_string(i) + " * g1";
		string longer = "let v8 = ["; for (int i = 0; i < 1000; i++) longer += "g1, "; longer += "1]";
		string many; for (int i = 0; i < 300; i++) many += "\n";
		string stmts; for (int i = 0; i < 130; i++) stmts += "g1 += 1\n";
		return vector<string>{ "", "\n", "# it's a \"comment\" #{\n", "/* one\n two '\n\n*/", "/* x */ ", "let v1 = [\n1,\n\n2\n]\n", "let v2 = `raw\n\n#{\n`\n", "let v3 = \"a#{g1}b\\n\\x0a#{\"c#{g1}\"}\"\n", "fn vf(x) {\n\nreturn x +\n 1\n}\nvf(2)\n",
			"if false {\necho 1\n\n} elseif false {\n} else {\ng1 = 2\n}\n", "for q <- [1,\n2] {\n\ng1 += q\n}\n", "match g1 {\n1 | 2 {\n g1 = 3\n}\n\nlet q {\n}\n}\n", "for let q = 0; q < 2; q += 1 {\nlet w = [\nq]\nif q == 1 {\nbreak\n}\n}\n",
			"let v4 = g1 == 1 ?\n 2 :\n\n 3\n", "const v5 = {\n'a': 1,\n\n'b': fn() {\n\n return 2\n }\n}\n", longline + "\n", longer + "\n", many, stmts, "let v6 = [x\nfor\nx <- [1] if x > 0\n\n]\n", "while g1 < 0 {\n\n}\n", "g1\ng1\n", "const\nfn vg() {\nreturn 1\n}\n", "fn\nvh(x) {\nreturn 1\n}\nvh(\n1)\n", "let v7 = \n\n{\n}\n\n\n", "\t \n \n\n\t" };
	}();
	return v;
}
struct Text {
	string s; int line = 1;
	void add(const string &t) { s += t; line += (int)std::count(t.begin(), t.end(), '\n'); }
};
struct Want { int lo = 0, hi = 0; vector<std::pair<int, int>> calls; bool loose = false; };
// What may surround it.  Calls to get there are recorded, innermost last.
const int NWRAP = 15;
void wrap(Text &t, int k, int d, const std::function<void()> &inner, Want &w, const std::function<void()> &gap) {
	string n = std::to_string(d);
	auto call = [&](const string &text, int before, int after) { w.calls.push_back({ t.line + before, t.line + after }); t.add(text + "\n"); };
	switch (k) {
	case 0: t.add("fn f" + n + "(x) {\n"); inner(); t.add("return 0\n}\n"); gap(); call("let r" + n + " = f" + n + "(1)", 0, 0); break;
	case 1: t.add("const f" + n + " = fn() {\n"); inner(); t.add("return 0\n}\n"); gap(); call("f" + n + "()", 0, 0); break;
	case 2: t.add("let o" + n + " = mt.set({}, {'m': fn(a, b) {\n"); inner(); t.add("return 0\n}})\n"); gap(); call("echo o" + n + "->m(2)", 0, 0); break;
	case 3: t.add("let o" + n + " = mt.set([], {'__add': fn(a, b) {\n"); inner(); t.add("return 0\n}})\n"); gap(); call("let r" + n + " = 1 == o" + n + " + 1", 0, 0); break;
	case 4: t.add("let o" + n + " = mt.set([], {'tostr': fn(a) {\n"); inner(); t.add("return ''\n}})\n"); gap(); call("let r" + n + " = 'a' ~ o" + n, 0, 0); break;
	case 5: t.add("if true {\n"); inner(); t.add("}\n"); break;
	case 6: t.add("if false {\necho 1\n} elseif true {\n"); inner(); t.add("} else {\n\n}\n"); break;
	case 7: t.add("if false {\necho 1\n} else {\n"); inner(); t.add("}\n"); break;
	case 8: t.add("for i" + n + " <- [0, 1] {\nif i" + n + " == 1 {\n"); inner(); t.add("}\n}\n"); break;
	case 9: t.add("for let i" + n + " = 0; i" + n + " < 2; i" + n + " += 1 {\nif i" + n + " == 0 {\ncontinue\n}\n"); inner(); t.add("}\n"); break;
	case 10: t.add("while true {\n"); inner(); t.add("break\n}\n"); break;
	case 11: t.add("match [1, 'a'] {\n[2, *] {\necho 1\n}\n[let m" + n + ", .a] {\n"); inner(); t.add("}\n}\n"); break;
	case 12: t.add("fn f" + n + "(x, y) {\n"); inner(); t.add("return 0\n}\n"); gap(); call("let r" + n + " = [1,\nf" + n + "(\n1,\n2)]", 0, 3); break;
	case 13: t.add("fn f" + n + "(x) {\nif x == 3 {\n"); inner(); t.add("}\n");                           // recursion
		w.calls.push_back({ t.line, t.line }); w.calls.push_back({ t.line, t.line }); t.add("return f" + n + "(x + 1)\n}\n"); gap();
		w.calls.push_back({ t.line, t.line }); t.add("f" + n + "(1)\n"); break;
	case 14: t.add("fn f" + n + "() {\n"); inner(); t.add("return 0\n}\n"); gap(); call("echo math.max(1, f" + n + "())", 0, 0); break;
	}
}
int boom_fn(struct YASL_State *S) { YASL_print_err(S, "HostError: %d", 1); YASL_throw_err(S, YASL_ERROR); }
RunOpts opts() {
	RunOpts o;
	o.setup = [](void *p) {
		auto S = (struct YASL_State *)p;
		YASL_declglobal(S, "g0"); YASL_pushint(S, 0); YASL_setglobal(S, "g0");
		YASL_declglobal(S, "g1"); YASL_pushint(S, 1); YASL_setglobal(S, "g1");
		YASL_declglobal(S, "g"); YASL_pushlist(S); YASL_setglobal(S, "g");
		YASL_declglobal(S, "boom"); YASL_pushcfunction(S, boom_fn, 0); YASL_setglobal(S, "boom");
	};
	return o;
}
string judge(const string &src, const Kind &k, const Want &w, const string &out, bool file) {
	RunOpts op = opts();
	op.file = file;
	Outcome o = run_program(src, op);
	count_traces(1);
	count_state(fp(o.err));
	string all = "\nerr: " + printable(o.err.substr(0, 600)) + "\nout: " + printable(o.out.substr(0, 200));
	if (o.badheap) return "heap fault: " + o.heapmsg + all;
	if (o.status != k.status) return "status " + std::to_string(o.status) + " instead of " + std::to_string(k.status) + all;
	if (o.out != out) return "output is not what was printed before the error" + all;
	if (o.err.compare(0, strlen(k.prefix), k.prefix)) return string("does not start with ") + k.prefix + all;
	std::smatch m;
	if (k.status == 4) {
		static const std::regex re("^SyntaxError: [^\n]*line ([0-9]+)\\)?\\.\n");
		if (!std::regex_search(o.err, m, re)) return "the error names no line" + all;
		int l = std::stoi(m[1]);
		if (o.err.find(m[0].str(), m[0].length()) != string::npos) return "the error is reported twice" + all;
		if (l < w.lo || l > w.hi + k.extra) return "reports line " + std::to_string(l) + " instead of " + std::to_string(w.lo) + all;
		return "";
	}
	size_t p = o.err.find(" (line "), e = p == string::npos ? p : o.err.find('\n', p);
	if (e == string::npos) return "the error names no line" + all;
	int l = atoi(o.err.c_str() + p + 7);
	if (o.err.substr(p, e - p) != " (line " + std::to_string(l) + ")") return "the first line does not end with its line number" + all;
	if (l < w.lo || l > w.hi) return "reports line " + std::to_string(l) + " instead of " + std::to_string(w.lo) + all;
	vector<int> calls;
	for (size_t q = e + 1; q < o.err.size();) {
		size_t r = o.err.find('\n', q);
		if (r == string::npos) return "the last line is cut off" + all;
		string line = o.err.substr(q, r - q);
		if (line.compare(0, 25, "In function call on line ")) return "unexpected line: " + printable(line) + all;
		calls.push_back(atoi(line.c_str() + 25));
		q = r + 1;
	}
	for (int i = 0; i < k.extra; i++) {
		if (calls.empty() || calls[0] < w.lo || calls[0] > w.hi) return "the call the statement makes is not listed" + all;
		calls.erase(calls.begin());
	}
	// calls of functions written in C may be listed too, with the line they are on
	auto &want = w.calls;
	size_t i = 0, j = want.size();
	while (i < calls.size()) {
		if (j > 0 && calls[i] >= want[j - 1].first && calls[i] <= want[j - 1].second) { i++; j--; continue; }
		if (calls[i] >= w.lo && calls[i] <= w.hi && j == want.size()) { i++; continue; }
		if (j < want.size() && calls[i] >= want[j].first && calls[i] <= want[j].second) { i++; continue; }
		return "calls listed are wrong at line " + std::to_string(calls[i]) + all;
	}
	if (j) return "a call is missing: line " + std::to_string(want[j - 1].first) + all;
	// at most one additional entry per call
	if (calls.size() > 2 * want.size() + 1) return "too many calls listed" + all;
	return "";
}
void build(Chooser &ch, Case &c, const vector<Kind> &ks, const vector<string> &before, const vector<int> &wraps, const string &inside, const string &gap, bool file) {
	const Kind k = ch.pick(ks);
	Text t; Want w;
	t.add("echo 'start'; const afile = io.stdout\nconst KC = 1\n");
	for (auto &b : before) t.add(b);
	int depth = 0;
	static const std::regex own("\\b(v[0-9fgh]|long)\\b");
	std::function<void(size_t)> go = [&](size_t i) {
		if (i == wraps.size()) {
			t.add(inside);
			w.lo = w.hi = t.line;
			t.add(string(k.text) + "\n");
			t.add("echo 'not reached'\n");
			return;
		}
		wrap(t, wraps[i], depth++, [&] { go(i + 1); }, w, [&, i] { t.add(std::regex_replace(gap, own, "u" + std::to_string(i) + "$1")); });
	};
	go(0);
	// calls were recorded innermost first; the list is read from its end
	std::reverse(w.calls.begin(), w.calls.end());
	t.add("\n");
	c.src = t.s;
	c.key = printable(t.s);
	string src = t.s, out = k.status == 4 ? "" : "start\n";
	c.custom = [src, k, w, out, file]() { return judge(src, k, w, out, file); };
}
string f(int i) { return fillers()[i]; }
Reg r({ "R01", "one case per (failing statement, surroundings, text before it); status, first line, line number and list of calls are checked", {
	"a statement that stretches over several lines may be reported at any of them",
	"calls made by functions written in C may be listed or not",
}, [](vector<Space> &v, bool th) {
	int nf = (int)fillers().size();
	v.push_back({ "text", std::to_string(kinds().size()) + " failing statements × " + std::to_string(nf) + " texts before them × " + std::to_string(nf) + " right before them in each of 3 surroundings", [nf](Chooser &ch, Case &c) {
		static const int W[] = { 0, 5, 8 };
		int a = (int)ch.choose(nf), b = (int)ch.choose(nf), s = (int)ch.choose(3);
		if (a >= 15 && b >= 15 && a != b) throw Prune{};
		build(ch, c, kinds(), { f(a) }, { W[s] }, f(b) == f(a) ? "" : f(b), "", false);
	}, 2 });
	v.push_back({ "nest", std::to_string(kinds().size()) + " failing statements in every nesting of " + (th ? "1..3" : "1..2") + " of " + std::to_string(NWRAP) + " constructs × 5 texts between", [th](Chooser &ch, Case &c) {
		vector<int> ws;
		int n = 1 + (int)ch.choose(th ? 3 : 2);
		for (int i = 0; i < n; i++) ws.push_back((int)ch.choose(NWRAP));
		static const int G[] = { 0, 1, 5, 8, 17 };
		int g = (int)ch.choose(n == 3 ? 2 : 5);
		build(ch, c, kinds(), { f(G[g]) }, ws, "", g == 3 ? "" : f(G[g]), ch.flip());
	}, 3 });
	v.push_back({ "syntax", std::to_string(syntax().size()) + " malformed statements × " + std::to_string(nf) + " × " + std::to_string(nf) + " texts before them × top level and " + std::to_string(NWRAP) + " constructs", [nf, th](Chooser &ch, Case &c) {
		int a = (int)ch.choose(nf), b = (int)ch.choose(nf), s = (int)ch.choose(NWRAP + 1);
		if (!th && a && b && s > 6) throw Prune{};
		if (a == b && a) throw Prune{};
		build(ch, c, syntax(), { f(a) }, s ? vector<int>{ s - 1 } : vector<int>{}, f(b), "", false);
	}, 2 });
} });
}  // namespace
