// BUILD: variant=asan budget=400 tbudget=3000
// M01: modules behave like values: every require runs the file once and gives what it exports, whose functions work
// from then on in whoever has them.
#include "mc.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
int YASL_decllib_require(struct YASL_State *S);
int YASL_decllib_io(struct YASL_State *S);
}
using namespace mc;
using std::string; using std::vector;

namespace {
void put(const string &path, const string &text) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) _exit(92);
	close(fd);
}
string subst(string s) {                                   // @ stands for the scratch directory
	for (size_t p = 0; (p = s.find('@', p)) != string::npos;) { s.replace(p, 1, scratch_dir()); p += scratch_dir().size(); }
	return s;
}
// "(line N)" and "on line N" in the order they are reported
string lines_of(const string &err) {
	string r;
	for (size_t p = 0; (p = err.find("line ", p)) != string::npos; p += 5) {
		size_t q = p + 5; string n;
		while (q < err.size() && isdigit((unsigned char)err[q])) n += err[q++];
		if (!n.empty()) r += n + " ";
	}
	return r;
}
struct File { string name, text; };
struct Want { int status = 0; string out; bool check_lines = false; string lines; vector<string> says; bool leaks = true; };
string run(const vector<File> &files, const string &src, const Want &w, const RunOpts &o = RunOpts(), bool in_dir = true) {
	for (auto &f : files) put(subst(f.name), subst(f.text));
	char cwd[4096];
	if (!getcwd(cwd, sizeof cwd)) _exit(93);
	if (in_dir && chdir(scratch_dir().c_str())) _exit(93);
	Outcome r = run_program(subst(src), o);
	if (in_dir && chdir(cwd)) _exit(93);
	count_traces(1);
	for (auto &f : files) if (f.text != "/") unlink(subst(f.name).c_str());
	Case c; c.status = w.status; c.out = w.out; c.check_leaks = w.leaks;
	string e = compare(c, r);
	if (w.check_lines && lines_of(r.err) != w.lines) e += "lines reported: " + lines_of(r.err) + ", expected: " + w.lines + "\nstderr: " + printable(r.err.substr(0, 500)) + "\n";
	for (auto &s : w.says) if (r.err.find(s) == string::npos) e += "error text does not say " + s + ": " + printable(r.err.substr(0, 500)) + "\n";
	return e;
}
void set(Case &c, vector<File> files, string src, Want w, RunOpts o = RunOpts()) {
	c.src = src;
	c.key = src;
	for (auto &f : files) { c.key += "\n=== " + f.name + "\n" + f.text; }
	c.src = "";
	c.custom = [=] { return run(files, src, w, o); };
}

// ---------------------------------------------------------------- graphs of modules
// edge[i][j]: 0 none, 1 required when the module is loaded, 2 required by a function of the module
struct Graph { int n; int edge[4][4]; };
string S(long x) { return std::to_string(x); }
vector<File> files_of(const Graph &g) {
	vector<File> v;
	for (int i = 0; i < g.n; i++) {
		string s = "let n = " + S(10 * i) + "\nconst name = 'mod" + S(i) + "'\nconst lst = ['own" + S(i) + "', " + S(1000 + i) + ", 'all']\necho 'load ' ~ name\n";
		string dep, lazy;
		for (int j = i + 1; j < g.n; j++) {
			if (g.edge[i][j] == 1) { s += "const d" + S(j) + " = require('m" + S(j) + "')\n"; dep += (dep.empty() ? "" : ", ") + ("d" + S(j)); }
			if (g.edge[i][j] == 2) lazy += "\tconst q" + S(j) + " = require('m" + S(j) + "')\n\tr += q" + S(j) + ".inc() + q" + S(j) + ".inc()\n";
		}
		s += "fn inc() {\n\tn += 1\n\treturn n\n}\n"
		     "fn get() {\n\treturn name ~ ':' ~ inc() ~ ':" + S(i) + ":' ~ " + S(100000 + i) + " ~ ':all'\n}\n"
		     "fn lazy() {\n\tlet r = " + S(2000 + i) + "\n" + lazy + "\tn += 1\n\treturn r\n}\n"
		     "fn call(f) {\n\treturn 'r" + S(i) + "' ~ f(n, " + S(3000 + i) + ") ~ " + S(i) + ".25\n}\n";
		s += "export {'inc': inc, 'get': get, 'lazy': lazy, 'call': call, 'lst': lst, 'deps': [" + dep + "]}\necho 'never'\n";
		v.push_back({ "@/m" + S(i) + ".yasl", s });
	}
	return v;
}
struct Inst { int mod; long n; string lst; vector<int> deps; };
struct Model {
	const Graph &g;
	vector<Inst> insts;
	string out;
	uint64_t steps = 0;
	int load(int i) {
		Inst x; x.mod = i; x.n = 10 * i; x.lst = "own" + S(i) + ", " + S(1000 + i) + ", all";
		out += "load mod" + S(i) + "\n";
		steps++;
		for (int j = i + 1; j < g.n; j++) if (g.edge[i][j] == 1) x.deps.push_back(load(j));
		insts.push_back(x);
		return (int)insts.size() - 1;
	}
	long lazy(int k) {
		long r = 2000 + insts[k].mod;
		int m = insts[k].mod;
		for (int j = m + 1; j < g.n; j++) if (g.edge[m][j] == 2) { int q = load(j); long a = ++insts[q].n, b = ++insts[q].n; r += a + b; }
		insts[k].n++;
		return r;
	}
};
void graph(Chooser &ch, Case &c, int n, int depth) {
	Graph g; memset(&g, 0, sizeof g); g.n = n;
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) g.edge[i][j] = ch.choose(3);
	Model m{ g, {}, "", 0 };
	string s = "const mc = 'main'\nfn mf(x, y) {\n\treturn mc ~ x ~ '/' ~ y ~ '/' ~ 77777\n}\n";
	vector<int> v;
	for (int d = 0; d < depth; d++) {
		int k = (int)v.size();
		int o = ch.choose(n + k * 6);
		if (o < n) {
			if (k == 2) throw Prune{};
			s += "const v" + S(k) + " = require('m" + S(o) + "')\n";
			v.push_back(m.load(o));
			continue;
		}
		o -= n;
		int w = o / 6; o %= 6;
		string x = "v" + S(w);
		int id = v[w];
		Inst *in = &m.insts[id];
		switch (o) {
		case 0: s += "echo " + x + ".inc()\n"; m.out += S(++in->n) + "\n"; break;
		case 1: s += "echo " + x + ".get()\n"; in->n++; m.out += "mod" + S(in->mod) + ":" + S(in->n) + ":" + S(in->mod) + ":" + S(100000 + in->mod) + ":all\n"; break;
		case 2: { s += "echo " + x + ".lazy()\n"; long r = m.lazy(id); m.out += S(r) + "\n"; break; }
		case 3: s += "echo " + x + ".call(mf)\n"; m.out += "r" + S(in->mod) + "main" + S(in->n) + "/" + S(3000 + in->mod) + "/77777" + S(in->mod) + ".25\n"; break;
		case 4: s += x + ".lst->push(" + S(d) + ")\necho " + x + ".lst\n"; in->lst += ", " + S(d); m.out += "[" + in->lst + "]\n"; break;
		case 5: {
			if (in->deps.empty()) throw Prune{};
			int last = in->deps.back();
			s += "echo " + x + ".deps[-1].inc()\n"; m.out += S(++m.insts[last].n) + "\n";
			break;
		}
		}
		m.steps++;
	}
	s += "echo mf('all', 1.5)\n"; m.out += "mainall/1.5/77777\n";
	Want w; w.out = m.out;
	set(c, files_of(g), s, w);
	c.transitions = m.steps;
	uint64_t h = 7; for (auto &i : m.insts) { h = fnv(&i.n, sizeof i.n, h); h = fnv(i.lst.data(), i.lst.size(), h); }
	c.states.push_back(h);
}

// ---------------------------------------------------------------- what can be exported, and where require can stand
struct Val { const char *decl, *expr, *show, *text; };        // show: expression over the required value v
const vector<Val> &vals() {
	static const vector<Val> v = {
		{ "", "42", "v", "42" }, { "", "1234567890123", "v", "1234567890123" }, { "", "2.5", "v", "2.5" }, { "", "true", "v", "true" }, { "", "undef", "v ?? 'none'", "none" },
		{ "", "'te' ~ 'xt'", "v", "text" }, { "", "[1, ['a' ~ 'b'], {}]", "v", "[1, [ab], {}]" }, { "", "{'k': [1, 2]}", "v.k", "[1, 2]" },
		{ "let s = 'up'\n", "fn(x) { s = s ~ x; return s; }", "v('a') ~ v('b')", "upaupab" }, { "", "fn(x) { return x ~ 'z'; }", "v(1)", "1z" },
		{ "const l = [7]\nconst t = {'l': l}\n", "[l, t, l]", "v[0] == v[2]", "true" },
		{ "const o = mt.set({}, {'tostr': fn(o) { return 'str'; }, '__add': fn(a, b) { return 'added'; }})\n", "o", "v ~ (v + 1)", "stradded" },
		{ "fn a(n) { return n * 2; }\nfn b(n) { return a(n) + 1; }\n", "[a, b]", "v[1](v[0](3))", "13" },
		{ "const c = [(fn(i) { return fn() { i += 1; return i; }; })(j) for j <- [5, 6]]\n", "c", "v[0]() ~ v[1]() ~ v[0]()", "677" },
		{ "", "math.max", "v(3, 9)", "9" }, { "", "math", "v.abs(-4)", "4" }, { "", "'abc'->toupper", "v ?? 1", nullptr },
		{ "let s = collections.set(1, 2)\n", "s", "len v", "2" }, { "fn two() { return 8, 9; }\n", "two", "[v()]", nullptr },
	};
	return v;
}
const char *PLACES[][2] = {                                   // R: require; each must end with v being the value
	{ "const v = R\necho E\n", "E\n" }, { "fn f(v) { return E; }\necho f(R)\n", "E\n" }, { "echo [1, fn(v) { return E; }(R), 3]\n", "[1, E, 3]\n" },
	{ "fn f() { const a = 5; const v = R; const b = E; return a ~ b; }\necho f()\n", "5E\n" }, { "for i <- [1, 2] { const v = R; echo i ~ E; }\n", "1E\n2E\n" },
	{ "const l = [fn(v) { return E; }(R) for i <- [1, 2]]\necho l\n", "[E, E]\n" }, { "const t = {'a': 1, 'r': R, 'b': 2}\nconst v = t.r\necho E ~ t.a ~ t.b\n", "E12\n" },
	{ "let a = 1, let v, let b = 2, R, 3\necho a ~ E ~ b\n", nullptr }, { "const f = fn(x) { return fn(v) { return x ~ E; }; }('c')\necho f(R)\n", "cE\n" },
	{ "match 1 {\n\t1 {\n\t\tconst v = R\n\t\techo E\n\t}\n}\n", "E\n" }, { "let i = 0\nwhile i < 3 {\n\tconst v = R\n\tif i == 1 { echo E; }\n\ti += 1\n}\n", "E\n" },
	{ "const s = 'r'\nconst v = [R, s ~ 's'][0]\necho s ~ E ~ s\n", "rEr\n" }, { "const r = require\nconst v = [R][0]\nconst w = r('none' ~ (1 ~ ''))\necho w ~ E\n", "xE\n" },
};
void forms(Chooser &ch, Case &c) {
	const Val &v = vals()[ch.choose(vals().size())];
	auto &p = PLACES[ch.choose(sizeof PLACES / sizeof *PLACES)];
	int file = ch.choose(2);
	if (!v.text || !p[1]) throw Prune{};
	auto rep = [](string s, const string &a, const string &b) { for (size_t q = 0; (q = s.find(a, q)) != string::npos; q += b.size()) s.replace(q, a.size(), b); return s; };
	string src = rep(p[0], "R", "require('m0')");
	src = rep(src, "E", string("(") + v.show + ")");
	src = "const before = 'bef' ~ 'ore'\n" + src + "echo before ~ 555\n";
	Want w; w.out = rep(p[1], "E", v.text) + "before555\n";
	RunOpts o; o.file = file;
	set(c, { { "@/m0.yasl", string(v.decl) + "export " + v.expr + "\n" }, { "@/none1.yasl", "export 'x'\n" } }, src, w, o);
}

// ---------------------------------------------------------------- modules that fail, functions of modules that fail later
struct Bad { const char *text; const char *lines; const char *says; const char *out; };
const vector<Bad> &bads() {
	static const vector<Bad> v = {
		{ "let = 3\n", "1 ", "SyntaxError", "" }, { "let a = 1\nlet b = nosuch\nexport a\n", "2 ", "nosuch", "" }, { "echo 'one'\nlet a = 'x' ~ 'y'\n", "", "", "one\n" }, { "", "", "", "" }, { "# nothing\n", "", "", "" },
		{ "echo 'one'\nlet l = ['x' ~ 'y']\n\nl + 1\nexport l\n", "4 ", "TypeError", "one\n" }, { "fn f(a) {\n\treturn a // 0\n}\nlet l = ['x' ~ 'y']\nf(1)\nexport l\n", "2 5 ", "DivisionByZeroError", "" },
		{ "for i <- [1, 2, 3] {\n\tlet j = [i]\n\tfor k <- j {\n\t\tassert k < 2\n\t}\n}\nexport 1\n", "4 ", "AssertError", "" },
		{ "const t = {'a': ['b']}\necho t.a->nosuch()\nexport t\n", "2 ", "", "" }, { "fn f() { export 1; }\n", "1 ", "SyntaxError", "" }, { "const a = 1\na = 2\nexport a\n", "2 ", "SyntaxError", "" },
		{ "let n = 'q' ~ 1\nconst f = fn() { n = n ~ 'x'; return n; }\nmath.hook = f\nf()\nf() + 1\nexport f\n", "5 ", "TypeError", "" },
		{ "let l = []\nl->pop()\nexport l\n", "2 ", "ValueError", "" }, { "const m = require('nosuch')\nexport m\n", "1 ", "could not open", "" }, { "const m = require(5)\nexport m\n", "1 ", "TypeError", "" },
		{ "const m = require('inner')\nexport m\n", "3 1 ", "TypeError", "in\n" }, { "echo 'x'\n\nfn f() { return require('inner'); }\nconst m = f()\nexport m\n", "3 3 4 ", "TypeError", "x\nin\n" },
		{ "const m = require('fine')\necho m.ok(1)\nm.bad(2)\nexport m\n", "10 3 ", "TypeError", "okay1\n" },
	};
	return v;
}
const char *INNER = "let v = ['in']\necho v[0]\nv + 3\nexport v\n";
const char *FINE = "# fine\nlet n = 'okay'\n\nfn ok(x) {\n\treturn n ~ x\n}\n\nfn bad(x) {\n\tconst y = [x, n]\n\treturn y + 1\n}\nfn cb(f) {\n\n\treturn f()\n}\nexport {'ok': ok, 'bad': bad, 'cb': cb}\n";
vector<File> bad_files(const string &m) { return { { "@/bad.yasl", m }, { "@/inner.yasl", INNER }, { "@/fine.yasl", FINE }, { "@/fine2.yasl", "export 'fine2'\n" } }; }
struct Place { const char *src; const char *lines; const char *out; };
void failing(Chooser &ch, Case &c) {
	const Bad &b = bads()[ch.choose(bads().size())];
	static const Place pl[] = {
		{ "const m = require('bad')\necho 'no'\n", "1 ", "" }, { "let s = 'a' ~ 'b'\necho s\nfn f() {\n\tlet l = [s]\n\treturn [l, require('bad'), 3]\n}\n\necho f()\n", "5 8 ", "ab\n" },
		{ "let a = require('fine')\nfor i <- [1, 2] {\n\techo a.ok(i)\n\tlet z = {'k': require('bad')}\n}\n", "4 ", "okay1\n" },
		{ "let a = require('fine')\nlet l = ['x' ~ 'y']\n\n\nlet f = fn() {\n\tlet q = [l, 3]\n\treturn require('bad')\n}\na.cb(f)\n", "7 14 9 ", "" },
		{ "let f = fn(x) {\n\treturn x\n}\nlet a = [f(i) for i <- [require('fine2'), require('bad')]]\n", "4 ", "" },
	};
	auto &p = pl[ch.choose(5)];
	Want w; w.status = YASL_ERROR; w.out = string(p.out) + b.out; w.check_lines = true; w.lines = string(b.lines) + p.lines;
	if (string(b.text).find("require('inner')") != string::npos || string(b.text).find("m.bad") != string::npos) {}
	w.says.push_back("bad is not a valid module");
	if (*b.says) w.says.push_back(b.says);
	set(c, bad_files(b.text), p.src, w);
}
// a function that came from a module fails when it is called later, from anywhere
void later(Chooser &ch, Case &c) {
	static const Place pl[] = {
		{ "const m = require('fine')\necho m.ok(2)\n\n\nm.bad(3)\n", "10 5 ", "okay2\n" }, { "const m = require('fine')\nconst k = require('fine2')\nfn f() {\n\treturn m.bad(k)\n}\n\nf()\n", "10 4 7 ", "" },
		{ "const m = require('fine')\n\n\nconst f = fn() {\n\n\n\treturn 'x' - 1\n}\nm.cb(f)\n", "7 14 9 ", "" }, { "const m = require('fine')\nconst k = require('fine')\nfn g() {\n\treturn m.bad(1)\n}\nfn f() {\n\treturn k.cb(g)\n}\nm.cb(f)\n", "10 4 14 7 14 9 ", "" },
		{ "const m = require('fine')\nlet z = 3\nz->nosuch()\n", "3 ", "" }, { "fn f(x) {\n\treturn x - 'a'\n}\nconst m = require('fine')\necho m.ok(5)\nf(5)\n", "2 6 ", "okay5\n" },
		{ "const a = [require('fine') for i <- [1, 2, 3]]\n\nfor m <- a {\n\techo m.ok(1)\n}\na[1].bad(0)\n", "10 6 ", "okay1\nokay1\nokay1\n" },
	};
	auto &p = pl[ch.choose(7)];
	int pre = ch.choose(4), pad = ch.choose(4);
	string s, o;
	int add = 0;
	if (pre & 1) { s += "const first = require('fine2')\n"; add++; }
	if (pre & 2) { s += "echo 'one'\necho 'two'\n"; o += "one\ntwo\n"; add += 2; }
	string pads[] = { "", "\n", "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n", "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n" };
	s += pads[pad]; add += (int)pads[pad].size();
	// lines of main are shifted, lines of the module are not
	string lines; bool module_next = false;
	string L = p.lines; size_t q = 0;
	while (q < L.size()) { size_t e = L.find(' ', q); int n = atoi(L.substr(q, e - q).c_str()); lines += S(n == 10 || n == 14 ? n : n + add) + " "; q = e + 1; }
	(void)module_next;
	Want w; w.status = YASL_TYPE_ERROR; w.out = o + p.out; w.check_lines = true; w.lines = lines;
	if (string(p.src).find("nosuch") != string::npos) w.status = YASL_VALUE_ERROR;
	set(c, bad_files(""), s + p.src, w);
}

// ---------------------------------------------------------------- what a module shares with whoever requires it
void shared(Chooser &ch, Case &c) {
	struct T { const char *mod, *src, *out; };
	static const T t[] = {
		{ "export 1\n", "math.zork = 5\nrequire('m0')\necho math.zork\n", "5\n" }, { "export math.zork\n", "math.zork = 5\necho require('m0')\n", "5\n" },
		{ "math.zork = 6\nexport 1\n", "require('m0')\necho math.zork\n", "6\n" }, { "export fn() { return math.zork; }\n", "const f = require('m0')\nmath.zork = 7\necho f()\n", "7\n" },
		{ "export 1\n", "math.abs = fn(x) { return 'mine' ~ x; }\nrequire('m0')\necho math.abs(-2)\n", "mine-2\n" }, { "export math.abs(-2)\n", "math.abs = fn(x) { return 'mine' ~ x; }\necho require('m0')\n", "mine-2\n" },
		{ "export collections.set(1, 2)\n", "const s = require('m0')\nconst z = collections.set(2, 1)\necho s == z\ns->add(3)\necho len s\necho len (s | collections.set(9))\n", "true\n3\n4\n" },
		{ "export fn(s) { s->add('m'); return len (s & collections.set('m', 'n')); }\n", "const f = require('m0')\nconst s = collections.set('n')\necho f(s)\necho len s\n", "2\n2\n" },
		{ "export fn(o) { return mt.get(o).k; }\n", "const f = require('m0')\nconst o = mt.set({}, {'k': 'key'})\necho f(o)\n", "key\n" },
		{ "let s = 'same'\nexport fn() { return s ~ 'main'; }\n", "let s = 'main'\nconst f = require('m0')\ns = 'changed'\necho f() ~ s\n", "samemainchanged\n" },
		{ "const x = 1\nlet y = x\ny += 1\nexport fn() { y += x; return y; }\n", "const x = 50\nlet y = 60\nconst f = require('m0')\nconst g = require('m0')\necho f() ~ f() ~ g() ~ x ~ y\n", "3435060\n" },
		{ "io.stdout->write('mod ')\nexport 1\n", "const o = io.stdout\nrequire('m0')\necho o == io.stdout\n", "true\n" },
		{ "let l = []\nexport {'add': fn(x) { l->push(x); return l; }, 'l': l}\n", "const a = require('m0')\nconst b = require('m0')\na.add(1)\nb.add('x' ~ 'y')\na.l->push(2)\necho a.add(3)\necho b.add(4)\necho a.l == b.l\n", "[1, 2, 3]\n[xy, 4]\nfalse\n" },
	};
	const int N = sizeof t / sizeof *t;
	int i = ch.choose(N), twice = ch.choose(3), mode = ch.choose(2);
	string s = t[i].src;
	if (twice) s = (twice == 1 ? "require('other')\n" : "for i <- [1, 2, 3] { require('other'); }\n") + s + "require('other')\n";
	Want w; w.out = t[i].out;
	RunOpts o; o.file = mode;
	if (string(t[i].mod).find("io.stdout") == 0) c.check_leaks = true;
	if (string(t[i].mod).find("io.stdout") == 0) throw Prune{};
	set(c, { { "@/m0.yasl", t[i].mod }, { "@/other.yasl", "const z = ['o', 12345, 'main', 0.75]\nexport fn(a) { return z[a] ~ 'same'; }\n" } }, s, w, o);
}
// a host that declares nothing but require: modules still have every library
void bare(Chooser &ch, Case &c) {
	struct T { const char *mod, *src, *out; };
	static const T t[] = {
		{ "export collections.set(1, 2)\n", "const s = require('m0')\ns->add(3)\necho len s\n", "3\n" }, { "export [math.abs(-3), collections.list(1)]\n", "echo require('m0')\n", "[3, [1]]\n" },
		{ "export {'abs': fn(x) { return math.abs(x); }, 'set': fn(x) { return collections.set(x, x); }}\n", "const m = require('m0')\necho m.abs(-8) ~ len m.set(2)\n", "81\n" },
		{ "const o = mt.set({}, {'m': fn(o) { return 'meth'; }})\nexport o\n", "echo require('m0')->m()\n", "meth\n" },
	};
	int i = ch.choose(4), again = ch.choose(3);
	string s = t[i].src;
	for (int k = 0; k < again; k++) s = "require('m1')\n" + s;
	Want w; w.out = t[i].out;
	RunOpts o; o.nolibs = true; o.setup = [](void *S) { YASL_decllib_require((struct YASL_State *)S); };
	set(c, { { "@/m0.yasl", t[i].mod }, { "@/m1.yasl", "export math.pi\n" } }, s, w, o);
}
// how names are turned into files
void paths(Chooser &ch, Case &c) {
	struct T { const char *name; bool dir; const char *out; };
	static const T t[] = {
		{ "@/m", false, nullptr }, { "@/m.yasl", false, "ext" }, { "@/plain", false, "plain" }, { "@/sub/m.yasl", false, "sub" }, { "@/sub/../m.yasl", false, "ext" }, { "@/both", false, "both" }, { "@/m.yam", false, "yam" },
		{ "m", true, "ext" }, { "plain", true, "plain" }, { "sub/m", true, "sub" }, { "both", true, "both.yasl" }, { "m.yam", true, "yam" }, { "./m", true, "ext" }, { "m?", true, "q" }, { "a;b", true, "semi" },
		{ "nosuch", true, nullptr }, { "@/nosuch", false, nullptr }, { "", true, nullptr }, { "sub", true, nullptr }, { "@", false, nullptr }, { "m.yas", true, nullptr }, { "@/m/", false, nullptr }, { "M", true, nullptr },
	};
	const T &x = t[ch.choose(sizeof t / sizeof *t)];
	int times = ch.choose(3);
	string name = x.name;
	Want w;
	string s = "const s = 'a' ~ 'b'\n";
	for (int k = 0; k <= times; k++) { s += "echo require('" + name + "')\n"; if (x.out) w.out += string(x.out) + "\n"; }
	if (!x.out) { w.status = YASL_ERROR; }
	vector<File> f = { { "@/m.yasl", "export 'ext'\n" }, { "@/plain", "export 'plain'\n" }, { "@/both", "export 'both'\n" }, { "@/both.yasl", "export 'both.yasl'\n" }, { "@/m.yam", "export 'yam'\n" }, { "@/m?.yasl", "export 'q'\n" }, { "@/a;b.yasl", "export 'semi'\n" } };
	c.key = s; c.src = "";
	c.custom = [=] {
		mkdir((scratch_dir() + "/sub").c_str(), 0700);
		put(scratch_dir() + "/sub/m.yasl", "export 'sub'\n");
		string e = run(f, s, w, RunOpts(), x.dir);
		unlink((scratch_dir() + "/sub/m.yasl").c_str());
		rmdir((scratch_dir() + "/sub").c_str());
		return e;
	};
}
// many modules, and modules required many times
void many(Chooser &ch, Case &c, int top) {
	int n = 1 + ch.choose(top), kind = ch.choose(3);
	Want w; string s; vector<File> f;
	if (kind == 0) {                                           // one module, n times
		s = "const l = []\nfor i <- x { l->push(require('m0')); }\n";
		string x = "let x = []\nlet k = 0\nwhile k < " + S(n) + " { x->push(k); k += 1; }\n";
		s = x + s + "let t = 0\nfor m <- l { t += m(1) + m(2); }\necho t\necho l[-1](5)\n";
		f.push_back({ "@/m0.yasl", "let n = 1000\nexport fn(x) { n += x; return n; }\n" });
		w.out = S((long)n * (1001 + 1003)) + "\n1008\n";
	} else if (kind == 1) {                                    // n modules, each requires the next
		n = n > 60 ? 60 : n;
		for (int i = 0; i < n; i++) {
			string body = "const own = 'k" + S(i) + "'\n";
			if (i + 1 < n) body += "const next = require('m" + S(i + 1) + "')\nexport fn() { return own ~ next(); }\n";
			else body += "export fn() { return own ~ '.'; }\n";
			f.push_back({ "@/m" + S(i) + ".yasl", body });
			w.out += "k" + S(i);
		}
		w.out += ".\n";
		s = "echo require('m0')()\n";
	} else {                                                   // n different modules with their own constants
		for (int i = 0; i < n; i++) {
			f.push_back({ "@/m" + S(i) + ".yasl", "const a = 'c" + S(i) + "'\nconst b = " + S(500 + i) + "\nexport fn() { return a ~ (b + " + S(300 + i) + ") ~ 'd" + S(i) + "'; }\n" });
			s += "const v" + S(i) + " = require('m" + S(i) + "')\n";
			if (n > 200) throw Prune{};
		}
		for (int i = 0; i < n; i++) { s += "echo v" + S(i) + "()\n"; w.out += "c" + S(i) + S(800 + 2 * i) + "d" + S(i) + "\n"; }
	}
	set(c, f, s, w);
}

Reg r({ "M01", "graphs of modules that require each other when loaded or later, with every sequence of requires and uses of what they export; every kind of exported value × every place of require; every way for a module to fail × every place, with the reported lines; names and files; numbers of modules",
	{ "each require runs the file anew, there is no cache", "modules only reach what they share through the library tables and what they export" },
	[](vector<Space> &v, bool th) {
	v.push_back({ "graph2", "2 modules, " + S(th ? 6 : 4) + " operations", [=](Chooser &ch, Case &c) { graph(ch, c, 2, th ? 6 : 4); }, 3 });
	v.push_back({ "graph3", "3 modules, " + S(th ? 4 : 3) + " operations", [=](Chooser &ch, Case &c) { graph(ch, c, 3, th ? 4 : 3); }, 4 });
	if (th) v.push_back({ "graph4", "4 modules, 3 operations", [](Chooser &ch, Case &c) { graph(ch, c, 4, 3); }, 5 });
	v.push_back({ "forms", "19 exports x 13 places x buffer or file", forms, 2 });
	v.push_back({ "failing", "17 ways to fail x 5 places", failing, 2 });
	v.push_back({ "later", "7 uses x modules and lines before", later, 2 });
	v.push_back({ "shared", "13 things shared x other modules x buffer or file", shared, 2 });
	v.push_back({ "bare", "a host that only declares require", bare, 1 });
	v.push_back({ "paths", "23 names x repetitions", paths, 1 });
	v.push_back({ "many", "1.." + S(th ? 250 : 130) + " modules x 3 shapes", [=](Chooser &ch, Case &c) { many(ch, c, th ? 250 : 130); }, 1 });
} });
}
