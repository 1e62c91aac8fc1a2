// BUILD: variant=asan budget=400 tbudget=3000
// B01: a host chooses the libraries of a state.
#include "mc.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;

namespace {
string S(long x) { return std::to_string(x); }
string text(struct YASL_State *St) { char *c = YASL_popcstr(St); string s = c ? c : ""; free(c); return s; }
string P(const string &x) { return printable(x); }
void put(const string &path, const string &text) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) _exit(92);
	close(fd);
}
enum Lib { COLL, IO, MATH, MT, REQ, REQC, NLIB };
const char *const LIBNAME[] = { "collections", "io", "math", "mt", "require", "__require_c__" };
int (*const DECL[])(struct YASL_State *) = { YASL_decllib_collections, YASL_decllib_io, YASL_decllib_math, YASL_decllib_mt, YASL_decllib_require, YASL_decllib_require_c };

// A step of a host: declare a library, give a global, or run a piece of code.
struct Step { int decl; string name, val, src; int status; string out; string says; };
struct Model { bool on[NLIB] = {}; bool hook = false; int sets = 0, files = 0, objs = 0, mods = 0; string h; };
// pieces; everything they keep goes into lists the host gave
Step piece(Model &m, int o) {
	auto run = [](const string &s, const string &out, int st = 0, const string &says = "") { return Step{ -1, "", "", s, st, out, says }; };
	auto no = [&](const string &s, int lib) { return run(s, "", 4, LIBNAME[lib]); };
	string s;
	switch (o) {
	case 0: s = "echo collections.set(3, 3) | collections.set(4) == collections.set(4, 3)\necho len collections.table(1, 2)\n"; return m.on[COLL] ? run(s, "true\n1\n") : no(s, COLL);
	case 1: s = "sets->push(collections.set(7))\n"; if (m.on[COLL]) m.sets++; return m.on[COLL] ? run(s, "") : no(s, COLL);
	case 2: s = "const f = io.open('@/b.txt', 'w')\nf->write('ab' ~ 'c')\nf->close()\nconst q = io.open('@/b.txt')\necho q->read('a')\nfiles->push(q)\n"; if (m.on[IO]) m.files++; return m.on[IO] ? run(s, "abc\n") : no(s, IO);
	case 3: s = "echo math.gcd(12, 18) ~ math.max(1, 5, 3) ~ math.abs(-2)\n"; return m.on[MATH] ? run(s, "652\n") : no(s, MATH);
	case 4: s = "objs->push(mt.set({}, {'tostr': fn(x) { return 'T' ~ 'T'; }}))\nconst ts = mt.get([]).tostr\necho ts([1])\n"; if (m.on[MT]) m.objs++; return m.on[MT] ? run(s, "[1]\n") : no(s, MT);
	case 5: s = "const x = require('@/mod.yasl')\necho x('k')\nmods->push(x)\n"; if (m.on[REQ]) m.mods++; return m.on[REQ] ? run(s, "kmod" + S(1) + "3\n") : no(s, REQ);
	case 6: s = "__require_c__('@/missing')\n"; return m.on[REQC] ? run(s, "", 7, "ValueError") : no(s, REQC);
	case 7: {                                              // everything kept so far
		s = "let n = 0\nfor x <- sets { n += len (x | x); assert (x->tolist())[0] == 7; assert x->tostr() == 'set(7)'; }\necho n\nn = 0\nfor x <- files { n += 1; assert x->seek('end', -2); assert x->read() == 'bc'; }\necho n\n"
		    "n = 0\nfor x <- objs { n += 1; assert x->tostr() == 'TT'; }\necho n\nn = 0\nfor x <- mods { n += 1; assert x('y') == 'ymod13'; }\necho n\n";
		return run(s, S(m.sets) + "\n" + S(m.files) + "\n" + S(m.objs) + "\n" + S(m.mods) + "\n");
	}
	case 8: s = "echo hook ~ [hook]->tostr()\nhook = 'x' ~ hook\n"; if (!m.hook) return run(s, "", 4, "hook"); { string o = m.h + "[" + m.h + "]\n"; m.h = "x" + m.h; return run(s, o); }
	default: s = "let l = [3, 1, 2]\nl->sort()\necho l ~ 'a,b'->split(',') ~ {1: 2} ~ 1.5 ~ len 'abc' ~ [x for x <- l]\n"; return run(s, "[1, 2, 3][a, b]{1: 2}1.53[1, 2, 3]\n");
	}
}
const int PIECES = 10;
Step declare(Model &m, int d) {
	if (d < NLIB) { m.on[d] = true; return { d, "", "", "", 0, "", "" }; }
	if (d == NLIB) { for (auto &b : m.on) b = true; return { NLIB, "", "", "", 0, "", "" }; }
	m.hook = true; m.h = "h" + S(d - NLIB);
	return { NLIB + 1, "hook", m.h, "", 0, "", "" };
}
const int DECLS = NLIB + 2;
string here(string s) { for (size_t p; (p = s.find('@')) != string::npos;) s.replace(p, 1, scratch_dir()); return s; }
string session(const vector<Step> &steps) {
	put(scratch_dir() + "/mod.yasl", "const c = math.gcd(3, 6)\nlet calls = 0\nexport fn(x) { calls = 1; return x ~ 'mod' ~ calls ~ c; }\n");
	Outcome r;
	string e;
	heap_begin();
	{
		struct YASL_State *St = YASL_newstate_bb("", 0);
		YASL_setprintout_tostr(St);
		for (auto n : { "sets", "files", "objs", "mods" }) { YASL_pushlist(St); YASLX_initglobal(St, n); }
		string outs;
		for (size_t i = 0; i < steps.size() && e.empty(); i++) {
			auto &s = steps[i];
			int st = 0;
			if (s.decl >= 0) {
				if (s.decl < NLIB) st = DECL[s.decl](St);
				else if (s.decl == NLIB) st = YASLX_decllibs(St);
				else { YASL_pushzstr(St, s.val.c_str()); YASLX_initglobal(St, s.name.c_str()); }
			} else {
				string src = here(s.src);
				YASL_resetstate_bb(St, src.data(), src.size());
				YASL_setprinterr_tostr(St);
				st = YASL_execute(St);
			}
			YASL_loadprintout(St);
			string now = text(St), got = now.substr(std::min(now.size(), outs.size()));
			outs = now;
			if (st != s.status) e += "step " + S((long)i + 1) + ": status " + S(st) + ", expected " + S(s.status) + "\n";
			if (got != s.out) e += "step " + S((long)i + 1) + ": output " + P(got) + ", expected " + P(s.out) + "\n";
			if (s.decl < 0 && (s.status || st)) {
				YASL_loadprinterr(St);
				string err = text(St);
				if (err.find(s.says) == string::npos || !s.status) e += "step " + S((long)i + 1) + ": error " + P(err) + " does not say " + s.says + "\n";
			}
		}
		YASL_delstate(St);
	}
	heap_end(r);
	count_traces(1);
	if (r.badheap) e += "heap fault: " + r.heapmsg + "\n";
	if (r.leaked) e += S(r.leaked) + " heap blocks still live after the state was deleted\n";
	if (r.open_files) e += S(r.open_files) + " files still open\n";
	return e;
}
// The host creates the state with the program, declares what it likes in between giving and running it, and looks at its globals afterwards.
string fresh(const vector<Step> &steps, const string &src, int status, const string &out, const string &val) {
	Outcome r;
	string e;
	heap_begin();
	{
		struct YASL_State *St = YASL_newstate_bb(src.data(), src.size());
		for (auto &s : steps) {
			int st = 0;
			if (s.decl < NLIB) st = DECL[s.decl](St);
			else if (s.decl == NLIB) st = YASLX_decllibs(St);
			else { YASL_pushzstr(St, s.val.c_str()); YASLX_initglobal(St, s.name.c_str()); }
			if (st) e += "declaring gives " + S(st) + "\n";
		}
		YASL_setprintout_tostr(St);
		YASL_setprinterr_tostr(St);
		int st = YASL_execute(St);
		YASL_loadprintout(St);
		string got = text(St);
		if (st != status || got != out) { YASL_loadprinterr(St); e += "status " + S(st) + ", expected " + S(status) + "; output " + P(got) + ", expected " + P(out) + "; errors " + P(text(St)) + "\n"; }
		if (!val.empty()) {
			if (YASL_loadglobal(St, "hook")) e += "the global is gone\n";
			else { string v = text(St); if (v != val) e += "the global is " + P(v) + ", expected " + P(val) + "\n"; }
		} else if (YASL_loadglobal(St, "hook") == YASL_SUCCESS) e += "there is a global nobody declared\n";
		YASL_delstate(St);
	}
	heap_end(r);
	count_traces(1);
	if (r.badheap) e += "heap fault: " + r.heapmsg + "\n";
	if (r.leaked) e += S(r.leaked) + " heap blocks still live after the state was deleted\n";
	return e;
}
uint64_t state_of(const Model &m) {
	string k;
	for (bool b : m.on) k += b ? '1' : '0';
	return fp(k + m.h + S(m.sets) + "," + S(m.files) + "," + S(m.objs) + "," + S(m.mods));
}
void finish(Case &c, const vector<Step> &v) {
	for (auto &s : v) c.key += s.decl < 0 ? s.src : s.decl < NLIB ? string("+") + LIBNAME[s.decl] + " " : s.decl == NLIB ? "+all " : "+hook ";
	c.transitions = v.size();
	c.custom = [v] { return session(v); };
}
// any sequence of declarations, then each piece in turn
void combos(Chooser &ch, Case &c, int depth) {
	Model m; vector<Step> v;
	int n = ch.choose(depth + 1);
	for (int i = 0; i < n; i++) { v.push_back(declare(m, ch.choose(DECLS))); c.states.push_back(state_of(m)); }
	for (int o = 0; o < PIECES; o++) { v.push_back(piece(m, o)); c.states.push_back(state_of(m)); }
	finish(c, v);
}
void firsts(Chooser &ch, Case &c, int depth) {
	Model m; vector<Step> v;
	int n = ch.choose(depth + 1);
	for (int i = 0; i < n; i++) { v.push_back(declare(m, ch.choose(DECLS))); c.states.push_back(state_of(m)); }
	struct Use { int lib; string line, out; };
	static const vector<Use> uses = { { COLL, "z = len collections.set(x, y, x)", "2" }, { IO, "z = io.open('/nonexistent/x')", "undef" }, { MATH, "z = math.max(x, y)", "8" }, { MT, "z = mt.get(x) == undef", "false" }, { REQ, "z = !require", "false" }, { REQC, "z = !__require_c__", "false" }, { NLIB + 1, "hook = hook ~ x; z = hook", "" }, { NLIB, "z = x + y", "13" } };
	const Use &u = ch.pick(uses);
	bool ok = u.lib == NLIB || (u.lib == NLIB + 1 ? m.hook : m.on[u.lib]);
	string src = "let x = 5\nlet y = x + 3\nlet z = [x]\nfn f(a) { let b = a ~ x; return b ~ y; }\n" + u.line + "\nfor i <- [y] { let q = i; echo q ~ f('w'); }\necho z\necho x ~ y\n";
	string z = u.lib == NLIB + 1 ? m.h + "5" : u.out;
	for (auto &s : v) c.key += s.decl < NLIB ? string("+") + LIBNAME[s.decl] + " " : s.decl == NLIB ? "+all " : "+hook ";
	c.key += u.line;
	c.transitions = v.size() + 1;
	string val = !m.hook ? "" : u.lib == NLIB + 1 ? z : m.h;
	c.custom = [=] { return fresh(v, src, ok ? 0 : 4, ok ? "8w58\n" + z + "\n58\n" : "", val); };
}
void histories(Chooser &ch, Case &c, int depth, bool all) {
	Model m; vector<Step> v;
	if (all) v.push_back(declare(m, NLIB));
	for (int i = 0; i < depth; i++) {
		int o = ch.choose(DECLS + PIECES);
		v.push_back(o < DECLS ? declare(m, o) : piece(m, o - DECLS));
		c.states.push_back(state_of(m));
	}
	v.push_back(piece(m, 7));
	finish(c, v);
}
Reg r({ "B01",
	"hosts declare any of the libraries in any order and any number of times, give globals of their own, and run pieces of code that use one library each or what earlier pieces kept; a piece whose library is declared works as always, one whose library is not is refused with a SyntaxError, and everything else works with or without libraries; model of what is declared and kept",
	{ "what a program has put into the table of a library is not looked for after the host declared the library again", "__require_c__ is given files that do not exist (X01 loads real ones)" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "combinations", "every sequence of up to " + S(th ? 6 : 4) + " declarations out of 8, then every piece", [=](Chooser &ch, Case &c) { combos(ch, c, th ? 6 : 4); }, 3 });
		v.push_back({ "first programs", "every sequence of up to " + S(th ? 5 : 4) + " declarations out of 8 in a state created with a program that uses one library, and its run", [=](Chooser &ch, Case &c) { firsts(ch, c, th ? 5 : 4); }, 3 });
		v.push_back({ "histories", "every sequence of " + S(th ? 5 : 4) + " declarations and pieces out of 18", [=](Chooser &ch, Case &c) { histories(ch, c, th ? 5 : 4, false); }, 2 });
		v.push_back({ "reloads", "the same in a state with all libraries", [=](Chooser &ch, Case &c) { histories(ch, c, th ? 5 : 4, true); }, 2 });
	} });
}
