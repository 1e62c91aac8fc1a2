// BUILD: variant=asan budget=400 tbudget=3000
// A03: one state runs any number of pieces of code one after another, whatever went wrong in the ones before.
#include "mc.hpp"
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
void mc_make_room(struct YASL_State *S);
}
using namespace mc;
using std::string; using std::vector;

namespace {
string S(long x) { return std::to_string(x); }
enum Mode { REPL, WHOLE, FILEM };
struct Step { Mode mode; string src; int status; string out; int line; };   // line: reported by a run time error, 0: not checked

// The session as the user sees it.
struct Model {
	bool a_decl = false, f_decl = false, c_decl = false, g_decl = false, l_decl = false, r_decl = false, k_decl = false;
	long a = 0, c = 0, hook = 0; bool hooked = false;
	int g = 0;                                             // 0 undef, else the value in the closure
	vector<long> l;
	int fver = 0;
	string lstr() const { string s = "["; for (size_t i = 0; i < l.size(); i++) s += (i ? ", " : "") + S(l[i]); return s + "]"; }
};
const int NOPS = 28;
Step apply(Model &m, int o, int pos) {
	auto need = [](bool b) { if (!b) throw Prune{}; };
	const string u = "u" + S(pos);
	switch (o) {
	case 0: if (m.a_decl) return { REPL, "let a = 7\n", 4, "", 0 }; m.a_decl = true; m.a = 1; return { REPL, "let a = 1\n", 0, "", 0 };
	case 1: if (!m.a_decl) return { REPL, "a += 1\n", 4, "", 0 }; m.a++; return { REPL, "a += 1\n", 0, "", 0 };
	case 2: if (!m.a_decl) return { REPL, "a\n", 4, "", 0 }; return { REPL, "a\n", 0, S(m.a) + "\n", 0 };
	case 3: need(m.a_decl && !m.f_decl); m.f_decl = true; return { REPL, "fn f(x) { const t = [x, 'loc' ~ x]; a = a + t[0]; return a; }\n", 0, "", 0 };
	case 4: need(m.f_decl); m.a += 10; return { REPL, "f(10)\n", 0, S(m.a) + "\n", 0 };
	case 5: need(!m.c_decl); m.c_decl = true; m.c = 100; return { REPL, "const c = (fn() { let n = 100; return fn() { n += 1; return n; }; })()\n", 0, "", 0 };
	case 6: need(m.c_decl); m.c++; return { REPL, "c()\n", 0, S(m.c) + "\n", 0 };
	case 7: return { REPL, "echo 'bef' ~ 'ore'\n[1, 2] + ('x' ~ 'y')\n", 5, "before\n", 2 };
	case 8: need(m.f_decl); return { REPL, "echo [1, f('s')]\n", 5, "", 1 };
	case 9: return { REPL, "let = 4\n", 4, "", 0 };
	case 10: need(m.g_decl); m.g = 2; return { REPL, "for i <- [1, 2, 3] {\n\tlet j = [i]\n\tg = fn() { return j; }\n\tif i == 2 { i + ('x' ~ j); }\n}\n", 5, "", 4 };
	case 11: need(!m.g_decl); m.g_decl = true; return { REPL, "let g = undef\n", 0, "", 0 };
	case 12: need(m.g_decl); if (m.g == 0) return { REPL, "g()\n", 5, "", 1 }; return { REPL, "g()\n", 0, "[" + S(m.g) + "]\n", 0 };
	case 13: need(m.g_decl); m.g = 5; return { REPL, "(fn(x) { g = fn() { return [x]; }; x += 1; return x + 'q'; })(4)\n", 5, "", 1 };
	case 14: return { REPL, "echo 'e' ~ 1; 'last' ~ 2\n", 0, "e1\nlast2\n", 0 };
	case 15: return { REPL, "# nothing\n", 0, "", 0 };
	case 16: if (!m.r_decl) { m.r_decl = true; return { REPL, "fn r(n) { let v = ['d' ~ n]; return r(n + 1) + len v; }\n", 0, "", 0 }; } return { REPL, "r(0)\n", 11, "", 1 };
	case 17: need(m.a_decl); if (!m.l_decl) { m.l_decl = true; m.l = { m.a }; return { REPL, "let l = [a]\n", 0, "", 0 }; } m.l.push_back(m.a); return { REPL, "l->push(a); l\n", 0, m.lstr() + "\n", 0 };
	case 18: return { REPL, "let " + u + " = nosuch + 1\n", 4, "", 0 };
	case 19: return { REPL, "echo 5\nlet " + u + " = [1 // 0]\n", 6, "5\n", 2 };
	case 20: return { WHOLE, "let t = 3\nfn q(x) { return x ~ t; }\necho q(1)\n", 0, "13\n", 0 };
	case 21: m.hooked = true; m.hook = 7; return { WHOLE, "let a = 55\nlet t = 7\nmath.hook = fn() { t += 1; return t; }\necho a\n", 0, "55\n", 0 };
	case 22: need(m.hooked); m.hook++; return { pos % 2 ? REPL : FILEM, "echo math.hook()\n", 0, S(m.hook) + "\n", 0 };
	case 23: m.hooked = true; m.hook = 30; return { FILEM, "\nlet t = 30\nfor i <- 'abc' {\n\tmath.hook = fn() { t += 1; return t; }\n\tassert i == 'a'\n}\n", 10, "", 5 };
	case 24: if (!m.a_decl) return { WHOLE, "echo a\na = a * 2\n", 4, "", 0 }; { string s = S(m.a) + "\n"; m.a *= 2; return { WHOLE, "echo a\na = a * 2\n", 0, s, 0 }; }
	case 26: return { WHOLE, "let w1 = 1\necho 'never'\nfn w2(x) { let w3 = x; return w3; }\nfor w4 <- 3 { let w5 = ) }\n", 4, "", 0 };
	case 27: return { pos % 2 ? WHOLE : FILEM, "let w1 = 5\nlet w2 = [w1]\nw1 w2\n", 4, "", 0 };
	default: if (!m.k_decl) { m.k_decl = true; return { REPL, "const k = 'kon' ~ 'st'; const k2 = 123456\n", 0, "", 0 }; } return { REPL, "\n\nk = 3\n", 4, "", 0 };
	}
}
string text(struct YASL_State *St) { char *c = YASL_popcstr(St); string s = c ? c : ""; free(c); return s; }
string session(const vector<Step> &steps) {
	Outcome r;
	string e, want;
	heap_begin();
	{
	struct YASL_State *St = YASL_newstate_bb("", 0);
	YASLX_decllibs(St);
	YASL_setprintout_tostr(St);
	int i = 0;
	string sofar;
	for (auto &s : steps) {
		if (s.mode == FILEM) {
			string p = scratch_dir() + "/s.yasl";
			int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			if (fd < 0 || write(fd, s.src.data(), s.src.size()) != (ssize_t)s.src.size()) _exit(92);
			close(fd);
			if (YASL_resetstate(St, p.c_str())) e += "resetstate failed\n";
		} else YASL_resetstate_bb(St, s.src.data(), s.src.size());
		YASL_setprinterr_tostr(St);
		int st = s.mode == REPL ? YASL_execute_REPL(St) : YASL_execute(St);
		want += s.out;
		i++;
		if (st != s.status) e += "piece " + S(i) + ": status " + S(st) + ", expected " + S(s.status) + "\n";
		string err;
		if (st != YASL_SYNTAX_ERROR) {                       // run time errors of all pieces are kept in one text
			if (st == YASL_STACK_OVERFLOW_ERROR) mc_make_room(St);
			YASL_loadprinterr(St);
			string now = text(St);
			err = now.substr(std::min(now.size(), sofar.size()));
			sofar = now;
		}
		if (s.line) {
			size_t p = err.find("(line ");
			if (p == string::npos || atoi(err.c_str() + p + 6) != s.line) e += "piece " + S(i) + ": error does not name line " + S(s.line) + ": " + printable(err) + "\n";
		} else if (!err.empty()) e += "piece " + S(i) + ": unexpected error text " + printable(err) + "\n";
		if (!e.empty()) break;
	}
	if (e.empty()) {
		YASL_loadprintout(St);
		string got = text(St);
		if (got != want) e += "output differs\n--- expected\n" + want + "--- got\n" + got + "---\n";
	}
	YASL_delstate(St);
	}
	heap_end(r);
	if (r.badheap) e += "heap fault: " + r.heapmsg + "\n";
	if (r.leaked) e += S(r.leaked) + " heap blocks still live after the state was deleted\n";
	if (r.open_files) e += S(r.open_files) + " files still open\n";
	count_traces(1);
	return e;
}
void finish(Case &c, const vector<Step> &steps) {
	for (auto &s : steps) c.key += string(s.mode == REPL ? "> " : s.mode == WHOLE ? "W " : "F ") + s.src;
	c.transitions = steps.size();
	c.custom = [=] { return session(steps); };
}
uint64_t print_of(const Model &m) {
	string k = S(m.a_decl) + S(m.f_decl) + S(m.c_decl) + S(m.g_decl) + S(m.r_decl) + S(m.k_decl) + "," + S(m.a) + "," + S(m.c) + "," + S(m.g) + "," + S(m.hooked ? m.hook : -1) + m.lstr();
	return fp(k);
}
void seq(Chooser &ch, Case &c, int depth) {
	Model m; vector<Step> v;
	for (int d = 0; d < depth; d++) { v.push_back(apply(m, ch.choose(NOPS), d)); c.states.push_back(print_of(m)); }
	finish(c, v);
}
// everything declared first, then any sequence: what earlier pieces defined is used after every combination of faults
void prepared(Chooser &ch, Case &c, int depth, bool overflow) {
	static const int decl[] = { 0, 3, 5, 11, 16, 17, 21, 25 }, use[] = { 2, 4, 6, 7, 8, 9, 10, 12, 13, 17, 19, 22, 23, 24, 26, 27, 16 };
	Model m; vector<Step> v;
	for (int o : decl) v.push_back(apply(m, o, (int)v.size()));
	for (int d = 0; d < depth; d++) { v.push_back(apply(m, use[ch.choose(overflow ? 17 : 16)], (int)v.size())); c.states.push_back(print_of(m)); }
	finish(c, v);
}
// the same piece again and again
void longrun(Chooser &ch, Case &c, int top) {
	int o = ch.choose(NOPS), p = ch.choose(NOPS), n = 1 << ch.choose(top);
	Model m; vector<Step> v;
	static const int decl[] = { 0, 3, 5, 11, 16, 17, 21 };
	for (int q : decl) v.push_back(apply(m, q, (int)v.size()));
	for (int i = 0; i < n; i++) { try { v.push_back(apply(m, o, (int)v.size())); } catch (Prune &) { throw; } v.push_back(apply(m, p, (int)v.size())); }
	finish(c, v);
}
Reg r({ "A03", "every sequence of pieces of code given to one state: statements, declarations, expressions to be printed, programs from buffers and files, and pieces that fail in every way; compared with a model of the variables, functions and closures the session has",
	{ "names whose declaration failed are not used again", "YASL_setprinterr_tostr is called after each reset" },
	[](vector<Space> &v, bool th) {
	v.push_back({ "sequences", S(th ? 5 : 4) + " pieces out of 28", [=](Chooser &ch, Case &c) { seq(ch, c, th ? 5 : 4); }, 3 });
	v.push_back({ "prepared", "8 declarations, then " + S(th ? 5 : 4) + " pieces out of 16", [=](Chooser &ch, Case &c) { prepared(ch, c, th ? 5 : 4, false); }, 3 });
	v.push_back({ "overflow", "8 declarations, then " + S(th ? 4 : 3) + " pieces out of 17, one of which overflows the stack", [=](Chooser &ch, Case &c) { prepared(ch, c, th ? 4 : 3, true); }, 3 });
	v.push_back({ "repeated", "every pair of pieces, up to " + S(1 << (th ? 8 : 4)) + " times", [=](Chooser &ch, Case &c) { longrun(ch, c, th ? 9 : 5); }, 2 });
} });
}
