// BUILD: variant=asan budget=400 tbudget=3000
// K01: compiling without running.
#include "mc.hpp"
#include "snips.hpp"
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;

namespace {
string S(long x) { return std::to_string(x); }
string text(struct YASL_State *St) { char *c = YASL_popcstr(St); string s = c ? c : ""; free(c); return s; }
string P(const string &x) { return printable(x); }

struct Prog { string src; int status; };                 // what running it alone ends with: 0 and others
enum Do { COMPILE, RUN, REPL };
struct Step { Do how; string src; };
struct Seen { int status; string out, err; bool operator==(const Seen &o) const { return status == o.status && out == o.out && err == o.err; } };

int host_p(struct YASL_State *) { return 1; }            // returns its argument

struct YASL_State *open(const string &src, bool file) {
	struct YASL_State *St;
	if (file) {
		string p = scratch_dir() + "/k.yasl";
		int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fd < 0 || write(fd, src.data(), src.size()) != (ssize_t)src.size()) _exit(92);
		close(fd);
		St = YASL_newstate(p.c_str());
	} else St = YASL_newstate_bb(src.data(), src.size());
	return St;
}
void prepare(struct YASL_State *St, bool libs) {
	if (libs) {
		YASLX_decllibs(St);
		YASL_declglobal(St, "p");
		YASL_pushcfunction(St, host_p, 1);
		YASL_setglobal(St, "p");
	}
	YASL_setprintout_tostr(St);
	YASL_setprinterr_tostr(St);
}
// One state, one piece after the other; compiled ones are expected to give what the same piece gives when it is run, if that is a SyntaxError.
string alone(const string &src, Do how, bool libs, bool file, Seen &seen, bool twice = false) {
	Outcome r;
	string e;
	heap_begin();
	{
		struct YASL_State *St = open(src, file);
		prepare(St, libs);
		int st = how == COMPILE ? YASL_compile(St) : how == REPL ? YASL_execute_REPL(St) : YASL_execute(St);
		if (twice && st == 0) {
			YASL_loadprintout(St);
			string out = text(St);
			if (!out.empty()) e += "compiling printed " + P(out) + "\n";
			st = YASL_execute(St);
		}
		seen.status = st;
		YASL_loadprintout(St); seen.out = text(St);
		YASL_loadprinterr(St); seen.err = text(St);
		YASL_delstate(St);
	}
	heap_end(r);
	count_traces(1);
	if (r.badheap) e += "heap fault: " + r.heapmsg + "\n";
	if (r.leaked) e += S(r.leaked) + " heap blocks still live after the state was deleted\n";
	if (r.open_files) e += S(r.open_files) + " files still open\n";
	return e;
}
string show(const Seen &s) { return "status " + S(s.status) + ", output " + P(s.out) + ", errors " + P(s.err); }

// Compiling says what running would say about the form of a program, and runs nothing; running afterwards is like running alone.
void one(Case &c, const string &src, bool libs, bool file, int known = -1) {
	c.key = (file ? "(file) " : "") + src;
	c.states.push_back(fp(c.key));
	c.transitions = 3;
	c.custom = [=]() -> string {
		Seen run, comp, both;
		string e = alone(src, RUN, libs, file, run);
		string f = alone(src, COMPILE, libs, file, comp);
		if (!e.empty()) return "running: " + e;
		if (!f.empty()) return "compiling: " + f;
		if (known >= 0 && (comp.status == YASL_SYNTAX_ERROR) != (known == YASL_SYNTAX_ERROR)) e += "compiling gives status " + S(comp.status) + "\n";
		if (run.status == YASL_SYNTAX_ERROR && run.err.compare(0, 11, "SyntaxError") == 0) { if (!(comp == run)) e += "compiling: " + show(comp) + "\nrunning:   " + show(run) + "\n"; }
		else if (!(comp == Seen{ 0, "", "" })) e += "compiling a program that runs: " + show(comp) + "\n";
		if (comp.status == 0) {
			f = alone(src, COMPILE, libs, file, both, true);
			if (!f.empty()) e += "compiled and run: " + f;
			if (!(both == run)) e += "compiled and run: " + show(both) + "\nrun:              " + show(run) + "\n";
		}
		return e;
	};
}
const vector<string> TOK = {
	"x", "1", "'s'", ";", "\n", ",", "(", ")", "[", "]", "{", "}", ".", "=", "+", "-", "?", ":", "->", "<-",
	"if", "else", "while", "break", "for", "const", "fn", "let", "return", "export", "echo", "len", "match", "y", "\"a#{1}b\"", "'", "#c", "/*" };
const vector<std::pair<string, string>> CTX = {
	{ "", "" }, { "fn f() { ", " };" }, { "echo ", ";" }, { "let ", " = 1;" }, { "for i <- [1] { ", " };" }, { "match x { ", " };" }, { "x(", ");" } };
void tokens(Chooser &ch, Case &c, int n, size_t nctx) {
	auto &x = CTX[ch.choose((uint32_t)nctx)];
	string s;
	for (int i = 0; i < n; i++) s += (i ? " " : "") + TOK[ch.choose((uint32_t)TOK.size())];
	one(c, "let x = [1];\nassert x->pop();\necho 'ran';\n" + x.first + s + x.second + "\n", false, false);
}
void programs(Chooser &ch, Case &c) {
	auto &v = snips::all();
	uint32_t i = ch.choose((uint32_t)v.size());
	static const vector<string> tail = { "", "\necho [1] + 'late'", "\nlet = 4", "\necho nosuch", "\nfn t() { return 1; ", "\nt = 5\nlet t = 6" };
	string t = ch.pick(tail);
	bool file = ch.flip();
	one(c, snips::prelude() + v[i] + t + "\n", true, file);
}
// A session in one state: pieces are compiled or run.  What was only compiled leaves no trace but the names it declares.
struct Piece { string src; int status; string out; };
void session(Chooser &ch, Case &c, int depth) {
	struct Sym { bool decl = false; long v = 0; bool set = false; };
	vector<Step> steps;
	vector<Seen> want;
	bool a_set = false; long a = 0; long n = 0;             // a: declared by the host; math.n: a place every piece sees
	for (int d = 0; d < depth; d++) {
		int how = ch.choose(3), o = ch.choose(9);
		string src; Seen w{ 0, "", "" };
		bool runs = how != COMPILE;
		string A = a_set ? S(a) : "undef", N = n ? S(n) : "undef";
		bool a_was = a_set; long a0 = a, n0 = n;
		switch (o) {
		case 0: src = "a = 5\nmath.n = 1\necho 'set'\n"; w.out = "set\n"; a_set = true; a = 5; n = 1; break;
		case 1: src = "echo a; echo math.n\n"; w.out = A + "\n" + N + "\n"; break;
		case 2: src = "echo a ~ 'x'\nlet = 3\n"; w.status = 4; break;
		case 3: src = "echo 'one'\n[1] + a\n"; w.status = 5; w.out = "one\n"; break;
		case 4: src = "fn k(x) { return x ~ 'q' ~ 12345; }\nmath.f = k\necho k('w')\n"; w.out = "wq12345\n"; break;
		case 5: src = "echo math.f ? math.f('z') : 'none'\n"; break;   // filled in below
		case 6: src = "fn z() { if true {\n"; w.status = 4; break;
		case 7: src = "let v = ['l' ~ 1]\nmath.f = fn(x) { v->push(x); return len v; }\necho v\n"; w.out = "[l1]\n"; break;
		default: src = "echo nosuch\n"; w.status = 4; break;
		}
		(void)a_was;
		if (!runs || w.status == 4) { a_set = a_was; a = a0; n = n0; }
		if (!runs) { w.out = ""; if (w.status != 4) w.status = 0; }
		steps.push_back({ (Do)how, src });
		want.push_back(w);
		c.states.push_back(fp(S(a_set) + S(a) + S(n) + S(o) + S(how)));
		c.key += string(how == COMPILE ? "C " : how == RUN ? "R " : "> ") + src;
	}
	// math.f: which function is there, by replaying the pieces that ran
	{
		int f = 0; long len = 1;
		bool decl_k = false, decl_v = false;
		for (size_t i = 0; i < steps.size(); i++) {
			bool runs = steps[i].how != COMPILE;
			bool repl = steps[i].how == REPL;
			if (steps[i].src.compare(0, 4, "fn k") == 0 && repl) { if (decl_k) { want[i] = { 4, "", "" }; } decl_k = true; if (want[i].status == 0) f = 1; }
			else if (steps[i].src.compare(0, 4, "fn k") == 0 && runs) { f = 1; }
			else if (steps[i].src.compare(0, 5, "let v") == 0 && repl) { if (decl_v) { want[i] = { 4, "", "" }; } decl_v = true; if (want[i].status == 0) { f = 2; len = 1; } }
			else if (steps[i].src.compare(0, 5, "let v") == 0 && runs) { f = 2; len = 1; }
			else if (steps[i].src.compare(0, 11, "echo math.f") == 0 && runs) want[i].out = f == 0 ? "none\n" : f == 1 ? "zq12345\n" : S(++len) + "\n";
		}
	}
	c.transitions = steps.size();
	c.custom = [=]() -> string {
		Outcome r;
		string e;
		heap_begin();
		{
			struct YASL_State *St = YASL_newstate_bb("", 0);
			prepare(St, true);
			YASL_declglobal(St, "a");
			YASL_pushundef(St);
			YASL_setglobal(St, "a");
			string sofar;
			for (size_t i = 0; i < steps.size() && e.empty(); i++) {
				YASL_resetstate_bb(St, steps[i].src.data(), steps[i].src.size());
				YASL_setprinterr_tostr(St);
				int st = steps[i].how == COMPILE ? YASL_compile(St) : steps[i].how == REPL ? YASL_execute_REPL(St) : YASL_execute(St);
				YASL_loadprintout(St);
				string now = text(St), got = now.substr(std::min(now.size(), sofar.size()));
				sofar = now;
				if (st != want[i].status) e += "piece " + S((long)i + 1) + ": status " + S(st) + ", expected " + S(want[i].status) + "\n";
				if (got != want[i].out) e += "piece " + S((long)i + 1) + ": output " + P(got) + ", expected " + P(want[i].out) + "\n";
			}
			YASL_delstate(St);
		}
		heap_end(r);
		count_traces(1);
		if (r.badheap) e += "heap fault: " + r.heapmsg + "\n";
		if (r.leaked) e += S(r.leaked) + " heap blocks still live after the state was deleted\n";
		return e;
	};
}
Reg r({ "K01",
	"every program is run, compiled, and compiled and then run in fresh states of the real library under AddressSanitizer and heap accounting: the status and error text of compiling are those of running when running refuses the program, 0 and nothing otherwise, and running what was compiled is like running it at once; sessions mix compiled and run pieces in one state, against a model of what ran",
	{ "a program that names no file is taken from memory", "runs of compiled code follow the compilation directly, as nothing else can run it" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "tokens", string("every sequence of up to 3 of 38 tokens in 7 contexts"), [](Chooser &ch, Case &c) { int n = 1 + ch.choose(3); tokens(ch, c, n, 7); }, 3 });
		if (th) v.push_back({ "tokens-4", "every sequence of 4 of 38 tokens on its own", [](Chooser &ch, Case &c) { tokens(ch, c, 4, 1); }, 3 });
		v.push_back({ "programs", "every fragment that covers the language, alone and followed by each of 5 faults, in memory and in a file", [](Chooser &ch, Case &c) { programs(ch, c); }, 2 });
		v.push_back({ "sessions", string("every sequence of up to ") + (th ? "5" : "4") + " of 9 pieces, each compiled, run or entered", [th](Chooser &ch, Case &c) { int n = 1 + ch.choose(th ? 5 : 4); session(ch, c, n); }, 4 });
	} });
}
