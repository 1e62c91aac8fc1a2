// BUILD: variant=asan main=1 budget=400 tbudget=3000
// C01: the command line tool does what its options say, and runs programs the way the library does.
#include "mc.hpp"
#include <fcntl.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "snips.hpp"
extern "C" int yasl_main(int argc, char **argv);
using namespace mc;
using std::string; using std::vector;

namespace {
string S(long x) { return std::to_string(x); }
void put(const string &path, const string &text) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) _exit(92);
	close(fd);
}
string slurp(const string &path) {
	string r; char b[4096]; ssize_t n;
	int fd = open(path.c_str(), O_RDONLY);
	while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	if (fd >= 0) close(fd);
	return r;
}
struct Res { int exit = -1, sig = 0; string out, err; };
// Runs the tool in a child of its own, in the scratch directory.
Res tool(vector<string> args, const string &in) {
	const string d = scratch_dir();
	put(d + "/stdin", in);
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		int i = open((d + "/stdin").c_str(), O_RDONLY), o = open((d + "/stdout").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open((d + "/stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (i < 0 || o < 0 || e < 0 || chdir(d.c_str())) _exit(93);
		dup2(i, 0); dup2(o, 1); dup2(e, 2);
		alarm(20);
		args.insert(args.begin(), "yasl");
		vector<char *> av;
		for (auto &a : args) av.push_back((char *)a.c_str());
		av.push_back(nullptr);
		clearerr(stdin);
		int r = yasl_main((int)args.size(), av.data());
		fflush(stdout); fflush(stderr);
		_exit(r & 0xff);
	}
	Res r; int st;
	waitpid(p, &st, 0);
	if (WIFEXITED(st)) r.exit = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
	r.out = slurp(d + "/stdout"); r.err = slurp(d + "/stderr");
	for (auto f : { "/stdin", "/stdout", "/stderr" }) unlink((d + f).c_str());
	count_traces(1);
	return r;
}
string cmp(const char *what, const Res &r, int exit, const string &out, const string *err) {
	string e;
	if (r.sig) e += string(what) + ": killed by signal " + S(r.sig) + "\n";
	if (r.exit != exit) e += string(what) + ": exit status " + S(r.exit) + ", expected " + S(exit) + "\n";
	if (r.out != out) e += string(what) + ": printed " + printable(r.out.substr(0, 600)) + "\n  expected " + printable(out.substr(0, 600)) + "\n";
	if (err && r.err != *err) e += string(what) + ": errors " + printable(r.err.substr(0, 300)) + "\n  expected " + printable(err->substr(0, 300)) + "\n";
	if (!err && exit == 0 && !r.err.empty()) e += string(what) + ": errors " + printable(r.err.substr(0, 300)) + "\n";
	return e;
}
const string LOGO_END = "\n";
// what the REPL prints before the first prompt is not interesting: it ends with the line that names the version
string after_banner(const string &out, string &e) {
	size_t p = out.find("yasl> ");
	if (p == string::npos) { e += "no prompt: " + printable(out) + "\n"; return ""; }
	return out.substr(p);
}

// programs: what the library prints into strings is what the tool prints, in every mode
struct Prog { string src; bool single; };
const vector<string> &progs() {
	static const vector<string> v = [] {
		vector<string> r = {
			"", "\n", "# only a comment\n", "echo 1\n", "echo 'a'\necho 'b'\n", "echo 'no newline at the end';", "let a = 3\necho a * a\n", "1 + 1\n", "'x' ~ 'y'\n", "let x = 5\nx\n", "undef\n", "[1, 'two', 3.0]\n", "{'k': 'v'}\n",
			"fn f(x) { return x ~ '!'; }\nf('call')\n", "fn f() {\n\treturn 1 // 0\n}\necho 'before'\nf()\necho 'after'\n", "echo 'x'\nassert 1 == 2\n", "let = 3\n", "echo nosuch\n", "echo 'a\n", "const c = 1\nc = 2\n", "fn r(n) { return r(n + 1) + 1; }\necho 's'\nr(0)\n",
			"[]->pop()\n", "5->nosuch()\n", "undef()\n", "'a' + 1\n", "echo 'out'; [1][5];\n", "for i <- [1, 2, 3] { echo i; }\n", "let s = 'x'->rep(5000)\necho s\n", "echo 'caf\xc3\xa9 \\t tab'\n", "echo 'per%cent %s %d'\n", "assert '%s%n%d' == 1\n", "echo 'nul\\x00byte'\n",
			"math.zork = [1, 2]\nmath.zork\n", "let f = fn() { return 4; }; f()\n", "if true { echo 'y'; }\n", "while false { echo 'y'; }\n5\n", "match 3 {\n\t3 { echo 'three'; }\n\t* { echo 'other'; }\n}\n", "export 5\n", "return 4\n", "break\n", "echo len [1, 2]\necho -3 ** 2\n",
			"collections.set(1)\n", "echo __VERSIO\n", "let t = {}\nt.a = 1\nt.a\n", "1.0\n", "1e300 * 10\n", "require('nosuch')\n", "echo 'e'\nrequire('mod')\n", "echo require('mod') ~ 2\n", "require('bad')\n", "let q = 3; q = q + 1; q\n", "io.open('nosuch/file')\n",
			"echo \"interp #{1 + 2} and #{'s'}\"\n", "const o = mt.set({}, {'tostr': fn(o) { return 'custom'; }})\no\n", "const o = mt.set({}, {'tostr': fn(o) { return 5; }})\necho 1\necho o\n", "a, b = 1, 2\n", "let a, let b = 1, 2\nb\n", "x\n", ";\n", "1;2;3;\n", "echo 1 echo 2\n",
		};
		return r;
	}();
	return v;
}
// the state of a script has what newstate gives it, and the list of arguments
void modes(Chooser &ch, Case &c) {
	int n = (int)progs().size();
	int k = ch.choose(n + (int)snips::all().size());
	int mode = ch.choose(5);
	string src;
	if (k < n) src = progs()[k];
	else {
		src = snips::prelude() + snips::all()[k - n] + "\n";
		if (src.find("g_fail") != string::npos) throw Prune{};
		src = "const p = fn(x) { return x; }\n" + src;
	}
	static const char *name[] = { "file", "-E", "-e", "-C", "session" };
	if (mode == 4 && (k >= n || src.find('\n') != src.size() - 1)) throw Prune{};    // a session is read by lines
	if (mode == 4 && src.size() < 2) throw Prune{};
	if (mode >= 1 && src.find('\0') != string::npos) throw Prune{};
	c.key = string(name[mode]) + "\n" + src;
	c.transitions = 2;
	c.custom = [=]() -> string {
		const string d = scratch_dir();
		put(d + "/script.yasl", src);
		put(d + "/mod.yasl", "echo 'in mod'\nexport 'modval'\n");
		put(d + "/bad.yasl", "echo 'in bad'\n'x' + 3\n");
		// what the library does
		Outcome o;
		char cwd[4096];
		if (!getcwd(cwd, sizeof cwd) || chdir(d.c_str())) _exit(93);
		RunOpts ro; ro.repl = mode == 2 || mode == 4;
		o = run_program(src, ro);
		if (chdir(cwd)) _exit(93);
		string e;
		if (mode == 0) e = cmp("file", tool({ "script.yasl" }, ""), o.status, o.out, &o.err);
		else if (mode == 1) e = cmp("-E", tool({ "-E", src }, ""), o.status, o.out, &o.err);
		else if (mode == 2) e = cmp("-e", tool({ "-e", src }, ""), o.status, o.out, &o.err);
		else if (mode == 3) {
			string none;
			bool syn = o.status == 4;
			e = cmp("-C", tool({ "-C", "script.yasl" }, ""), syn ? 4 : 0, "", syn ? &o.err : &none);
		} else {
			Res r = tool({}, src);
			r.out = after_banner(r.out, e);
			e += cmp("session", r, 0, "yasl> " + o.out + "yasl> ", &o.err);
		}
		for (auto f : { "/script.yasl", "/mod.yasl", "/bad.yasl" }) unlink((d + f).c_str());
		return e;
	};
}
// arguments of scripts, and which argument counts mean what
void arguments(Chooser &ch, Case &c, int maxn) {
	static const vector<string> A = { "", "a", "-e", "-C", "-h", "x y", "caf\xc3\xa9", "'q'", "5", "%s", "script.yasl" };
	int n = ch.choose(maxn + 1);
	vector<string> a = { "script.yasl" };
	string want = "[script.yasl";
	for (int i = 0; i < n; i++) { a.push_back(A[ch.choose(A.size())]); want += ", " + a.back(); }
	int useargs = ch.choose(2);
	want += "]\n" + S(n + 1) + "\n";
	for (auto &x : a) c.key += "'" + x + "' ";
	c.custom = [=] {
		const string d = scratch_dir();
		put(d + "/script.yasl", useargs ? "echo args\necho len args\n" : "let args = 3\necho args\n");
		string e = cmp("args", tool(a, ""), 0, useargs ? want : "3\n", nullptr);
		if (n == 0) e += cmp("-C", tool({ "-C", "script.yasl" }, ""), 0, "", nullptr);
		unlink((d + "/script.yasl").c_str());
		return e;
	};
}
// options as such
void options(Chooser &ch, Case &c) {
	static const vector<string> A = { "-h", "-V", "-e", "-E", "-C", "echo 1", "1", "ok.yasl", "bad.yasl", "nosuch.yasl", "", "--help", "-x" };
	int n = 1 + ch.choose(3);
	vector<string> a;
	for (int i = 0; i < n; i++) { a.push_back(A[ch.choose(A.size())]); c.key += "'" + a.back() + "' "; }
	c.custom = [=] {
		const string d = scratch_dir();
		put(d + "/ok.yasl", "echo 'ok ' ~ len args\n");
		put(d + "/bad.yasl", "let = 1\n");
		Res r = tool(a, "");
		string e;
		auto starts = [&](const string &p) { if (r.out.compare(0, p.size(), p)) e += "printed " + printable(r.out.substr(0, 200)) + "\n"; };
		auto code = [&](int x) { if (r.exit != x) e += "exit status " + S(r.exit) + ", expected " + S(x) + "\n"; };
		if (n == 1 && a[0] == "-h") { starts("usage: yasl"); code(0); for (auto o : { "-C", "-e", "-E", "-h", "-V" }) if (r.out.find(o) == string::npos) e += string("help lacks ") + o + "\n"; }
		else if (n == 1 && a[0] == "-V") { starts("YASL v"); code(0); }
		else if (n == 2 && (a[0] == "-e" || a[0] == "-E")) {
			if (a[1] == "echo 1") { code(4); }                 // nothing ends the last statement
			else if (a[1] == "") { code(0); starts(""); if (!r.out.empty()) e += "printed something\n"; }
			else if (r.exit == 0 && !(a[1] == "1")) { if (a[1].find(".yasl") != string::npos) e += "a file name was accepted as code\n"; }
		} else if (n == 2 && a[0] == "-C") {
			if (a[1] == "ok.yasl") { code(0); if (!r.out.empty()) e += "printed something\n"; }
			else if (a[1] == "bad.yasl") code(4);
			else { code(1); starts("ERROR: cannot open file."); }
		} else {                                                // a script and its arguments
			if (a[0] == "ok.yasl") { code(0); starts("ok " + S(n) + "\n"); }
			else if (a[0] == "bad.yasl") code(4);
			else { code(1); starts("ERROR: cannot open file."); }
		}
		if (r.sig) e += "killed by signal " + S(r.sig) + "\n";
		unlink((d + "/ok.yasl").c_str()); unlink((d + "/bad.yasl").c_str());
		return e;
	};
}
// sessions: each line is answered before the next prompt, whatever the lines are and however the input ends
void sessions(Chooser &ch, Case &c, int depth) {
	struct L { const char *line; const char *out; const char *err; };
	static const L ls[] = {
		{ "1 + 2", "3\n", "" }, { "echo 'e'", "e\n", "" }, { "", "", "" }, { "# c", "", "" }, { "let = 1", "", "SyntaxError: Expected ID, got = (line 1).\n" }, { "[1] + 'a'", "", "TypeError: list.__add expected arg in position 1 to be of type list, got arg of type str. (line 1)\n" },
		{ "'a'; 'b'", "b\n", "" }, { "'it''s' ~ \"x\"", nullptr, nullptr }, { "math.k = 4; math.k", "4\n", "" }, { "for i <- [1, 2] { echo i; }", "1\n2\n", "" }, { "fn(x) { return [x]; }('q')", "[q]\n", "" }, { "quit()", "", "" },
	};
	string in, out = "yasl> ", err; bool quit = false;
	int n = 1 + ch.choose(depth);
	for (int i = 0; i < n; i++) {
		const L &l = ls[ch.choose(12)];
		if (!l.out) throw Prune{};
		in += l.line;
		if (i + 1 < n || ch.flip()) in += "\n";
		else if (!*l.line) throw Prune{};
		if (quit) continue;
		if (!strcmp(l.line, "quit()")) { quit = true; continue; }
		out += l.out; err += l.err;
		if (in.back() == '\n') out += "yasl> ";
	}
	c.key = in;
	c.transitions = n;
	c.custom = [=] {
		string e;
		Res r = tool({}, in);
		string got = after_banner(r.out, e);
		// at the end of the input there may or may not be one more prompt and a line break
		auto trim = [](string s) { while (!s.empty() && s.back() == '\n') s.pop_back(); if (s.size() >= 6 && s.compare(s.size() - 6, 6, "yasl> ") == 0) s.resize(s.size() - 6); return s; };
		r.out = quit ? got : trim(got);
		return e + cmp("session", r, 0, quit ? out : trim(out), &err);
	};
}
Reg r({ "C01", "every program of a pool that covers the language, the library and all kinds of errors, as file, -E, -e, -C and session, against what the library does with it; every list of arguments; every combination of options; every session of lines",
	{ "the tool's main function is called in a child process of its own" },
	[](vector<Space> &v, bool th) {
	v.push_back({ "modes", S(progs().size() + snips::all().size()) + " programs x 5 modes", modes, 2 });
	v.push_back({ "arguments", "up to " + S(th ? 4 : 2) + " arguments out of 11", [=](Chooser &ch, Case &c) { arguments(ch, c, th ? 4 : 2); }, 3 });
	v.push_back({ "options", "1..3 arguments out of 13", options, 3 });
	v.push_back({ "sessions", "1.." + S(th ? 5 : 3) + " lines out of 11, with and without a final newline", [=](Chooser &ch, Case &c) { sessions(ch, c, th ? 5 : 3); }, 3 });
} });
}
