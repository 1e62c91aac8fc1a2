// O01: what a program prints arrives complete, in order and unchanged, wherever it goes.
// BUILD: variant=asan budget=400 tbudget=3000
#include "mc.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
extern "C" void mc_make_room(struct YASL_State *S);
using namespace mc;
using std::string; using std::vector;

namespace {
string S(long x) { return std::to_string(x); }
string slurp(const string &path) {
	string r; char b[4096]; ssize_t n;
	int fd = open(path.c_str(), O_RDONLY);
	while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	if (fd >= 0) close(fd);
	return r;
}
struct Res { int status = -1; string out, err; bool died = false; };
typedef std::function<void(struct YASL_State *)> Setup;
// into strings, or into the files a process of its own was given
Res run(const string &src, bool tofile, const Setup &setup) {
	Res r;
	if (!tofile) {
		struct YASL_State *St = YASL_newstate_bb(src.data(), src.size());
		YASLX_decllibs(St);
		YASL_setprintout_tostr(St); YASL_setprinterr_tostr(St);
		setup(St);
		r.status = YASL_execute(St);
		if (r.status == YASL_STACK_OVERFLOW_ERROR) mc_make_room(St);
		for (int i = 0; i < 2; i++) {
			i ? YASL_loadprinterr(St) : YASL_loadprintout(St);
			char *p = YASL_isstr(St) ? YASL_popcstr(St) : nullptr;
			if (p) { (i ? r.err : r.out) = p; free(p); }
		}
		YASL_delstate(St);
		count_traces(1);
		return r;
	}
	const string d = scratch_dir();
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		int o = open((d + "/o").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open((d + "/e").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (o < 0 || e < 0) _exit(93);
		dup2(o, 1); dup2(e, 2);
		alarm(20);
		struct YASL_State *St = YASL_newstate_bb(src.data(), src.size());
		YASLX_decllibs(St);
		setup(St);
		int s = YASL_execute(St);
		YASL_delstate(St);
		fflush(stdout); fflush(stderr);
		_exit(s);
	}
	int st;
	waitpid(p, &st, 0);
	if (WIFEXITED(st)) r.status = WEXITSTATUS(st); else r.died = true;
	r.out = slurp(d + "/o"); r.err = slurp(d + "/e");
	count_traces(1);
	return r;
}
string differ(const string &a, const string &b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t f = i > 20 ? i - 20 : 0;
	return S((long)a.size()) + " bytes, expected " + S((long)b.size()) + "; from byte " + S((long)f) + ": " + printable(a.substr(f, 80)) + " expected " + printable(b.substr(f, 80)) + "\n";
}
string check(const string &src, bool tofile, int status, const string &out, const string &err, const Setup &setup = [](struct YASL_State *) {}) {
	Res r = run(src, tofile, setup);
	string e;
	if (r.died) return "the program was killed\n";
	if (r.status != status) e += "status " + S(r.status) + ", expected " + S(status) + "\n";
	if (r.out != out) e += "output: " + differ(r.out, out);
	if (r.err != err) e += "errors: " + differ(r.err, err);
	return e;
}
string nonul(const string &s) { string r; for (char c : s) if (c) r += c; return r; }
string lit(const string &s) {
	string r = "'";
	for (char ch : s) { char b[8]; if (isalnum((unsigned char)ch) || ch == ' ') r += ch; else { snprintf(b, sizeof b, "\\x%02x", (unsigned char)ch); r += b; } }
	return r + "'";
}
// echo of every length, with nuls at some places, of a str, in a list, from a conversion and computed
const char *KINDS[] = { "str", "variable", "list", "table", "tostr", "interpolated", "joined" };
void lengths(Chooser &ch, Case &c, int n, int step) {
	int kind = (int)ch.choose(7), from = (int)ch.choose((uint32_t)(n / (16 * step))) * 16 * step, tofile = (int)ch.choose(2);
	if (tofile && from % (64 * step)) throw Prune{};
	c.key = string(KINDS[kind]) + " " + S(from) + ".." + S(from + 15 * step) + (tofile ? " to a file" : " to a string");
	c.transitions = 16 * 6;
	c.custom = [=]() -> string {
		string src = "const N = '\\x00';\n", want;
		for (int len = from; len < from + 16 * step; len += step) {
			for (int nul = 0; nul < (len ? 6 : 1); nul++) {
				// none, the first, the last, one in the middle, every other, all
				string v;
				for (int i = 0; i < len; i++) {
					bool z = nul == 1 ? i == 0 : nul == 2 ? i == len - 1 : nul == 3 ? i == len / 2 : nul == 4 ? i % 2 == 1 : nul == 5;
					v += z ? '\0' : (char)('a' + i % 26);
				}
				string x;
				if (nul == 0 || nul == 1 || nul == 2 || nul == 3) {
					// built from pieces, so that programs stay short
					size_t z = v.find('\0');
					x = nul == 0 ? "abc(" + S(len) + ")" : "(abc(" + S(len) + ")[:" + S((long)z) + "] ~ N ~ abc(" + S(len) + ")[" + S((long)z + 1) + ":])";
				} else x = nul == 4 ? "alt(" + S(len) + ")" : "N->rep(" + S(len) + ")";
				string t = nonul(v), b = nonul(v);
				switch (kind) {
				case 0: src += "echo " + x + ";\n"; break;
				case 1: src += "s = " + x + "; echo s; \n"; break;
				case 2: src += "echo [" + x + "];\n"; t = "[" + t + "]"; break;
				case 3: src += "echo {'k': " + x + "};\n"; t = "{k: " + t + "}"; break;
				case 4: src += "s = " + x + "; echo mt.set({}, {'tostr': fn(o) { return s; }});\n"; break;
				case 5: src += "echo \"<#{" + x + "}>\";\n"; t = "<" + t + ">"; break;
				case 6: src += "echo ['(', " + x + ", ')']->join(N);\n"; t = "(" + t + ")"; break;
				}
				if ((kind == 2 || kind == 3) && nul) { src.erase(src.rfind("echo")); continue; }     // how a list shows a nul is its own affair
				want += t + "\n";
			}
		}
		src = "const ABC = 'abcdefghijklmnopqrstuvwxyz'->rep(" + S(n / 26 + 2) + "); const ALT = 'a\\x00c\\x00e\\x00g\\x00i\\x00k\\x00m\\x00o\\x00q\\x00s\\x00u\\x00w\\x00y\\x00'->rep(" + S(n / 26 + 2) + ");\nfn abc(n) { return ABC[:n]; };\nfn alt(n) { return ALT[:n]; };\nlet s = undef;\n" + src;
		return check(src, tofile, 0, want, "");
	};
}
// texts of the program in its output and in descriptions of errors
const vector<string> &texts() {
	static const vector<string> t = [] {
		vector<string> t = { "a", "%", "%%", "%s", "%d%d%d", "%n", "%1000000d", "%.*s", "x%", "a b", " lead", "trail ", "tab\there", "it's", "\"quoted\"", "back\\slash", "#{x}", "line\nbreak", "\n", "\r", "\x01\x7f\x80\xff", "\xe2\x82\xac", "(line 7)", "\x1b[31m", "In function call on line 3\n" };
		for (int n : { 100, 126, 127, 128, 129, 255, 256, 257, 1022, 1023, 1024, 1025, 1026, 4095, 4096, 4097, 20000, 70000 }) { t.push_back(string(n, 'y')); string s; while ((int)s.size() < n) s += "%s%x%n%d."; t.push_back(s.substr(0, n)); }
		return t;
	}();
	return t;
}
struct Place { const char *name; string before, after; int status; string out0, out1, err0, err1; bool file = false; };
const vector<Place> &places() {
	static const vector<Place> p = {
		{ "echo", "echo ", ";\n", 0, "", "\n", "", "" },
		{ "echo twice", "const x = ", "; echo x ~ x[:0];\n", 0, "", "\n", "", "" },
		{ "written", "io.stdout->write(", "); io.stdout->flush();\n", 0, "", "", "", "", true },
		{ "written to stderr", "io.stderr->write(", ");\n", 0, "", "", "", "", true },
		{ "error of the program", "raise(", ");\n", 2, "", "", "", " (line 1)\n" },
		{ "error in a function", "fn f(x) { raise(x); }; f(", ");\n", 2, "", "", "", " (line 1)\nIn function call on line 1\n" },
		{ "origin of a seek", "io.stdin->seek(", ", 1);\n", 7, "", "", "ValueError: io.file.seek expected arg in position 1 to be one of 'set', 'cur', or 'end', got '", "'. (line 1)\n" },
		{ "key of a table", "echo {", ": 1};\n", 0, "{", ": 1}\n", "", "" },
		{ "in a list", "echo [", "];\n", 0, "[", "]\n", "", "" },
	};
	return p;
}
int raise(struct YASL_State *St) {
	char *p = YASL_peekcstr(St);
	string s = p ? p : "";
	free(p);
	YASL_print_err(St, "%s", s.c_str());
	s.clear(); s.shrink_to_fit();
	YASL_throw_err(St, YASL_ERROR);
	return 0;
}
void verbatim(Chooser &ch, Case &c) {
	int pl = (int)ch.choose((uint32_t)places().size()), how = (int)ch.choose(3), tofile = (int)ch.choose(2);
	const string t = texts()[ch.choose((uint32_t)texts().size())];
	const Place p = places()[pl];
	if (p.file && !tofile) throw Prune{};
	string x = lit(t), pre;
	if (how == 1) { pre = "const t = " + x + "; "; x = "t"; }
	if (how == 2) { pre = "fn t(s) { return s; }; "; x = "t(" + x + ")"; }
	string want = t;
	const string src = pre + p.before + x + p.after;
	c.key = string(p.name) + " " + S(how) + S(tofile) + " " + printable(t.substr(0, 40)) + S((long)t.size());
	c.src = src.size() < 2000 ? src : src.substr(0, 1000) + "...\n";
	c.states.push_back(fp(c.key));
	c.custom = [=]() -> string {
		string o = p.out0 + p.out1, e = p.err0 + p.err1;
		if (p.status) e = p.err0 + want + p.err1;
		else if (string(p.name) == "written to stderr") e = want;
		else o = p.out0 + want + p.out1;
		return check(src, tofile, p.status, o, e, [](struct YASL_State *St) { YASL_declglobal(St, "raise"); YASL_pushcfunction(St, raise, 1); YASL_setglobal(St, "raise"); });
	};
}
// names in the text of a SyntaxError
void names(Chooser &ch, Case &c) {
	static const int N[] = { 1, 2, 9, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 5000, 70000 };
	int n = N[ch.choose(20)], form = (int)ch.choose(5), tofile = (int)ch.choose(2);
	string id;
	for (int i = 0; i < n; i++) id += i % 10 == 9 ? '_' : (char)('q' + i % 5);
	static const char *F[] = { "echo @;\n", "const @ = 1; @ = 2;\n", "let @ = 1; let @ = 2;\n", "fn f() { return @ + 1; };\n", "match 1 { @ { echo 1; } }\n" };
	string src = F[form];
	for (size_t p; (p = src.find('@')) != string::npos;) src.replace(p, 1, id);
	string want = form == 0 || form == 3 ? "Undeclared variable " + id : form == 1 ? "Cannot assign to constant " + id : form == 2 ? "Illegal redeclaration of " + id : "Invalid pattern: " + id;
	c.key = S(form) + S(tofile) + " " + S(n);
	c.src = src.substr(0, 200);
	c.states.push_back(fp(c.key));
	c.custom = [=]() -> string { return check(src, tofile, 4, "", "SyntaxError: " + want + " (line 1).\n"); };
}
// order: everything printed before comes before, also what a function, an overload or a library writes on the way
void order(Chooser &ch, Case &c, int n) {
	struct Op { const char *src; string out, err; bool file; int status; };
	static const vector<Op> OPS = {
		{ "echo 'a';", "a\n", "", false, 0 },
		{ "echo '';", "\n", "", false, 0 },
		{ "echo 'b'->rep(1500);", string(1500, 'b') + "\n", "", false, 0 },
		{ "echo 'c'->rep(9000);", string(9000, 'c') + "\n", "", false, 0 },
		{ "echo t;", "<t>\n[1]\n", "", false, 0 },
		{ "for i <- [1, 2] { echo i; }", "1\n2\n", "", false, 0 },
		{ "f(3);", "f\n", "", false, 0 },
		{ "io.stdout->write('w');", "w", "", true, 0 },
		{ "io.stdout->write('v'->rep(5000));", string(5000, 'v'), "", true, 0 },
		{ "io.stdout->flush();", "", "", true, 0 },
		{ "io.stderr->write('e');", "", "e", true, 0 },
		{ "raise('r');", "", "r", false, 2 },
		{ "echo [1][g()];", "g\n", "ValueError", false, 7 },
	};
	string src = "const t = mt.set({}, {'tostr': fn(o) { echo '<t>'; return [1]->tostr(); }}); fn f(x) { echo 'f'; return x; }; fn g() { echo 'g'; return 5; };\n", out, err;
	bool tofile = ch.flip(); int status = 0;
	string key = tofile ? "file" : "string";
	for (int i = 0; i < n; i++) {
		uint32_t k = ch.choose((uint32_t)OPS.size() + 1);
		if (k == OPS.size()) { if (i == 0) throw Prune{}; break; }
		const Op &o = OPS[k];
		if (o.file && !tofile) throw Prune{};
		src += string(o.src) + "\n"; key += " " + S(k);
		if (status) { src += "echo 'not reached';\n"; continue; }
		out += o.out; err += o.err; status = o.status;
		if (o.status == 2) err += " (line " + S(i + 2) + ")\n";
		if (o.status == 7) err += ": unable to index list of length 1 with index 5. (line " + S(i + 2) + ")\n";
	}
	c.key = key; c.src = src; c.transitions = n;
	c.states.push_back(fp(out));
	c.custom = [=]() -> string { return check(src, tofile, status, out, err, [](struct YASL_State *St) { YASL_declglobal(St, "raise"); YASL_pushcfunction(St, raise, 1); YASL_setglobal(St, "raise"); }); };
}
// reading back what was printed so far, as often as one likes, leaves it and the program alone
int peekout(struct YASL_State *St) { YASL_loadprintout(St); return 1; }
int peekerr(struct YASL_State *St) { YASL_loadprinterr(St); return 1; }
void reading(Chooser &ch, Case &c, int n) {
	string src, out, key;
	for (int i = 0; i < n; i++) {
		uint32_t k = ch.choose(6);
		key += S(k);
		switch (k) {
		case 0: src += "echo 'x';\n"; out += "x\n"; break;
		case 1: src += "echo 'z'->rep(1100);\n"; out += string(1100, 'z') + "\n"; break;
		case 2: src += "echo len printed();\n"; out += S((long)out.size()) + "\n"; break;
		case 3: src += "echo printed();\n"; out += out + "\n"; break;
		case 4: src += "keep = printed();\n"; break;
		case 5: src += "echo printed()->startswith(keep);\n"; out += "true\n"; break;
		}
	}
	const string s = "let keep = '';\n" + src;
	c.key = key; c.src = s; c.transitions = n;
	c.states.push_back(fp(out));
	c.custom = [=]() -> string {
		string all;
		return check(s, false, 0, out, "", [](struct YASL_State *St) {
			YASL_declglobal(St, "printed"); YASL_pushcfunction(St, peekout, 0); YASL_setglobal(St, "printed"); });
	};
}
Reg r({ "O01", "echo of values of every length up to beyond all buffers, with and without nul bytes, of seven kinds, to strings and to files; every text with a meaning to printf, quoting or terminals, and of every size around powers of two, in every place where output or errors show texts of the program; every sequence of things that print; reading the output back while it grows",
	{ "echo leaves out nul bytes", "standard output and standard error are compared each for itself" },
	[](vector<Space> &v, bool th) {
	int n = th ? 4096 : 2304;
	v.push_back({ "lengths", "0.." + S(n) + " bytes x 6 placements of nul x 7 kinds", [=](Chooser &ch, Case &c) { lengths(ch, c, n, 1); }, 2 });
	v.push_back({ "long", "0.." + S(th ? 400000 : 80000) + " bytes in steps of 1001", [=](Chooser &ch, Case &c) { lengths(ch, c, th ? 400000 : 80000, 1001); }, 2 });
	v.push_back({ "verbatim", S(texts().size()) + " texts x 9 places x 3 ways x string or file", verbatim, 2 });
	v.push_back({ "names", "20 lengths x 5 errors x string or file", names, 2 });
	v.push_back({ "order", "1.." + S(th ? 4 : 3) + " of 13 operations", [=](Chooser &ch, Case &c) { order(ch, c, th ? 4 : 3); }, 2 });
	v.push_back({ "reading back", S(th ? 7 : 5) + " of 6 operations", [=](Chooser &ch, Case &c) { reading(ch, c, th ? 7 : 5); }, 2 });
} });
}
