// P03: a string literal denotes exactly the bytes it spells, or is refused.
// BUILD: variant=asan
#include "mc.hpp"
extern "C" {
#include "yasl.h"
}
using namespace mc;
using std::string; using std::vector;

namespace {
int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// What a literal in these delimiters, with this text between them, stands for.
struct Lit { bool ok = true, interp = false; string v; };
Lit decode(char delim, const string &body) {
	Lit r;
	string t = body + delim + ";\n";
	size_t i = 0;
	for (;; i++) {
		char c = t[i];
		if (c == delim) { if (i != body.size()) throw Prune{}; return r; }     // closes early: another text
		if (delim != '`') {
			if (c == '\n') { r.ok = false; return r; }
			if (c == '\\') {
				static const string E = "abfnrtv0'\"#\\", V = string("\a\b\f\n\r\t\v\0'\"#\\", 12);
				c = t[++i];
				size_t k = E.find(c);
				if (k != string::npos) { r.v += V[k]; continue; }
				if (c == 'x') {
					int a = hexv(t[i + 1]), b = a < 0 ? -1 : hexv(t[i + 2]);
					if (b < 0) { r.ok = false; return r; }
					r.v += (char)(a * 16 + b); i += 2;
					continue;
				}
				r.ok = false;
				return r;
			}
			if (delim == '"' && c == '#') {
				if (t.compare(i, 4, "#{q}") == 0) { r.v += "Q"; r.interp = true; i += 3; continue; }
				size_t j = i + 1; while (t[j] == ' ' || t[j] == '\t') j++;
				if (t[j] == '{') throw Prune{};                       // an expression: not this check's
				r.ok = false;
				return r;
			}
		}
		r.v += c;
	}
}
void finish(Case &c, char delim, const string &body, uint32_t form, bool file) {
	Lit l = decode(delim, body);
	string lit = string(1, delim) + body + string(1, delim);
	if (form && l.interp) throw Prune{};                      // not allowed as a pattern
	string s = "let q = 'Q'; let n = 0;\n";
	switch (form) {
	case 0: s += "let s = " + lit + ";\necho len s; echo s == W; echo W == s; let t = {W: 7}; echo t[s]; for x <- s { n += 1; }; echo n;\n"; c.out = std::to_string(l.v.size()) + "\ntrue\ntrue\n7\n" + std::to_string(l.v.size()) + "\n"; break;
	case 1: s += "match W {\n" + lit + " { echo 1; }\n* { echo 2; }\n}\nmatch W ~ 'z' {\n" + lit + " { echo 1; }\n* { echo 2; }\n}\n"; c.out = "1\n2\n"; break;
	default: s += "let t = {" + lit + ": 'in'}; echo t[W]; echo len t; match [W] {\n[" + lit + "] { echo 3; }\n* { echo 4; }\n}\necho W == " + lit + "; echo " + lit + " ~ 'y' == W ~ 'y';\n"; c.out = "in\n1\n3\ntrue\ntrue\n"; break;
	}
	int line = 1; for (char x : s) line += x == '\n';
	s += "assert false;\n";
	c.src = s;
	if (l.ok) { c.status = 10; c.line = line; } else { c.status = 4; c.out = ""; }
	c.transitions = 1;
	c.states.push_back(fp(lit));
	string want = l.v;
	c.custom = [cs = Case(c), want, file]() -> string {
		RunOpts o; o.nolibs = true; o.file = file;
		o.setup = [want](void *q) { auto S = (struct YASL_State *)q; YASL_declglobal(S, "W"); YASL_pushlstr(S, want.data(), want.size()); YASL_setglobal(S, "W"); };
		Outcome r = run_program(cs.src, o);
		count_traces(1);
		string w = compare(cs, r);
		if (!w.empty()) w += "the text stands for " + printable(want) + "\n";
		return w;
	};
}
const char DELIM[] = { '\'', '"', '`' };
void gen_units(Chooser &ch, Case &c, int n) {
	static const vector<string> U = { "a", "'", "\"", "`", "\\", "#", "{", "}", "#{q}", "\n", string("\0", 1), "\xff", "x", "0", "n", "4", " ", ";", "\r", "//", "\x80" };
	char d = DELIM[ch.choose(3)];
	uint32_t form = ch.choose(3);
	string body; int k = (int)ch.choose((uint32_t)n + 1);
	for (int i = 0; i < k; i++) body += ch.pick(U);
	finish(c, d, body, form, k < 3 && ch.flip());
}
void gen_more(Chooser &ch, Case &c, int n) {
	static const vector<string> U = { "a", "'", "\"", "\\", "#", "#{q}", "\n", string("\0", 1), "\xff", "x", "0", "n", " " };
	char d = DELIM[ch.choose(3)];
	string body;
	for (int i = 0; i < n; i++) body += ch.pick(U);
	finish(c, d, body, 0, false);
}
void gen_esc(Chooser &ch, Case &c) {
	char d = DELIM[ch.choose(2)];
	uint32_t where = ch.choose(3), x = ch.choose(256);
	finish(c, d, string(where ? "a" : "") + "\\" + string(1, (char)x) + (where == 2 ? "b" : ""), ch.choose(3), ch.flip());
}
void gen_hex(Chooser &ch, Case &c, bool th) {
	char d = DELIM[ch.choose(th ? 2 : 1)];
	uint32_t a = ch.choose(256), b = ch.choose(256);
	bool more = th && ch.flip();
	finish(c, d, string("\\x") + string(1, (char)a) + string(1, (char)b) + (more ? "4" : ""), 0, false);
}
void gen_bytes(Chooser &ch, Case &c, bool th) {
	static const vector<uint32_t> B = { 256, '\'', '"', '`', '\\', '#', '\n', '\r', ' ', '\t', 0, 1, '0', 'a', '/', '*', '{', ';', 127, 128, 255 };
	char d = DELIM[ch.choose(3)];
	uint32_t a = ch.choose(256), b = th ? ch.choose(257) : ch.pick(B);
	finish(c, d, string(1, (char)a) + (b < 256 ? string(1, (char)b) : ""), ch.choose(2), false);
}
// Long literals: one unit repeated, another one near the places where a buffer may grow.
void gen_long(Chooser &ch, Case &c, bool th) {
	static const vector<int> N = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
	static const vector<string> U = { "a", "\\n", "\\x00", "\\xff", "\\\\", "#{q}", "\\#", "\xc3\xa9" };
	char d = DELIM[ch.choose(3)];
	int n = ch.pick(N);
	if (n > 70 && !th && n % 256 > 1) throw Prune{};
	if (n > 300 && !th && n % 4096 != 1) throw Prune{};
	const string &u = ch.pick(U);
	if (n > 300 && !th && &u - U.data() > 2) throw Prune{};
	if (u == "#{q}" && (d != '"' || n > 130)) throw Prune{};
	int back = (int)ch.choose(4);
	const string &v = ch.pick(U);
	if (v == "#{q}" && d != '"') throw Prune{};
	string body;
	for (int i = 0; i < n; i++) { if (i == n - 1 - back) body += v; else body += u; }
	finish(c, d, body, ch.choose(2) * 2, n < 600 && ch.flip());
}
Reg r({ "P03", "string literals in all three kinds of quotes: every text between the quotes, up to the bounds, either stands for the bytes an independent decoder of the documented escapes gives (compared in the program with the bytes pushed through the C API: length, both ways of ==, as a table key, as a pattern, element by element; and the line count goes on correctly after it), or the program is refused with a SyntaxError and does nothing",
	{ "expressions inside of interpolated strings are left to other checks; here there is only one variable in them", "a text that closes the literal early is another text" },
	[](vector<Space> &v, bool th) {
		int n = th ? 4 : 3, m = th ? 5 : 4;
		v.push_back({ "texts", "all sequences of up to " + std::to_string(n) + " of 21 units in 3 kinds of quotes, as a value, pattern and key, from a buffer and from a file", [n](Chooser &c, Case &k) { gen_units(c, k, n); }, 3 });
		v.push_back({ "longer texts", "all sequences of " + std::to_string(m) + " of 13 units in 3 kinds of quotes", [m](Chooser &c, Case &k) { gen_more(c, k, m); }, 3 });
		v.push_back({ "escapes", "a backslash before each of 256 bytes, 3 surroundings", gen_esc, 3 });
		v.push_back({ "hex escapes", "\\x before every two bytes", [th](Chooser &c, Case &k) { gen_hex(c, k, th); }, 2 });
		v.push_back({ "bytes", string("every byte, alone and before ") + (th ? "every other" : "20 others"), [th](Chooser &c, Case &k) { gen_bytes(c, k, th); }, 2 });
		v.push_back({ "lengths", "literals of 1 to 65537 units around every power of two, 8 kinds of unit, another kind near the end", [th](Chooser &c, Case &k) { gen_long(c, k, th); }, 3 });
	} });
}  // namespace
