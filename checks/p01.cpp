// BUILD: variant=asan
// P01: every source text is either accepted or refused with a SyntaxError.
#include "ref.hpp"
using namespace mc;
using std::string; using std::vector;

namespace {
const vector<string> TOK = {
	"x", "1", "2.5", "'s'", "\"a#{1}b\"", "true", "undef", ";", "\n", ",", "(", ")", "[", "]", "{", "}", ".", "...",
	"=", "+=", "??=", "+", "-", "!", "*", "**", "~", "|", "||", "??", "?", ":", "->", "<-", "<", "==", "&&", "^",
	"if", "elseif", "else", "while", "break", "continue", "for", "const", "fn", "let", "return", "export", "echo", "len", "assert", "match",
	"y", "list", "=~", ":=", "`r`", "\"#{", "}\"", "'", "\"", "#c", "/*", "*/", "\x01", "0x", "$" };
const size_t CORE = 54;                               // the first ones are the proper tokens
struct Ctx { string name, pre, post; };
const vector<Ctx> CTX = {
	{ "program", "", "" }, { "function", "fn f() { ", " };" }, { "expression", "echo ", ";" }, { "list", "echo [", "];" }, { "table", "echo {", "};" },
	{ "arguments", "x(", ");" }, { "match", "match x { ", " };" }, { "pattern", "match x { ", " { echo 1; }; };" }, { "guard", "match x { let q if ", " { echo 1; }; };" },
	{ "loop", "for i <- [1] { ", " };" }, { "for", "for ", " { echo 1; };" }, { "if", "if ", " { echo 1; };" }, { "interpolation", "echo \"a#{", "}b\";" },
	{ "parameters", "fn g(", ") { return 1; };" }, { "let", "let ", " = 1;" }, { "value", "let z = ", ";" }, { "index", "echo x[", "];" }, { "member", "echo x.", ";" },
	{ "method", "x->", ";" }, { "comprehension", "echo [", " <- x];" }, { "multi", "let m, ", " = 1, 2;" }, { "unfinished", "fn h() { if true { ", "" }, { "list pattern", "match x { [", "] { echo 1; }; };" },
	{ "else", "if x { } else", ";" }, { "return", "fn k() { return ", "; };" }, { "nested", "echo fn() { const r = [{'a': ", "}]; return r; };" } };

// The text comes after a statement that ends the run, so an accepted program stops there with AssertError.
void finish(Case &c, const string &text, const string &end = "\n", bool file = false) {
	string src = "let x = [1];\nassert false;\n" + text + end;
	c.src = src;
	c.key = text + (end.empty() ? "(end)" : "") + (file ? "(file)" : "");
	c.states.push_back(fp(c.key));
	c.transitions = 1;
	c.custom = [src, file]() -> string {
		RunOpts o; o.nolibs = true; o.file = file;
		Outcome r = run_program(src, o);
		count_traces(1);
		string bad;
		if (r.badheap) bad += "heap fault: " + r.heapmsg + "\n";
		if (r.leaked) bad += std::to_string(r.leaked) + " heap blocks still live\n";
		if (!r.out.empty()) bad += "output: " + r.out + "\n";
		if (r.status == 10) { if (r.err.compare(0, 11, "AssertError") != 0) bad += "error text of an accepted program: " + r.err + "\n"; }
		else if (r.status == 4) { if (r.err.compare(0, 11, "SyntaxError") != 0) bad += "error text of a refused program: " + r.err + "\n"; }
		else bad += "status " + std::to_string(r.status) + ": " + r.err + "\n";
		return bad;
	};
}
string join(const vector<string> &t) {
	string s;
	for (size_t i = 0; i < t.size(); i++) { if (i) s += " "; s += t[i]; }
	return s;
}
void gen_tokens(Chooser &ch, Case &c, int n, size_t k, size_t nctx) {
	const Ctx &x = CTX[ch.choose((uint32_t)nctx)];
	vector<string> t;
	for (int i = 0; i < n; i++) t.push_back(TOK[ch.choose((uint32_t)k)]);
	finish(c, x.pre + join(t) + x.post);
}
const vector<string> BYTES = { "a", "0", "1", "_", ".", "e", "x", "b", "'", "\"", "`", "\\", "#", "{", "}", "\n", " ", "/", "*", "-", "+", "=", "<", string("\0", 1), "\xff", "(", ")", "[", "]", ",", ":", "~" };
const vector<Ctx> BCTX = { { "", "", "" }, { "", "echo ", ";" }, { "", "echo '", "';" }, { "", "echo \"", "\";" }, { "", "echo `", "`;" }, { "", "echo 0", ";" }, { "", "echo 1.", ";" }, { "", "echo \"a#{", "}\";" }, { "", "/*", "*/" }, { "", "#", "" }, { "", "echo '\\", "'" } };
void gen_bytes(Chooser &ch, Case &c, int n, size_t k) {
	const Ctx &x = ch.pick(BCTX);
	string s;
	for (int i = 0; i < n; i++) s += BYTES[ch.choose((uint32_t)k)];
	finish(c, x.pre + s + x.post);
}
void gen_ends(Chooser &ch, Case &c, int n) {            // the input ends right there
	const Ctx &x = BCTX[ch.choose((uint32_t)BCTX.size())];
	bool file = ch.flip();
	int k = (int)ch.choose((uint32_t)n + 1);
	string s;
	for (int i = 0; i < k; i++) s += BYTES[ch.choose((uint32_t)BYTES.size())];
	finish(c, x.pre + s, "", file);
}
// Programs with every construct, as tokens.
const vector<string> PROGRAMS = {
	"let a = 1 ; const b , let c = 2 , 3 ; a , x [ 0 ] = c , a ; a += b * ( c - 2 ) ** 2 ;",
	"fn f ( p , const q ) { let r = p ; if q { return r , q ; } elseif p { return f ( q , p ) ; } else { r = 1 ; } ; return r ; } ; f ( 1 , 2 ) ;",
	"for i <- [ 1 , 2 ] { if i { continue ; } ; let t = { 'a' : i , 'b' : [ i ] } ; t . a = t [ 'b' ] [ 0 ] ; break ; } ;",
	"for let i = 0 ; i < 3 ; i += 1 { while i { let w = i ; i -= w ; } ; } ;",
	"match x { [ let p , ... ] { echo p ; } 1 | 2 if x { echo 1 ; } { 'k' : const v , ... } { echo v ; } int . | undef { echo 2 ; } * { echo 3 ; } } ;",
	"let g = fn ( n ) { return fn ( ) { n += 1 ; return n ; } ; } ; echo g ( 1 ) ( ) ;",
	"echo [ e * 2 for e <- x if e > 1 ] ; echo { e : 1 for e <- x } ; echo [ ] ; echo { } ;",
	"const t = { } ; fn t . m ( self , v ) { self . v = v ; return self ; } ; t -> m ( 1 ) -> m ( 2 ) ; echo t . v ;",
	"echo x ? 1 : x ?? 2 || 3 && ! 4 == - 5 < 6 ~ 7 | 8 ^ 9 & 1 << 2 + 3 * 4 ;",
	"echo x [ 1 : ] ~ x [ : 2 ] ~ x [ 0 : 1 ] ~ len x ~ \"v#{ x }w#{ 1 + 2 }\" ;",
	"let u ; u ??= 1 ; x [ 0 ] ||= u ; x [ 0 ] = fn ( ) { return 1 ; } ; assert u == 1 ; export u ;",
	"const fn h ( ) { for k <- x { for j <- k { if j { return j ; } ; } ; } ; return undef ; } ; echo h ( ) ;",
};
vector<vector<string>> split_all() {
	vector<vector<string>> r;
	for (auto &p : PROGRAMS) {
		vector<string> t; string cur;
		for (size_t i = 0; i <= p.size(); i++) {
			if (i == p.size() || p[i] == ' ') {
				if (!cur.empty() && (cur[0] != '"' || (cur.size() > 1 && cur.back() == '"'))) { t.push_back(cur); cur.clear(); }
				else if (!cur.empty()) cur += ' ';
			} else cur += p[i];
		}
		r.push_back(t);
	}
	return r;
}
const vector<vector<string>> PT = split_all();
void edit(Chooser &ch, vector<string> &t, size_t from, size_t &at, size_t ntok) {
	uint32_t k = ch.choose(5);
	size_t i = from + ch.choose((uint32_t)(t.size() - from));
	at = i;
	auto d = [&](size_t j) { return t.begin() + (long)j; };
	if (k == 0) t.erase(d(i));
	else if (k == 1) t[i] = TOK[ch.choose((uint32_t)ntok)];
	else if (k == 2) t.insert(d(i), TOK[ch.choose((uint32_t)ntok)]);
	else if (k == 3) { if (i + 1 >= t.size()) throw Prune{}; std::swap(t[i], t[i + 1]); }
	else t.resize(i);
}
void gen_edit(Chooser &ch, Case &c, int n, size_t ntok) {
	vector<string> t = ch.pick(PT);
	size_t at = 0;
	for (int i = 0; i < n; i++) { if (at >= t.size()) throw Prune{}; edit(ch, t, at, at, ntok); }
	string s = join(t);
	if (ch.flip()) s = "fn w() { " + s + " };";
	finish(c, s);
}
void gen_cut(Chooser &ch, Case &c) {                 // every program cut off at every byte, or with any byte put there
	string s;
	uint32_t p = ch.choose((uint32_t)PROGRAMS.size());
	s = PROGRAMS[p];
	size_t i = ch.choose((uint32_t)s.size());
	uint32_t k = ch.choose(257);
	if (k == 256) s.resize(i); else s[i] = (char)k;
	finish(c, s);
}
void gen_deep(Chooser &ch, Case &c) {
	static const vector<std::pair<string, string>> N = { {"(", ")"}, {"[", "]"}, {"{1: ", "}"}, {"-", ""}, {"!", ""}, {"fn() { return ", "; }"}, {"x(", ")"}, {"x[", "]"}, {"1 ** ", ""}, {"1 ~ ", ""}, {"x ? 1 : ", ""}, {"\"#{", "}\""}, {"1 + (", ")"}, {"len ", ""} };
	static const vector<std::pair<string, string>> S = { {"if true { ", "; };"}, {"while false { ", "; };"}, {"for i <- [1] { ", "; };"}, {"fn() { ", "; };"}, {"match 1 { * { ", "; }; };"}, {"if false { } else { ", "; };"} };
	static const vector<int> D = { 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 400 };
	int d = D[ch.choose((uint32_t)D.size())];
	bool close = ch.choose(3) != 2;
	bool extra = false;
	string a, b;
	if (ch.flip()) {
		auto &p = N[ch.choose((uint32_t)N.size())];
		for (int i = 0; i < d; i++) { a += p.first; if (close) b += p.second; }
		extra = ch.flip();
		if (extra) b += p.second;
		finish(c, "echo " + a + "x" + b + ";");
	} else {
		auto &p = S[ch.choose((uint32_t)S.size())];
		for (int i = 0; i < d; i++) { a += p.first; if (close) b += p.second; }
		extra = ch.flip();
		if (extra) b += " }";
		finish(c, a + "echo 1" + b);
	}
}
Reg reg({ "P01",
	"every sequence of tokens in every grammatical context, every byte sequence in every lexical context, every edit of programs that hold every construct, nests of every bracket; run on the real compiler under AddressSanitizer and heap accounting",
	{ "a text is given to the compiler after a false assert: an accepted text ends with AssertError, any other one with SyntaxError, both without output and with all memory released" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "tokens 2", "2 tokens of all " + std::to_string(TOK.size()) + " in " + std::to_string(CTX.size()) + " contexts", [](Chooser &ch, Case &c) { gen_tokens(ch, c, 2, TOK.size(), CTX.size()); }, 2 });
		v.push_back({ "tokens 3", string("3 tokens of ") + (th ? "all in all contexts" : "the proper ones in 8 contexts"), [th](Chooser &ch, Case &c) { gen_tokens(ch, c, 3, th ? TOK.size() : CORE, th ? CTX.size() : 8); }, 3 });
		if (th) v.push_back({ "tokens 4", "4 proper tokens as program and in a function", [](Chooser &ch, Case &c) { gen_tokens(ch, c, 4, CORE, 2); }, 3 });
		v.push_back({ "bytes", string(th ? "4 of 32" : "3 of 32") + " bytes in 11 contexts", [th](Chooser &ch, Case &c) { gen_bytes(ch, c, th ? 4 : 3, BYTES.size()); }, 3 });
		v.push_back({ "ends", string("up to ") + (th ? "3" : "2") + " of 32 bytes after 11 openings, and then the input ends; from memory and from a file", [th](Chooser &ch, Case &c) { gen_ends(ch, c, th ? 3 : 2); }, 3 });
		v.push_back({ "edits", "one edit of 12 programs", [](Chooser &ch, Case &c) { gen_edit(ch, c, 1, TOK.size()); }, 3 });
		if (th) v.push_back({ "two edits", "two edits of 12 programs", [](Chooser &ch, Case &c) { gen_edit(ch, c, 2, 20); }, 3 });
		v.push_back({ "cuts", "12 programs, any byte at any place, or cut off there", [](Chooser &ch, Case &c) { gen_cut(ch, c); }, 2 });
		v.push_back({ "nests", "20 constructs nested up to 400 deep, closed or not", [](Chooser &ch, Case &c) { gen_deep(ch, c); }, 2 });
	} });
}
