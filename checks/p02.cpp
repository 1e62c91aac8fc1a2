// P02: what a program does depends on its tokens, not on how they are laid out or what its variables are called.
// BUILD: wrap=rand
#include "mc.hpp"
#include "snips.hpp"
#include <algorithm>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;
static int rnd;
extern "C" int __wrap_rand(void) { return rnd++; }

namespace {
enum TK { ID, NUM, STR, PIECE, OP, TERM };               // TERM: ';' or a newline that ends a statement
struct Tok { TK k; string s; bool end; };                // end: a newline after it would end the statement
const vector<string> KW = { "break", "const", "continue", "else", "elseif", "export", "fn", "for", "if", "echo", "let", "return", "undef", "while", "len", "assert", "match", "true", "false" };
bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; }
bool iskw(const string &s) { return std::find(KW.begin(), KW.end(), s) != KW.end(); }

struct Lex {
	const string &t; size_t i = 0; vector<Tok> v; bool ok = true;
	void add(TK k, const string &s) {
		bool e = k == NUM || k == STR || (k == ID && (!iskw(s) || s == "break" || s == "continue" || s == "undef" || s == "true" || s == "false" || (!v.empty() && (v.back().s == "." || v.back().s == "->")))) ||
			(k == OP && (s == ")" || s == "]" || s == "}"));
		v.push_back({ k, s, e });
	}
	void run(bool inner) {                                // inner: up to the '}' that ends an interpolation
		int depth = 0;
		while (i < t.size()) {
			char c = t[i];
			if (c == ' ' || c == '\t') { i++; continue; }
			if (c == '\n') { i++; if (!v.empty() && v.back().end) add(TERM, "\n"); continue; }
			if (inner && depth == 0 && c == '}') return;
			size_t b = i;
			if (idc(c) && !isdigit((unsigned char)c)) { while (i < t.size() && idc(t[i])) i++; add(ID, t.substr(b, i - b)); continue; }
			if (isdigit((unsigned char)c)) {
				if (c == '0' && i + 1 < t.size() && strchr("xb", t[i + 1])) i += 2;
				while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || (t[i] == '.' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1])))) i++;
				add(NUM, t.substr(b, i - b)); continue;
			}
			if (c == '\'' || c == '`') {
				i++;
				while (i < t.size() && t[i] != c) { if (c == '\'' && t[i] == '\\') i++; i++; }
				i++; add(STR, t.substr(b, i - b)); continue;
			}
			if (c == '"') { i++; string_rest(b); continue; }
			if (c == '#' || (c == '/' && i + 1 < t.size() && t[i + 1] == '*')) { ok = false; return; }
			static const vector<string> OPS = { "...", "===", "!==", "**=", "//=", "<<=", ">>=", "&^=", "&&=", "||=", "??=", "**", "//", "<<", ">>", "&^", "&&", "||", "??", "==", "!=", "<=", ">=", "->", "<-", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "~=", "=~", ":=" };
			string op(1, c);
			for (auto &o : OPS) if (t.compare(i, o.size(), o) == 0) { op = o; break; }
			i += op.size();
			if (op == ";") add(TERM, ";"); else add(OP, op);
			if (op == "{") depth++;
			if (op == "}") depth--;
		}
	}
	void string_rest(size_t b) {                          // after an opening '"' or the '}' of an interpolation
		bool any = false;
		for (;;) {
			while (i < t.size() && t[i] != '"' && !(t[i] == '#' && i + 1 < t.size() && t[i + 1] == '{')) { if (t[i] == '\\') i++; i++; }
			if (i >= t.size()) { ok = false; return; }
			if (t[i] == '"') { i++; add(STR, t.substr(b, i - b)); if (any) v.back().k = PIECE; return; }
			i += 2; add(PIECE, t.substr(b, i - b)); v.back().end = false; any = true;
			run(true);
			b = i; i++;
		}
	}
};
vector<Tok> lex(const string &s, bool *ok = nullptr) { Lex l{ s }; l.run(false); if (ok) *ok = l.ok; return l.v; }

// ways to fill the gap after a token; those from NLFROM on contain a newline
const vector<string> GAP = { "", " ", "\t  \t", "/**/", " /* * / ** // # ' \" #{ */\t", "\n", "# c ' \" /* #{ ;\n", " /* a\n; b */ ", "\n \n\t# d\n#\n\n" };
const size_t NLFROM = 5;
const vector<string> TERMS = { ";", "\n", " ; ", ";\n", "\t# e ' \"\n\n", " /* x\ny */ ", "; # f\n\n" };
bool merges(const Tok &a, const Tok &b) {                 // could not stand next to each other
	if (a.k == PIECE || b.k == PIECE) return false;
	auto v = lex(a.s + b.s);
	return v.size() != 2 || v[0].s != a.s || v[1].s != b.s;
}
struct Prog { string pre; vector<Tok> t; vector<bool> fixed; string text; };
struct Layout { vector<int> gap, term; };                 // per token
string write(const Prog &p, const Layout &l) {
	string s = p.pre;
	for (size_t i = 0; i < p.t.size(); i++) {
		const Tok &a = p.t[i];
		if (a.k == TERM) {
			string w = TERMS[(size_t)l.term[i]];
			bool safe = i > 0 && p.t[i - 1].end;                        // else a newline does not end the statement
			if (!safe) w = ";";
			if (w[0] == '/' && s.back() == '/') s += " ";
			s += w;
			continue;
		}
		s += a.s;
		if (i + 1 == p.t.size()) break;
		const Tok &b = p.t[i + 1];
		string g = GAP[(size_t)l.gap[i]];
		if (b.k == TERM) g = l.gap[i] < (int)NLFROM ? g : "";
		if (a.end && l.gap[i] >= (int)NLFROM) g = " ";
		if (g.empty() && merges(a, b)) g = " ";
		if (!g.empty() && g[0] == '/' && a.s.back() == '/') g = " " + g;
		s += g;
	}
	return s + "\n";
}
Layout plain(const Prog &p) { return { vector<int>(p.t.size(), 1), vector<int>(p.t.size(), 0) }; }

const vector<string> &extra() {
	static const vector<string> v = {
		"const f = fn(a, const b) { const c = a; let d = b; return fn() { d += c; return d; }; }; const h = f(1, 2); h(); echo h(); echo {'if': 1, 'fn': fn(s) { return 'm'; }}.if; echo {'let': fn(s) { return 'm'; }}->let()",
		"let a = 0x1F; let b = 0b101; let c = 1_000; let d = 1.5e3; let e = 2.0; echo a; echo b; echo c; echo d; echo - -e; echo ! !a; echo 1 - -1; echo +a; echo ^a; echo a&^b; echo a&b; echo a ^ b; echo a/ /* */b; echo a//b",
		"if undef { echo 1; } elseif 1 == 2 { echo 2; } elseif true { echo 3; } else { echo 4; }; let i = 0; while true { i += 1; if i < 3 { continue; } else { break; }; }; echo i",
		"let a = 1; let b = 2; a, b = b, a; echo a; echo b; let c, const d, a = 1, 2, 3; echo [a, c, d]; let t = {}; t.x = 1; t['y'] = 2; t.x, t.y = t.y, t.x; echo t.x; t.x += 5; t['y'] *= 3; echo t.x; echo t.y",
		"const s = \"a#{1 + 2}b#{\"c#{'d'}e\"}f#{[1, {'k': 2}][1].k}\"; echo s; echo \"#{s}\"; echo \"#{{'a': 1}.a}#{[x for x <- [1, 2] if x > 1]}\"; echo \"\"; echo \"plain\"; echo `raw # \\n`",
		"match [1, 'x', {'k': 2.5}, undef, true, -1] {\n[1 | 2, str, {'k': float}, undef, bool, let n] if n > 0 { echo 'no'; }\n[*, const q, {'k': 2.5, ...}, undef, true, ...] { echo q; }\n* { echo 'none'; }\n}",
		"match [] { [] { echo 'empty'; }; [*] { echo 'one'; }; }; match 5 { 1 | 2 { echo 'a'; }; list { echo 'l'; }; const v { echo v; }; }; match fn() { return 1; } { table | list { echo 't'; }; fn { echo 'f'; }; }",
		"for let i = 0; i < 2; i += 1 { for j <- 'ab' { echo i ~ j; }; }; for k <- {'z': 1} { echo k; }; for x <- [] { echo x; }; echo [i * j for i <- [y + 1 for y <- [1, 2]]  if i > 2] ?? 1",
		"fn a(n) { if n == 0 { return 0; }; return n + a(n - 1); }; echo a(5); const fn b(x, y) { return x, y; }; echo b(1, 2); fn c() { return 1; }; c(); c()->tostr()->toint(); echo (c)(); echo [c][0](); echo len 'abc' + len [1]; echo len len_x(); fn len_x() { return 'x'; }",
		"let x = 1; echo x ? 2 : 3; echo x == 1 ? x != 2 ? 'p' : 'q' : 'r'; echo x < 2 && x <= 1 || x >= 5 ?? x; echo 7 // 2 ** 2 % 3; echo 'a'[0:1]; echo [1, 2, 3][-2:][0]; echo [1, 2, 3][:2]; echo [[1]][0][0:1]; echo 1 << 2 >> 1 | 8 & 12; echo (1 + 2) * 3; x = y = 2",
		"let l = [1, 'a', {}]; echo l; echo len l; l->push(4)->push(5); echo l->pop(); echo l[0] === 1; echo l[1] !== 'a'; let $ = 1; let _ = 2; let $_a1 = 3; echo $ + _ + $_a1; l[0] = l[1] = 3",
		"echo 1 + 'a'", "let zz = [1, 2]; echo zz[5]", "fn bad(q) { assert q; return q; }; echo bad(1); echo bad(false)", "echo undefined_name", "let twice = 1; let twice = 2", "const fixed = 1; fixed = 2; echo fixed", "break", "echo 1 2", "echo (1", "let = 3", "if { }", "echo [1, 2", "match 1 { 2 }", "fn f( { return 1; }",
	};
	return v;
}
string base_prelude() { return "fn p(x) { return x; };\n" + snips::prelude(); }
const vector<Prog> &progs() {
	static const vector<Prog> v = [] {
		vector<Prog> v;
		auto add = [&](const string &pre, const string &text) {
			bool ok;
			Prog p; p.pre = pre; p.t = lex(text, &ok); p.text = text;
			if (!ok) return;
			v.push_back(p);
		};
		for (auto &s : snips::all()) {
			if (s.find("path") != string::npos) continue;
			add(base_prelude(), s + ";");
		}
		for (auto &s : extra()) { add("", s + ";"); add("", "const wrap = fn() { " + s + "; return 0; }; echo wrap();"); }
		add("", base_prelude());
		return v;
	}();
	return v;
}
struct Obs { int status; string out, err; };
Obs observe(const string &src, bool file, string &bad) {
	rnd = 0;
	RunOpts o; o.file = file;
	Outcome r = run_program(src, o);
	count_traces(1);
	if (r.badheap) bad += "heap fault: " + r.heapmsg + "\n";
	if (r.leaked) bad += std::to_string(r.leaked) + " heap blocks still live\n";
	// lines and names differ
	string e = r.err.substr(0, r.err.find_first_of(" :(."));
	return { r.status, r.out, e };
}
void finish(Case &c, const Prog &p, const string &text, bool file) {
	c.src = text.substr(p.pre.size());
	c.key = c.src + (file ? "(file)" : "");
	c.states.push_back(fp(c.key));
	const Prog *pp = &p;
	c.custom = [pp, text, file]() -> string {
		string bad;
		static std::map<const Prog *, Obs> cache;
		auto it = cache.find(pp);
		if (it == cache.end()) it = cache.emplace(pp, observe(pp->pre + pp->text + "\n", false, bad)).first;
		const Obs &a = it->second;
		Obs b = observe(text, file, bad);
		if (a.status != b.status) bad += "status " + std::to_string(b.status) + ", as first written " + std::to_string(a.status) + "\n";
		if (a.out != b.out) bad += "output " + printable(b.out) + "\nas first written " + printable(a.out) + "\n";
		if (a.err != b.err) bad += "error " + b.err + ", as first written " + a.err + "\n";
		if (!bad.empty()) bad += "as first written: " + pp->text + "\n";
		return bad;
	};
}
const Prog &choose_prog(Chooser &ch) { return progs()[ch.choose((uint32_t)progs().size())]; }
void gen_one(Chooser &ch, Case &c) {
	const Prog &p = choose_prog(ch);
	size_t i = ch.choose((uint32_t)p.t.size());
	Layout l = plain(p);
	if (p.t[i].k == TERM) l.term[i] = (int)ch.choose((uint32_t)TERMS.size());
	else { l.gap[i] = (int)ch.choose((uint32_t)(p.t[i].end ? NLFROM : GAP.size())); }
	finish(c, p, write(p, l), false);
}
void gen_two(Chooser &ch, Case &c, size_t dist, const vector<int> &which) {
	const Prog &p = choose_prog(ch);
	size_t i = ch.choose((uint32_t)p.t.size());
	size_t j = i + 1 + ch.choose((uint32_t)dist);
	if (j >= p.t.size()) throw Prune{};
	Layout l = plain(p);
	for (size_t k : { i, j }) {
		if (p.t[k].k == TERM) { l.term[k] = (int)ch.choose(3) * 2 + 1; if (l.term[k] == 3) l.term[k] = 4; }
		else {
			int g = ch.pick(which);
			if (p.t[k].end && g >= (int)NLFROM) throw Prune{};
			l.gap[k] = g;
		}
	}
	finish(c, p, write(p, l), false);
}
void gen_all(Chooser &ch, Case &c) {                      // all gaps alike, or alternating
	const Prog &p = choose_prog(ch);
	int a = (int)ch.choose((uint32_t)GAP.size()), b = (int)ch.choose((uint32_t)GAP.size()), t = (int)ch.choose((uint32_t)TERMS.size());
	bool file = ch.flip();
	Layout l = plain(p);
	for (size_t i = 0; i < p.t.size(); i++) { l.gap[i] = i % 2 ? a : b; l.term[i] = t; }
	string text = write(p, l);
	finish(c, p, text, file);
}
// Variables under other names.
const vector<string> KEEP = { "io", "mt", "math", "collections", "require", "list", "str", "table", "bool", "int", "float", "set", "p", "undefined_name", "o", "M", "ol", "g", "two", "id", "add", "rec", "counter" };
void gen_names(Chooser &ch, Case &c) {
	const Prog &p0 = choose_prog(ch);
	Prog p = p0;
	vector<string> names;
	bool inpre = !p.pre.empty();
	for (size_t i = 0; i < p.t.size(); i++) {
		auto &t = p.t[i];
		if (t.k != ID || iskw(t.s)) continue;
		if (i && (p.t[i - 1].s == "." || p.t[i - 1].s == "->")) continue;
		if (std::find(KEEP.begin(), inpre ? KEEP.end() : KEEP.begin() + 12, t.s) != (inpre ? KEEP.end() : KEEP.begin() + 12)) continue;
		if (std::find(names.begin(), names.end(), t.s) == names.end()) names.push_back(t.s);
	}
	if (names.empty()) throw Prune{};
	uint32_t scheme = ch.choose(9);
	uint32_t only = ch.choose((uint32_t)names.size() + 1);   // one of them, or all
	auto ren = [&](size_t i) -> string {
		string n = std::to_string(i);
		switch (scheme) {
		case 0: return string(300, 'n') + n;
		case 1: return "$" + n;
		case 2: return "_" + string(i, '_');
		case 3: return vector<string>{ "iff", "forx", "breaks", "con", "fns", "lets", "truex", "undefs", "lens", "matches", "asserts", "els", "returns", "whiles", "echoes", "Echo", "IF", "e", "Fn", "continues", "nope", "used", "dot", "ins", "elseifs" }[i % 25] + (i >= 25 ? n : "");
		case 4: return "x" + string(i, 'x');
		case 5: return vector<string>{ "toupper", "push", "keys", "tostr", "__add", "self", "S", "main", "this", "echo_", "stdout", "spread", "undef_", "null", "printf", "prototype", "__get", "sort", "pop" }[i % 19] + (i >= 19 ? n : "");
		case 6: return "v" + std::to_string(1000000 - (long)i);
		case 7: return string(1, char('A' + i % 26)) + (i >= 26 ? n : "");
		default: { string s; for (size_t b = 0; b < 8; b++) s += (i >> b) & 1 ? "Ab" : "aB"; return s; }   // alike but for case
		}
	};
	std::map<string, string> m;
	for (size_t i = 0; i < names.size(); i++) {
		if (only < names.size() && i != only) continue;
		string r = ren(i);
		if (std::find(names.begin(), names.end(), r) != names.end()) throw Prune{};
		for (auto &k : KEEP) if (k == r) throw Prune{};
		m[names[i]] = r;
	}
	for (size_t i = 0; i < p.t.size(); i++) if (p.t[i].k == ID && !(i && (p.t[i - 1].s == "." || p.t[i - 1].s == "->")) && m.count(p.t[i].s)) p.t[i].s = m[p.t[i].s];
	string text = write(p, plain(p));
	finish(c, p0, text, false);
}
// Whatever a comment contains.
void gen_comments(Chooser &ch, Case &c, int n) {
	static const vector<string> A = { "/", "*", "#", "\n", "'", "x", "\"" };
	bool block = !ch.flip();
	int k = (int)ch.choose((uint32_t)n + 1);
	string b;
	for (int i = 0; i < k; i++) { b += ch.pick(A); if (!block && b.back() == '\n') throw Prune{}; }
	string h;
	if (block) { if ((b + "*/").find("*/") != b.size()) throw Prune{}; h = "/*" + b + "*/"; }
	else h = "#" + b + "\n";
	bool nl = h.find('\n') != string::npos;
	string s;
	switch (ch.choose(7)) {
	case 0: s = "echo 1 + " + h + " 2;\n"; c.out = "3\n"; break;
	case 1: s = "echo 3" + h + "\n"; c.out = "3\n"; break;
	case 2: s = h + "echo 3;\n"; c.out = "3\n"; break;
	case 3: s = "echo 3;" + h + "\n" + h + "\n\n" + h + "\n"; c.out = "3\n"; break;
	case 4: s = "echo [1," + h + "2];\n"; c.out = "[1, 2]\n"; break;
	case 5: s = string("echo 3 ") + h + (nl ? "" : ";") + "echo 4;\n"; c.out = "3\n4\n"; break;
	default: s = "fn f(" + h + "a) {" + h + "return " + (nl ? "a;" : h + "a;") + "}\necho \"#{f(" + h + "7)}\";\n"; c.out = "7\n"; break;
	}
	int line = 1; for (char x : s) line += x == '\n';
	c.src = s + "assert false;\n";
	c.status = 10; c.line = line;
	c.transitions = 1;
	c.states.push_back(fp(c.src));
}
Reg reg({ "P02",
	"programs that use all the syntax; one, two or all gaps between tokens are filled in every way, statements are ended in every way, variables are renamed, the text is read from memory or from a file; what the program does is compared with its first version",
	{ "blanks, tabs and comments may stand between any two tokens; newlines, and comments with newlines in them, wherever the token before cannot end a statement, and instead of a ';' otherwise",
	  "of the error text only the class is compared: lines and names change (R01 decides them)" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "one gap", "every gap of " + std::to_string(progs().size()) + " programs, 9 fillings, 7 ways to end a statement", [](Chooser &ch, Case &c) { gen_one(ch, c); }, 2 });
		v.push_back({ "all gaps", "every two fillings alternating, 7 ways to end a statement, from memory and from a file", [](Chooser &ch, Case &c) { gen_all(ch, c); }, 2 });
		v.push_back({ "two gaps", string("gaps at most ") + (th ? "12" : "2") + " apart, " + (th ? "8" : "5") + " fillings each", [th](Chooser &ch, Case &c) { gen_two(ch, c, th ? 12 : 2, th ? vector<int>{ 0, 2, 3, 4, 5, 6, 7, 8 } : vector<int>{ 0, 4, 5, 6, 7 }); }, 2 });
		v.push_back({ "comments", string("comments of both kinds holding up to ") + (th ? "6" : "5") + " of 7 characters, in 7 places", [th](Chooser &ch, Case &c) { gen_comments(ch, c, th ? 6 : 5); }, 3 });
		v.push_back({ "names", "9 ways to name variables, one of them or all", [](Chooser &ch, Case &c) { gen_names(ch, c); }, 2 });
	} });
}
