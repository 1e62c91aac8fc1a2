// S01: str methods compute what they say on every string, however the string came about.
#include "ref.hpp"
using namespace mc;
using std::string; using std::vector;

namespace {
string q(const string &s) {                              // as a literal
	string r = "'";
	for (unsigned char c : s) {
		char b[8];
		if (c == '\'' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char)c;
	}
	return r + "'";
}
const int NFORMS = 6;
// The same string as a literal, joined, cut out of a literal, out of a joined one, out of a cut, or made by a method.
string form(int f, const string &s) {
	string n = std::to_string(s.size()), n1 = std::to_string(s.size() + 1), n2 = std::to_string(s.size() + 2), h = std::to_string(s.size() / 2);
	switch (f) {
	case 0: return q(s);
	case 1: return "(" + q(s.substr(0, s.size() / 2)) + " ~ " + q(s.substr(s.size() / 2)) + ")";
	case 2: return q("a" + s + "b") + "[1:" + n1 + "]";
	case 3: return "('b' ~ " + q(s + "a") + ")[1:" + n1 + "]";
	case 4: return q(" b" + s + "ab") + "[1:" + std::to_string(s.size() + 3) + "][1:" + n1 + "]";
	default: return "['', " + q(s) + "]->join('')";
	}
}
bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\r'; }
string up(string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }
string low(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool dig(char c) { return c >= '0' && c <= '9'; }
template <class F> bool all(const string &s, F f) { for (char c : s) if (!f(c)) return false; return true; }
string replace(const string &s, const string &a, const string &b, int64_t max) {
	string r;
	for (size_t i = 0; i < s.size();) {
		if (max > 0 && s.compare(i, a.size(), a) == 0) { r += b; i += a.size(); max--; }
		else r += s[i++];
	}
	return r;
}
int count(const string &s, const string &a) { int n = 0; for (size_t i = 0; i + a.size() <= s.size();) if (s.compare(i, a.size(), a) == 0) { n++; i += a.size(); } else i++; return n; }
vector<string> split(const string &s, const string &a) {
	vector<string> r; size_t b = 0;
	for (size_t i = 0; i + a.size() <= s.size();) if (s.compare(i, a.size(), a) == 0) { r.push_back(s.substr(b, i - b)); i += a.size(); b = i; } else i++;
	r.push_back(s.substr(b));
	return r;
}
vector<string> splitws(const string &s) {
	vector<string> r; string cur;
	for (char c : s) if (ws(c)) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c;
	if (!cur.empty()) r.push_back(cur);
	return r;
}
string ltrim(string s, const string &a) { if (!a.empty()) while (s.size() >= a.size() && s.compare(0, a.size(), a) == 0) s.erase(0, a.size()); return s; }
string rtrim(string s, const string &a) { if (!a.empty()) while (s.size() >= a.size() && s.compare(s.size() - a.size(), a.size(), a) == 0) s.erase(s.size() - a.size()); return s; }
string lws(string s) { while (!s.empty() && ws(s[0])) s.erase(0, 1); return s; }
string rws(string s) { while (!s.empty() && ws(s.back())) s.pop_back(); return s; }
string T(bool b) { return b ? "true" : "false"; }

// Each result is printed with its length in front and in brackets; echo leaves out NUL, so does this.
string show(const string &s) { string r; for (char c : s) if (c) r += c; return std::to_string(s.size()) + "[" + r + "]\n"; }
string showl(const vector<string> &v) { string r = std::to_string(v.size()) + "\n"; for (auto &s : v) r += show(s); return r; }
struct Prog {
	string src = "fn S(s) { echo \"#{len s}[#{s}]\"; return s; };\nfn L(l) { echo len l; for s <- l { S(s); }; };\n", out;
	void s(const string &e, const string &w) { src += "S(" + e + ");\n"; out += show(w); }
	void l(const string &e, const vector<string> &w) { src += "L(" + e + ");\n"; out += showl(w); }
	void v(const string &e, const string &w) { src += "echo " + e + ";\n"; out += w + "\n"; }
	void done(Case &c) { c.src = src; c.out = out; for (char x : src) if (x == ';') c.transitions++; c.states.push_back(fp(src)); }
};
string str_over(Chooser &ch, const string &abc, int n) { string s; int k = (int)ch.choose((uint32_t)n + 1); for (int i = 0; i < k; i++) s += abc[ch.choose((uint32_t)abc.size())]; return s; }

void gen_two(Chooser &ch, Case &c, const string &abc, int n, int m) {
	string h = str_over(ch, abc, n), a = str_over(ch, abc, m);
	int fh = (int)ch.choose(NFORMS), fa = (int)ch.choose(3);
	static const int FA[] = { 0, 2, 3 };
	Prog p;
	p.src += "const h = " + form(fh, h) + "; const a = " + form(FA[fa], a) + ";\n";
	p.v("h->startswith(a)", T(h.compare(0, a.size(), a) == 0));
	p.v("h->endswith(a)", T(h.size() >= a.size() && h.compare(h.size() - a.size(), a.size(), a) == 0));
	size_t f = h.find(a);
	p.v("h->search(a)", f == string::npos ? "undef" : std::to_string(f));
	if (!a.empty()) {
		p.v("h->count(a)", std::to_string(count(h, a)));
		p.s("h->replace(a, 'ba')", replace(h, a, "ba", INT64_MAX));
		p.s("h->replace(a, '')", replace(h, a, "", INT64_MAX));
		p.s("h->replace(a, a ~ a, 1)", replace(h, a, a + a, 1));
		p.l("h->split(a)", split(h, a));
		p.v("h->split(a)->join(a) == h", "true");
	}
	p.s("h->ltrim(a)", ltrim(h, a)); p.s("h->rtrim(a)", rtrim(h, a)); p.s("h->trim(a)", rtrim(ltrim(h, a), a));
	p.s("h ~ a", h + a);
	p.v("[h == a, h != a]", string("[") + T(h == a) + ", " + T(h != a) + "]");
	p.v("[h < a, h <= a, h > a, h >= a]", "[" + T(h < a) + ", " + T(h <= a) + ", " + T(h > a) + ", " + T(h >= a) + "]");
	p.src += "const t = {h: 1}; t[a] = 2;\n";
	p.v("[len t, t[h], t[a]]", h == a ? "[1, 2, 2]" : "[2, 1, 2]");
	p.src += "match h { " + q(a) + " { echo 'same'; }\n* { echo 'other'; }\n};\n"; p.out += h == a ? "same\n" : "other\n";
	p.s("h", h); p.s("a", a);
	p.done(c);
}
void gen_one(Chooser &ch, Case &c, const string &abc, int n) {
	string h = str_over(ch, abc, n);
	int fh = (int)ch.choose(NFORMS);
	Prog p;
	p.src += "const h = " + form(fh, h) + ";\n";
	p.s("h->toupper()", up(h)); p.s("h->tolower()", low(h)); p.s("h->tostr()", h);
	p.v("[h->isal(), h->isnum(), h->isalnum(), h->isspace(), h->tobool()]", "[" + T(all(h, al)) + ", " + T(all(h, dig)) + ", " + T(all(h, [](char x) { return al(x) || dig(x); })) + ", " + T(all(h, ws)) + ", " + T(!h.empty()) + "]");
	p.s("h->ltrim()", lws(h)); p.s("h->rtrim()", rws(h)); p.s("h->trim()", rws(lws(h)));
	p.l("h->split()", splitws(h));
	p.s("\"<#{h}>\"", "<" + h + ">");
	p.s("h->rep(0)", ""); p.s("h->rep(1)", h); p.s("h->rep(3)", h + h + h);
	p.v("!h", T(h.empty()));
	vector<string> chars; for (char x : h) chars.push_back(string(1, x));
	p.l("[x for x <- h]", chars);
	for (size_t i = 0; i < h.size(); i++) { p.s("h[" + std::to_string(i) + "]", string(1, h[i])); p.s("h[-" + std::to_string(i + 1) + "]", string(1, h[h.size() - 1 - i])); }
	p.v("h->toupper()->tolower() == h->tolower()", "true");
	p.s("h", h);
	p.done(c);
}
void gen_replace(Chooser &ch, Case &c, int n) {
	string h = str_over(ch, "ab", n), a = str_over(ch, "ab", 2);
	if (a.empty()) throw Prune{};
	static const vector<string> R = { "", "a", "b", "ab", "aba" };
	string r = ch.pick(R);
	int64_t max = (int64_t)ch.choose(6) - 1;
	int fh = (int)ch.choose(NFORMS);
	Prog p;
	p.src += "const h = " + form(fh, h) + "; const a = " + q(a) + "; const r = " + form(2, r) + ";\n";
	p.s("h->replace(a, r, " + std::to_string(max) + ")", replace(h, a, r, max < 0 ? 0 : max));
	p.s("h->replace(a, r)", replace(h, a, r, INT64_MAX));
	p.s("h", h); p.s("a", a); p.s("r", r);
	p.done(c);
}
void gen_bytes(Chooser &ch, Case &c) {                    // every byte, alone and between two others
	char b = (char)ch.choose(256);
	uint32_t k = ch.choose(4);
	string h = k == 0 ? string(1, b) : k == 1 ? string("a") + b : k == 2 ? b + string("1") : string("Z") + b + " ";
	int fh = (int)ch.choose(NFORMS);
	Prog p;
	p.src += "const h = " + form(fh, h) + "; const b = " + q(string(1, b)) + ";\n";
	p.s("h->toupper()", up(h)); p.s("h->tolower()", low(h));
	p.v("[h->isal(), h->isnum(), h->isalnum()]", "[" + T(all(h, al)) + ", " + T(all(h, dig)) + ", " + T(all(h, [](char x) { return al(x) || dig(x); })) + "]");
	if (b != '\f') {
		p.v("h->isspace()", T(all(h, ws)));
		p.s("h->trim()", rws(lws(h))); p.l("h->split()", splitws(h));
	}
	p.v("h->count(b)", std::to_string(count(h, string(1, b))));
	p.v("h->search(b)", std::to_string(h.find(b)));
	p.l("h->split(b)", split(h, string(1, b)));
	p.s("h->replace(b, 'xy')", replace(h, string(1, b), "xy", INT64_MAX));
	p.s("h->trim(b)", rtrim(ltrim(h, string(1, b)), string(1, b)));
	p.v("[h < b, h > 'a', h == b ~ '']", "[" + T(h < string(1, b)) + ", " + T(h > "a") + ", " + T(h == string(1, b)) + "]");
	p.v("{h: 5}[" + form((fh + 2) % NFORMS, h) + "]", "5");
	p.s("h", h);
	p.done(c);
}
void gen_errors(Chooser &ch, Case &c) {                   // empty needles, negative counts
	static const vector<std::pair<string, int>> E = { {"h->count('')", 7}, {"h->split('')", 7}, {"h->replace('', 'x')", 7}, {"h->replace('', 'x', 2)", 7}, {"h->rep(-1)", 7}, {"h->rep(-9223372036854775807)", 7},
		{"h->count('a'[1:])", 7}, {"h->search('')", 0}, {"h->trim('')", 0}, {"h->startswith('')", 0}, {"h->endswith('')", 0}, {"h->ltrim('')", 0}, {"h->rtrim('')", 0} };
	string h = str_over(ch, "ab ", 3);
	int fh = (int)ch.choose(NFORMS);
	auto &e = ch.pick(E);
	c.src = "const h = " + form(fh, h) + ";\necho 'on';\nlet r = " + e.first + ";\necho 'off';\n";
	c.status = e.second;
	c.out = e.second ? "on\n" : "on\noff\n";
	if (e.second) c.line = 3;
	c.states.push_back(fp(c.src));
}
// Histories: each step replaces the string by a method of it, and earlier results stay as they were.
void gen_hist(Chooser &ch, Case &c, int depth) {
	Prog p;
	string h = ch.flip() ? "abab " : " aAb";
	p.src += "let h0 = " + form((int)ch.choose(NFORMS), h) + ";\n";
	vector<string> v = { h };
	for (int i = 0; i < depth; i++) {
		string x = "h" + std::to_string(i), e; string r = v.back();
		switch (ch.choose(12)) {
		case 0: e = x + "[1:]"; r = r.empty() ? "" : r.substr(1); break;
		case 1: e = x + "[:-1]"; r = r.empty() ? "" : r.substr(0, r.size() - 1); break;
		case 2: e = x + " ~ h0"; r = r + v[0]; break;
		case 3: e = x + "->replace('a', 'bb')"; r = replace(r, "a", "bb", INT64_MAX); break;
		case 4: e = x + "->replace('b', '', 1)"; r = replace(r, "b", "", 1); break;
		case 5: e = x + "->trim()"; r = rws(lws(r)); break;
		case 6: e = x + "->trim('ab')"; r = rtrim(ltrim(r, "ab"), "ab"); break;
		case 7: e = x + "->toupper()"; r = up(r); break;
		case 8: e = x + "->tolower()"; r = low(r); break;
		case 9: e = x + "->rep(2)"; r = r + r; break;
		case 10: e = x + "->split('a')[-1]"; r = split(r, "a").back(); break;
		case 11: e = x + "->split('b')->join(' ')"; { auto w = split(r, "b"); string t; for (size_t k = 0; k < w.size(); k++) t += (k ? " " : "") + w[k]; r = t; } break;
		}
		p.src += "let h" + std::to_string(i + 1) + " = " + e + ";\n";
		v.push_back(r);
	}
	if (ch.flip()) { p.src += "h0 = undef; h1 = [h1];\n"; }
	else { p.s("h0", v[0]); p.s("h1", v[1]); }
	for (size_t i = 2; i < v.size(); i++) p.s("h" + std::to_string(i), v[i]);
	p.done(c);
}
Reg reg({ "S01",
	"every str method on every string over a small alphabet x every second string, each made in 6 ways (literal, joined, cut out of a literal, of a joined str, of a cut, joined from a list); every byte; histories of methods",
	{ "whether a form feed is white space is not specified", "outside ASCII no byte is a letter" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "two strings", string(th ? "length 5 and 3" : "length 4 and 2") + " over 3 characters, 18 forms, 18 uses", [th](Chooser &ch, Case &c) { gen_two(ch, c, "ab ", th ? 5 : 4, th ? 3 : 2); }, 5 });
		v.push_back({ "overlaps", string(th ? "length 7 and 4" : "length 6 and 3") + " over 2 characters", [th](Chooser &ch, Case &c) { gen_two(ch, c, "ab", th ? 7 : 6, th ? 4 : 3); }, 5 });
		v.push_back({ "one string", string(th ? "length 5" : "length 4") + " over 6 characters, 6 forms, 20 uses", [th](Chooser &ch, Case &c) { gen_one(ch, c, "aZ1 \n_", th ? 5 : 4); }, 4 });
		v.push_back({ "replace", "strings, patterns, replacements, limits", [th](Chooser &ch, Case &c) { gen_replace(ch, c, th ? 6 : 4); }, 4 });
		v.push_back({ "bytes", "256 bytes, 4 contexts, 6 forms", [](Chooser &ch, Case &c) { gen_bytes(ch, c); }, 2 });
		v.push_back({ "refusals", "13 calls", [](Chooser &ch, Case &c) { gen_errors(ch, c); }, 3 });
		v.push_back({ "histories", string(th ? "5" : "4") + " steps of 12", [th](Chooser &ch, Case &c) { gen_hist(ch, c, th ? 5 : 4); }, 4 });
	} });
}
