// N03: numbers and their texts agree.
#include "probe.hpp"
#include <algorithm>
#include <cinttypes>
using namespace mc;
using namespace ref;

namespace {
vector<int64_t> ints(bool th) {
	vector<int64_t> v;
	int64_t n = th ? 70000 : 3000;
	for (int64_t i = -n; i <= n; i++) v.push_back(i);
	for (int b = 3; b <= 63; b++) for (int64_t d = -3; d <= 3; d++) {
		uint64_t p = (uint64_t)1 << b;
		v.push_back((int64_t)(p + (uint64_t)d)); v.push_back((int64_t)(0 - p + (uint64_t)d));
	}
	int64_t p = 1;
	for (int k = 0; k < 19; k++, p *= 10) for (int64_t d = -2; d <= 2; d++) { v.push_back(p + d); v.push_back(-p + d); v.push_back(7 * p / 3 + d); }
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
string dec(int64_t i) { return std::to_string(i); }
string group(const string &s, size_t from, size_t every) {      // underscores between digits
	string r = s.substr(0, from);
	for (size_t i = from; i < s.size(); i++) { if (i > from && (s.size() - i) % every == 0) r += '_'; r += s[i]; }
	return r;
}
string bintext(uint64_t u) { string r; do { r = char('0' + (u & 1)) + r; u >>= 1; } while (u); return "0b" + r; }
string hextext(uint64_t u, bool up) { char b[40]; snprintf(b, sizeof b, up ? "0x%" PRIX64 : "0x%" PRIx64, u); return b; }

std::function<string()> run(const string &src, vector<std::pair<string, Val>> g, vector<Val> want, int status = 0, string out = "") {
	return [=]() -> string {
		Outcome o = run_program(src, probe::opts(g));
		count_traces(1);
		Case e; e.status = status; e.out = out;
		string w = compare(e, o);
		if (!w.empty()) return w;
		auto &got = probe::got();
		if (got.size() != want.size()) return "number of values " + std::to_string(got.size()) + ", expected " + std::to_string(want.size());
		for (size_t i = 0; i < want.size(); i++)
			if (!probe::same(got[i], want[i])) return "value " + std::to_string(i + 1) + ": got " + probe::desc(got[i]) + ", expected " + probe::desc(want[i]);
		return "";
	};
}
void gen_int(Chooser &ch, Case &c, bool th) {
	static vector<int64_t> V = ints(th);
	int64_t n = V[ch.choose((uint32_t)V.size())];
	string d = dec(n), src, sgn;
	vector<Val> w;
	auto both = [&](const string &lit, int64_t v) {
		src += "probe(" + lit + "); probe('" + lit + "'->toint()); probe('" + lit + "'->tofloat());\n";
		w.push_back(vint(v)); w.push_back(vint(v)); w.push_back(vflt((double)v));
	};
	src = "probe(A->tostr()); probe(A->tostr()->toint()); probe('' ~ A); probe('" + d + "'->toint()); probe('" + d + "'->tofloat()); echo A;\n";
	w = { vstr(d), vint(n), vstr(d), vint(n), vflt((double)n) };
	if (n >= 0) {
		src += "probe('+" + d + "'->toint());\n"; w.push_back(vint(n));
		both(d, n);
		both(group(d, 0, 3), n);
		both(group(d, 0, 1), n);
		both(hextext((uint64_t)n, false), n);
		both(hextext((uint64_t)n, true), n);
		both(group(hextext((uint64_t)n, false), 2, 4), n);
		both(bintext((uint64_t)n), n);
		both(group(bintext((uint64_t)n), 2, 4), n);
		both("0" + string("0") + d, n);
	} else if (n != INT64_MIN) {
		src += "probe(" + d + "); probe(-" + hextext((uint64_t)-n, true) + "); probe('" + group(d, 1, 3) + "'->toint());\n";
		w.push_back(vint(n)); w.push_back(vint(n)); w.push_back(vint(n));
	}
	c.src = src;
	c.transitions = w.size();
	c.states.push_back(fp(d));
	c.custom = run(src, {{"A", vint(n)}}, w, 0, d + "\n");
}
void check_float(Case &c, double x, const string &lit) {
	string t = fmtfloat(x);
	double back = std::isnan(x) ? NAN : strtod(t.c_str(), nullptr);
	string src = "probe(A->tostr()); probe('' ~ A); probe(A->tostr()->tofloat()); echo A;\n";
	vector<Val> w = { vstr(t), vstr(t), vflt(back) };
	if (!lit.empty()) {
		double v = strtod(lit.c_str(), nullptr);
		src += "probe(" + lit + "); probe('" + lit + "'->tofloat()); probe('-" + lit + "'->tofloat()); probe(-" + lit + ");\n";
		w.push_back(vflt(v)); w.push_back(vflt(v)); w.push_back(vflt(-v)); w.push_back(vflt(-v));
	}
	c.src = src; c.key = src + probe::desc(vflt(x));
	c.transitions = w.size();
	c.states.push_back(fp(c.key));
	c.custom = run(src, {{"A", vflt(x)}}, w, 0, t + "\n");
}
void gen_float(Chooser &ch, Case &c, bool th) {
	uint32_t kind = ch.choose(4);
	if (kind == 0) {                                     // k / 2^j
		int64_t k = (int64_t)ch.choose(th ? 4001 : 801) - (th ? 2000 : 400);
		int j = (int)ch.choose(th ? 12 : 8);
		check_float(c, (double)k / (double)(1 << j), "");
	} else if (kind == 1) {                              // m * 10^e
		static const double M[] = { 1, 2, 3, 5, 7, 9, 1.5, 9.99, 1.1, 1.0 / 3 };
		double m = M[ch.choose(10)];
		int e = (int)ch.choose(620) - 320;
		check_float(c, (ch.flip() ? -m : m) * pow(10, e), "");
	} else if (kind == 2) {                              // bits around boundaries
		static const double B[] = { 0.0, 1.0, 0.1, 1e-6, 5e-7, 123456.7, 9007199254740992.0, 9223372036854775808.0, 1.7976931348623157e308, 2.2250738585072014e-308, INFINITY };
		double b = B[ch.choose(11)];
		int d = (int)ch.choose(9) - 4;
		int64_t bits; memcpy(&bits, &b, 8);
		bits += d;
		if (bits < 0) throw Prune{};
		memcpy(&b, &bits, 8);
		check_float(c, ch.flip() ? -b : b, "");
	} else check_float(c, NAN, "");
}
// Literals: digits . digits [e [sign] digits]
void gen_floatlit(Chooser &ch, Case &c, bool th) {
	static const vector<string> D = { "0", "1", "9", "10", "05", "123", "1_0", "999999999999999999999", "3", "4_4_4" };
	static const vector<string> F = { "0", "5", "05", "125", "000001", "0000005", "3333333333333333333333", "1_2", "9999999" };
	static const vector<string> X = { "", "e0", "e1", "e10", "e-1", "e+2", "E3", "e-10", "e22", "e308", "e400", "e-400", "e1_0" };
	string a = ch.pick(D), b = ch.pick(F), e = ch.pick(X);
	string lit = a + "." + b + e;
	string clean;
	for (char x : lit) if (x != '_') clean += x;
	double v = strtod(clean.c_str(), nullptr);
	string src = "probe(" + lit + "); probe('" + lit + "'->tofloat()); probe('-" + lit + "'->tofloat()); probe('+" + lit + "'->tofloat()); probe(-" + lit + "); let x = " + lit + "; echo x;\n";
	c.src = src;
	c.transitions = 6;
	c.states.push_back(fp(lit));
	c.custom = run(src, {}, { vflt(v), vflt(v), vflt(-v), vflt(v), vflt(-v) }, 0, fmtfloat(v) + "\n");
}
// Which texts are numbers.
bool digits(const string &s, const char *set) { return !s.empty() && s.find_first_not_of(set) == string::npos; }
const char *DEC = "0123456789";
// 0 not a number, 1 int, 2 float, -1 not specified
int classify(const string &s0, int64_t &n, double &f) {
	if (s0.find(' ') != string::npos) return -1;
	string s;
	bool oddunderscore = false;
	for (size_t i = 0; i < s0.size(); i++) {
		if (s0[i] != '_') { s += s0[i]; continue; }
		size_t a = i, b = i;
		while (a > 0 && s0[a] == '_') a--;
		while (b < s0.size() && s0[b] == '_') b++;
		if (s0[a] == '_' || b >= s0.size() || !isxdigit((unsigned char)s0[a]) || !isxdigit((unsigned char)s0[b])) oddunderscore = true;
	}
	int r = 0;
	if (s.size() > 2 && s[0] == '0' && tolower(s[1]) == 'x' && digits(s.substr(2), "0123456789abcdefABCDEF")) { n = strtoll(s.c_str() + 2, nullptr, 16); f = (double)n; r = 1; }
	else if (s.size() > 2 && s[0] == '0' && tolower(s[1]) == 'b' && digits(s.substr(2), "01")) { n = strtoll(s.c_str() + 2, nullptr, 2); f = (double)n; r = 1; }
	else {
		string u = s;
		bool neg = false;
		if (!u.empty() && (u[0] == '-' || u[0] == '+')) { neg = u[0] == '-'; u = u.substr(1); }
		if (digits(u, DEC)) { n = strtoll(s.c_str(), nullptr, 10); f = (double)n; r = 1; }
		else if (u == "inf") { f = neg ? -INFINITY : INFINITY; r = 2; }
		else {
			size_t dot = u.find('.');
			if (dot != string::npos && digits(u.substr(0, dot), DEC)) {
				string rest = u.substr(dot + 1);
				size_t e = rest.find_first_of("eE");
				string fr = rest.substr(0, e), ex = e == string::npos ? "0" : rest.substr(e + 1);
				if (fr.empty() && e != string::npos) return -1;
				if (!ex.empty() && (ex[0] == '-' || ex[0] == '+')) ex = ex.substr(1);
				if (digits(fr, DEC) && digits(ex, DEC)) { f = strtod(u.c_str(), nullptr); if (neg) f = -f; r = 2; }
			}
		}
	}
	if (oddunderscore) return r ? -1 : 0;
	return r;
}
void gen_text(Chooser &ch, Case &c, int len) {
	static const char A[] = "019-+.exbf_n";
	string s;
	uint32_t n = ch.choose((uint32_t)len + 1);
	for (uint32_t i = 0; i < n; i++) s += A[ch.choose(12)];
	int64_t iv = 0; double fv = NAN;
	int r = classify(s, iv, fv);
	if (r < 0) throw Prune{};
	string src = "probe('" + s + "'->toint()); probe('" + s + "'->tofloat()); probe(A->toint()); probe(A->tofloat());\n";
	if (r == 0) { iv = 0; fv = NAN; }
	if (r == 2) iv = 0;
	c.src = src;
	c.transitions = 4;
	c.states.push_back(fp(s));
	vector<Val> w = { vint(iv), vflt(fv), vint(iv), vflt(fv) };
	// a substring of a longer str converts like a fresh one
	c.custom = run("const L = 'z" + s + "7'; const T = L[1:-1]; probe(T->toint()); probe(T->tofloat());\n" + src, {{"A", vstr(s)}}, { w[0], w[1], w[0], w[1], w[0], w[1] });
}
void gen_special(Chooser &ch, Case &c) {
	static const vector<string> T = { "inf", "-inf", "+inf", "nan", "infinity", "Inf", "0x7fffffffffffffff", "0X1f", "0B101", "0b111111111111111111111111111111111111111111111111111111111111111", "9223372036854775807", "-9223372036854775808",
		"1.0.0", "--1", "+-1", "1e5", "0x", "0b", "0x0x1", "0b0b1", "0x-1", "0x+1", "1.5f", "1,5", "one", "-", "+", ".", ".5", "5.", "-.5", "12abc", "0b12", "0xfg", "1.5e", "1.5e+", "1.5e5.5" };
	string s = ch.pick(T);
	int64_t iv = 0; double fv = NAN;
	int r = classify(s, iv, fv);
	if (r < 0) throw Prune{};
	if (r == 0) { iv = 0; fv = NAN; }
	if (r == 2) iv = 0;
	string src = "probe('" + s + "'->toint()); probe('" + s + "'->tofloat());\n";
	c.src = src;
	c.states.push_back(fp(s));
	c.custom = run(src, {}, { vint(iv), vflt(fv) });
}
Reg reg({ "N03",
	"ints: every value near zero, powers of two and ten and the limits, written in every base and grouping; floats: dyadic and decimal ladders, neighbours of boundaries, every combination of literal parts; conversion of every text over a 12-letter alphabet",
	{ "floats print with six decimals, trailing zeroes dropped, as C's %f rounds them", "texts with spaces, or underscores elsewhere than between digits, are not specified", "ints beyond 64 bits are not specified" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "ints", std::to_string(ints(th).size()) + " values, 10 notations", [th](Chooser &ch, Case &c) { gen_int(ch, c, th); }, 1 });
		v.push_back({ "floats", "dyadic, decimal, neighbours", [th](Chooser &ch, Case &c) { gen_float(ch, c, th); }, 3 });
		v.push_back({ "float literals", "10 x 9 x 13 parts", [th](Chooser &ch, Case &c) { gen_floatlit(ch, c, th); }, 2 });
		int n = th ? 6 : 5;
		v.push_back({ "texts", "all over 019-+.exbf_n up to length " + std::to_string(n), [n](Chooser &ch, Case &c) { gen_text(ch, c, n); }, 3 });
		v.push_back({ "special texts", "37 texts", [](Chooser &ch, Case &c) { gen_special(ch, c); }, 1 });
	} });
}
