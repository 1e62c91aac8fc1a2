// X01: every function of the library, called with every combination of arguments.
// BUILD: wrap=rand,dlopen
#include "probe.hpp"
#include <regex>
using namespace mc;
using std::string; using std::vector;

extern "C" int __wrap_rand(void) { static int n; return n++; }
// No library is ever loaded: the tests only ask for ones that do not exist.
extern "C" void *__real_dlopen(const char *, int);
extern "C" void *__wrap_dlopen(const char *p, int f) { return strstr(p, "no-such") ? __real_dlopen(p, f) : nullptr; }

namespace {
enum T { UNDEF, BOOL, INT, FLT, STR, LIST, TABLE, FN, SET, FIL };
const char *TN[] = { "undef", "bool", "int", "float", "str", "list", "table", "fn", "collections.set", "io.file" };
typedef unsigned M;
constexpr M m(T t) { return 1u << t; }
const M ANY = ~0u, NUM = m(INT) | m(FLT), HASH = m(BOOL) | m(INT) | m(FLT) | m(STR), UD = m(LIST) | m(TABLE) | m(SET) | m(FIL), OPT = m(UNDEF);
// A value: how to write it, and what the preconditions of the functions ask about it.
struct A { string x; T t; int64_t i = 0; double f = 0; string s; int n = 0; char sort = 'x'; bool kept = true; bool unh = false; };
// A function: how to get it, what it takes (rest: everything beyond), what it gives, and when it refuses a value.
struct F {
	string name, get;
	vector<M> par;
	M ret;
	bool mut = false;                                   // changes its first argument
	std::function<bool(const vector<A> &)> bad;         // ValueError
	bool va = false;                                    // any number of arguments of the last kind
	string method;                                      // reachable as arg0->method(...)
	int status = 7;                                     // what `bad` leads to
	std::function<bool(const vector<A> &)> skip;        // not specified, or too expensive
};
string q(const string &s) { return "'" + s + "'"; }
vector<A> universe() {
	vector<A> v;
	auto add = [&](A a) { v.push_back(a); };
	add({ "undef", UNDEF });
	add({ "true", BOOL, 1 });
	add({ "false", BOOL });
	for (int64_t i : { 0, 1, -1, 2, 3, -4 }) add({ i < 0 ? "(" + std::to_string(i) + ")" : std::to_string(i), INT, i, (double)i });
	add({ "9223372036854775807", INT, INT64_MAX, 9.2233720368547758e18 });
	add({ "(-9223372036854775807 - 1)", INT, INT64_MIN, -9.2233720368547758e18 });
	add({ "1.5", FLT, 0, 1.5 });
	add({ "(-0.5)", FLT, 0, -0.5 });
	add({ "(0.0/0.0)", FLT, 0, NAN });
	add({ "(1.0/0.0)", FLT, 0, INFINITY });
	for (string s : { "", "a", "abca", " x ", "12", "r", "q+" }) { A a{ q(s), STR }; a.s = s; v.push_back(a); }
	{ A a{ "('a' ~ 'b')", STR }; a.s = "ab"; v.push_back(a); }
	{ A a{ "'a\\0b'", STR }; a.s = string("a\0b", 3); v.push_back(a); }
	auto list = [&](const char *x, int n, char sort) { A a{ x, LIST }; a.n = n; a.sort = sort; a.unh = true; v.push_back(a); };
	list("[]", 0, 'e'); list("[3, 1, 2.5]", 3, 'n'); list("['b', 'a' ~ 'c']", 2, 's'); list("[1, 'a']", 2, 'x'); list("[[1], {2: [3]}]", 2, 'x');
	list("[[]]", 1, 'x');
	auto other = [&](const char *x, T t, int n) { A a{ x, t }; a.n = n; v.push_back(a); };
	other("{}", TABLE, 0); other("{'a': 1, 2: 'b' ~ 'c', 0.5: []}", TABLE, 3);
	other("fn(p) { return p; }", FN, 0); other("fn() { return g0; }", FN, 0); other("mt.get", FN, 0);
	other("collections.set()", SET, 0); other("collections.set(1, 'a')", SET, 2);
	other("io.open(path, 'w+')", FIL, 0);
	return v;
}
bool unh(const A &a) { return !(m(a.t) & HASH); }
vector<F> functions() {
	vector<F> v;
	auto add = [&](string name, string get, vector<M> par, M ret) -> F & { F f; f.name = name; f.get = get; f.par = par; f.ret = ret; v.push_back(f); return v.back(); };
	auto meth = [&](const char *type, const char *of, const char *name, vector<M> par, M ret) -> F & {
		F &f = add(string(type) + "." + name, string(of) + "." + name, par, ret); f.method = name; return f; };
	for (auto n : { "tostr", "tobool" }) meth("undef", "undef", n, { m(UNDEF) }, n[2] == 's' ? m(STR) : m(BOOL));
	for (auto n : { "tostr", "tobool" }) meth("bool", "true", n, { m(BOOL) }, n[2] == 's' ? m(STR) : m(BOOL));
	for (auto p : { std::make_pair("int", INT), std::make_pair("float", FLT) }) {
		const char *of = p.second == INT ? "5" : "5.0";
		meth(p.first, of, "toint", { m(p.second) }, m(INT));
		meth(p.first, of, "tofloat", { m(p.second) }, m(FLT));
		meth(p.first, of, "tostr", { m(p.second) }, m(STR));
		meth(p.first, of, "tobool", { m(p.second) }, m(BOOL));
	}
	const char *s = "'a'";
	for (auto n : { "isalnum", "isal", "isnum", "isspace", "tobool" }) meth("str", s, n, { m(STR) }, m(BOOL));
	for (auto n : { "toupper", "tolower", "tostr" }) meth("str", s, n, { m(STR) }, m(STR));
	meth("str", s, "__len", { m(STR) }, m(INT));
	meth("str", s, "tofloat", { m(STR) }, m(FLT));
	meth("str", s, "toint", { m(STR) }, m(INT) | m(UNDEF));
	for (auto n : { "startswith", "endswith" }) meth("str", s, n, { m(STR), m(STR) }, m(BOOL));
	auto empty1 = [](const vector<A> &a) { return a[1].t == STR && a[1].s.empty(); };
	meth("str", s, "replace", { m(STR), m(STR), m(STR), m(INT) | OPT }, m(STR)).bad = empty1;
	meth("str", s, "search", { m(STR), m(STR) }, m(INT) | m(UNDEF));
	meth("str", s, "count", { m(STR), m(STR) }, m(INT)).bad = empty1;
	meth("str", s, "split", { m(STR), m(STR) | OPT }, m(LIST)).bad = empty1;
	for (auto n : { "trim", "ltrim", "rtrim" }) meth("str", s, n, { m(STR), m(STR) | OPT }, m(STR));
	auto outside = [](const vector<A> &a) { int64_t n = a[0].t == STR ? (int64_t)a[0].s.size() : a[0].n; return a[1].i < -n || a[1].i >= n; };
	meth("str", s, "__get", { m(STR), m(INT) }, m(STR)).bad = outside;
	{ F &f = meth("str", s, "rep", { m(STR), m(INT) }, m(STR)); f.bad = [](const vector<A> &a) { return a[1].i < 0; }; f.skip = [](const vector<A> &a) { return a.size() > 1 && a[1].i > 1000; }; }
	const char *l = "[]";
	meth("list", l, "__len", { m(LIST) }, m(INT));
	meth("list", l, "push", { m(LIST), ANY }, ANY).mut = true;
	meth("list", l, "copy", { m(LIST) }, m(LIST));
	meth("list", l, "__add", { m(LIST), m(LIST) }, m(LIST));
	meth("list", l, "__eq", { m(LIST), m(LIST) }, m(BOOL));
	{ F &f = meth("list", l, "pop", { m(LIST) }, ANY); f.mut = true; f.bad = [](const vector<A> &a) { return a[0].n == 0; }; }
	meth("list", l, "__get", { m(LIST), m(INT) }, ANY).bad = outside;
	{ F &f = meth("list", l, "__set", { m(LIST), m(INT), ANY }, ANY); f.mut = true; f.bad = outside; }
	meth("list", l, "tostr", { m(LIST) }, m(STR));
	meth("list", l, "search", { m(LIST), ANY }, m(INT) | m(UNDEF));
	meth("list", l, "reverse", { m(LIST) }, ANY).mut = true;
	meth("list", l, "clear", { m(LIST) }, ANY).mut = true;
	meth("list", l, "join", { m(LIST), m(STR) }, m(STR));
	{ F &f = meth("list", l, "sort", { m(LIST) }, ANY); f.mut = true; f.bad = [](const vector<A> &a) { return a[0].sort == 'x'; }; }
	meth("list", l, "spread", { m(LIST) }, ANY);
	meth("list", l, "count", { m(LIST), ANY }, m(INT));
	{ F &f = meth("list", l, "insert", { m(LIST), m(INT), ANY }, ANY); f.mut = true; f.bad = [](const vector<A> &a) { return a[1].i < -a[0].n || a[1].i > a[0].n; }; }
	const char *t = "({})";
	meth("table", t, "__len", { m(TABLE) }, m(INT));
	meth("table", t, "remove", { m(TABLE), ANY }, ANY).mut = true;
	meth("table", t, "keys", { m(TABLE) }, m(LIST));
	meth("table", t, "values", { m(TABLE) }, m(LIST));
	meth("table", t, "copy", { m(TABLE) }, m(TABLE));
	meth("table", t, "tostr", { m(TABLE) }, m(STR));
	meth("table", t, "__get", { m(TABLE), ANY }, ANY);
	{ F &f = meth("table", t, "__set", { m(TABLE), ANY, ANY }, ANY); f.mut = true; f.status = 5; f.bad = [](const vector<A> &a) { return unh(a[1]) && a[2].t != UNDEF; }; }
	meth("table", t, "__bor", { m(TABLE), m(TABLE) }, m(TABLE));
	meth("table", t, "__eq", { m(TABLE), m(TABLE) }, m(BOOL));
	meth("table", t, "clear", { m(TABLE) }, ANY).mut = true;
	const char *c = "collections.set()";
	auto bad1 = [](const vector<A> &a) { return unh(a[1]); };
	meth("collections.set", c, "tostr", { m(SET) }, m(STR));
	meth("collections.set", c, "tolist", { m(SET) }, m(LIST));
	for (auto n : { "__band", "__bor", "__bxor", "__bandnot" }) meth("collections.set", c, n, { m(SET), m(SET) }, m(SET));
	for (auto n : { "__eq", "__gt", "__ge", "__lt", "__le" }) meth("collections.set", c, n, { m(SET), m(SET) }, m(BOOL));
	meth("collections.set", c, "__len", { m(SET) }, m(INT));
	{ F &f = meth("collections.set", c, "add", { m(SET), ANY }, ANY); f.mut = true; f.status = 5; f.bad = bad1; }
	meth("collections.set", c, "remove", { m(SET), ANY }, ANY).mut = true;
	meth("collections.set", c, "copy", { m(SET) }, m(SET));
	meth("collections.set", c, "clear", { m(SET) }, ANY).mut = true;
	meth("collections.set", c, "__get", { m(SET), ANY }, m(BOOL));
	{ F &f = add("collections.set", "collections.set", { ANY }, m(SET)); f.va = true; f.status = 5; f.bad = [](const vector<A> &a) {
		if (a.size() == 1 && a[0].t == LIST) return a[0].x.find("[[") == 0;
		for (auto &x : a) if (unh(x)) return true;
		return false; }; }
	{ F &f = add("collections.list", "collections.list", { ANY }, m(LIST)); f.va = true; }
	{ F &f = add("collections.table", "collections.table", { ANY }, m(TABLE)); f.va = true; f.status = 5; f.bad = [](const vector<A> &a) {
		for (size_t i = 0; i + 1 < a.size(); i += 2) if (unh(a[i]) && a[i + 1].t != UNDEF) return true;
		return false; }; }
	const char *fl = "io.stdout";
	meth("io.file", fl, "read", { m(FIL), m(STR) | OPT }, m(STR)).bad = [](const vector<A> &a) { return a[1].t == STR && a[1].s != "a" && a[1].s != "l"; };
	meth("io.file", fl, "write", { m(FIL), m(STR) }, m(INT)).mut = true;
	meth("io.file", fl, "flush", { m(FIL) }, m(BOOL));
	meth("io.file", fl, "seek", { m(FIL), m(STR) | OPT, m(INT) | OPT }, m(BOOL)).bad = [](const vector<A> &a) { return a[1].t == STR && a[1].s != "set" && a[1].s != "cur" && a[1].s != "end"; };
	meth("io.file", fl, "close", { m(FIL) }, m(BOOL)).mut = true;
	add("io.open", "io.open", { m(STR), m(STR) | OPT }, m(UNDEF) | m(FIL)).bad = [](const vector<A> &a) {
		if (a[1].t != STR) return false;
		const string &x = a[1].s;
		return !((x.size() == 1 || (x.size() == 2 && x[1] == '+')) && strchr("rwa", x[0])); };
	// names of files that get made live in the scratch directory, see below
	v.back().skip = [](const vector<A> &a) { return a.size() > 1 && a[0].t == STR && a[1].t == STR && a[1].s != "r" && a[1].s != "q+" && !a[1].s.empty() && a[1].s != "12" && a[1].s != "abca" && a[1].s != " x "; };
	add("mt.get", "mt.get", { ANY }, m(UNDEF) | m(TABLE));
	{ F &f = add("mt.set", "mt.set", { UD, m(TABLE) }, UD); f.mut = true; f.skip = [](const vector<A> &a) { return a.size() > 1 && a[0].x == "#same"; }; }
	for (auto n : { "exp", "log", "sqrt", "cos", "sin", "tan", "acos", "asin", "atan", "ceil", "floor", "deg", "rad" }) add(string("math.") + n, string("math.") + n, { NUM }, m(FLT));
	add("math.abs", "math.abs", { NUM }, NUM);
	for (auto n : { "max", "min" }) { F &f = add(string("math.") + n, string("math.") + n, { NUM }, NUM); f.va = true; f.skip = [](const vector<A> &a) {
		bool nan = false, bad = false;
		for (auto &x : a) { nan |= x.t == FLT && std::isnan(x.f); bad |= !(m(x.t) & NUM); }
		return nan && bad; }; }
	add("math.isprime", "math.isprime", { NUM }, m(BOOL) | m(UNDEF)).skip = [](const vector<A> &a) { return a.size() && (a[0].t == INT ? a[0].i > 1000000 : a[0].t == FLT && !(std::fabs(a[0].f) < 1e6)); };
	for (auto n : { "gcd", "lcm" }) add(string("math.") + n, string("math.") + n, { NUM, NUM }, m(INT) | m(UNDEF));
	add("math.rand", "math.rand", {}, m(INT));
	{ F &f = add("require", "require", { m(STR) }, 0); f.status = 2; f.bad = [](const vector<A> &) { return true; }; }
	{ F &f = add("__require_c__", "__require_c__", { m(STR) }, 0); f.bad = [](const vector<A> &) { return true; }; }
	return v;
}
// Overloads reached through a name, for types whose dot is not an index into themselves.
int ty(struct YASL_State *S) { YASL_pushzstr(S, YASL_peektypename(S)); return 1; }

struct Call { F f; vector<A> a; bool fresh, method; };
string judge(const Call &c, const string &src, bool typeok, const vector<A> &eff, string &result) {
	RunOpts o;
	o.setup = [&](void *p) {
		auto S = (struct YASL_State *)p;
		YASL_declglobal(S, "ty"); YASL_pushcfunction(S, ty, 1); YASL_setglobal(S, "ty");
		string path = scratch_dir() + "/f";
		YASL_declglobal(S, "path"); YASL_pushlstr(S, path.data(), path.size()); YASL_setglobal(S, "path");
	};
	count_traces(1);
	Outcome r = run_program(src, o);
	string w;
	int want = !typeok ? 5 : c.f.bad && c.f.bad(eff) ? c.f.status : 0;
	// a wrong type and a wrong value together: either may be reported
	if (!typeok && c.f.bad && r.status == c.f.status && c.f.status == 7) want = r.status;
	if (r.status != want) w += "status " + std::to_string(r.status) + ", expected " + std::to_string(want) + "\n";
	if (r.badheap) w += "heap fault: " + r.heapmsg + "\n";
	if (r.leaked) w += std::to_string(r.leaked) + " heap blocks still live after the state was deleted\n";
	if (r.open_files) w += std::to_string(r.open_files) + " files still open after the state was deleted\n";
	string t;
	if (r.status == 0) {
		if (!r.err.empty()) w += "error text though nothing failed\n";
		// [10, <type>, 20] then true if the arguments are as they were
		size_t e = r.out.find('\n');
		string first = r.out.substr(0, e);
		if (first.compare(0, 5, "[10, ") || first.size() < 10 || first.compare(first.size() - 5, 5, ", 20]")) w += "values around the call changed: " + printable(first) + "\n";
		else {
			t = first.substr(5, first.size() - 10);
			bool ok = false;
			for (int k = UNDEF; k <= FIL; k++) if ((c.f.ret & m((T)k)) && t == TN[k]) ok = true;
			if (!ok) w += "result is of type " + t + "\n";
		}
		if (r.out.substr(e + 1, 5) != "true\n") w += "arguments, or a local, changed: " + printable(r.out) + "\n";
		result = r.out.substr(e + 1);
	} else {
		result = "status " + std::to_string(r.status);
		if (!r.out.empty()) w += "output though the call failed: " + printable(r.out) + "\n";
		const string &x = r.err;
		const char *pre = r.status == 5 ? "TypeError: " : r.status == 7 ? "ValueError: " : "";
		if (x.empty()) w += "no error text\n";
		else {
			if (x.compare(0, strlen(pre), pre)) w += string("error text does not start with ") + pre + "\n";
			string tail = " (line 3)\n";
			if (x.size() < tail.size() || x.compare(x.size() - tail.size(), tail.size(), tail)) w += "error text does not end with" + tail;
		}
		static const std::regex R("expected arg in position (-?[0-9]+) to be of type ([^ ]+), got arg of type ([^ ]+)\\."), R2("(as key|cannot set metatable for value of type (.*))\\.");
		std::smatch s;
		if (std::regex_search(x, s, R)) {
			int p = atoi(s[1].str().c_str());
			T at = p >= 0 && p < (int)eff.size() ? eff[p].t : UNDEF;
			M par = c.f.va ? c.f.par[0] : p >= 0 && p < (int)c.f.par.size() ? c.f.par[p] : ANY;
			if (p < 0 || (c.f.va ? p >= (int)eff.size() : p >= (int)c.f.par.size())) w += "error text names a position that does not exist\n";
			else {
				if (s[3] != TN[at]) w += "error text names the wrong type for the argument\n";
				if (par & m(at)) w += "error text complains about an argument that is as it should be\n";
				bool ok = false;
				for (int k = UNDEF; k <= FIL; k++) if ((par & m((T)k)) && s[2] == TN[k]) ok = true;
				if (!ok) w += "error text asks for a type that would not do\n";
			}
		} else if (r.status == 5 && !typeok && !std::regex_search(x, s, R2)) w += "error text does not say which argument is wrong\n";
	}
	if (!w.empty() && !r.err.empty()) w += "stderr: " + printable(r.err.substr(0, 300)) + "\n";
	return w;
}
string program(const Call &k) {
	const F &f = k.f;
	const auto &args = k.a;
	string l1 = "const g0 = 7;", l2 = "const fnc = " + f.get + ";", call;
	vector<string> nm;
	bool show = true;
	for (size_t i = 0; i < args.size(); i++) {
		if (args[i].t == FN || args[i].t == FIL) show = false;      // prints as an address, or not at all
		if (k.fresh) { nm.push_back(args[i].x); continue; }
		if (args[i].x == "#same") { nm.push_back("a0"); continue; }
		l1 += " const a" + std::to_string(i) + " = " + args[i].x + ";";
		nm.push_back("a" + std::to_string(i));
	}
	if (f.ret == (m(UNDEF) | m(FIL)) || f.name == "mt.get" || f.name == "mt.set" || f.name == "math.rand") show = false;
	call = k.method ? nm[0] + "->" + f.method + "(" : "fnc(";
	for (size_t i = k.method; i < nm.size(); i++) call += (i > (size_t)k.method ? ", " : "") + nm[i];
	call += ")";
	// everything but what the function is there to change
	string all = "g0";
	if (!k.fresh) for (size_t i = 0; i < nm.size(); i++) if (!(f.mut && nm[i] == nm[0]) && args[i].t != FIL) all += ", " + nm[i];
	l2 += " const was = [" + all + "]->tostr(); let r = 0;";
	string src = l1 + "\n" + l2 + "\n";
	// the temporary of the call is used in the middle of an expression, and kept
	if (f.name == "list.spread") src += "echo [10, ty(" + call + "), 20];\n";
	else src += "r = [10, " + call + ", 20]; echo [10, ty(r[1]), 20];\n";
	src += "echo was == [" + all + "]->tostr();\n";
	if (show && f.name != "list.spread") src += "echo r;\n";
	return src;
}
void make(Case &c, const F &f, const vector<A> &args) {
	if (f.skip && f.skip(args)) throw Prune{};
	if (f.name.compare(0, 3, "io.") == 0) for (auto &x : args) if (x.s.find('\0') != string::npos) throw Prune{};   // names and modes are C strings
	bool same = args.size() > 1 && args[1].x == "#same";
	// a container put into itself is never released: documented limit of reference counting
	if (same && f.mut && (m(args[1].t) & (m(LIST) | m(TABLE)))) throw Prune{};
	vector<A> eff = args;
	if (same) eff[1] = args[0];
	if (!f.va) eff.resize(f.par.size(), { "undef", UNDEF });
	bool typeok = true;
	for (size_t i = 0; i < eff.size(); i++) if (!((f.va ? f.par[0] : f.par[i]) & m(eff[i].t))) typeok = false;
	vector<Call> ks;
	if (!same) ks.push_back({ f, args, true, false });
	ks.push_back({ f, args, false, false });
	if (!f.method.empty() && !args.empty() && (f.par[0] & m(args[0].t))) ks.push_back({ f, args, false, true });
	vector<string> srcs;
	for (auto &k : ks) { srcs.push_back(program(k)); c.src += srcs.back() + "\n"; c.states.push_back(fp(srcs.back())); }
	c.transitions = ks.size() * (1 + args.size());
	c.custom = [ks, srcs, typeok, eff]() -> string {
		string first, w;
		for (size_t i = 0; i < ks.size() && w.empty(); i++) {
			string res;
			w = judge(ks[i], srcs[i], typeok, eff, res);
			if (i == 0) first = res;
			else if (res != first && w.empty()) w = "the result depends on how the arguments are given:\n" + printable(first) + "\n" + printable(res) + "\n";
			if (!w.empty()) w = "program " + std::to_string(i + 1) + ": " + w;
		}
		return w;
	};
}
A same(const A &a) { A r = a; r.x = "#same"; return r; }
void tuples(Chooser &ch, Case &c, bool wide) {
	static const vector<A> U = universe();
	static const vector<F> V = functions();
	const F &f = ch.pick(V);
	size_t np = f.va ? (wide ? 4 : 3) : f.par.size();
	uint32_t n = ch.choose((uint32_t)np + 2);
	vector<A> a;
	for (uint32_t i = 0; i < n; i++) {
		bool over = i >= np;                                // one more than it takes: makes no difference
		if (over) { static const vector<A> X = { { "undef", UNDEF }, { "['x' ~ 'y']", LIST } }; a.push_back(ch.pick(X)); continue; }
		// after an argument of the wrong type, and in positions beyond the second: a value of each type
		static const vector<size_t> few = [] { vector<size_t> r; std::set<int> seen; for (size_t j = 0; j < U.size(); j++) if (seen.insert(U[j].t).second) r.push_back(j); return r; }();
		bool sel = i >= (wide ? 3u : 2u);
		if (!wide) for (uint32_t j = 0; j < i; j++) if (!((f.va ? f.par[0] : f.par[j]) & m(a[j].t))) sel = true;
		if (i == 1 && !sel && ch.choose(4) == 0) a.push_back(same(a[0]));
		else if (sel) a.push_back(U[ch.pick(few)]);
		else a.push_back(U[ch.choose((uint32_t)U.size())]);
	}
	make(c, f, a);
}
Reg r({ "X01", "every function and method of the library, taken as a plain function or called as a method, with every tuple of arguments (fresh values, values held by variables, the same value twice, too few, too many) from a universe with every type; the signature decides which must succeed, and the error text is checked against the arguments given",
	{ "the signatures are those the functions' own messages and the documentation state", "results of the wrong value are the matter of the properties about the data structures; here only the type of the result is checked", "no allocation fails" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "functions x arguments", th ? "all functions x all tuples of up to 5 arguments, 3 of them from the whole universe of 38 values" : "all functions x all tuples of up to 5 arguments, 2 of them from the whole universe of 38 values", [th](Chooser &ch, Case &c) { tuples(ch, c, th); }, 3 });
	} });
}  // namespace
