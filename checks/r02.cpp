// R02: an error at any point of a program ends it there, and everything it held is released.
// BUILD: variant=asan wrap=rand
#include "mc.hpp"
#include "snips.hpp"
#include <set>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;
extern "C" int __wrap_rand(void) { static int n; return n++; }

namespace {
// What p(x) does at its `due`-th call, instead of returning x.
enum Fault { NONE, THROW_TYPE, THROW_OWN, RAISE_ASSERT, RAISE_DIV, RAISE_DEEP, GIVE_UNDEF, GIVE_FILE, GIVE_FN, GIVE_NAN, GIVE_LIST, GIVE_NEG, GIVE_STR, GIVE_BADOBJ, NFAULT };
const char *FN[] = { "none", "TypeError from C", "error of the host", "assert", "division", "assert in nested calls", "undef", "file", "function", "nan", "list", "-1", "str", "object whose overloads fail" };
int due, calls;
Fault fault;
int p_fn(struct YASL_State *S) {
	if (++calls != due) return 1;
	switch (fault) {
	case THROW_TYPE: YASLX_print_err_bad_arg_type(S, "p", 0, "nothing", "something"); YASL_throw_err(S, YASL_TYPE_ERROR);
	case THROW_OWN: YASL_print_err(S, "HostError: %s", "own"); YASL_throw_err(S, YASL_ERROR);
	case RAISE_ASSERT: YASL_loadglobal(S, "fail1"); YASL_functioncall(S, 0); return 1;
	case RAISE_DIV: YASL_loadglobal(S, "fail2"); YASL_functioncall(S, 0); return 1;
	case RAISE_DEEP: YASL_loadglobal(S, "fail3"); YASL_pushlit(S, "x"); YASL_functioncall(S, 1); return 1;
	case GIVE_UNDEF: YASL_pushundef(S); return 1;
	case GIVE_FILE: YASL_loadglobal(S, "afile"); return 1;
	case GIVE_FN: YASL_loadglobal(S, "fail1"); return 1;
	case GIVE_NAN: YASL_pushfloat(S, 0.0 / 0.0); return 1;
	case GIVE_LIST: YASL_pushlist(S); YASL_pushlit(S, "y"); YASL_listpush(S); return 1;
	case GIVE_NEG: YASL_pushint(S, -1); return 1;
	case GIVE_STR: YASL_pushzstr(S, "a str made just now"); return 1;
	case GIVE_BADOBJ: YASL_loadglobal(S, "badobj"); return 1;
	default: return 1;
	}
}
string program(const string &body) {
	return snips::prelude() +
		"set(fn() { let a = 'q' ~ 'r'; assert a == 'no'; return a; }, fn() { let a = ['q' ~ 'r']; return 1 // (len a - 1); }, fn(x) { for i <- [x, [x]] { let y = [i ~ 'z' for i <- [1, 2]]; const f = fn() { return y; }; match [y, f] {\n[let u, let v] { assert len v() == 5; }\n}\n}; return 1; })\n"
		"const BM = {}\nfor q <- ['__add', '__sub', '__mul', '__div', '__idiv', '__mod', '__pow', '__bor', '__bxor', '__band', '__bandnot', '__bshl', '__bshr', '__get', '__neg', '__pos', '__bnot', '__call', '__lt', '__le', '__gt', '__ge', '__eq', 'tostr', 'tobool', '__len', '__set', 'm'] {\n"
		"	BM[q] = fn(a, b, c) { let l = ['bad' ~ q]; assert len l == 2; return 0; }\n}\nsetbad(mt.set([1], BM))\n"
		"fn body() {\n" + body + ";\nreturn 'done';\n}\necho body()\n";
}
int set_fn(struct YASL_State *S) {
	YASL_setglobal(S, "fail3"); YASL_setglobal(S, "fail2"); YASL_setglobal(S, "fail1");
	return 0;
}
int setbad_fn(struct YASL_State *S) { YASL_setglobal(S, "badobj"); return 0; }
RunOpts opts() {
	RunOpts o;
	string path = scratch_dir() + "/r02";
	o.setup = [path](void *p) {
		auto S = (struct YASL_State *)p;
		auto fn = [&](const char *n, YASL_cfn f, int k) { YASL_declglobal(S, n); YASL_pushcfunction(S, f, k); YASL_setglobal(S, n); };
		fn("p", p_fn, 1); fn("set", set_fn, 3); fn("setbad", setbad_fn, 1);
		for (auto g : { "fail1", "fail2", "fail3", "badobj", "afile" }) { YASL_declglobal(S, g); YASL_pushundef(S); YASL_setglobal(S, g); }
		YASL_declglobal(S, "path"); YASL_pushlstr(S, path.data(), path.size()); YASL_setglobal(S, "path");
		static int thing;
		YASL_pushuserdata(S, &thing, "thing", [](void *) {});   // a thing that cannot be stringified
		YASL_setglobal(S, "afile");
	};
	return o;
}
Outcome run(const string &src, Fault f, int at) { fault = f; due = at; calls = 0; return run_program(src, opts()); }
int count_calls(const string &src) {
	static std::map<string, int> m;
	auto it = m.find(src);
	if (it != m.end()) return it->second;
	run(src, NONE, 0);
	return m[src] = calls;
}
bool known(int st) { return st == 0 || st == YASL_ERROR || st == YASL_TYPE_ERROR || st == YASL_VALUE_ERROR || st == YASL_DIVIDE_BY_ZERO_ERROR || st == YASL_ASSERT_ERROR || st == YASL_STACK_OVERFLOW_ERROR; }
string judge(const string &src, Fault f, int at) {
	static std::map<string, Outcome> bases;
	if (!bases.count(src)) bases[src] = run(src, NONE, 0);
	const Outcome &base = bases[src];
	Outcome o = run(src, f, at);
	count_traces(1);
	count_state(fp(o.out + "|" + std::to_string(o.status)));
	string bad;
	auto say = [&](const string &s) { if (bad.empty()) bad = s + "\nerr: " + printable(o.err.substr(0, 400)) + "\nout: " + printable(o.out.substr(0, 300)); };
	if (base.status) say("does not run at all: " + base.err);
	if (o.badheap) say("heap fault: " + o.heapmsg);
	if (o.open_files) say("files left open");
	if (o.leaked) say("leaked " + std::to_string(o.leaked) + " blocks");
	int want = f == THROW_TYPE ? YASL_TYPE_ERROR : f == THROW_OWN ? YASL_ERROR : f == RAISE_ASSERT || f == RAISE_DEEP ? YASL_ASSERT_ERROR : f == RAISE_DIV ? YASL_DIVIDE_BY_ZERO_ERROR : -1;
	if (want >= 0) {
		static const char *TEXT[] = { "", "TypeError", "HostError: own", "AssertError", "DivisionByZeroError", "AssertError" };
		if (o.status != want) say("status " + std::to_string(o.status) + " instead of " + std::to_string(want));
		size_t n = o.err.find(TEXT[f]);
		if (n != 0 || o.err.find(TEXT[f], 1) != string::npos) say("the error is not reported once, first");
		if (base.out.compare(0, o.out.size(), o.out)) say("the output before the error is not a prefix of the whole output: " + printable(base.out));
		if (calls != at) say("went on after the error");
	} else {
		if (!known(o.status)) say("status " + std::to_string(o.status));
		if (o.status == YASL_STACK_OVERFLOW_ERROR) say("StackOverflow");
		if ((o.status != 0) != !o.err.empty()) say("status and text disagree");
		const char *T = o.status == YASL_TYPE_ERROR ? "TypeError" : o.status == YASL_VALUE_ERROR ? "ValueError" : o.status == YASL_ASSERT_ERROR ? "AssertError" : o.status == YASL_DIVIDE_BY_ZERO_ERROR ? "DivisionByZeroError" : "";
		if (o.err.compare(0, strlen(T), T)) say("the text does not name the error");
	}
	return bad;
}
// Contexts: what else is alive when the error strikes.
const vector<std::pair<string, string>> &contexts() {
	static const vector<std::pair<string, string>> v = {
		{ "", "" },
		{ "let h = ['held' ~ 1]; for ci <- [h, 'w' ~ 'x'] { let cv = 'c' ~ ci; let cf = fn() { return cv; };", "; echo cf(); }" },
		{ "fn inner(cx, cy) { let cz = cx ~ cy; fn more() { return cz; };", "; return more; }; echo collections.list('l' ~ 'm', inner('n' ~ 'o', 'p' ~ 'q')() ~ 'r', 's' ~ 't')" },
		{ "let cl = [cq ~ (fn() {", "; return 'e' ~ cq; })() for cq <- ['a' ~ 'b', 2]]; echo cl" },
		{ "match ['m' ~ 'n', {'k': 'o' ~ 'p'}] {\n[let ca, {'k': let cb}] { echo ca;", "; echo cb; }\n}" },
		{ "let cs = ['x' ~ 'y', mt.set({}, {'__add': fn(a, b) {", "; return 'sum' ~ 1; }})]; echo cs[1] + ['z' ~ 'z']" },
		{ "let ct = mt.set({}, {'tostr': fn(a) {", "; return 'str' ~ 1; }}); echo 'l' ~ 1 ~ ct ~ \"#{['i' ~ 'j']}#{ct}\"" },
	};
	return v;
}
// Functions of the library, most of which refuse most of the values.
const vector<string> &library() {
	static const vector<string> v = [] {
		vector<string> r;
		auto all = [&](const char *of, vector<const char *> names) { for (auto n : names) r.push_back(string(of) + "." + n); };
		all("undef", { "tostr", "tobool" }); all("true", { "tostr", "tobool" });
		for (auto n : { "5", "5.0" }) all(n, { "toint", "tofloat", "tostr", "tobool" });
		all("'a'", { "isalnum", "isal", "isnum", "isspace", "tobool", "toupper", "tolower", "tostr", "__len", "tofloat", "toint", "startswith", "endswith", "replace", "search", "count", "split", "trim", "ltrim", "rtrim", "__get", "rep" });
		all("[]", { "__len", "push", "copy", "__add", "__eq", "pop", "__get", "__set", "tostr", "search", "reverse", "clear", "join", "sort", "spread", "count", "insert" });
		all("({})", { "__len", "remove", "keys", "values", "copy", "tostr", "__get", "__set", "__bor", "__eq", "clear" });
		all("collections.set()", { "tostr", "tolist", "__band", "__bor", "__bxor", "__bandnot", "__eq", "__gt", "__ge", "__lt", "__le", "__len", "add", "remove", "copy", "clear", "__get" });
		all("io.stdout", { "read", "write", "flush", "seek", "close" });
		all("collections", { "set", "list", "table" }); all("mt", { "get", "set" });
		all("math", { "exp", "sqrt", "abs", "max", "min", "isprime", "gcd", "lcm", "ceil" });
		r.push_back("io.open"); r.push_back("require");
		return r;
	}();
	return v;
}
const vector<string> &values() {
	static const vector<string> v = { "2", "'a' ~ 'b'", "''", "[1, 'c' ~ 'd', ['e' ~ 'f']]", "undef", "(-1)", "2.5", "{'k' ~ 1: ['v' ~ 1]}", "{}", "['s' ~ 1, 't']", "[badobj, 'u' ~ 1]", "badobj", "{1: badobj}", "collections.set('x' ~ 1, 2)", "io.open(path, 'w+')", "fn(a) { return a; }", "'cur'" };
	return v;
}
Reg r({ "R02", "one case per (program fragment, what surrounds it, call of p, fault at that call); the run ends with the injected error, reported once and after the output before it, and releases everything", {
	"faults are injected at the calls of a host function that appear in every operand position of the fragments",
}, [](vector<Space> &v, bool th) {
	size_t nctx = contexts().size();
	v.push_back({ "points", std::to_string(snips::all().size()) + " fragments × " + std::to_string(nctx) + " contexts × every call of p × " + (th ? "13 faults" : "13 faults in the first context, 3 in the others"), [th](Chooser &ch, Case &c) {
		const string &s = ch.pick(snips::all());
		size_t ci = ch.choose((uint32_t)contexts().size());
		auto &ctx = contexts()[ci];
		string src = program(ctx.first + s + ctx.second);
		int n = count_calls(src);
		if (!th && n > 60) n = 60;
		if (n == 0) throw Prune{};
		int at = 1 + (int)ch.choose((uint32_t)n);
		Fault f;
		if (ci && !th) { static const Fault few[] = { THROW_OWN, RAISE_DEEP, GIVE_BADOBJ }; f = few[ch.choose(3)]; }
		else f = (Fault)(1 + ch.choose(NFAULT - 1));
		// a list that is no longer what a fragment expects may go on forever, or make cycles
		if (f == GIVE_NEG && (s.find("while i < p(3)") != string::npos || s.find("let i = p(0); i < p(3)") != string::npos)) throw Prune{};
		c.src = src;
		c.key = printable(ctx.first + s + ctx.second) + " call " + std::to_string(at) + " " + FN[f];
		c.custom = [src, f, at]() { return judge(src, f, at); };
	}, 2 });
	v.push_back({ "library", std::to_string(library().size()) + " functions of the library × all tuples of up to 3 arguments out of " + std::to_string(values().size()) + " × contexts", [th](Chooser &ch, Case &c) {
		const string &f = ch.pick(library());
		static const std::set<string> THREE = { "'a'.replace", "[].insert", "[].__set", "({}).__set", "io.stdout.seek", "collections.set", "collections.list", "collections.table" };
		size_t n = ch.choose(th || THREE.count(f) ? 4 : 3);
		string call = f + "(";
		bool first = false;
		for (size_t i = 0; i < n; i++) {
			// the third one out of fewer
			uint32_t k = ch.choose(i < 2 ? (uint32_t)values().size() : 4);
			if (i == 0) first = values()[k] == "badobj";
			else if (first && values()[k].find("badobj") != string::npos) throw Prune{};   // would make cycles
			call += (i ? ", " : "") + values()[k];
		}
		call += ")";
		static const size_t FEW[] = { 2, 1, 3 };
		auto &ctx = contexts()[th && n < 3 ? ch.choose((uint32_t)contexts().size()) : FEW[ch.choose(n < 2 ? 3 : 1)]];
		string src = program(ctx.first + "echo 'before' ~ 1; const res = " + call + "; res" + ctx.second);
		c.src = src;
		c.key = printable(ctx.first + call + ctx.second);
		c.custom = [src]() {
			Outcome o = run(src, NONE, 0);
			count_traces(1);
			count_state(fp(o.out + "|" + o.err + "|" + std::to_string(o.status)));
			string bad;
			auto say = [&](const string &s) { if (bad.empty()) bad = s + "\nerr: " + printable(o.err.substr(0, 400)) + "\nout: " + printable(o.out.substr(0, 300)); };
			if (o.badheap) say("heap fault: " + o.heapmsg);
			if (o.open_files) say("files left open");
			if (o.leaked) say("leaked " + std::to_string(o.leaked) + " blocks");
			if (!known(o.status)) say("status " + std::to_string(o.status));
			if (o.status == YASL_STACK_OVERFLOW_ERROR) say("StackOverflow");
			if ((o.status != 0) != !o.err.empty()) say("status and text disagree");
			if (o.out.find("before1\n") == string::npos) say("what was printed before is lost");
			if ((o.out.size() >= 5 && o.out.substr(o.out.size() - 5) == "done\n") != !o.status) say("it did not stop at the error");
			return bad;
		};
	}, 3 });
} });
}  // namespace
