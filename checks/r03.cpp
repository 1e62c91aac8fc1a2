// R03: running out of stack is an error like any other, wherever it happens.
// BUILD: variant=asan wrap=rand
#include "mc.hpp"
#include "snips.hpp"
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;
extern "C" int __wrap_rand(void) { static int n; return n++; }

namespace {
int to_push, pushed;
int p_fn(struct YASL_State *) { return 1; }
// Fill the stack with copies of a function, and call it.
int fill_fn(struct YASL_State *S) {
	for (pushed = 0; pushed < to_push; pushed++) YASL_duptop(S);
	YASL_functioncall(S, 0);
	return 1;
}
string program(const string &body) {
	return snips::prelude() + "fn body() {\n" + body + ";\nreturn 'done';\n}\nfn down() { if left == 0 { return body(); }; left -= 1; return down(); }\n";
}
RunOpts opts(int left) {
	RunOpts o;
	string path = scratch_dir() + "/r03";
	o.setup = [left, path](void *p) {
		auto S = (struct YASL_State *)p;
		YASL_declglobal(S, "p"); YASL_pushcfunction(S, p_fn, 1); YASL_setglobal(S, "p");
		YASL_declglobal(S, "fill"); YASL_pushcfunction(S, fill_fn, 1); YASL_setglobal(S, "fill");
		YASL_declglobal(S, "left"); YASL_pushint(S, left); YASL_setglobal(S, "left");
		YASL_declglobal(S, "path"); YASL_pushlstr(S, path.data(), path.size()); YASL_setglobal(S, "path");
	};
	return o;
}
Outcome slots(const string &body, int n) { to_push = n; return run_program(program(body) + "echo fill(body)\n", opts(0)); }
Outcome frames(const string &body, int n) { return run_program(program(body) + "echo down()\n", opts(n)); }

// With how many copies on the stack does the call itself fail?
int limit_slots() {
	static int lim = [] {
		int lo = 0, hi = 1 << 20;                       // lo works, hi does not
		while (hi - lo > 1) { int m = (lo + hi) / 2; if (slots("0", m).status == 0) lo = m; else hi = m; }
		return hi;
	}();
	return lim;
}
int limit_frames() {
	static int lim = [] {
		int lo = 0, hi = 1 << 20;
		while (hi - lo > 1) { int m = (lo + hi) / 2; if (frames("0", m).status == 0) lo = m; else hi = m; }
		return hi;
	}();
	return lim;
}
string judge(const Outcome &base, const Outcome &o, bool must_fail, bool must_work, bool leaks) {
	string bad;
	auto say = [&](const string &s) { if (bad.empty()) bad = s + "\nerr: " + printable(o.err.substr(0, 300)) + "\nout: " + printable(o.out.substr(0, 300)); };
	if (o.badheap) say("heap fault: " + o.heapmsg);
	if (o.open_files) say("files left open");
	if (base.status != 0) say("does not run at all: status " + std::to_string(base.status) + " " + base.err);
	if (o.status == 0) {
		if (must_fail) say("a call beyond the limit went through");
		if (o.out != base.out) say("ran to its end with other output than with room to spare: " + printable(base.out.substr(0, 300)));
		if (!o.err.empty()) say("text on stderr although nothing failed");
	} else if (o.status == YASL_STACK_OVERFLOW_ERROR) {
		if (must_work) say("StackOverflow with room to spare");
		if (base.out.compare(0, o.out.size(), o.out)) say("output before the overflow is not a prefix of the whole output");
		if (o.err.find("StackOverflow") == string::npos || o.err.find("StackOverflow") != o.err.rfind("StackOverflow")) say("does not say StackOverflow once");
	} else say("status " + std::to_string(o.status));
	if (leaks && o.leaked != base.leaked) say("leaked " + std::to_string(o.leaked) + " blocks");
	if (leaks && base.leaked) say("leaks " + std::to_string(base.leaked) + " blocks with room to spare");
	return bad;
}
void one(Case &c, const string &body, bool fr, int near) {
	c.key = printable(body) + (fr ? " frames-" : " slots-") + std::to_string(near);
	c.src = program(body);
	c.custom = [body, fr, near]() -> string {
		int lim = fr ? limit_frames() : limit_slots();
		if (lim < 64 || lim > 1 << 19) return "the stack ends after " + std::to_string(lim) + " calls";
		Outcome base = fr ? frames(body, 0) : slots(body, 0), o = fr ? frames(body, lim - near) : slots(body, lim - near);
		count_traces(2);
		count_state(fp(o.out + "|" + std::to_string(o.status)));
		return judge(base, o, near <= 0, near >= 300, true);
	};
}
// Recursion of every shape, without end: it must end all the same.
const vector<string> &endless() {
	static const vector<string> v = {
		"fn f() { return f(); }\nf()",
		"fn f(x) { return f(x ~ 'a'); }\nf('b')",
		"fn f(x) { return 1 + f(x + 1); }\nf(0)",
		"fn f(x, y, z) { let a = [x]; let b = {'k': a}; return f(b, a, [z]); }\nf(1, 2, 3)",
		"fn f(x) { for i <- [1, 2] { for j <- 'a' ~ 'b' { f(i); }; }; return 0; }\nf(0)",
		"fn f(x) { for let i = 0; i < 2; i += 1 { f(i); }; return 0; }\nf(0)",
		"fn f(x) { let y = [x ~ 'q']; fn g() { return f(y); }; return g(); }\nf(0)",
		"fn f(x) { return [f([i]) for i <- [x, 2]]; }\nf(0)",
		"fn f(x) { return {i: f(i) for i <- [1, 2]}; }\nf(0)",
		"fn f(x) {\nmatch [x, 'y' ~ x] {\n[let a, let b] { return f(b); }\n}\nreturn 0;\n}\nf(0)",
		"fn f(x) {\nmatch [x, 2] {\n[let a, let b] if f(a) { return 1; }\n* { return 2; }\n}\nreturn 0;\n}\nf(0)",
		"const m = {}\nlet o = mt.set({}, m)\nm.__add = fn(a, b) { return a + b; }\necho o + 1",
		"const m = {}\nlet o = mt.set({}, m)\nm.tostr = fn(a) { return 'x' ~ a; }\necho o",
		"const m = {}\nlet o = mt.set({}, m)\nm.tostr = fn(a) { return '' ~ a; }\necho \"#{o}\"",
		"const m = {}\nlet o = mt.set({}, m)\nm.__eq = fn(a, b) { return [a] == [b]; }\necho o == o",
		"const m = {}\nlet o = mt.set({}, m)\nm.__lt = fn(a, b) { return a < b; }\necho o < o",
		"const m = {}\nlet o = mt.set({}, m)\nm.__len = fn(a) { return len a; }\necho len o",
		"const m = {}\nlet o = mt.set({}, m)\nm.__get = fn(a, b) { return a[b]; }\necho o.x",
		"const m = {}\nlet o = mt.set({}, m)\nm.__set = fn(a, b, c) { a[b] = c; }\no.x = 1",
		"const m = {}\nlet o = mt.set({}, m)\nm.__call = fn(a) { return o(a); }\no(1)",
		"const m = {}\nlet o = mt.set({}, m)\nm.__neg = fn(a) { return -a; }\necho -o",
		"fn f(x) { return p(f(p(x))); }\nf(1)",
		"fn f(x) { return collections.list(x, f(x)); }\nf(1)",
		"fn f(x) { return collections.list(1, x, ['a' ~ 'b']->push(f(x)), 2); }\nf(1)",
		"fn f(x) { return \"#{x}#{f(x ~ 1)}\"; }\nf(1)",
		"fn f(x) { let a = 1; let b = 2; a, b = f(x), f(x); return a, b; }\nf(1)",
		"fn f(x) { let a = 1; let b = 2; a, b = f(x); return b, a; }\nf(1)",
		"const f = fn(s, n) { return s(s, [n, 'a' ~ 'b']); }\nf(f, [])",
		"let l = []\nfor let i = 0; i < 3000; i += 1 { l->push('e' ~ i); }\necho len collections.list(l->spread())",
		"let l = []\nfor let i = 0; i < 3000; i += 1 { l->push(i); }\nfn g(a) { return a; }\necho g(l->spread())",
	};
	return v;
}
Reg r({ "R03", "one case per (program fragment, room left on the stack) and per endless recursion; each run ends normally as with room to spare, or with StackOverflow", {
	"what fits on the stack is measured, not specified: only that running out is reported as StackOverflow, damages nothing and keeps nothing",
}, [](vector<Space> &v, bool th) {
	v.push_back({ "slots", string("every fragment (") + std::to_string(snips::all().size()) + ") called with -3.." + (th ? "200" : "70") + " slots of the stack left, and with 300", [th](Chooser &ch, Case &c) {
		const string &s = ch.pick(snips::all());
		int n = (int)ch.choose(th ? 205 : 75);
		one(c, s, false, n == (th ? 204 : 74) ? 300 : n - 3);
	}, 2 });
	v.push_back({ "frames", "every fragment called with -2..27 calls left, and with 500", [](Chooser &ch, Case &c) {
		const string &s = ch.pick(snips::all());
		int n = (int)ch.choose(31);
		one(c, s, true, n == 30 ? 500 : n - 2);
	}, 2 });
	v.push_back({ "endless", string("every endless recursion (") + std::to_string(endless().size()) + ") × 0..39 locals around it, at top level and in a function", [](Chooser &ch, Case &c) {
		const string &s = ch.pick(endless());
		int n = (int)ch.choose(40); bool infn = ch.flip();
		string src = infn ? "fn main() {\n" : "";
		for (int i = 0; i < n; i++) src += "let v" + std::to_string(i) + " = 'q' ~ " + std::to_string(i) + "\n";
		src += s + "\n" + (infn ? "return 0\n}\nmain()\n" : "");
		bool overflow = s.find("l->spread()") == string::npos || true;
		c.src = src; c.key = printable(src);
		// closures over themselves are cycles
		bool leaks = !infn && s.find("fn g()") == string::npos && s.find("const m") == string::npos;
		c.custom = [src, leaks, overflow]() -> string {
			Outcome o = run_program(src, opts(0));
			count_traces(1);
			count_state(fp(o.out + "|" + std::to_string(o.status)));
			Outcome none; none.status = 0;
			if (overflow && o.status == 0) return "ended normally: " + printable(o.out.substr(0, 200));
			return judge(none, o, false, false, leaks);
		};
	}, 2 });
} });
}  // namespace
