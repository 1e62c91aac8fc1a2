// L02: lexical scoping and closures.
#include "ref.hpp"
#include "dead.hpp"
using namespace mc;
using namespace ref;

namespace {
struct G {
	Chooser &ch;
	int budget;
	int uid = 0;
	bool light;
	struct Sc { vector<string> names; };
	vector<Sc> sc;
	vector<string> visible() {
		vector<string> r;
		for (size_t i = sc.size(); i--;) for (auto &n : sc[i].names) { bool dup = false; for (auto &x : r) dup |= x == n; if (!dup) r.push_back(n); }
		return r;
	}
	string anyvar() { auto v = visible(); return ch.pick(v); }
	E closure(const string &v) {
		switch (ch.choose(light ? 2 : 4)) {
		case 0: return fnlit({}, { aug(v, "+", I(1)), ret({ var(v) }) });
		case 1: { string w = anyvar(); return fnlit({}, { aug(v, "+", I(1)), ret({ listlit({ var(v), var(w) }) }) }); }
		case 2: return fnlit({}, { let("k", fnlit({}, { aug(v, "+", I(1)), ret({ var(v) }) })), ret({ call(var("k"), {}) }) });
		default: return call(fnlit({ "z" }, { ret({ fnlit({}, { aug("z", "+", I(1)), aug(v, "+", var("z")), ret({ var(v) }) }) }) }), { I(1) });
		}
	}
	Block body(bool infn, int depth) {
		Block b;
		while (budget > 0) {
			uint32_t o = ch.choose(depth > 0 ? 9 : 6);
			if (o == 0) break;
			budget--;
			switch (o) {
			case 1: {                                     // declare, possibly shadowing
				string n = ch.flip() ? "b" : "a";
				for (auto &x : sc.back().names) if (x == n) throw Prune{};
				b.push_back(let(n, I(10 * (++uid))));
				sc.back().names.push_back(n);
				break;
			}
			case 2: b.push_back(aug(anyvar(), "+", I(1))); break;
			case 3: b.push_back(expr(mcall(var("fs"), "push", { closure(anyvar()) }))); break;
			case 4: b.push_back(echo(call(index(var("fs"), I(-1)), {}))); break;
			case 5: {                                     // closures made by a comprehension
				if (light) throw Prune{};
				string v = anyvar();
				b.push_back(aug("fs", "+", listcomp(fnlit({}, { aug("e", "+", I(1)), aug(v, "+", I(1)), ret({ bin("+", var("e"), var(v)) }) }), "e", listlit({ I(100), I(200) }))));
				break;
			}
			case 6: {                                     // block or loop
				uint32_t k = ch.choose(3);
				sc.push_back({});
				if (k == 1) { sc.back().names.push_back("a"); sc.push_back({}); }
				if (k == 2) { sc.back().names.push_back("i"); sc.push_back({}); }
				Block in = body(infn, depth - 1);
				if (in.empty()) throw Prune{};
				sc.pop_back();
				if (k) sc.pop_back();
				if (k == 0) b.push_back(iff(lit(vbool(true)), in));
				else if (k == 1) b.push_back(forin("a", listlit({ I(1000), I(2000) }), in));
				else b.push_back(forc(let("i", I(3000)), bin("<", var("i"), I(3002)), aug("i", "+", I(1)), in));
				break;
			}
			case 7: {                                     // a function, called here
				string n = "f" + std::to_string(++uid);
				sc.push_back({ { "a" } });
				Block in = body(true, depth - 1);
				if (in.empty()) throw Prune{};
				string rv = visible()[0];
				sc.pop_back();
				in.push_back(ret({ var(rv) }));
				b.push_back(fndecl(n, { "a" }, in));
				b.push_back(echo(call(var(n), { I(500 + uid) })));
				if (ch.flip()) b.push_back(echo(call(var(n), { I(600 + uid) })));
				break;
			}
			case 8: {                                     // early return between creating closures
				if (!infn || light) throw Prune{};
				b.push_back(iff(bin(">", var(anyvar()), I(2000)), { ret({ I(-1) }) }));
				break;
			}
			}
		}
		return b;
	}
};

void gen(Chooser &ch, Case &c, int budget, int depth, bool light) {
	G g{ ch, budget };
	g.light = light;
	bool infn = ch.flip();
	g.sc.push_back({ { "a" } });
	Block prog = { let("fs", listlit({})) };
	Block in;
	if (infn) {
		in = g.body(true, depth);
		if (in.empty()) throw Prune{};
		in.push_back(ret({ var("a") }));
		prog.push_back(fndecl("f", { "a" }, in));
		prog.push_back(echo(call(var("f"), { I(1) })));
	} else {
		bool blk = ch.flip();
		in = { let("a", I(1)) };
		Block x = g.body(false, depth);
		if (x.empty()) throw Prune{};
		in.insert(in.end(), x.begin(), x.end());
		in.push_back(echo(var("a")));
		if (blk) prog.push_back(iff(lit(vbool(true)), in)); else prog.insert(prog.end(), in.begin(), in.end());
	}
	prog.push_back(forin("h", var("fs"), { echo(call(var("h"), {})) }));
	prog.push_back(forin("h", var("fs"), { echo(call(var("h"), {})) }));
	if (ch.choose(2)) prog.insert(prog.begin() + 2, let("junk", listlit({ I(1) })));
	fill(c, prog);
}

// Static rules: what is refused, and that nothing runs when it is.
struct H {
	Chooser &ch;
	int budget, uid = 0;
	string nm() { return ch.flip() ? "b" : "a"; }
	Block body(int depth) {
		Block b;
		while (budget > 0) {
			uint32_t o = ch.choose(depth > 0 ? 9 : 6);
			if (o == 0) break;
			budget--;
			switch (o) {
			case 1: b.push_back(let(nm(), I(++uid))); break;
			case 2: b.push_back(cnst(nm(), I(++uid))); break;
			case 3: b.push_back(assign(nm(), I(++uid))); break;
			case 4: b.push_back(echo(var(nm()))); break;
			case 5: { string n = nm(); b.push_back(multi({ { 'l', "c" + std::to_string(++uid), nullptr, nullptr }, { ch.flip() ? 'c' : 'v', n, nullptr, nullptr } }, { I(uid), I(uid + 100) })); break; }
			case 6: { bool k = ch.flip(); Block in = body(depth - 1); b.push_back(iff(lit(vbool(k)), in)); break; }
			case 7: { string n = nm(); Block in = body(depth - 1); b.push_back(forin(n, listlit({ I(7) }), in)); break; }
			case 8: {
				string n = "f" + std::to_string(++uid), p = nm();
				bool k = ch.flip();
				Block in = body(depth - 1);
				auto f = fndecl(n, { p }, in);
				f->constp = { k };
				b.push_back(f);
				b.push_back(expr(call(var(n), { I(50) })));
				break;
			}
			}
		}
		return b;
	}
};
void gen_static(Chooser &ch, Case &c, int budget, int depth) {
	H h{ ch, budget };
	Block prog = { echo(Sx("start")) };
	uint32_t wrap = ch.choose(2);
	Block in = h.body(depth);
	if (in.empty()) throw Prune{};
	if (wrap) prog.push_back(iff(lit(vbool(true)), in));
	else prog.insert(prog.end(), in.begin(), in.end());
	fill(c, prog);
}

// Many locals and many captured variables: slots beyond every encoding width that is allowed.
void gen_many(Chooser &ch, Case &c, bool th) {
	static const vector<int> NS = { 1, 2, 120, 126, 127, 128, 129, 130, 200, 253 };
	int n = ch.pick(NS);
	int a = (int)ch.choose(4), b = (int)ch.choose(4);
	auto slot = [&](int k) { return k == 0 ? 0 : k == 1 ? n / 2 : k == 2 ? n - 1 : std::min(n - 1, 127); };
	a = slot(a); b = slot(b);
	uint32_t where = ch.choose(3);
	uint32_t form = ch.choose(th ? 5 : 4);
	Block in;
	for (int i = 0; i < n; i++) in.push_back(let("v" + std::to_string(i), I(i)));
	string va = "v" + std::to_string(a), vb = "v" + std::to_string(b);
	switch (form) {
	case 0: in.push_back(aug(va, "+", I(1000))); in.push_back(echo(listlit({ var(va), var(vb) }))); break;
	case 1: in.push_back(let("g", fnlit({}, { aug(va, "+", I(1000)), ret({ listlit({ var(va), var(vb) }) }) }))); in.push_back(echo(call(var("g"), {}))); in.push_back(aug(vb, "+", I(1))); in.push_back(echo(call(var("g"), {}))); in.push_back(echo(var(va))); break;
	case 2: in.push_back(let("g", fnlit({}, { ret({ fnlit({}, { aug(va, "+", I(1000)), ret({ listlit({ var(va), var(vb) }) }) }) }) }))); in.push_back(echo(call(call(var("g"), {}), {}))); in.push_back(echo(var(va))); break;
	case 3: { in.push_back(forin("i", listlit({ I(1) }), { aug(va, "+", var("i")), echo(bin("+", var(va), var(vb))) })); break; }
	default: {                                      // one closure over all of them
		vector<E> all;
		for (int i = 0; i < n; i++) all.push_back(var("v" + std::to_string(i)));
		in.push_back(let("g", fnlit({}, { aug(va, "+", I(5)), ret({ listlit(all) }) })));
		in.push_back(echo(call(var("g"), {})));
		break;
	}
	}
	Block prog;
	if (where == 0) prog = in;
	else if (where == 1) prog = { iff(lit(vbool(true)), in) };
	else prog = { fndecl("f", {}, in), expr(call(var("f"), {})) };
	if (n + 3 > 253 && where) { while (in.size() > 252) throw Prune{}; }
	fill(c, prog);
}

// Mutual visibility of functions: recursion, recursion through a closure, functions as values.
void gen_rec(Chooser &ch, Case &c) {
	int n = (int)ch.choose(6);
	uint32_t form = ch.choose(5);
	Block in;
	switch (form) {
	case 0: in = { fndecl("fac", { "n" }, { iff(bin("<", var("n"), I(2)), { ret({ I(1) }) }), ret({ bin("*", var("n"), call(var("fac"), { bin("-", var("n"), I(1)) })) }) }), echo(call(var("fac"), { I(n) })) }; break;
	case 1: in = { let("odd", lit(vundef())), fndecl("even", { "n" }, { iff(bin("==", var("n"), I(0)), { ret({ lit(vbool(true)) }) }), ret({ call(var("odd"), { bin("-", var("n"), I(1)) }) }) }),
		assign("odd", fnlit({ "n" }, { iff(bin("==", var("n"), I(0)), { ret({ lit(vbool(false)) }) }), ret({ call(var("even"), { bin("-", var("n"), I(1)) }) }) })), echo(call(var("even"), { I(n) })) }; break;
	case 2: in = { fndecl("mk", { "n" }, { let("t", var("n")), iff(bin("==", var("n"), I(0)), { ret({ fnlit({ "x" }, { ret({ var("x") }) }) }) }), let("g", call(var("mk"), { bin("-", var("n"), I(1)) })), ret({ fnlit({ "x" }, { aug("t", "+", I(1)), ret({ bin("+", var("t"), call(var("g"), { var("x") })) }) }) }) }),
		let("h", call(var("mk"), { I(n) })), echo(call(var("h"), { I(1) })), echo(call(var("h"), { I(1) })) }; break;
	case 3: in = { fndecl("cnt", { "a" }, { let("n", var("a")), ret({ fnlit({}, { aug("n", "+", I(1)), ret({ var("n") }) }), fnlit({}, { aug("n", "-", I(10)), ret({ var("n") }) }) }) }),
		multi({ { 'l', "p", nullptr, nullptr }, { 'l', "q", nullptr, nullptr } }, { call(var("cnt"), { I(n) }) }), multi({ { 'l', "p2", nullptr, nullptr }, { 'l', "q2", nullptr, nullptr } }, { call(var("cnt"), { I(n + 50) }) }),
		echo(call(var("p"), {})), echo(call(var("q"), {})), echo(call(var("p2"), {})), echo(call(var("p"), {})), echo(call(var("q2"), {})) }; break;
	default: in = { fndecl("ack", { "m", "n" }, { iff(bin("==", var("m"), I(0)), { ret({ bin("+", var("n"), I(1)) }) }), iff(bin("==", var("n"), I(0)), { ret({ call(var("ack"), { bin("-", var("m"), I(1)), I(1) }) }) }),
		ret({ call(var("ack"), { bin("-", var("m"), I(1)), call(var("ack"), { var("m"), bin("-", var("n"), I(1)) }) }) }) }), echo(call(var("ack"), { I(n / 3), I(n) })) }; break;
	}
	Block prog;
	uint32_t where = ch.choose(3);
	if (where && form != 3) c.check_leaks = false;       // a local function that captures itself is a reference cycle
	switch (where) {
	case 0: prog = in; break;
	case 1: prog = { iff(lit(vbool(true)), in) }; break;
	default: prog = { fndecl("outer", { "u" }, in), expr(call(var("outer"), { I(1) })) };
	}
	fill(c, prog);
}

Reg r({ "L02", "Every program of a grammar of nested functions, blocks and loops whose variables shadow each other, are captured by closures (readers, writers, nested, made in loops and comprehensions), assigned directly and through the closures, and outlive their scope; every placement of declarations, constants, assignments and uses of two names, valid or not; closures over slots on both sides of every encoding width; recursive and mutually recursive functions.",
	{ "A loop has one variable for all its iterations, its body's own variables are new in each iteration" },
	[](std::vector<Space> &v, bool th) {
		int b = th ? 5 : 4;
		v.push_back({ "closures", "at most " + std::to_string(b) + " statements, nesting 2", [b](Chooser &ch, Case &c) { gen(ch, c, b, 2, false); }, 5 });
		v.push_back({ "longer closure programs", "at most " + std::to_string(b + 1) + " statements, nesting " + (th ? "2" : "1") + ", fewer kinds", [b, th](Chooser &ch, Case &c) { gen(ch, c, b + 1, th ? 2 : 1, true); }, 5 });
		int s = th ? 5 : 4;
		v.push_back({ "static rules", "at most " + std::to_string(s) + " statements over two names, nesting 2", [s](Chooser &ch, Case &c) { gen_static(ch, c, s, 2); }, 5 });
		v.push_back({ "code that never runs", "77 statements and expressions, good and bad, in " + string(th ? "3" : "2") + " nested places of 44, which run or never do", [th](Chooser &ch, Case &c) { gen_dead(ch, c, th ? 3 : 2); }, 3 });
		v.push_back({ "many variables", "1 to 253 variables of one scope", [th](Chooser &ch, Case &c) { gen_many(ch, c, th); }, 2 });
		v.push_back({ "recursion", "five recursive schemes, arguments 0 to 5", [](Chooser &ch, Case &c) { gen_rec(ch, c); }, 2 });
	} });
}
