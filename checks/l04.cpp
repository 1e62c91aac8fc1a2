// L04: calls: arguments, results, multiple results.
#include "ref.hpp"
using namespace mc;
using namespace ref;

namespace {
bool spread(Machine &, const Val &o, const string &m, const vector<Val> &, vector<Val> &r) {
	if (o.k == LIST && m == "spread") { r = o.l->v; if (r.empty()) throw Prune{}; return true; }
	return false;
}
const std::function<void(Machine &, EnvP &)> PRE = [](Machine &m, EnvP &) { m.method = spread; };

struct G {
	Chooser &ch;
	bool infn;
	int uid = 0;
	E arg(int depth) {
		switch (ch.choose(depth > 0 ? 8 : 6)) {
		case 0: return I(++uid);
		case 1: return call(var("g1"), { I(++uid) });
		case 2: return call(var("g2"), { I(++uid) });
		case 3: return call(var("g3"), { I(++uid) });
		case 4: return call(var("g0"), {});
		case 5: uid++; return mcall(listlit({ I(uid * 10), I(uid * 10 + 1) }), "spread", {});
		case 6: return call(var("g2"), { arg(depth - 1) });
		default: return call(var("sh"), { I(++uid), arg(depth - 1) });
		}
	}
};
Block prelude(Chooser &ch, bool closures) {
	Block b;
	b.push_back(fndecl("g0", {}, { let("u", I(1)) }));
	if (!closures) {
		b.push_back(fndecl("g1", { "a" }, { ret({ var("a") }) }));
		b.push_back(fndecl("g2", { "a" }, { let("k", bin("+", var("a"), I(100))), ret({ var("a"), var("k") }) }));
		b.push_back(fndecl("g3", { "a" }, { ret({ var("a"), bin("+", var("a"), I(200)), bin("+", var("a"), I(300)) }) }));
	} else {
		b.push_back(let("n", I(0)));
		b.push_back(fndecl("mk", { "c" }, { let("h", fnlit({ "a" }, { aug("c", "+", I(1)), ret({ var("a"), var("c") }) })), ret({ var("h") }) }));
		b.push_back(let("g2", call(var("mk"), { I(40) })));
		b.push_back(fndecl("g1", { "a" }, { let("z", var("a")), let("r", fnlit({}, { ret({ var("z") }) })), ret({ call(var("r"), {}) }) }));
		b.push_back(fndecl("g3", { "a" }, { let("z", var("a")), let("r", fnlit({}, { aug("z", "+", I(1)), ret({ var("z") }) })), ret({ var("a"), call(var("r"), {}), call(var("r"), {}) }) }));
	}
	b.push_back(fndecl("sh", { "a", "b", "c", "d" }, { ret({ listlit({ var("a"), var("b"), var("c"), var("d") }) }) }));
	(void)ch;
	return b;
}
void finish(Chooser &ch, Case &c, Block pre, Block in) {
	in.insert(in.begin(), let("z0", I(900)));
	in.push_back(let("z1", I(901)));
	in.push_back(echo(listlit({ var("z0"), var("z1") })));
	Block prog = pre;
	if (ch.flip()) { in.push_back(ret({ I(1) })); prog.push_back(fndecl("main", { "m" }, in)); prog.push_back(expr(call(var("main"), { I(2) }))); }
	else prog.insert(prog.end(), in.begin(), in.end());
	fill(c, prog, true, PRE);
}

// Every kind of argument list, in every context.
void gen_ctx(Chooser &ch, Case &c, int maxargs, int depth) {
	bool clo = ch.flip();
	Block pre = prelude(ch, clo);
	G g{ ch, false };
	int n = (int)ch.choose((uint32_t)maxargs + 1);
	vector<E> args;
	for (int i = 0; i < n; i++) args.push_back(g.arg(depth));
	E f = call(var("sh"), args);
	Block in;
	uint32_t ctx = ch.choose(9);
	auto lv = [](char k, string nm) { return LVal{ k, nm, nullptr, nullptr }; };
	switch (ctx) {
	case 0: in = { echo(f) }; break;
	case 1: in = { expr(f) }; break;
	case 2: if (args.empty()) throw Prune{}; in = { echo(listlit(args)) }; break;
	case 3: if (args.empty()) throw Prune{}; in = { fndecl("r", {}, { let("w", I(3)), ret(args) }), echo(call(var("sh"), { call(var("r"), {}) })), echo(call(var("r"), {})) }; break;
	case 4: { if (args.empty()) throw Prune{}; vector<LVal> l; vector<E> vs; int k = (int)args.size() + (int)ch.choose(3); if (k > 4 || k < 2) throw Prune{}; for (int i = 0; i < k; i++) { l.push_back(lv(i == 1 ? 'c' : 'l', "t" + std::to_string(i))); vs.push_back(var("t" + std::to_string(i))); } in = { multi(l, args), echo(listlit(vs)) }; break; }
	case 5: { if (args.empty()) throw Prune{}; int k = (int)args.size() + (int)ch.choose(2); if (k < 2) throw Prune{};
		in = { let("p", I(0)), let("q", listlit({ I(0), I(0) })), let("r", I(0)) };
		vector<LVal> l = { lv('v', "p"), LVal{ 'i', "", var("q"), I(1) }, lv('v', "r") };
		if (ch.flip()) std::swap(l[0], l[1]);
		l.resize((size_t)std::min(k, 3)); if (args.size() > l.size()) throw Prune{};
		in.push_back(multi(l, args)); in.push_back(echo(listlit({ var("p"), var("q"), var("r") }))); break; }
	case 6: if (args.size() != 2) throw Prune{}; in = { let("x", bin("~", args[0], args[1])), echo(var("x")), echo(interp({ "<", "|", ">" }, args)) }; break;
	case 7: if (args.size() != 2) throw Prune{}; in = { forin("e", args.size() ? listlit(args) : listlit({}), { echo(var("e")) }), iff(args[0], { echo(Sx("yes")) }, { echo(Sx("no")) }) }; break;
	default: { if (args.empty()) throw Prune{}; in = { let("l", listlit({})), expr(mcall(var("l"), "push", { args[0] })), echo(var("l")), let("t", tablelit({ Sx("k"), args.back() })), echo(var("t")) }; if (args[0]->k == CALL || args[0]->k == MCALL) { vector<E> one = { listlit({ args[0] }) }; in[1] = expr(mcall(var("l"), "push", one)); } break; }
	}
	finish(ch, c, pre, in);
}

// Parameter counts against argument counts, every way to name the function.
void gen_arity(Chooser &ch, Case &c) {
	int np = (int)ch.choose(5), na = (int)ch.choose(6);
	vector<string> ps; vector<E> as, show;
	for (int i = 0; i < np; i++) { ps.push_back("p" + std::to_string(i)); show.push_back(var(ps.back())); }
	for (int i = 0; i < na; i++) as.push_back(I(10 + i));
	bool lastmulti = ch.flip();
	if (lastmulti) { if (!na) throw Prune{}; as.back() = call(var("g3"), { I(7) }); }
	Block pre = { fndecl("g3", { "a" }, { ret({ var("a"), bin("+", var("a"), I(200)), bin("+", var("a"), I(300)) }) }) };
	uint32_t rk = ch.choose(4);
	Block body = { let("l0", listlit(show)), echo(var("l0")) };
	if (np) body.insert(body.begin() + 1, assign(ps[0], I(-1)));
	if (np) body.push_back(echo(var(ps[0])));
	if (rk == 0) ; else if (rk == 1) body.push_back(ret({ var("l0") })); else if (rk == 2) body.push_back(ret({ var("l0"), I(5) }));
	else body.push_back(iff(bin("==", un("len", var("l0")), I(2)), { ret({ I(2) }) }, { ret({ I(3), I(4) }) }));
	uint32_t form = ch.choose(5);
	Block in;
	E cl;
	if (form == 0) { pre.push_back(fndecl("f", ps, body)); cl = call(var("f"), as); }
	else if (form == 1) { in.push_back(let("f", fnlit(ps, body))); cl = call(var("f"), as); }
	else if (form == 2) { cl = call(fnlit(ps, body), as); }
	else if (form == 3) { in.push_back(let("cap", I(1))); body.insert(body.begin(), aug("cap", "+", I(1))); in.push_back(let("f", fnlit(ps, body))); cl = call(var("f"), as); }
	else { in.push_back(let("fs", listlit({ fnlit(ps, body) }))); cl = call(index(var("fs"), I(0)), as); }
	in.push_back(let("x", cl));
	in.push_back(echo(var("x")));
	in.push_back(multi({ { 'l', "y", nullptr, nullptr }, { 'l', "z", nullptr, nullptr } }, { cl }));
	in.push_back(echo(listlit({ var("y"), var("z") })));
	if (form == 3) in.push_back(echo(var("cap")));
	finish(ch, c, pre, in);
}

// Calls of calls: every nesting of two argument functions to a depth, with locals around every call.
void gen_deep(Chooser &ch, Case &c, int depth) {
	Block pre = { fndecl("add", { "a", "b" }, { let("s", bin("+", var("a"), var("b"))), ret({ var("s") }) }),
		fndecl("two", { "a", "b" }, { let("s", var("a")), let("t", var("b")), ret({ var("t"), var("s") }) }),
		fndecl("ap", { "f", "a", "b" }, { let("s", I(1)), ret({ call(var("f"), { var("a"), var("b") }) }) }) };
	std::function<E(int)> mk = [&](int d) -> E {
		switch (ch.choose(d > 0 ? 6 : 2)) {
		case 0: return I(3);
		case 1: return var("v");
		case 2: return call(var("add"), { mk(d - 1), mk(d - 1) });
		case 3: return call(var("add"), { call(var("two"), { mk(d - 1), I(1) }) });
		case 4: return call(var("ap"), { var("add"), call(var("two"), { I(2), mk(d - 1) }) });
		default: return call(fnlit({ "k" }, { let("w", var("k")), ret({ bin("*", var("w"), I(2)) }) }), { mk(d - 1) });
		}
	};
	Block in = { let("v", I(5)), let("r", mk(depth)), echo(var("r")) };
	finish(ch, c, pre, in);
}

// Calls on the results of calls: only the outermost one gives all its results.
void gen_chain(Chooser &ch, Case &c, int depth) {
	Block pre = {
		fndecl("p3", { "a" }, { let("s", var("a")), ret({ var("s"), I(71), I(72) }) }),
		fndecl("p1", { "a" }, { ret({ var("a") }) }),
		fndecl("pf", { "a" }, { ret({ var("p3"), var("p1"), I(73) }) }),
		fndecl("sh", { "a", "b", "c", "d" }, { ret({ listlit({ var("a"), var("b"), var("c"), var("d") }) }) }) };
	int uid = 0;
	std::function<E(int)> lst = [&](int n) -> E {           // a list of lists of lists ..., n deep, three elements each
		vector<E> v; for (int i = 0; i < 3; i++) v.push_back(n ? lst(n - 1) : I(++uid));
		return listlit(v);
	};
	std::function<E(int, int)> mk = [&](int d, int n) -> E {
		switch (ch.choose(d > 0 ? 9 : 1)) {
		case 0: return lst(n);
		case 1: return call(var("p3"), { mk(d - 1, n) });
		case 2: return mcall(mk(d - 1, n + 1), "spread", {});
		case 3: return index(mk(d - 1, n + 1), I(0));
		case 4: return call(call(var("pf"), { I(0) }), { mk(d - 1, n) });
		case 5: return call(call(var("pf"), { mk(d - 1, n) }), { I(5) });
		case 6: return paren(mk(d - 1, n));
		case 7: return call(index(mcall(mk(d - 1, n), "spread", {}), I(0)), {});
		default: return mcall(call(var("p3"), { listlit({ var("p3"), mk(d - 1, n) }) }), "spread", {});
		}
	};
	E f = mk(depth, 0);
	Block in;
	auto lv = [](char k, string nm) { return LVal{ k, nm, nullptr, nullptr }; };
	switch (ch.choose(9)) {
	case 0: in = { echo(listlit({ I(8), f })) }; break;
	case 1: in = { echo(listlit({ f, I(8) })) }; break;
	case 2: in = { echo(call(var("sh"), { f })) }; break;
	case 3: in = { echo(call(var("sh"), { f, I(8) })) }; break;
	case 4: in = { fndecl("r", { "q" }, { let("w", I(3)), ret({ f }) }), echo(call(var("sh"), { I(1), call(var("r"), { I(1) }) })) }; break;
	case 5: in = { multi({ lv('l', "x"), lv('l', "y"), lv('l', "z") }, { f }), echo(listlit({ var("x"), var("y"), var("z") })) }; break;
	case 6: in = { let("x", f), echo(var("x")) }; break;
	case 7: in = { expr(f) }; break;
	default: in = { multi({ lv('l', "x"), lv('l', "y"), lv('l', "z") }, { I(1), f }), echo(listlit({ var("x"), var("y"), var("z") })) }; break;
	}
	finish(ch, c, pre, in);
	if (c.out.find("<fn") != string::npos) throw Prune{};                 // how functions print is unspecified
}

Reg r({ "L04", "Every argument list of constants, calls returning none to three results, spreads and nested calls, in nine contexts (statement, echo, list, return, declarations and assignments of several variables, operands, interpolation, loops, methods, tables); every number of parameters against every number of arguments for five ways of naming a function and four ways of returning; every nest of calls of three higher-order functions.",
	{ "A call yields all its results as the last argument, the last returned value and the last value of a multiple assignment, and exactly one anywhere else" },
	[](std::vector<Space> &v, bool th) {
		v.push_back({ "argument lists", "up to " + string(th ? "4" : "3") + " arguments of nesting 1", [th](Chooser &ch, Case &c) { gen_ctx(ch, c, th ? 4 : 3, 1); }, 4 });
		v.push_back({ "flat argument lists", "up to " + string(th ? "5" : "4") + " arguments", [th](Chooser &ch, Case &c) { gen_ctx(ch, c, th ? 5 : 4, 0); }, 4 });
		v.push_back({ "arity", "0 to 4 parameters, 0 to 5 arguments", [](Chooser &ch, Case &c) { gen_arity(ch, c); }, 4 });
		v.push_back({ "calls on results", string("up to ") + (th ? "5" : "4") + " of 8 kinds of call, method call and index on top of each other, 9 contexts", [th](Chooser &ch, Case &c) { gen_chain(ch, c, th ? 5 : 4); }, 4 });
		v.push_back({ "nested calls", "nesting 3", [](Chooser &ch, Case &c) { gen_deep(ch, c, 3); }, 6 });
	} });
}
