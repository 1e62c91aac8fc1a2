// L03: match selects the first arm that fits and binds what its pattern names.
#include "ref.hpp"
using namespace mc;
using namespace ref;

namespace {
E tolit(const Val &v) {
	if (v.k == LIST) { vector<E> c; for (auto &x : v.l->v) c.push_back(tolit(x)); return listlit(c); }
	if (v.k == TABLE) { vector<E> c; for (auto &p : v.t->kv) { c.push_back(tolit(p.first)); c.push_back(tolit(p.second)); } return tablelit(c); }
	return lit(v);
}
Val T(vector<std::pair<Val, Val>> kv) { Val t = vtable(); for (auto &p : kv) tset(*t.t, p.first, p.second); return t; }
const vector<Val> SC = { vint(1), vint(2), vstr("a"), vundef(), vbool(true), vflt(1.0), vbool(false), vstr(""), vflt(2.5), vint(-3) };
vector<Val> values(bool big) {
	vector<Val> r = SC;
	vector<Val> few = { vint(1), vstr("a"), vundef() };
	r.push_back(vlist({}));
	for (auto &a : few) { r.push_back(vlist({ a })); for (auto &b : few) r.push_back(vlist({ a, b })); }
	r.push_back(vlist({ vint(1), vint(2), vint(3) }));
	r.push_back(vlist({ vlist({ vint(1) }), vint(2) }));
	r.push_back(vlist({ vlist({}) }));
	r.push_back(vlist({ vint(1), vlist({ vint(2), vstr("a") }) }));
	r.push_back(vtable());
	for (auto &a : { vint(1), vstr("a"), vlist({ vint(1) }) }) {
		r.push_back(T({ { vstr("a"), a } }));
		r.push_back(T({ { vint(1), a } }));
		r.push_back(T({ { vstr("a"), a }, { vstr("b"), vint(2) } }));
	}
	r.push_back(T({ { vstr("b"), vint(1) } }));
	r.push_back(T({ { vstr("a"), T({ { vstr("b"), vint(1) } }) } }));
	r.push_back(T({ { vstr("a"), vint(1) }, { vstr("b"), vint(2) }, { vint(3), vint(3) } }));
	r.push_back(vlist({ T({ { vstr("a"), vint(1) } }) }));
	if (big) {
		r.push_back(T({ { vbool(true), vint(1) }, { vflt(1.5), vint(2) } }));
		r.push_back(vlist({ vlist({ vint(1), vint(2) }), vlist({ vint(3), vint(4) }) }));
		r.push_back(vlist({ vint(1), vint(1), vstr("a"), vstr("a") }));
	}
	return r;
}

struct G {
	Chooser &ch;
	int size;
	vector<string> names;                 // bound so far, in order
	bool alts;
	PP binder() { string n = string(1, (char)('x' + names.size())); if (names.size() >= 3) throw Prune{}; names.push_back(n); return ch.flip() ? pconst(n) : plet(n); }
	PP pat(int depth) {
		if (size <= 0) throw Prune{};
		size--;
		switch (ch.choose(depth > 0 ? (alts ? 7 : 6) : 4)) {
		case 0: return pany();
		case 1: return plit(SC[ch.choose(5)]);
		case 2: { static const vector<string> t = { "int", "str", "list", "table", "float", "bool" }; return ptype(t[ch.choose(size > 2 ? 6 : 4)]); }
		case 3: return binder();
		case 4: {
			uint32_t n = ch.choose(3);
			vector<PP> c;
			for (uint32_t i = 0; i < n; i++) c.push_back(pat(depth - 1));
			return plist(c, ch.flip());
		}
		case 5: {
			static const vector<vector<Val>> keys = { {}, { vstr("a") }, { vint(1) }, { vstr("a"), vstr("b") }, { vbool(true), vflt(1.5) } };
			auto &k = ch.pick(keys);
			vector<PP> c;
			for (size_t i = 0; i < k.size(); i++) c.push_back(pat(depth - 1));
			return ptable(k, c, ch.flip());
		}
		default: {                            // alternatives bind the same names
			auto before = names;
			PP a = pat(depth - 1);
			auto after = names;
			vector<string> fresh(after.begin() + (long)before.size(), after.end());
			PP b = other(fresh, a, depth - 1);
			names = after;
			return palt({ a, b });
		}
		}
	}
	static void kinds(const PP &p, std::map<string, PK> &m) { if (p->k == PLET || p->k == PCONST) m[p->name] = p->k; for (auto &c : p->c) kinds(c, m); }
	PP other(const vector<string> &fresh, const PP &a, int depth) {
		std::map<string, PK> m;
		kinds(a, m);
		auto b = [&](const string &n) { return m[n] == PLET ? plet(n) : pconst(n); };
		if (fresh.empty()) {
			switch (ch.choose(4)) {
			case 0: return plit(vint(2));
			case 1: return plit(vundef());
			case 2: return plist({ pany() }, true);
			default: return plit(vstr("a"));
			}
		}
		if (depth <= 0 && fresh.size() > 1) throw Prune{};
		if (fresh.size() == 1) {
			switch (ch.choose(3)) {
			case 0: return plist({ b(fresh[0]) }, ch.flip());
			case 1: return ptable({ vstr("a") }, { b(fresh[0]) }, true);
			default: return b(fresh[0]);
			}
		}
		vector<PP> c;
		for (size_t i = fresh.size(); i--;) c.push_back(b(fresh[i]));
		return plist(c, ch.flip());
	}
};
Block armbody(Chooser &ch, const string &tag, const vector<string> &names, uint32_t style) {
	Block b = { let("t", Sx(tag)), echo(var("t")) };
	for (auto &n : names) b.push_back(echo(var(n)));
	if (style == 1 && !names.empty()) b.push_back(expr(mcall(var("fs"), "push", { fnlit({}, { ret({ listlit({ var(names.back()), var("t") }) }) }) })));
	if (style == 2) b.push_back(iff(bin("==", var("t"), Sx("one")), { let("k", I(1)), expr(mcall(var("fs"), "push", { fnlit({}, { ret({ var("k") }) }) })) }));
	(void)ch;
	return b;
}
void gen(Chooser &ch, Case &c, int size, int depth, bool big, bool alts, bool simple) {
	G g{ ch, size, {}, alts };
	PP p = g.pat(depth);
	static const vector<Val> VB = values(true), VS = values(false);
	const Val &v = ch.pick(big ? VB : VS);
	uint32_t guard = simple ? 0 : ch.choose(4);
	E ge;
	if (guard == 1) ge = lit(vbool(false));
	if (guard == 2) { if (g.names.empty()) throw Prune{}; ge = bin("==", var(g.names.back()), I(1)); if (v.k == LIST || v.k == TABLE) ge = bin("===", var(g.names.back()), I(1)); }
	if (guard == 3) ge = bin("??", var(g.names.empty() ? "z0" : g.names[0]), lit(vbool(true)));
	uint32_t style = simple ? 0 : ch.choose(3);
	vector<Arm> arms = { { p, ge, armbody(ch, "one", g.names, style) } };
	if (!simple && ch.flip()) arms.insert(arms.begin(), Arm{ plist({ plet("m"), pany(), pany() }, false), nullptr, { echo(Sx("three")), echo(var("m")) } });
	uint32_t tail = simple ? 1 : ch.choose(3);
	if (tail == 1) arms.push_back({ pany(), nullptr, { let("o", Sx("other")), echo(var("o")) } });
	if (tail == 2) arms.push_back({ plet("all"), nullptr, { let("o", Sx("other")), echo(var("o")), iff(bin("===", var("all"), I(1)), { echo(var("all")) }) } });
	bool infn = simple ? false : ch.flip();
	Block in = { let("z0", I(9)), match(tolit(v), arms), let("z", I(7)), echo(listlit({ var("z0"), var("z") })) };
	Block prog = { let("fs", listlit({})) };
	if (infn) { prog.push_back(fndecl("f", { "p" }, in)); prog.push_back(expr(call(var("f"), { I(3) }))); prog.push_back(forin("i", listlit({ I(1), I(2) }), { expr(call(var("f"), { var("i") })) })); }
	else prog.insert(prog.end(), in.begin(), in.end());
	prog.push_back(forin("h", var("fs"), { echo(call(var("h"), {})) }));
	fill(c, prog);
}

// Every kind of literal in every place, also where it is passed over, and in programs with few or many constants before it.
void gen_lit(Chooser &ch, Case &c) {
	static const vector<Val> L = { vint(0), vint(1), vint(-1), vint(-3), vint(127), vint(128), vint(-128), vint(1ll << 31), vint((1ll << 53) + 1), vint(INT64_MAX), vint(-INT64_MAX),
		vflt(0.0), vflt(1.0), vflt(-1.5), vflt(2.5), vflt(-1e300), vflt(9007199254740993.0), vstr(""), vstr("a"), vstr("ab"), vstr("nope"), vundef(), vbool(true), vbool(false) };
	uint32_t ctx = ch.choose(10);
	Val l = ch.pick(L), v = ch.pick(L);
	bool many = ch.flip();
	PP p, P = plit(l), no = plit(vstr("nope"));
	Val val = v;
	Val K = vstr("k"), K2 = vstr("l");
	switch (ctx) {
	case 0: p = P; break;
	case 1: p = plist({ P, plet("w") }, ch.flip()); val = vlist({ v, vint(1) }); break;
	case 2: p = ptable({ K }, { P }, ch.flip()); val = T({ { K, v } }); if (v.k == UNDEF) throw Prune{}; break;
	case 3: p = ptable({ l }, { plet("w") }, ch.flip()); if (v.k == UNDEF || l.k == UNDEF) throw Prune{}; val = T({ { v, vint(7) } }); break;
	case 4: p = palt({ P, no }); break;
	case 5: p = palt({ no, P }); break;
	case 6: p = palt({ plist({ no, P }, ch.flip()), plist({ plit(vint(1)), P }, false) }); val = vlist({ vint(1), v }); break;
	case 7: p = palt({ plist({ plist({ P, P }, ch.flip()), no }, ch.flip()), P }); break;
	case 8: if (v.k == UNDEF) throw Prune{}; p = palt({ ptable({ K, K2 }, { no, P }, ch.flip()), ptable({ K, K2 }, { plit(vint(1)), P }, false) }); val = T({ { K, vint(1) }, { K2, v } }); break;
	case 9: if (v.k == UNDEF || l.k == UNDEF) throw Prune{}; p = palt({ ptable({ vstr("gone"), l }, { P, P }, ch.flip()), ptable({ l }, { pany() }, false) }); val = T({ { v, vint(7) } }); break;
	}
	vector<string> names; if (ctx == 1 || ctx == 3) names = { "w" };
	Block arm = { echo(Sx("fits")) };
	for (auto &n : names) arm.push_back(echo(var(n)));
	Block prog;
	if (many) { vector<E> f; for (int i = 0; i < 140; i++) f.push_back(I(100000 + i)); prog.push_back(let("f", listlit(f))); }
	prog.push_back(let("v", tolit(val)));
	prog.push_back(match(var("v"), { { p, nullptr, arm }, { plit(vstr("q")), nullptr, { echo(Sx("q")) } }, { pany(), nullptr, { echo(Sx("other")) } } }));
	prog.push_back(echo(Sx("end")));
	fill(c, prog);
	if (c.status == SYNTAX) throw Prune{};
}

// Jumps out of an arm, and matches inside loops, arms and expressions.
void gen_nest(Chooser &ch, Case &c) {
	static const vector<Val> V = { vint(1), vlist({ vint(1), vint(2) }), vstr("a") };
	uint32_t jump = ch.choose(4);
	Block leaf;
	if (jump == 0) leaf = { brk() };
	else if (jump == 1) leaf = { cont() };
	else if (jump == 2) leaf = { ret({ var("x") }) };
	else leaf = { echo(var("x")) };
	if (ch.flip()) { leaf.insert(leaf.begin(), let("q", I(4))); leaf.insert(leaf.begin() + 1, echo(var("q"))); }
	PP inner = ch.flip() ? plet("x") : plist({ plet("x"), pany() }, ch.flip());
	E g = ch.flip() ? bin("!==", var("x"), I(2)) : nullptr;
	S m = match(var("v"), { { inner, g, leaf }, { pany(), nullptr, { echo(Sx("none")) } } });
	if (ch.flip()) m = match(bin("~", Sx("a"), Sx("")), { { plit(vstr("b")), nullptr, { echo(Sx("b")) } }, { plet("w"), nullptr, { m, echo(var("w")) } } });
	uint32_t lp = ch.choose(3);
	Block body = { let("loc", I(6)), m, echo(var("loc")) };
	E coll = listlit({ tolit(V[ch.choose(3)]), tolit(V[ch.choose(3)]), I(2) });
	Block in;
	if (lp == 0) in = { forin("v", coll, body) };
	else if (lp == 1) { body.insert(body.begin(), let("v", index(var("l"), var("i")))); in = { let("l", coll), forc(let("i", I(0)), bin("<", var("i"), I(3)), aug("i", "+", I(1)), body) }; }
	else { body.insert(body.begin(), let("v", index(var("l"), var("i")))); body.insert(body.begin() + 1, aug("i", "+", I(1))); in = { let("l", coll), let("i", I(0)), whil(bin("<", var("i"), I(3)), body) }; }
	in.push_back(let("z", I(5)));
	in.push_back(echo(var("z")));
	Block prog;
	if (jump == 2 || ch.flip()) prog = { fndecl("f", { "p" }, [&] { Block b = in; b.push_back(ret({ Sx("end") })); return b; }()), echo(call(var("f"), { I(1) })) };
	else prog = in;
	fill(c, prog);
	if (c.status == SYNTAX) throw Prune{};
}

Reg r({ "L03", "Every pattern of a grammar (wildcard, literals, types, let and const bindings, lists and tables, open and closed, nested, alternatives with bindings) against every value of a list of scalars, lists and tables, with and without guard, preceding and following arms, closures over the bindings; every kind of literal in every place, fitting or passed over, among few and many constants; jumps out of arms of matches nested in loops, in functions and in each other.",
	{ "Number literals match numbers that are equal to them, as == does" },
	[](std::vector<Space> &v, bool th) {
		int n = th ? 3 : 2;
		v.push_back({ "patterns", "at most " + std::to_string(n) + " pattern nodes, nesting 2", [n, th](Chooser &ch, Case &c) { gen(ch, c, n, 2, th, true, false); }, 5 });
		v.push_back({ "larger patterns", "at most " + std::to_string(n + 2) + " pattern nodes, nesting 2, plain arms", [n](Chooser &ch, Case &c) { gen(ch, c, n + 2, 2, true, true, true); }, 5 });
		v.push_back({ "literals", "24 literals x 24 values x 10 places x few or many constants", [](Chooser &ch, Case &c) { gen_lit(ch, c); }, 3 });
		v.push_back({ "jumps out of arms", "4 jumps, 3 loops, 2 patterns, guards, nested matches", [](Chooser &ch, Case &c) { gen_nest(ch, c); }, 4 });
	} });
}
