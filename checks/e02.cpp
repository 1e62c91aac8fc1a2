// E02: operators bind as documented.
#include "ref.hpp"
using namespace mc;
using namespace ref;

namespace {
const vector<string> ALL = { "??", "||", "&&", "==", "!=", "===", "!==", "<", "<=", ">", ">=", "~", "|", "^", "&", "&^", "<<", ">>", "+", "-", "*", "/", "//", "%", "**" };
const vector<std::pair<string, string>> OVER = { {"+", "__add"}, {"-", "__sub"}, {"*", "__mul"}, {"/", "__div"}, {"//", "__idiv"}, {"%", "__mod"}, {"**", "__pow"},
	{"|", "__bor"}, {"^", "__bxor"}, {"&", "__band"}, {"&^", "__bandnot"}, {"<<", "__bshl"}, {">>", "__bshr"}, {"<", "__lt"}, {"<=", "__le"}, {">", "__gt"}, {">=", "__ge"}, {"==", "__eq"} };
const vector<std::pair<string, string>> OVERU = { {"-", "__neg"}, {"+", "__pos"}, {"^", "__bnot"}, {"len", "__len"} };

struct Tok { vector<string> un; E atom; };             // operand with its prefix operators
struct Parse {                                          // the documented grammar, over a flat sequence
	const vector<Tok> &x; const vector<string> &ops;
	size_t i = 0, u = 0;                                // next operand, next prefix operator of it
	int lev(const string &o) { auto e = bin(o, nullptr, nullptr); return level(*e); }
	E prefix() {
		if (u < x[i].un.size()) { string o = x[i].un[u++]; return un(o, parse(14, true)); }
		u = 0;
		return x[i++].atom;
	}
	E parse(int min, bool) {
		E l = prefix();
		while (i - 1 < ops.size()) {
			const string &o = ops[i - 1];
			int v = lev(o);
			if (v < min) break;
			E r = parse(o == "**" ? 14 : rightassoc(v) ? v : v + 1, false);
			l = bin(o, l, r);
		}
		return l;
	}
	E all() { return parse(2, false); }
};
string flat(const vector<Tok> &x, const vector<string> &ops) {
	string s; Render r;
	for (size_t i = 0; i < x.size(); i++) {
		if (i) s += " " + ops[i - 1] + " ";
		for (auto &u : x[i].un) s += u + " ";
		s += r.sub(x[i].atom, 16);
	}
	return s;
}
string shape(const E &e) {
	if (e->k == VAR) return e->name;
	if (e->k == UN) return "(" + e->name + shape(e->c[0]) + ")";
	return "(" + shape(e->c[0]) + e->name + shape(e->c[1]) + ")";
}
string over_prelude() {
	string t = "const M = {};\nfn N(s) { return mt.set({'s': s}, M); };\n";
	for (auto &o : OVER) t += "M." + o.second + " = fn(a, b) { return N('(' ~ a.s ~ '" + o.first + "' ~ b.s ~ ')'); };\n";
	for (auto &o : OVERU) t += "M." + o.second + " = fn(a) { return N('(" + o.first + "' ~ a.s ~ ')'); };\n";
	return t;
}
// The parse, spelled out by overloads that build its text.
void gen_shape(Chooser &ch, Case &c, int n, int nuns) {
	static const string pre = over_prelude();
	vector<string> ops; vector<Tok> x;
	string decl;
	for (int i = 0; i < n; i++) ops.push_back(OVER[ch.choose((uint32_t)OVER.size())].first);
	for (int i = 0; i <= n; i++) {
		string v(1, char('a' + i));
		x.push_back({ {}, var(v) });
		decl += "let " + v + " = N('" + v + "'); ";
	}
	int uns = (int)ch.choose((uint32_t)nuns + 1);
	int at = -1;
	for (int k = 0; k < uns; k++) { int p = (int)ch.choose((uint32_t)n + 1); if (p < at) throw Prune{}; at = p; x[(size_t)p].un.push_back(OVERU[ch.choose(4)].first); }
	Parse p{x, ops};
	E e = p.all();
	c.src = pre + decl + "\necho (" + flat(x, ops) + ").s;\n";
	c.out = shape(e) + "\n";
	c.transitions = (uint64_t)(n + uns);
	c.states.push_back(fp(flat(x, ops)));
}
// The value, for the operators that cannot be overloaded.
void gen_value(Chooser &ch, Case &c, int n, const vector<vector<Val>> &vals, bool uns) {
	vector<string> ops; vector<Tok> x;
	Block b;
	for (int i = 0; i < n; i++) ops.push_back(ch.pick(ALL));
	for (int i = 0; i <= n; i++) {
		string v(1, char('a' + i));
		x.push_back({ {}, var(v) });
	}
	if (uns) x[ch.choose((uint32_t)n + 1)].un.push_back(ch.flip() ? "!" : "-");
	auto &V = vals[ch.choose((uint32_t)vals.size())];
	for (int i = 0; i <= n; i++) { string v(1, char('a' + i)); b.push_back(let(v, lit(V[ch.choose((uint32_t)V.size())]))); }
	Parse p{x, ops};
	E e = p.all();
	string f = flat(x, ops);
	bool lits = false;
	auto raw = make_shared<Expr>(); raw->k = FOREIGN; raw->name = f;
	(void)lits;
	// evaluate the parse, run the flat text
	b.push_back(echo(e));
	Render r; r.block(b, 0);
	Result res = evaluate(b, &c);
	Block b2(b.begin(), b.end() - 1);
	b2.push_back(echo(raw));
	Render r2; r2.block(b2, 0);
	c.src = r2.out; c.status = res.status; c.out = res.out; c.line = res.status ? res.line : -1;
	c.nolibs = true;
	c.states = { fp(c.src) };
}
// Operands of every form: literals, names, calls, elements, parentheses.
void gen_forms(Chooser &ch, Case &c, int n, size_t forms) {
	vector<string> ops; vector<Tok> x;
	for (int i = 0; i < n; i++) ops.push_back(ch.pick(ALL));
	Block b;
	b.push_back(let("a", I(3)));
	b.push_back(let("l", listlit({ I(4), lit(vflt(0.5)) })));
	b.push_back(let("f", fnlit({"p"}, { ret({ bin("-", var("p"), I(3)) }) })));
	const vector<E> F = { lit(vflt(2.0)), var("a"), I(5), index(var("l"), I(0)), call(var("f"), { I(4) }), Sx("7"), lit(vbool(true)), paren(bin("-", var("a"), I(1))), lit(vundef()) };
	for (int i = 0; i <= n; i++) x.push_back({ {}, F[ch.choose((uint32_t)forms)] });
	if (n == 1) for (int i = 0; i <= n; i++) { uint32_t u = ch.choose(5); if (u) x[(size_t)i].un.push_back(vector<string>{ "-", "!", "+", "^" }[u - 1]); }
	Parse p{x, ops};
	E e = p.all();
	auto raw = make_shared<Expr>(); raw->k = FOREIGN; raw->name = flat(x, ops);
	b.push_back(echo(e));
	Render r1; r1.block(b, 0);
	Result res = evaluate(b, &c);
	b.back() = echo(raw);
	Render r; r.block(b, 0);
	c.src = r.out; c.status = res.status; c.out = res.out; c.line = res.status ? res.line : -1;
	c.nolibs = true;
	c.states = { fp(c.src) };
}
// Conditional expressions around and inside operators; prefix against postfix.
void gen_misc(Chooser &ch, Case &c) {
	uint32_t k = ch.choose(6);
	Block b;
	auto V = [&](const string &n, const vector<Val> &vs) { b.push_back(let(n, lit(ch.pick(vs)))); };
	static const vector<Val> T = { vbool(false), vint(3), vundef() };
	string f; E e;
	if (k == 0) {                                        // a op b ? c op d : e op f
		string o1 = ch.pick(ALL), o2 = ch.pick(ALL), o3 = ch.pick(ALL);
		V("a", T); V("b", {vint(1), vbool(false)});
		b.push_back(let("c", I(5))); b.push_back(let("d", I(2)));
		f = "a " + o1 + " b ? c " + o2 + " d : d " + o3 + " c";
		e = tern(bin(o1, var("a"), var("b")), bin(o2, var("c"), var("d")), bin(o3, var("d"), var("c")));
	} else if (k == 1) {                                 // chains of conditionals
		V("a", T); V("b", T); V("c", T);
		uint32_t s = ch.choose(4);
		if (s == 0) { f = "a ? 1 : b ? 2 : c ? 3 : 4"; e = tern(var("a"), I(1), tern(var("b"), I(2), tern(var("c"), I(3), I(4)))); }
		if (s == 1) { f = "a ? b ? 1 : 2 : 3"; e = tern(var("a"), tern(var("b"), I(1), I(2)), I(3)); }
		if (s == 2) { f = "a ? b ? c ? 1 : 2 : 3 : 4"; e = tern(var("a"), tern(var("b"), tern(var("c"), I(1), I(2)), I(3)), I(4)); }
		if (s == 3) { f = "a ?? b ? c || a : b && c"; e = tern(bin("??", var("a"), var("b")), bin("||", var("c"), var("a")), bin("&&", var("b"), var("c"))); }
	} else if (k == 2) {                                 // prefix operator, postfix operator
		static const vector<string> U = { "-", "+", "^", "!", "len" };
		string u = ch.pick(U);
		uint32_t post = ch.choose(6);
		b.push_back(let("l", listlit({ I(4), listlit({ I(5), I(6) }), Sx("xyz") })));
		b.push_back(let("t", tablelit({ Sx("kk"), I(9), Sx("ff"), fnlit({"p"}, { ret({ I(8) }) }) })));
		b.push_back(let("f", fnlit({}, { ret({ var("l") }) })));
		E x;
		switch (post) {
		case 0: f = "l[0]"; x = index(var("l"), I(0)); break;
		case 1: f = "t.kk"; x = field(var("t"), "kk"); break;
		case 2: f = "f()[1]"; x = index(call(var("f"), {}), I(1)); break;
		case 3: f = "t->ff(1)"; x = mcall(var("t"), "ff", { I(1) }); break;
		case 4: f = "l[1][0]"; x = index(index(var("l"), I(1)), I(0)); break;
		default: f = "l[2][0:2]"; x = slice(index(var("l"), I(2)), I(0), I(2)); break;
		}
		uint32_t more = ch.choose(4);
		if (more == 0) { e = un(u, x); f = u + " " + f; }
		else if (more == 1) { e = un(u, bin("**", x, I(2))); f = u + " " + f + " ** 2"; }
		else if (more == 2) { e = bin("**", I(2), un(u, x)); f = "2 ** " + u + " " + f; }
		else { e = bin("*", un(u, x), I(2)); f = u + " " + f + " * 2"; }
	} else if (k == 3) {                                 // prefix chains
		static const vector<string> U = { "-", "+", "^", "!" };
		string u1 = ch.pick(U), u2 = ch.pick(U), u3 = ch.pick(U);
		V("a", { vint(0), vint(1), vint(6), vbool(false) });
		f = u1 + " " + u2 + " " + u3 + " a"; e = un(u1, un(u2, un(u3, var("a"))));
	} else if (k == 4) {                                 // a conditional as last operand ends the expression
		string o = ch.pick(ALL);
		V("a", T); V("b", T);
		f = "a " + o + " (b ? 1 : 2)"; e = bin(o, var("a"), tern(var("b"), I(1), I(2)));
		if (ch.flip()) { f = "(a ? 1 : 2) " + o + " b"; e = bin(o, tern(var("a"), I(1), I(2)), var("b")); }
	} else {                                             // method calls and calls bind to the nearest operand
		string o = ch.pick(ALL);
		b.push_back(let("f", fnlit({"p"}, { ret({ bin("+", var("p"), I(1)) }) })));
		f = "f(1) " + o + " f(2) " + o + " f(3)";
		vector<Tok> x = { { {}, call(var("f"), { I(1) }) }, { {}, call(var("f"), { I(2) }) }, { {}, call(var("f"), { I(3) }) } };
		vector<string> ops = { o, o };
		Parse p{x, ops};
		e = p.all();
	}
	b.push_back(echo(e));
	Render r; r.block(b, 0);
	Result res = evaluate(b, &c);
	auto raw = make_shared<Expr>(); raw->k = FOREIGN; raw->name = f;
	Block b2(b.begin(), b.end() - 1);
	b2.push_back(echo(raw));
	Render r2; r2.block(b2, 0);
	c.src = r2.out; c.status = res.status; c.out = res.out; c.line = res.status ? res.line : -1;
	c.nolibs = true;
	c.states = { fp(c.src) };
}
Reg reg({ "E02",
	"every unparenthesised sequence of operators: the parse is spelled out by overloads that build its text, or shown by the value under every choice of operands; conditionals, prefix and postfix combinations",
	{ "the documented precedence: ?:, ??, ||, &&, equality, ordering, ~, |, ^, & and &^, shifts, + -, * / // %, prefix, **, postfix; ??, ||, &&, ~ and ** group from the right" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "shapes", "3 operators of 18, up to " + string(th ? "2" : "1") + " prefix operators", [th](Chooser &ch, Case &c) { gen_shape(ch, c, 3, th ? 2 : 1); }, 3 });
		if (th) v.push_back({ "shapes of 4", "4 operators of 18, up to 1 prefix operator", [](Chooser &ch, Case &c) { gen_shape(ch, c, 4, 1); }, 3 });
		v.push_back({ "shapes of 2", "2 operators of 18, up to " + string(th ? "3" : "2") + " prefix operators", [th](Chooser &ch, Case &c) { gen_shape(ch, c, 2, th ? 3 : 2); }, 3 });
		v.push_back({ "values of 3", "3 operators of 25, every choice of 2 values in 3 sets", [th](Chooser &ch, Case &c) { gen_value(ch, c, 3, th ? vector<vector<Val>>{ { vbool(false), vint(2) }, { vundef(), vint(5) }, { vint(3), vint(0) } } : vector<vector<Val>>{ { vbool(false), vint(2) }, { vundef(), vint(5) } }, false); }, 3 });
		v.push_back({ "values of 2, prefix", "2 operators of 25, 1 prefix operator, every choice of 5 values", [](Chooser &ch, Case &c) { gen_value(ch, c, 2, { { vbool(false), vint(2), vundef(), vint(0), vstr("1") } }, true); }, 3 });
		v.push_back({ "operand forms", "2 operators of 25, operands of 9 forms", [](Chooser &ch, Case &c) { gen_forms(ch, c, 2, 9); }, 3 });
		v.push_back({ "operand forms, prefix", "1 operator of 25, operands of 9 forms with up to 1 prefix operator each", [](Chooser &ch, Case &c) { gen_forms(ch, c, 1, 9); }, 2 });
		v.push_back({ "operand forms of 3", string("3 operators of 25, operands of ") + (th ? "4" : "2") + " forms", [th](Chooser &ch, Case &c) { gen_forms(ch, c, 3, th ? 4 : 2); }, 3 });
		v.push_back({ "conditionals, prefix, postfix", "6 families", [](Chooser &ch, Case &c) { gen_misc(ch, c); }, 3 });
	} });
}
