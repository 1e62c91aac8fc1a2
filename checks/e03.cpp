// E03: operands are evaluated once, from left to right, and only if they are needed.
#include "ref.hpp"
using namespace mc;
using namespace ref;

namespace {
enum Want { ANY, IDX, LST, STRV, FNV, OBJ };
const vector<string> OPS = { "+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "~", "&&", "||", "??" };
const vector<string> FEWOPS = { "+", "<", "==", "~", "&&", "||", "??", "**" };
const vector<string> UNS = { "-", "!", "+", "^", "len" };

struct G {
	Chooser &ch; int k = 0; int vals; bool change; const vector<string> *ops; bool plain = false;
	E traced(E v) { return call(var("t"), { I(k++), v }); }
	// An operand: it says that it is evaluated. Some change the variable x, some read it.
	E leaf(Want w) {
		if (plain) {   // a variable, or a call that gives another value to every variable
			static const char *NAMES[] = { "va", "vi", "vl", "vs", "vf", "vo" };
			if (ch.flip()) return var(NAMES[w]);
			E v = w == ANY ? I(5) : w == IDX ? I(1) : w == LST ? listlit({ I(6), I(7) }) : w == STRV ? Sx("r") : w == FNV ? var("g") : var("o");
			return call(var("change"), { I(k++), v });
		}
		switch (w) {
		case ANY: {
			uint32_t c = ch.choose((uint32_t)vals + (change ? 2 : 0));
			if (c == (uint32_t)vals) return var("x");
			if (c == (uint32_t)vals + 1) return call(var("s"), { I(k++) });
			static const vector<Val> V = { vint(2), vbool(false), vundef(), vflt(0.5), vstr("ab") };
			return traced(lit(V[c]));
		}
		case IDX: { uint32_t c = ch.choose(change ? 4 : 3); if (c == 3) return call(var("s0"), { I(k++) }); return traced(c == 0 ? I(1) : c == 1 ? I(7) : lit(vundef())); }
		case LST: { uint32_t c = ch.choose(3); return traced(c == 0 ? listlit({ I(4), I(5) }) : c == 1 ? Sx("pq") : I(6)); }
		case STRV: return traced(Sx("s"));
		case FNV: return traced(ch.flip() ? var("g") : lit(vundef()));
		case OBJ: return traced(ch.flip() ? var("o") : I(3));
		}
		return nullptr;
	}
	// A tree of at most n operations, all of them used.
	int left = 0;
	E tree(int n, Want w) {
		if (n == 0) return leaf(w);
		// n operations: one here, the rest divided among the operands
		uint32_t kind = ch.choose(15);
		auto two = [&](int m) { int a = (int)ch.choose((uint32_t)m + 1); return std::make_pair(a, m - a); };
		auto three = [&](int m) { int a = (int)ch.choose((uint32_t)m + 1); int b = (int)ch.choose((uint32_t)(m - a) + 1); return std::make_tuple(a, b, m - a - b); };
		int m = n - 1;
		switch (kind) {
		case 0: { auto op = ch.pick(*ops); auto [a, b] = two(m); E l = tree(a, ANY), r = tree(b, ANY); return bin(op, l, r); }
		case 1: { auto op = ch.pick(UNS); return un(op, tree(m, op == "len" ? LST : ANY)); }
		case 2: { auto [a, b, c] = three(m); E x = tree(a, ANY), y = tree(b, ANY), z = tree(c, ANY); return tern(x, y, z); }
		case 3: { auto [a, b] = two(m); E x = tree(a, LST), y = tree(b, IDX); return index(x, y); }
		case 4: { auto [a, b, c] = three(m); E x = tree(a, LST); E y = (b || ch.flip()) ? tree(b, IDX) : nullptr; E z = (c || ch.flip()) ? tree(c, IDX) : nullptr; return slice(x, y, z); }
		case 5: return field(tree(m, OBJ), "f");
		case 6: { auto [a, b, c] = three(m); E x = tree(a, FNV), y = tree(b, ANY), z = tree(c, ANY); return call(x, { y, z }); }
		case 7: { auto [a, b, c] = three(m); E x = tree(a, OBJ), y = tree(b, ANY), z = tree(c, ANY); return mcall(x, "m", { y, z }); }
		case 8: { auto [a, b, c] = three(m); E x = tree(a, ANY), y = tree(b, ANY), z = tree(c, ANY); return listlit({ x, y, z }); }
		case 9: { auto [a, b] = two(m); E x = tree(a, STRV), y = tree(b, ANY), z = tree(0, IDX), u = tree(0, ANY); return tablelit({ x, y, z, u }); }
		case 10: { auto [a, b] = two(m); E x = tree(a, ANY), y = tree(b, ANY); return interp({ "<", ",", ">" }, { x, y }); }
		case 11: { auto [a, b, c] = three(m); bool cond = c || ch.flip(); E coll = tree(a, LST); E x = tree(b, ANY); E y = cond ? tree(c, ANY) : nullptr; return listcomp(x, "q", coll, y); }
		case 12: { auto [a, b, c] = three(m); bool cond = c || ch.flip(); E coll = tree(a, LST); E key = var("q"); if (ch.flip()) key = call(var("t"), { I(k++), key }); E x = tree(b, ANY); E y = cond ? tree(c, ANY) : nullptr; return tablecomp(key, x, "q", coll, y); }
		case 13: { auto [a, b] = two(m); E x = tree(a, ANY), y = tree(b, ANY); return call(paren(fnlit({ "p", "q" }, { echo(var("p")), ret({ var("q") }) })), { x, y }); }
		default: { E body = tree(m, ANY); return call(paren(fnlit({}, { ret({ body }) })), {}); }
		}
	}
};
Block prelude() {
	Block b;
	b.push_back(let("x", I(1)));
	b.push_back(fndecl("t", { "k", "v" }, { echo(var("k")), ret({ var("v") }) }));
	b.push_back(fndecl("s", { "k" }, { aug("x", "+", I(10)), echo(bin("~", Sx("s"), var("k"))), ret({ var("x") }) }));
	b.push_back(fndecl("s0", { "k" }, { aug("x", "+", I(10)), echo(bin("~", Sx("s"), var("k"))), ret({ I(0) }) }));
	b.push_back(fndecl("g", { "a", "b" }, { echo(listlit({ Sx("g"), var("a"), var("b") })), ret({ var("b") }) }));
	b.push_back(let("o", tablelit({ Sx("f"), I(9), Sx("m"), fnlit({ "me", "a", "b" }, { echo(listlit({ Sx("m"), var("a"), var("b") })), ret({ var("a") }) }) })));
	return b;
}
Block plains() {
	Block b;
	b.push_back(let("va", I(2))); b.push_back(let("vi", I(1))); b.push_back(let("vl", listlit({ I(4), I(5) }))); b.push_back(let("vs", Sx("s")));
	b.push_back(fndecl("g2", { "a", "b" }, { echo(listlit({ Sx("g2"), var("a"), var("b") })), ret({ var("a") }) }));
	b.push_back(let("vf", var("g")));
	b.push_back(let("o2", tablelit({ Sx("f"), I(8), Sx("m"), fnlit({ "me", "a", "b" }, { echo(listlit({ Sx("m2"), var("a"), var("b") })), ret({ var("b") }) }) })));
	b.push_back(let("vo", var("o")));
	b.push_back(fndecl("change", { "k", "v" }, { echo(bin("~", Sx("c"), var("k"))), assign("va", bin("+", var("va"), I(3))), assign("vi", bin("-", I(1), var("vi"))),
		assign("vl", listlit({ var("k"), I(9) })), assign("vs", bin("~", var("vs"), Sx("z"))), assign("vf", var("g2")), assign("vo", var("o2")), ret({ var("v") }) }));
	return b;
}
const vector<string> CTX = { "echo", "let", "assign", "return", "if", "elseif", "while", "for condition", "for in", "match", "guard", "assert", "statement", "argument", "element store", "element of target", "several targets", "several targets of elements", "closure", "op=", "element op=", "return of several", "for steps" };
void wrap(G &g, Block &b, const string &c, const std::function<E(Want)> &mk) {
	auto done = [&](E e) { b.push_back(echo(e)); };
	auto tr = [&](E v) { return g.traced(v); };
	if (c == "echo") done(mk(ANY));
	else if (c == "let") { b.push_back(let("v", mk(ANY))); done(listlit({ var("v"), var("x") })); }
	else if (c == "assign") { b.push_back(assign("x", mk(ANY))); done(listlit({ var("x") })); }
	else if (c == "return") { b.push_back(fndecl("h", {}, { ret({ mk(ANY) }) })); done(listlit({ call(var("h"), {}), var("x") })); }
	else if (c == "if") { b.push_back(iff(mk(ANY), { echo(Sx("yes")) }, { echo(Sx("no")) })); done(var("x")); }
	else if (c == "elseif") {
		E e1 = tr(lit(vbool(g.ch.flip()))); auto ei = iff(mk(ANY), { echo(Sx("second")) }, { echo(Sx("third")) }); ei->isconst = true;
		b.push_back(iff(e1, { echo(Sx("first")) }, { ei }));
	}
	else if (c == "while") { b.push_back(let("n", I(0))); E e = mk(ANY); b.push_back(whil(bin("&&", bin("<", var("n"), I(2)), e), { aug("n", "+", I(1)), echo(Sx("body")) })); done(var("x")); }
	else if (c == "for condition") { E e = mk(ANY); b.push_back(forc(let("n", tr(I(0))), bin("&&", bin("<", var("n"), I(2)), e), aug("n", "+", tr(I(1))), { echo(var("n")) })); done(var("x")); }
	else if (c == "for steps") { E e = g.leaf(ANY), f = mk(ANY); b.push_back(let("z", I(0))); b.push_back(forc(let("n", e), bin("<", var("z"), I(2)), assign("n", f), { echo(listlit({ var("n") })), aug("z", "+", I(1)) })); }
	else if (c == "for in") { b.push_back(forin("q", mk(LST), { echo(var("q")) })); done(var("x")); }
	else if (c == "match") { E e = mk(ANY); b.push_back(match(e, { Arm{ plit(vint(2)), nullptr, { echo(Sx("two")) } }, Arm{ plit(vundef()), nullptr, { echo(Sx("undef")) } }, Arm{ plet("y"), nullptr, { echo(listlit({ var("y") })) } } })); }
	else if (c == "guard") { E s = tr(I(2)); E e = mk(ANY); b.push_back(match(s, { Arm{ plit(vint(3)), tr(I(1)), { echo(Sx("wrong")) } }, Arm{ plit(vint(2)), e, { echo(Sx("first")) } }, Arm{ pany(), nullptr, { echo(Sx("second")) } } })); }
	else if (c == "assert") { b.push_back(asrt(mk(ANY))); done(var("x")); }
	else if (c == "statement") { b.push_back(expr(mk(ANY))); done(var("x")); }
	else if (c == "argument") { E a = mk(ANY); E z = g.leaf(ANY); b.push_back(expr(call(var("g"), { a, paren(z) }))); done(var("x")); }
	else if (c == "element store") { b.push_back(let("l", listlit({ I(1), I(2) }))); E l = tr(var("l")), k = g.leaf(IDX); b.push_back(setidx(l, k, mk(ANY))); done(listlit({ var("l"), var("x") })); }
	else if (c == "element of target") { b.push_back(let("l", listlit({ I(1), I(2) }))); E l = mk(LST), k = tr(I(1)); b.push_back(setidx(paren(l), k, g.leaf(ANY))); done(var("x")); }
	else if (c == "several targets") { E a = mk(ANY), z = g.leaf(ANY); b.push_back(let("v", I(0))); b.push_back(multi({ { 'v', "x", nullptr, nullptr }, { 'v', "v", nullptr, nullptr } }, { a, paren(z) })); done(listlit({ var("x"), var("v") })); }
	else if (c == "several targets of elements") { b.push_back(let("l", listlit({ I(1), I(2) }))); E a = mk(ANY), z = g.leaf(ANY); E l1 = tr(var("l")), k1 = tr(I(0)); E l2 = tr(var("l")), k2 = g.leaf(IDX); b.push_back(multi({ { 'i', "", l1, k1 }, { 'i', "", l2, k2 } }, { a, paren(z) })); done(listlit({ var("l"), var("x") })); }
	else if (c == "closure") { b.push_back(let("h", fnlit({ "y" }, { echo(Sx("in")), ret({ mk(ANY) }) }))); E a = g.leaf(ANY); done(listlit({ call(var("h"), { a }), var("x") })); }
	else if (c == "op=") { auto op = g.ch.pick(*g.ops); if (op[0] == '=' || op[0] == '!' || op == "<" || op == "<=" || op == ">" || op == ">=") throw Prune{}; b.push_back(let("v", lit(g.ch.pick(vector<Val>{ vint(3), vbool(false), vundef() })))); if (g.ch.flip()) { b.push_back(aug("x", op, mk(ANY))); done(listlit({ var("x") })); } else { b.push_back(aug("v", op, mk(ANY))); done(listlit({ var("v"), var("x") })); } }
	else if (c == "element op=") { b.push_back(let("l", listlit({ I(1), I(2) }))); auto s = ref::mk(AUGIDX); s->op = g.ch.pick(vector<string>{ "+", "*", "-", "|" }); s->e = { var("l"), I(1), mk(ANY) }; b.push_back(s); done(listlit({ var("l"), var("x") })); }
	else if (c == "return of several") { E a = mk(ANY), z = g.leaf(ANY); b.push_back(fndecl("h", {}, { ret({ a, paren(z) }) })); b.push_back(multi({ { 'l', "p", nullptr, nullptr }, { 'l', "q", nullptr, nullptr } }, { call(var("h"), {}) })); done(listlit({ var("p"), var("q"), var("x") })); }
	else abort();
}
// Operands that are nothing but variables, which operands after or before them give other values.
void gen_plain(Chooser &ch, Case &c, int n, bool th) {
	static const vector<string> MORE = { "store in var[var]", "store in (a, b)[var]", "store in var.f", "store in tree[var]", "two stores", "store and variable" };
	static const vector<string> FEW = { "-", "~", "&&" };
	G g{ ch, 1, 1, false, n > 1 && !th ? &FEW : &OPS, true };
	Block b = prelude(), t = plains();
	uint32_t cx = ch.choose((uint32_t)(MORE.size() + (n > 1 ? 2 : CTX.size())));
	auto mk = [&](Want w) { return g.tree(n, w); };
	if (cx >= MORE.size()) {
		string name = n > 1 ? vector<string>{ "echo", "argument" }[cx - MORE.size()] : CTX[cx - MORE.size()];
		wrap(g, t, name, mk);
	}
	else if (MORE[cx] == "store in var[var]") t.push_back(setidx(var("vl"), var("vi"), mk(ANY)));
	else if (MORE[cx] == "store in (a, b)[var]") { E i = g.leaf(IDX); t.push_back(setidx(paren(listlit({ var("vl"), I(1) })), i, mk(ANY))); }
	else if (MORE[cx] == "store in var.f") t.push_back(setidx(var("vo"), Sx("f"), mk(ANY)));
	else if (MORE[cx] == "store in tree[var]") { E l = mk(LST), i = g.leaf(IDX); t.push_back(setidx(paren(l), i, g.leaf(ANY))); }
	else if (MORE[cx] == "two stores") { E a = mk(ANY), z = g.leaf(ANY), i = g.leaf(IDX); t.push_back(multi({ { 'i', "", var("vl"), var("vi") }, { 'i', "", var("vl"), i } }, { a, paren(z) })); }
	else { E a = mk(ANY), z = g.leaf(ANY); t.push_back(multi({ { 'v', "vi", nullptr, nullptr }, { 'i', "", var("vl"), var("vi") } }, { a, paren(z) })); }
	for (auto n : { "va", "vi", "vl", "vs" }) t.push_back(echo(listlit({ var(n) })));
	t.push_back(echo(index(var("vo"), Sx("f"))));
	if (ch.flip()) { t.push_back(ret({ Sx("end") })); b.push_back(fndecl("main", {}, t)); b.push_back(echo(call(var("main"), {}))); }
	else b.insert(b.end(), t.begin(), t.end());
	fill(c, b);
	c.line = -1;
	c.nolibs = true;
}
void gen(Chooser &ch, Case &c, int n, int vals, bool change, const vector<string> &ops, const vector<string> &ctx, bool infn) {
	G g{ ch, 1, vals, change, &ops };
	Block b = prelude(), t;
	string cx = ch.pick(ctx);
	wrap(g, t, cx, [&](Want w) { return g.tree(n, w); });
	if (infn && ch.flip()) { t.push_back(ret({ Sx("end") })); b.push_back(fndecl("main", {}, t)); b.push_back(echo(call(var("main"), {}))); }
	else b.insert(b.end(), t.begin(), t.end());
	fill(c, b);
	c.line = -1;
	c.nolibs = true;
}
Reg reg({ "E03",
	"every tree of operations within the bound over operands that report when they are evaluated, change a variable the others read, and take every truth value, in every place an expression can stand; the trace and the outcome are compared with the reference evaluator's",
	{ "operands are evaluated from left to right; &&, ||, ?? and ?: evaluate only what they need; in an assignment the value of the right side is computed before the targets of several, after the collection and key of one element" },
	[](vector<Space> &v, bool th) {
		static const vector<string> FEW3 = { "+", "&&", "??" };
		static const vector<string> FEWCTX = { "echo", "if", "argument", "return" };
		v.push_back({ "one operation", string("25 operators and 14 other forms, operands of ") + (th ? "5 values and 2 effects, 23 places, in and out of a function" : "2 values and 2 effects, 23 places"), [th](Chooser &ch, Case &c) { gen(ch, c, 1, th ? 5 : 2, true, OPS, CTX, th); }, 3 });
		v.push_back({ "two operations", string("8 operators and 14 other forms, operands of ") + (th ? "3" : "2") + " values and 2 effects, " + (th ? "4 places" : "echo"), [th](Chooser &ch, Case &c) { gen(ch, c, 2, th ? 3 : 2, true, FEWOPS, th ? FEWCTX : vector<string>{ "echo" }, false); }, 3 });
		v.push_back({ "two operations in all places", string(th ? "8" : "3") + " operators and 14 other forms, operands of 1 value, 23 places", [th](Chooser &ch, Case &c) { gen(ch, c, 2, 1, false, th ? FEWOPS : FEW3, CTX, false); }, 3 });
		v.push_back({ "variables changed by other operands", "25 operators and 14 other forms, 6 stores and 23 other places, operands that are variables or change them all, in and out of a function", [th](Chooser &ch, Case &c) { gen_plain(ch, c, 1, th); }, 3 });
		v.push_back({ "variables changed by other operands of two operations", th ? "25 operators and 14 other forms, 6 stores and 2 other places" : "3 operators and 14 other forms, 6 stores and 2 other places", [th](Chooser &ch, Case &c) { gen_plain(ch, c, 2, th); }, 3 });
		if (th) v.push_back({ "three operations", "8 operators, operands of 1 value", [](Chooser &ch, Case &c) { gen(ch, c, 3, 1, false, { "+", "&&", "||", "??" }, { "echo" }, false); }, 4 });
	} });
}
