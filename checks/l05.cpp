// L05: operators, indexing and calls dispatch on the left operand's metatable.
#include "ref.hpp"
using namespace mc;
using namespace ref;

namespace {
const vector<std::pair<string, string>> BINOPS = {
	{"+", "__add"}, {"-", "__sub"}, {"*", "__mul"}, {"/", "__div"}, {"//", "__idiv"}, {"%", "__mod"}, {"**", "__pow"},
	{"|", "__bor"}, {"^", "__bxor"}, {"&", "__band"}, {"&^", "__bandnot"}, {"<<", "__bshl"}, {">>", "__bshr"},
	{"<", "__lt"}, {"<=", "__le"}, {">", "__gt"}, {">=", "__ge"}, {"==", "__eq"}, {"!=", "__eq"},
	{"~", "tostr"}, {"===", ""}, {"!==", ""}, {"&&", ""}, {"||", ""}, {"??", ""},
};
// How an overload is defined, and what it answers.
enum How { ABSENT, RET_INT, RET_FALSE, RET_NONE, RET_TWO, NOTCALLABLE, CALLABLE, CFN, NHOW };

struct Obj { string name, decl; Val v; int mt; };    // mt: -1 built in, 0 M, 1 M2, 2 empty
struct World {
	string text;
	vector<Obj> o;
	How how[2];                                       // of the operator under test in M, M2
	string opname, out;
	int line = 1;
};

void header(World &w, const string &overload) {
	auto &t = w.text;
	w.opname = overload;
	t += "let U = undef; let B = true; let I = 3; let F = 2.5; let S = 'a'; let P = [1]; let Q = {'q': 1}; let E = mt.set([2], {});\n";
	t += "const M = {}; const M2 = {};\n";
	t += "let L = mt.set([7, 8], M); let T = mt.set({'k': 9}, M); let K = mt.set([5], M2); let H = mt.set({'h': 1}, M2);\n";
	t += "fn d(x) { if x === L { return 'L'; } elseif x === T { return 'T'; } elseif x === K { return 'K'; } elseif x === H { return 'H'; } elseif x === P { return 'P'; } elseif x === Q { return 'Q'; } elseif x === E { return 'E'; }; return '(' ~ x ~ ')'; };\n";
	t += "const C = mt.set({}, {'__call': fn(a, b) { echo 'call ' ~ d(a) ~ ' ' ~ d(b); return 44; }});\n";
	Val u;
	w.o = { {"U", "", vundef(), -1}, {"B", "", vbool(true), -1}, {"I", "", vint(3), -1}, {"F", "", vflt(2.5), -1}, {"S", "", vstr("a"), -1},
	        {"P", "", vlist({vint(1)}), -1}, {"Q", "", vtable(), -1}, {"L", "", vlist({vint(7), vint(8)}), 0}, {"T", "", vtable(), 0},
	        {"K", "", vlist({vint(5)}), 1}, {"H", "", vtable(), 1}, {"E", "", vlist({vint(2)}), 2} };
	tset(*w.o[6].v.t, vstr("q"), vint(1));
	tset(*w.o[8].v.t, vstr("k"), vint(9));
	tset(*w.o[10].v.t, vstr("h"), vint(1));
}
void define(World &w, int m, How h) {
	w.how[m] = h;
	string M = m ? "M2" : "M", key = M + "['" + w.opname + "']";
	string mark = "echo '" + M + " ' ~ d(a) ~ ' ' ~ d(b); ";
	switch (h) {
	case ABSENT: break;
	case RET_INT: w.text += key + " = fn(a, b) { " + mark + "return " + (m ? "52" : "42") + "; };\n"; break;
	case RET_FALSE: w.text += key + " = fn(a, b) { " + mark + "return false; };\n"; break;
	case RET_NONE: w.text += key + " = fn(a, b) { " + mark + "};\n"; break;
	case RET_TWO: w.text += key + " = fn(a, b) { " + mark + "return 1, 2; };\n"; break;
	case NOTCALLABLE: w.text += key + " = 5;\n"; break;
	case CALLABLE: w.text += key + " = C;\n"; break;
	case CFN: w.text += key + " = collections.list;\n"; break;
	default: break;
	}
	if (h == NOTCALLABLE || h == CALLABLE || h == CFN) return;
}
string show(const World &w, const Obj &o) { for (auto &x : w.o) if (&x == &o && x.v.k >= LIST) return x.name; return "(" + tostr(o.v) + ")"; }

// Result of calling the overload; throws a status.
Val invoke(World &w, int m, const vector<const Obj *> &a) {
	string A = show(w, *a[0]), B = a.size() > 1 ? show(w, *a[1]) : "(undef)", M = m ? "M2" : "M";
	switch (w.how[m]) {
	case RET_INT: w.out += M + " " + A + " " + B + "\n"; return vint(m ? 52 : 42);
	case RET_FALSE: w.out += M + " " + A + " " + B + "\n"; return vbool(false);
	case RET_NONE: w.out += M + " " + A + " " + B + "\n"; return vundef();
	case RET_TWO: w.out += M + " " + A + " " + B + "\n"; return vint(1);     // one value is wanted, the others go
	case CALLABLE: w.out += "call " + A + " " + B + "\n"; return vint(44);
	case CFN: { vector<Val> v; for (auto x : a) v.push_back(x->v); return vlist(v); }
	default: throw (int)TYPE;
	}
}
bool overloaded(const World &w, const Obj &o) { return o.mt == 0 ? w.how[0] != ABSENT : o.mt == 1 ? w.how[1] != ABSENT : false; }

Val dispatch(World &w, const Obj &a, const Obj &b, const string &op) {
	if (op == "===" || op == "!==") {
		bool same = a.v.k >= LIST || b.v.k >= LIST ? &a == &b : false;
		if (a.v.k < LIST && b.v.k < LIST) { if (a.v.k == STR && b.v.k == STR) throw Prune{}; same = a.v.k == b.v.k; }    // one value of each type
		if (a.v.k == FLOAT && b.v.k == FLOAT) throw Prune{};
		return vbool(same == (op == "==="));
	}
	if (op == "&&") return truthy(a.v) ? b.v : a.v;
	if (op == "||") return truthy(a.v) ? a.v : b.v;
	if (op == "??") return a.v.k != UNDEF ? a.v : b.v;
	if (op == "==" || op == "!=") {
		Val r;
		if ((a.v.k == LIST && b.v.k == LIST) || (a.v.k == TABLE && b.v.k == TABLE)) {
			if (a.mt == -1) r = vbool(equal(a.v, b.v));
			else if (overloaded(w, a)) r = invoke(w, a.mt, {&a, &b});
			else throw (int)TYPE;
		} else if (a.v.k >= LIST || b.v.k >= LIST) r = vbool(false);
		else r = vbool(equal(a.v, b.v));
		return op == "==" ? r : vbool(!truthy(r));
	}
	if (op == "~") {
		string s[2];
		const Obj *p[2] = {&a, &b};
		for (int i = 1; i >= 0; i--) {                    // the right operand is converted first
			const Obj &o = *p[i];
			if (o.mt == -1) { s[i] = tostr(o.v); continue; }
			if (!overloaded(w, o)) throw (int)TYPE;
			Val v = invoke(w, o.mt, {&o});
			if (v.k != STR) throw (int)TYPE;
			s[i] = v.s;
		}
		return vstr(s[0] + s[1]);
	}
	if (a.mt == -1) {
		if (a.v.k == LIST && op == "+" && b.v.k == LIST) return binop("+", a.v, b.v);
		if (a.v.k == TABLE && op == "|" && b.v.k == TABLE) {
			Val r = vtable();
			for (auto &p : a.v.t->kv) tset(*r.t, p.first, p.second);
			for (auto &p : b.v.t->kv) tset(*r.t, p.first, p.second);
			return r;
		}
		if (a.v.k >= LIST || b.v.k >= LIST) throw (int)TYPE;
		return binop(op, a.v, b.v);
	}
	if (overloaded(w, a)) return invoke(w, a.mt, {&a, &b});
	throw (int)TYPE;
}

string rshow(const World &w, const Val &v) {               // how `d` shows a result
	for (auto &o : w.o) if ((v.k == LIST && o.v.k == LIST && o.v.l == v.l) || (v.k == TABLE && o.v.k == TABLE && o.v.t == v.t)) return o.name;
	if (v.k == LIST) { string r; for (auto &x : v.l->v) r += (r.empty() ? "" : ", ") + (x.k >= LIST ? rshow(w, x) : tostr(x)); return "[" + r + "]"; }
	return tostr(v);
}

void finish(World &w, Case &c, int status) {
	c.src = w.text;
	c.out = w.out;
	c.status = status;
	if (status) c.line = w.line;
	c.states.push_back(fp(w.text));
	c.transitions = 1;
}
int curline(const World &w) { int n = 1; for (char ch : w.text) n += ch == '\n'; return n; }

void gen_bin(Chooser &ch, Case &c, bool th) {
	World w;
	auto &op = BINOPS[ch.choose((uint32_t)BINOPS.size())];
	header(w, op.second.empty() ? "__add" : op.second);
	bool logic = op.second.empty();
	How h0 = (How)ch.choose(logic ? 2 : NHOW);
	How h1 = logic ? RET_INT : (How)ch.choose(th ? NHOW : 2);
	
	if (op.first == "~" && (h0 == CFN || h1 == CFN)) throw Prune{};
	Obj &a = w.o[ch.choose((uint32_t)w.o.size())], &b = w.o[ch.choose((uint32_t)w.o.size())];
	if (a.mt != 0 && b.mt != 0 && h0 != ABSENT && h0 != RET_INT) throw Prune{};       // M does not matter
	if ((op.first == "//" || op.first == "%") && b.v.k == INT && b.v.i == 0) throw Prune{};
	int ctx = (int)ch.choose(6);
	bool cmpop = op.first == "==" || op.first == "!=" || op.first == "===" || op.first == "!==" || op.first[0] == '<' || op.first[0] == '>';
	if (ctx == 1 && cmpop && op.first != "<<" && op.first != ">>") throw Prune{};
	if ((op.first == "<<" || op.first == ">>") && b.v.k == INT && false) throw Prune{};
	define(w, 0, h0);
	define(w, 1, h1);
	if (ctx == 4) w.text += "fn id(x, y) { echo d(y); return x; };\n";
	w.line = curline(w);
	int st = 0;
	Val r;
	try { r = dispatch(w, a, b, op.first); } catch (int s) { st = s; }
	string e = a.name + " " + op.first + " " + b.name;
	auto D = [&](const Val &v) -> string { if (v.k >= LIST) { for (auto &o : w.o) if (o.v.l == v.l && o.v.t == v.t) return o.name; throw Prune{}; } return "(" + tostr(v) + ")"; };
	string after;
	switch (ctx) {
	case 0:                                                // in the middle of a list literal
		w.text += "let r = [1, " + e + ", 3]; echo len r; echo r[0]; echo r[2]; ";
		if (r.k >= LIST) { w.text += "echo len collections.list(r[1])\n"; after = "3\n1\n3\n1\n"; }
		else { w.text += "echo r[1]\n"; after = "3\n1\n3\n" + tostr(r) + "\n"; }
		break;
	case 1:
		w.text += "let x = " + a.name + "; x " + op.first + "= " + b.name + "; echo d(x); echo d(" + b.name + ")\n";
		if (op.first == "&&" || op.first == "||" || op.first == "??") { after = D(r) + "\n" + D(b.v) + "\n"; break; }
		if (!st) { if (r.k >= LIST) throw Prune{}; after = D(r) + "\n" + D(b.v) + "\n"; }
		break;
	case 2:
		w.text += "if " + e + " { echo 'yes'; } else { echo 'no'; }\n";
		after = truthy(r) ? "yes\n" : "no\n";
		break;
	case 3:
		w.text += "fn f() { return " + e + "; }; let y = f(); echo y == y\n";
		if (!st && r.k >= LIST) throw Prune{};
		after = r.k == FLOAT && std::isnan(r.f) ? "false\n" : "true\n";
		break;
	case 4:
		w.text += "let i = 1; echo i + id(2, " + e + ")\n";
		if (!st) { if (r.k >= LIST) throw Prune{}; after = D(r) + "\n3\n"; }
		break;
	case 5:
		w.text += "let z = 0; while z < 1 { z += 1; " + e + "; echo z; }\n";
		after = "1\n";
		break;
	}
	if (!st) w.out += after;
	finish(w, c, st);
}

void gen_un(Chooser &ch, Case &c) {
	static const vector<std::pair<string, string>> UN = { {"-", "__neg"}, {"+", "__pos"}, {"^", "__bnot"}, {"len ", "__len"}, {"!", "__add"} };
	World w;
	auto &op = UN[ch.choose((uint32_t)UN.size())];
	header(w, op.second);
	How h0 = (How)ch.choose(NHOW), h1 = (How)ch.choose(2);
	if (op.first == "!" && h0 > 1) throw Prune{};
	Obj &a = w.o[ch.choose((uint32_t)w.o.size())];
	int ctx = (int)ch.choose(3);
	define(w, 0, h0); define(w, 1, h1);
	w.line = curline(w);
	int st = 0; Val r;
	try {
		if (op.first == "!") r = vbool(!truthy(a.v));
		else if (a.mt == -1) {
			string o = op.first == "len " ? "len" : op.first;
			r = unop(o, a.v);
		} else if (overloaded(w, a)) r = invoke(w, a.mt, {&a});
		else throw (int)TYPE;
	} catch (int s) { st = s; }
	if (!st && r.k >= LIST && ctx != 1) throw Prune{};
	if (ctx == 0) { w.text += "let r = [1, " + op.first + a.name + ", 3]; echo r\n"; if (!st) w.out += "[1, " + tostr(r) + ", 3]\n"; }
	else if (ctx == 1) { w.text += "if " + op.first + a.name + " { echo 'yes'; } else { echo 'no'; }\n"; if (!st) w.out += truthy(r) ? "yes\n" : "no\n"; }
	else { w.text += "echo 1 ?? 2; echo (" + op.first + a.name + ") ?? 'none'\n"; w.out = (st ? "1\n" : "") + w.out; if (!st) w.out = "1\n" + w.out + (r.k == UNDEF ? "none" : tostr(r)) + "\n"; }
	finish(w, c, st);
}

// Calls, element access and conversion to text through metatables.
void gen_access(Chooser &ch, Case &c) {
	World w;
	uint32_t kind = ch.choose(7);
	static const char *names[] = { "__get", "__get", "__set", "__call", "k", "tostr", "__call" };
	header(w, names[kind]);
	How h0 = (How)ch.choose(NHOW);
	if (h0 == CFN) throw Prune{};
	Obj &a = w.o[ch.choose((uint32_t)w.o.size())];
	define(w, 0, h0); define(w, 1, ABSENT);
	uint32_t ctx = ch.choose(3);
	w.line = curline(w);
	int st = 0; string shown;
	auto use = [&](const string &e, const Val &r) {
		if (ctx == 0) { w.text += "let r = [1, " + e + ", 3]; echo r\n"; if (!st) { if (r.k >= LIST) throw Prune{}; w.out += "[1, " + tostr(r) + ", 3]\n"; } }
		else if (ctx == 1) { w.text += "if " + e + " { echo 'yes'; } else { echo 'no'; }\n"; if (!st) w.out += truthy(r) ? "yes\n" : "no\n"; }
		else { w.text += "let q = 5; let s = " + e + "; echo q\n"; if (!st) w.out += "5\n"; }
	};
	Val r;
	Obj key{"", "", vint(0), -1}, skey{"", "", vstr("k"), -1}, val{"", "", vint(6), -1};
	try {
		switch (kind) {
		case 0: case 1: {                                // a[0] or a.k
			const Obj &k = kind ? skey : key;
			if (a.mt == 0 && h0 != ABSENT) {
				string A = a.name, B = "(" + tostr(k.v) + ")";
				r = invoke(w, 0, {&a, &k});
			} else if (a.mt >= 0) {                      // no __get: tables look into themselves
				if (a.v.k == TABLE && tget(*a.v.t, k.v)) r = *tget(*a.v.t, k.v);
				else throw (int)VALUE;
			} else {
				if (kind == 1) {
					if (a.v.k == TABLE) r = vundef();
					else if (a.v.k == LIST || a.v.k == STR) throw (int)TYPE;
					else throw (int)VALUE;
				} else if (a.v.k == LIST) r = a.v.l->v[0];
				else if (a.v.k == STR) r = vstr(a.v.s.substr(0, 1));
				else if (a.v.k == TABLE) r = vundef();
				else throw (int)VALUE;
			}
			break;
		}
		case 2:
			if (a.mt == 0 && h0 != ABSENT) {
				if (h0 == CALLABLE) w.out += "call " + a.name + " (0)\n";
				else if (h0 == NOTCALLABLE) throw (int)TYPE;
				else w.out += "M " + a.name + " (0)\n";
			} else if (a.mt >= 0 || a.v.k < LIST) throw (int)TYPE;
			break;
		case 3:
			if (a.mt == 0 && h0 != ABSENT) {
				// the object itself is not passed
				if (h0 == NOTCALLABLE || h0 == CALLABLE) throw (int)TYPE;
				w.out += "M (5) (6)\n";
				r = h0 == RET_INT ? vint(42) : h0 == RET_TWO ? vint(1) : h0 == RET_FALSE ? vbool(false) : vundef();
			} else throw (int)TYPE;
			break;
		case 4: {                                        // a->k(6): found in the metatable first, then in the table
			if (a.mt == 0 && h0 != ABSENT) {
				r = invoke(w, 0, {&a, &val});
			} else if (a.v.k == TABLE && tget(*a.v.t, vstr("k"))) throw (int)TYPE;     // 9 is not callable
			else if (a.mt == -1 && a.v.k == TABLE) throw (int)TYPE;                    // undef is not callable
			else if (a.mt == -1 && (a.v.k == LIST || a.v.k == STR)) throw (int)TYPE;   // indexed by a str
			else throw (int)VALUE;
			break;
		}
		case 5:                                          // interpolation
			if (a.mt == -1) r = vstr("<" + tostr(a.v) + ">");
			else if (!overloaded(w, a)) throw (int)TYPE;
			else { Val v = invoke(w, 0, {&a}); if (v.k != STR) throw (int)TYPE; r = vstr("<" + v.s + ">"); }
			break;
		case 6:
			if (a.mt == 0 && h0 != ABSENT) {
				if (h0 == NOTCALLABLE || h0 == CALLABLE) throw (int)TYPE;
				w.out += "M (undef) (undef)\n";
				r = h0 == RET_INT ? vint(42) : h0 == RET_TWO ? vint(1) : h0 == RET_FALSE ? vbool(false) : vundef();
			} else throw (int)TYPE;
			break;
		}
	} catch (int s) { st = s; }
	switch (kind) {
	case 0: use(a.name + "[0]", r); break;
	case 1: use(a.name + ".k", r); break;
	case 2:
		if (ctx) throw Prune{};
		w.text += a.name + "[0] = 6; echo 'set'\n";
		if (!st) w.out += "set\n";
		break;
	case 3: use(a.name + "(5, 6, 7)", r); break;
	case 4: use(a.name + "->k(6)", r); break;
	case 5: use("\"<#{" + a.name + "}>\"", r); break;
	case 6: use(a.name + "()", r); break;
	}
	finish(w, c, st);
}

// Histories of changes to metatables shared by objects: the operator follows the current contents of the
// metatable the left operand currently has.
void gen_hist(Chooser &ch, Case &c, int depth) {
	string t = "const m0 = {}; const m1 = {}; let x = mt.set([1], m0); let y = mt.set({}, m0); let z = [3];\n";
	int def[2] = {0, 0}, mtof[3] = {0, 0, -1};
	const char *ob[3] = {"x", "y", "z"};
	string out; int st = 0, n = 0;
	for (int i = 0; i < depth && !st; i++) {
		uint32_t o = ch.choose(4 + 6 + 2 + 3);
		string lno = std::to_string(i);
		n++;
		if (o < 4) {                                      // (re)define or remove in m0/m1
			int m = o & 1;
			if (o < 2) { def[m] = 10 * (i + 1) + m; t += "m" + std::to_string(m) + ".__add = fn(a, b) { return " + std::to_string(def[m]) + " + b; };\n"; }
			else { if (!def[m]) throw Prune{}; def[m] = 0; t += "m" + std::to_string(m) + "->remove('__add');\n"; }
		} else if (o < 10) {
			int b = (int)(o - 4) / 2, m = (int)(o - 4) % 2;
			if (mtof[b] == m) throw Prune{};
			mtof[b] = m;
			t += string("mt.set(") + ob[b] + ", m" + std::to_string(m) + ");\n";
		} else if (o < 12) {                              // put the operands' metatable back through mt.get
			int b = (int)(o - 10);
			if (mtof[2] == mtof[b]) throw Prune{};
			mtof[2] = mtof[b];
			t += string("mt.set(z, mt.get(") + ob[b] + "));\n";
		} else {
			int b = (int)(o - 12);
			t += string("echo ") + ob[b] + " + 1;\n";
			if (mtof[b] < 0 || !def[mtof[b]]) { st = TYPE; c.line = i + 2; }
			else out += std::to_string(def[mtof[b]] + 1) + "\n";
		}
	}
	if (!st) for (int b = 0; b < 3; b++) {
		if (mtof[b] >= 0) { t += string("echo mt.get(") + ob[b] + ") === m" + std::to_string(mtof[b]) + ";\n"; out += "true\n"; }
		else { t += "echo z + [4];\n"; out += "[3, 4]\n"; }
	}
	c.src = t; c.out = out; c.status = st;
	c.transitions = (uint64_t)n;
	c.states.push_back(fp(t));
}

// Overloads that use overloaded operators themselves, recursively, and in the middle of expressions.
void gen_reent(Chooser &ch, Case &c) {
	static const vector<string> OPS = { "+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>", "<", "<=", ">", ">=", "==" };
	static const vector<string> MN = { "__add", "__sub", "__mul", "__div", "__idiv", "__mod", "__pow", "__bor", "__bxor", "__band", "__bandnot", "__bshl", "__bshr", "__lt", "__le", "__gt", "__ge", "__eq" };
	uint32_t a = ch.choose((uint32_t)OPS.size()), b = ch.choose((uint32_t)OPS.size());
	uint32_t shape = ch.choose(6), ctx = ch.choose(3);
	if (a == b) throw Prune{};
	string t = "let depth = 0;\nconst M = {};\nlet L = mt.set([0], M); let R = [1];\n";
	string body2 = "return b === R ? 7 : 8;";
	t += "M['" + MN[b] + "'] = fn(a, b) { let k = 1; let l = [a, b]; " + body2 + " };\n";
	string pre = "let p = 5; let q = [p]; ";
	string e; string exp;
	switch (shape) {
	case 0: t += "M['" + MN[a] + "'] = fn(a, b) { " + pre + "return [p, a " + OPS[b] + " R, p]; };\n"; e = "(L " + OPS[a] + " R)"; exp = "[5, 7, 5]"; break;
	case 1: t += "M['" + MN[a] + "'] = fn(a, b) { " + pre + "for i <- [1, 2] { p += (a " + OPS[b] + " b) - (L " + OPS[b] + " L); }; return p; };\n"; e = "(L " + OPS[a] + " R)"; exp = "3"; break;
	case 2: t += "M['" + MN[a] + "'] = fn(a, b) { depth += 1; if depth < 4 { return 1 + (a " + OPS[a] + " b); }; return a " + OPS[b] + " b; };\n"; e = "(L " + OPS[a] + " R)"; exp = "10"; break;
	case 3: t += "M['" + MN[a] + "'] = fn(a, b) { const g = fn() { return a " + OPS[b] + " b; }; return g; };\n"; e = "(L " + OPS[a] + " R)()"; exp = "7"; break;
	case 4: t += "M['" + MN[a] + "'] = fn(a, b) { match a { [let x] { return x + (a " + OPS[b] + " b); }; }; };\n"; e = "(L " + OPS[a] + " R)"; exp = "7"; if (false) throw Prune{}; break;
	case 5: t += "M['" + MN[a] + "'] = fn(a, b) { return [x + (a " + OPS[b] + " b) for x <- [1, 2]]; };\n"; e = "(L " + OPS[a] + " R)"; exp = "[8, 9]"; break;
	}
	if (ctx == 0) { t += "echo [1, " + e + ", 2];\n"; c.out = "[1, " + exp + ", 2]\n"; }
	else if (ctx == 1) { t += "const f = fn(x, y, z) { return [z, y, x]; }; echo f(1, " + e + ", 2);\n"; c.out = "[2, " + exp + ", 1]\n"; }
	else { t += "for v <- [1, 2] { let w = v * 2; " + string(shape == 2 ? "depth = 0; " : "") + "let u = " + e + "; echo u; echo w; }\n"; c.out = exp + "\n2\n" + exp + "\n4\n"; }
	c.src = t;
	c.states.push_back(fp(t));
	c.transitions = 2;
}

// Comparing containers compares their elements, with the elements' own ==.
void gen_deepeq(Chooser &ch, Case &c) {
	string t = "let n = 0;\nconst ans = [];\nconst M = {'__eq': fn(a, b) { n += 1; let r = ans[n - 1]; return r; }};\n";
	uint32_t k = 1 + ch.choose(3);
	vector<int> ans; bool eq = true; int calls = 0;
	string l, r;
	uint32_t wrap = ch.choose(3);
	for (uint32_t i = 0; i < k; i++) {
		uint32_t v = ch.choose(5);                        // plain equal, plain different, overloaded true/false/truthy
		string A, B; bool same = true;
		if (v == 0) A = B = std::to_string(i);
		else if (v == 1) { A = std::to_string(i); B = "'x'"; same = false; }
		else { A = B = "mt.set([" + std::to_string(i) + "], M)"; same = v != 3; }
		if (eq && v >= 2) { calls++; t += string("ans->push(") + (v == 2 ? "true" : v == 3 ? "false" : "1") + ");\n"; }
		if (wrap == 2 && i > 0) throw Prune{};
		if (wrap == 1) { A = "[" + A + "]"; B = "[" + B + "]"; }
		if (wrap == 2) { A = "1: " + A; B = "1: " + B; }
		l += (i ? ", " : "") + A; r += (i ? ", " : "") + B;
		if (!same) eq = false;
	}
	bool ne = ch.flip();
	string o = wrap == 2 ? "{" : "[", z = wrap == 2 ? "}" : "]";
	t += "let q = 9; echo [q, " + o + l + z + (ne ? " != " : " == ") + o + r + z + ", q];\necho n;\n";
	c.src = t;
	c.out = "[9, " + string(eq != ne ? "true" : "false") + ", 9]\n" + std::to_string(calls) + "\n";
	c.states.push_back(fp(t));
	c.transitions = k;
}

Reg reg({ "L05",
	"every operator x every pair of operands (one of each built-in type, objects of two metatables, one with an empty metatable) x every way the overload can be defined x contexts; histories of metatable changes; overloads that use overloads",
	{ "only the left operand selects the overload; == dispatches only if both operands are lists or both are tables; dividing by a literal zero is excluded" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "binary operators", "25 operators x 12 x 12 operands x 7 definitions x 6 contexts", [th](Chooser &ch, Case &c) { gen_bin(ch, c, th); }, 4 });
		v.push_back({ "unary operators", "5 operators x 12 operands x 7 definitions x 3 contexts", [](Chooser &ch, Case &c) { gen_un(ch, c); }, 3 });
		v.push_back({ "access, calls, conversion", "7 uses x 12 objects x 6 definitions x 3 contexts", [](Chooser &ch, Case &c) { gen_access(ch, c); }, 3 });
		int d = th ? 6 : 5;
		v.push_back({ "metatable histories", std::to_string(d) + " operations", [d](Chooser &ch, Case &c) { gen_hist(ch, c, d); }, 3 });
		v.push_back({ "reentrant overloads", "18 x 17 operators x 6 bodies x 3 contexts", [](Chooser &ch, Case &c) { gen_reent(ch, c); }, 3 });
		v.push_back({ "element equality", "up to 3 elements of 5 kinds, 3 containers", [](Chooser &ch, Case &c) { gen_deepeq(ch, c); }, 3 });
	} });
}
