// Reference semantics of YASL: an abstract syntax, a renderer to source text and a direct evaluator.
//
// Written from the language's documented behaviour, not from the implementation: variables are cells in
// lexical environments (no stack slots, no upvalues), calls are C++ recursion (no frames), every operand is
// evaluated once from left to right, errors are C++ exceptions carrying the line of the statement.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ref {
using std::string;
using std::vector;
using std::shared_ptr;
using std::make_shared;

enum K { UNDEF, BOOL, INT, FLOAT, STR, LIST, TABLE, FN };
enum Status { OK = 0, GENERIC = 2, SYNTAX = 4, TYPE = 5, DIV0 = 6, VALUE = 7, ASSERT = 10, OVERFLOW_ = 11 };

struct Val;
struct ListObj; struct TableObj; struct FnObj;
struct Val {
	K k = UNDEF;
	int64_t i = 0;                       // INT and BOOL
	double f = 0;
	string s;
	shared_ptr<ListObj> l;
	shared_ptr<TableObj> t;
	shared_ptr<FnObj> fn;
};
struct ListObj { vector<Val> v; };
struct TableObj { vector<std::pair<Val, Val>> kv; };

inline Val vundef() { return Val{}; }
inline Val vbool(bool b) { Val v; v.k = BOOL; v.i = b; return v; }
inline Val vint(int64_t i) { Val v; v.k = INT; v.i = i; return v; }
inline Val vflt(double d) { Val v; v.k = FLOAT; v.f = d; return v; }
inline Val vstr(string s) { Val v; v.k = STR; v.s = std::move(s); return v; }
inline Val vlist(vector<Val> e) { Val v; v.k = LIST; v.l = make_shared<ListObj>(); v.l->v = std::move(e); return v; }
inline Val vtable() { Val v; v.k = TABLE; v.t = make_shared<TableObj>(); return v; }

struct Raise { int status; int line; };
struct TooLong {};                       // step budget exhausted: not a case

// ------------------------------------------------------------------ syntax
struct Expr; struct Stmt;
using E = shared_ptr<Expr>;
using S = shared_ptr<Stmt>;
using Block = vector<S>;

enum EK { LIT, VAR, BIN, UN, TERN, INDEX, FIELD, SLICE, CALL, MCALL, FNLIT, LISTLIT, TABLELIT, LISTCOMP, TABLECOMP, INTERP, FOREIGN };
struct Expr {
	EK k;
	Val v;                               // LIT
	string name;                         // VAR, BIN/UN operator, FIELD, MCALL, comprehension variable
	vector<E> c;                         // children
	vector<string> params; vector<bool> constp; Block body;     // FNLIT
	vector<string> parts;                // INTERP: literal parts (c.size() + 1)
	bool parens = false;                 // force parentheses
};
enum PK { PANY, PLIT, PTYPE, PLET, PCONST, PLIST, PTABLE, PALT };
struct Pat;
using PP = shared_ptr<Pat>;
struct Pat {
	PK k; Val v; string name;            // PLIT value; PTYPE/PLET/PCONST name
	vector<PP> c; vector<Val> keys;      // PLIST/PTABLE/PALT children
	bool open = false;                   // trailing `...`
};
struct Arm { PP pat; E guard; Block body; };
enum SK { LET, CONST, MULTI, ASSIGN, SETIDX, AUG, AUGIDX, EXPR, ECHO, IF, WHILE, FORC, FORIN, BREAK, CONTINUE, RETURN, FNDECL, MATCH, ASSERTS, RAWS };
struct LVal { char kind; string name; E coll, key; };      // 'l' let, 'c' const, 'v' variable, 'i' element
struct Stmt {
	SK k;
	string name, op;
	vector<E> e;
	Block body, els, init, post;
	vector<string> params; vector<bool> constp;
	vector<LVal> lv;
	vector<Arm> arms;
	bool isconst = false;
	mutable int line = 0;
	mutable vector<int> armlines;
};

inline E lit(Val v) { auto e = make_shared<Expr>(); e->k = LIT; e->v = v; return e; }
inline E I(int64_t i) { return lit(vint(i)); }
inline E Sx(string s) { return lit(vstr(s)); }
inline E var(string n) { auto e = make_shared<Expr>(); e->k = VAR; e->name = n; return e; }
inline E bin(string op, E a, E b) { auto e = make_shared<Expr>(); e->k = BIN; e->name = op; e->c = {a, b}; return e; }
inline E un(string op, E a) { auto e = make_shared<Expr>(); e->k = UN; e->name = op; e->c = {a}; return e; }
inline E tern(E a, E b, E c) { auto e = make_shared<Expr>(); e->k = TERN; e->c = {a, b, c}; return e; }
inline E index(E a, E b) { auto e = make_shared<Expr>(); e->k = INDEX; e->c = {a, b}; return e; }
inline E field(E a, string n) { auto e = make_shared<Expr>(); e->k = FIELD; e->name = n; e->c = {a}; return e; }
inline E slice(E a, E b, E c) { auto e = make_shared<Expr>(); e->k = SLICE; e->c = {a, b, c}; return e; }
inline E call(E f, vector<E> args) { auto e = make_shared<Expr>(); e->k = CALL; e->c = {f}; e->c.insert(e->c.end(), args.begin(), args.end()); return e; }
inline E mcall(E o, string m, vector<E> args) { auto e = make_shared<Expr>(); e->k = MCALL; e->name = m; e->c = {o}; e->c.insert(e->c.end(), args.begin(), args.end()); return e; }
inline E fnlit(vector<string> ps, Block b) { auto e = make_shared<Expr>(); e->k = FNLIT; e->params = ps; e->constp.assign(ps.size(), false); e->body = b; return e; }
inline E listlit(vector<E> es) { auto e = make_shared<Expr>(); e->k = LISTLIT; e->c = es; return e; }
inline E tablelit(vector<E> kvs) { auto e = make_shared<Expr>(); e->k = TABLELIT; e->c = kvs; return e; }
inline E listcomp(E x, string v, E coll, E cond = nullptr) { auto e = make_shared<Expr>(); e->k = LISTCOMP; e->name = v; e->c = {coll, x}; if (cond) e->c.push_back(cond); return e; }
inline E tablecomp(E k, E x, string v, E coll, E cond = nullptr) { auto e = make_shared<Expr>(); e->k = TABLECOMP; e->name = v; e->c = {coll, k, x}; if (cond) e->c.push_back(cond); return e; }
inline E interp(vector<string> parts, vector<E> es) { auto e = make_shared<Expr>(); e->k = INTERP; e->parts = parts; e->c = es; return e; }
inline E paren(E a) { auto e = make_shared<Expr>(*a); e->parens = true; return e; }

inline S mk(SK k) { auto s = make_shared<Stmt>(); s->k = k; return s; }
inline S let(string n, E e) { auto s = mk(LET); s->name = n; s->e = {e}; return s; }
inline S cnst(string n, E e) { auto s = mk(CONST); s->name = n; s->e = {e}; return s; }
inline S multi(vector<LVal> lv, vector<E> es) { auto s = mk(MULTI); s->lv = lv; s->e = es; return s; }
inline S assign(string n, E e) { auto s = mk(ASSIGN); s->name = n; s->e = {e}; return s; }
inline S setidx(E c, E k, E v) { auto s = mk(SETIDX); s->e = {c, k, v}; return s; }
inline S aug(string n, string op, E e) { auto s = mk(AUG); s->name = n; s->op = op; s->e = {e}; return s; }
inline S expr(E e) { auto s = mk(EXPR); s->e = {e}; return s; }
inline S echo(E e) { auto s = mk(ECHO); s->e = {e}; return s; }
inline S iff(E c, Block t, Block f = {}) { auto s = mk(IF); s->e = {c}; s->body = t; s->els = f; return s; }
inline S whil(E c, Block b) { auto s = mk(WHILE); s->e = {c}; s->body = b; return s; }
inline S forc(S init, E c, S post, Block b) { auto s = mk(FORC); s->init = {init}; s->e = {c}; s->post = {post}; s->body = b; return s; }
inline S forin(string v, E c, Block b) { auto s = mk(FORIN); s->name = v; s->e = {c}; s->body = b; return s; }
inline S brk() { return mk(BREAK); }
inline S cont() { return mk(CONTINUE); }
inline S ret(vector<E> es) { auto s = mk(RETURN); s->e = es; return s; }
inline S fndecl(string n, vector<string> ps, Block b) { auto s = mk(FNDECL); s->name = n; s->params = ps; s->constp.assign(ps.size(), false); s->body = b; return s; }
inline S match(E e, vector<Arm> arms) { auto s = mk(MATCH); s->e = {e}; s->arms = arms; return s; }
inline S asrt(E e) { auto s = mk(ASSERTS); s->e = {e}; return s; }

inline PP pany() { auto p = make_shared<Pat>(); p->k = PANY; return p; }
inline PP plit(Val v) { auto p = make_shared<Pat>(); p->k = PLIT; p->v = v; return p; }
inline PP ptype(string t) { auto p = make_shared<Pat>(); p->k = PTYPE; p->name = t; return p; }
inline PP plet(string n) { auto p = make_shared<Pat>(); p->k = PLET; p->name = n; return p; }
inline PP pconst(string n) { auto p = make_shared<Pat>(); p->k = PCONST; p->name = n; return p; }
inline PP plist(vector<PP> c, bool open) { auto p = make_shared<Pat>(); p->k = PLIST; p->c = c; p->open = open; return p; }
inline PP ptable(vector<Val> keys, vector<PP> c, bool open) { auto p = make_shared<Pat>(); p->k = PTABLE; p->keys = keys; p->c = c; p->open = open; return p; }
inline PP palt(vector<PP> c) { auto p = make_shared<Pat>(); p->k = PALT; p->c = c; return p; }

// ------------------------------------------------------------------ values
inline string fmtfloat(double d) {
	if (std::isnan(d)) return "nan";
	if (std::isinf(d)) return d < 0 ? "-inf" : "inf";
	char b[400];
	snprintf(b, sizeof b, "%f", d);
	string s = b;
	while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
	return s;
}
inline string tostr(const Val &v);
inline string tostr(const Val &v) {
	switch (v.k) {
	case UNDEF: return "undef";
	case BOOL: return v.i ? "true" : "false";
	case INT: return std::to_string(v.i);
	case FLOAT: return fmtfloat(v.f);
	case STR: return v.s;
	case LIST: {
		string r = "[";
		for (size_t i = 0; i < v.l->v.size(); i++) r += (i ? ", " : "") + tostr(v.l->v[i]);
		return r + "]";
	}
	case TABLE: {
		if (v.t->kv.size() > 1) throw mc::Prune{};       // the order is not specified
		string r = "{";
		for (size_t i = 0; i < v.t->kv.size(); i++) r += (i ? ", " : "") + tostr(v.t->kv[i].first) + ": " + tostr(v.t->kv[i].second);
		return r + "}";
	}
	case FN: return "<fn>";
	}
	return "";
}
inline bool truthy(const Val &v) {
	switch (v.k) {
	case UNDEF: return false;
	case BOOL: return v.i;
	case FLOAT: return !std::isnan(v.f);
	case STR: return !v.s.empty();
	default: return true;
	}
}
inline bool isnum(const Val &v) { return v.k == INT || v.k == FLOAT; }
inline double num(const Val &v) { return v.k == INT ? (double)v.i : v.f; }
inline bool samekey(const Val &a, const Val &b) {
	if (a.k != b.k) return false;
	switch (a.k) {
	case UNDEF: return true;
	case BOOL: case INT: return a.i == b.i;
	case FLOAT: return a.f == b.f;
	case STR: return a.s == b.s;
	case FN: return a.fn == b.fn;
	default: return false;
	}
}
inline const Val *tget(const TableObj &t, const Val &k) {
	for (auto &p : t.kv) if (samekey(p.first, k)) return &p.second;
	return nullptr;
}
inline void tset(TableObj &t, const Val &k, const Val &v) {
	for (size_t i = 0; i < t.kv.size(); i++) if (samekey(t.kv[i].first, k)) {
		if (v.k == UNDEF) t.kv.erase(t.kv.begin() + (long)i);
		else t.kv[i].second = v;
		return;
	}
	if (v.k != UNDEF) t.kv.emplace_back(k, v);
}
inline bool equal(const Val &a, const Val &b) {
	if (isnum(a) && isnum(b)) return (a.k == INT && b.k == INT) ? a.i == b.i : num(a) == num(b);
	if (a.k != b.k) return false;
	switch (a.k) {
	case UNDEF: return true;
	case BOOL: return a.i == b.i;
	case STR: return a.s == b.s;
	case LIST:
		if (a.l->v.size() != b.l->v.size()) return false;
		for (size_t i = 0; i < a.l->v.size(); i++) if (!equal(a.l->v[i], b.l->v[i])) return false;
		return true;
	case TABLE:
		if (a.t->kv.size() != b.t->kv.size()) return false;
		for (auto &p : a.t->kv) { auto *q = tget(*b.t, p.first); if (!q || !equal(p.second, *q)) return false; }
		return true;
	default: throw mc::Prune{};      // not specified
	}
}
inline const char *tname(const Val &v) {
	static const char *n[] = {"undef", "bool", "int", "float", "str", "list", "table", "fn"};
	return n[v.k];
}

inline int64_t ipow(int64_t b, int64_t e) {          // exact, or INT64_MIN when out of range
	__int128 r = 1; bool over = false;
	if (e == 0) return 1;
	if (b == 0 || b == 1) return b;
	if (b == -1) return e & 1 ? -1 : 1;
	for (int64_t k = 0; k < e && !over; k++) {
		r *= b;
		if (r > INT64_MAX || r < INT64_MIN) over = true;
	}
	return over ? INT64_MIN : (int64_t)r;
}

// Binary operators on operands; throws the status.
inline Val binop(const string &op, const Val &a, const Val &b) {
	auto ii = a.k == INT && b.k == INT;
	auto nn = isnum(a) && isnum(b);
	auto u = [](int64_t x) { return (uint64_t)x; };
	if (op == "~") return vstr(tostr(a) + tostr(b));
	if (op == "==") return vbool(equal(a, b));
	if (op == "!=") return vbool(!equal(a, b));
	if (op == "===" || op == "!==") {
		bool r;
		if (a.k != b.k) r = false;
		else switch (a.k) {
		case UNDEF: r = true; break;
		case BOOL: case INT: r = a.i == b.i; break;
		case LIST: r = a.l == b.l; break;
		case TABLE: r = a.t == b.t; break;
		case FN: r = a.fn == b.fn; break;
		default: throw mc::Prune{};
		}
		return vbool(r == (op == "==="));
	}
	if (op == "<" || op == "<=" || op == ">" || op == ">=") {
		int lt, eq;
		if (ii) { lt = a.i < b.i; eq = a.i == b.i; }
		else if (nn) {
			double x = num(a), y = num(b);
			return vbool(op == "<" ? x < y : op == "<=" ? x <= y : op == ">" ? x > y : x >= y);
		} else if (a.k == STR && b.k == STR) { lt = a.s < b.s; eq = a.s == b.s; }
		else throw (int)TYPE;
		return vbool(op == "<" ? lt : op == "<=" ? lt || eq : op == ">" ? !lt && !eq : !lt);
	}
	if (op == "+" || op == "-" || op == "*") {
		if (ii) return vint((int64_t)(op == "+" ? u(a.i) + u(b.i) : op == "-" ? u(a.i) - u(b.i) : u(a.i) * u(b.i)));
		if (nn) { double x = num(a), y = num(b); return vflt(op == "+" ? x + y : op == "-" ? x - y : x * y); }
		if (op == "+" && a.k == LIST && b.k == LIST) { vector<Val> r = a.l->v; r.insert(r.end(), b.l->v.begin(), b.l->v.end()); return vlist(r); }
		throw (int)TYPE;
	}
	if (op == "/") { if (nn) return vflt(num(a) / num(b)); throw (int)TYPE; }
	if (op == "**") {
		if (ii && b.i >= 0) return vint(ipow(a.i, b.i));
		if (nn) return vflt(std::pow(num(a), num(b)));
		throw (int)TYPE;
	}
	if (op == "//" || op == "%") {
		if (b.k == INT && b.i == 0) throw (int)DIV0;
		if (!ii) throw (int)TYPE;
		if (b.i == -1) return vint(op == "%" ? 0 : (int64_t)(0 - u(a.i)));
		return vint(op == "//" ? a.i / b.i : a.i % b.i);
	}
	if (op == "|" || op == "^" || op == "&" || op == "&^" || op == "<<" || op == ">>") {
		if (!ii) {
			if (a.k == TABLE || b.k == TABLE) throw mc::Prune{};   // table union
			throw (int)TYPE;
		}
		if (op == "|") return vint(a.i | b.i);
		if (op == "^") return vint(a.i ^ b.i);
		if (op == "&") return vint(a.i & b.i);
		if (op == "&^") return vint(a.i & ~b.i);
		if (b.i < 0 || b.i > 63) throw mc::Prune{};                // not specified
		if (op == "<<") return vint((int64_t)(u(a.i) << b.i));
		return vint(a.i >> b.i);
	}
	abort();
}
inline Val unop(const string &op, const Val &a) {
	if (op == "!") return vbool(!truthy(a));
	if (op == "+") { if (isnum(a)) return a; throw (int)TYPE; }
	if (op == "-") { if (a.k == INT) return vint((int64_t)(0 - (uint64_t)a.i)); if (a.k == FLOAT) return vflt(-a.f); throw (int)TYPE; }
	if (op == "^") { if (a.k == INT) return vint(~a.i); throw (int)TYPE; }
	if (op == "len") {
		if (a.k == STR) return vint((int64_t)a.s.size());
		if (a.k == LIST) return vint((int64_t)a.l->v.size());
		if (a.k == TABLE) return vint((int64_t)a.t->kv.size());
		throw (int)TYPE;
	}
	abort();
}

// ------------------------------------------------------------------ rendering
// Documented precedence: loosest first.  Left- and right-associative levels.
inline int level(const Expr &e) {
	switch (e.k) {
	case TERN: return 1;
	case BIN: {
		const string &o = e.name;
		if (o == "??") return 2;
		if (o == "||") return 3;
		if (o == "&&") return 4;
		if (o == "==" || o == "!=" || o == "===" || o == "!==") return 5;
		if (o == "<" || o == "<=" || o == ">" || o == ">=") return 6;
		if (o == "~") return 7;
		if (o == "|") return 8;
		if (o == "^") return 9;
		if (o == "&" || o == "&^") return 10;
		if (o == "<<" || o == ">>") return 11;
		if (o == "+" || o == "-") return 12;
		if (o == "*" || o == "/" || o == "//" || o == "%") return 13;
		if (o == "**") return 15;
		abort();
	}
	case UN: return 14;
	case LIT: return ((e.v.k == INT && e.v.i < 0) || (e.v.k == FLOAT && std::signbit(e.v.f))) ? 14 : 17;
	case INDEX: case FIELD: case SLICE: case CALL: case MCALL: return 16;
	default: return 17;
	}
}
inline bool rightassoc(int l) { return l == 2 || l == 3 || l == 4 || l == 7; }

struct Render {
	bool semi = true;                    // terminate statements with ';' (else with a newline only)
	bool full = false;                   // parenthesise every compound operand
	string out;
	int line = 1;
	string quote(const string &s) {
		string r = "'";
		for (char ch : s) {
			if (ch == '\n') r += "\\n";
			else if (ch == '\t') r += "\\t";
			else if (ch == '\\') r += "\\\\";
			else if (ch == '\'') r += "\\'";
			else r += ch;
		}
		return r + "'";
	}
	string val(const Val &v) {
		switch (v.k) {
		case INT:
			if (v.i == INT64_MIN) return "(-9223372036854775807 - 1)";
			return std::to_string(v.i);
		case FLOAT: {
			char b[400];
			snprintf(b, sizeof b, "%.20f", v.f);
			string s = b;
			while (s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
			return s;
		}
		case STR: return quote(v.s);
		default: return tostr(v);
		}
	}
	string sub(const E &e, int min) {
		string s = ex(e);
		int l = level(*e);
		if (e->parens) return s;
		if (l < min || (full && l < 17)) return "(" + s + ")";
		return s;
	}
	string list(const vector<E> &c, size_t from) {
		string r;
		for (size_t i = from; i < c.size(); i++) r += (i > from ? ", " : "") + ex(c[i]);
		return r;
	}
	string fn(const vector<string> &ps, const vector<bool> &cp, const Block &b) {
		string r = "fn(";
		for (size_t i = 0; i < ps.size(); i++) r += string(i ? ", " : "") + (cp[i] ? "const " : "") + ps[i];
		return r + ") { " + inlined(b) + "}";
	}
	string inlined(const Block &b) {
		Render r; r.semi = true; r.line = line; r.oneline = true; r.full = full;
		r.block(b, 0);
		return r.out;
	}
	bool oneline = false;
	string ex(const E &e) { string s = ex0(e); return e->parens ? "(" + s + ")" : s; }
	string ex0(const E &ep) {
		const Expr &e = *ep;
		int l = level(e);
		switch (e.k) {
		case LIT: return val(e.v);
		case VAR: return e.name;
		case BIN: {
			if (e.name == "**") return sub(e.c[0], 16) + " ** " + sub(e.c[1], 14);
			bool ra = rightassoc(l);
			return sub(e.c[0], ra ? l + 1 : l) + " " + e.name + " " + sub(e.c[1], ra ? l : l + 1);
		}
		case UN: {
			string o = sub(e.c[0], 14);
			return e.name + (e.name == "len" || e.name[0] == o[0] ? " " : "") + o;
		}
		case TERN: return sub(e.c[0], 2) + " ? " + sub(e.c[1], 1) + " : " + sub(e.c[2], 1);
		case INDEX: return sub(e.c[0], 16) + "[" + ex(e.c[1]) + "]";
		case FIELD: return sub(e.c[0], 16) + "." + e.name;
		case SLICE: return sub(e.c[0], 16) + "[" + (e.c[1] ? ex(e.c[1]) : "") + ":" + (e.c[2] ? ex(e.c[2]) : "") + "]";
		case CALL: return sub(e.c[0], 16) + "(" + list(e.c, 1) + ")";
		case MCALL: return sub(e.c[0], 16) + "->" + e.name + "(" + list(e.c, 1) + ")";
		case FNLIT: return fn(e.params, e.constp, e.body);
		case LISTLIT: return "[" + list(e.c, 0) + "]";
		case TABLELIT: {
			string r = "{";
			for (size_t i = 0; i + 1 < e.c.size(); i += 2) r += (i ? ", " : "") + ex(e.c[i]) + ": " + ex(e.c[i + 1]);
			return r + "}";
		}
		case LISTCOMP: return "[" + ex(e.c[1]) + " for " + e.name + " <- " + ex(e.c[0]) + (e.c.size() > 2 ? " if " + ex(e.c[2]) : "") + "]";
		case TABLECOMP: return "{" + ex(e.c[1]) + ": " + ex(e.c[2]) + " for " + e.name + " <- " + ex(e.c[0]) + (e.c.size() > 3 ? " if " + ex(e.c[3]) : "") + "}";
		case INTERP: {
			string r = "\"" + e.parts[0];
			for (size_t i = 0; i < e.c.size(); i++) r += "#{" + ex(e.c[i]) + "}" + e.parts[i + 1];
			return r + "\"";
		}
		case FOREIGN: return e.name;
		}
		return "";
	}
	string pat(const PP &p) {
		switch (p->k) {
		case PANY: return "*";
		case PLIT: return val(p->v);
		case PTYPE: return p->name;
		case PLET: return "let " + p->name;
		case PCONST: return "const " + p->name;
		case PLIST: case PTABLE: {
			string r = p->k == PLIST ? "[" : "{";
			for (size_t i = 0; i < p->c.size(); i++) r += (i ? ", " : "") + (p->k == PTABLE ? val(p->keys[i]) + ": " : "") + pat(p->c[i]);
			if (p->open) r += p->c.empty() ? "..." : ", ...";
			return r + (p->k == PLIST ? "]" : "}");
		}
		case PALT: {
			string r;
			for (size_t i = 0; i < p->c.size(); i++) r += (i ? " | " : "") + pat(p->c[i]);
			return r;
		}
		}
		return "";
	}
	void nl() { if (oneline) out += " "; else { out += "\n"; line++; } }
	void ind(int d) { if (!oneline) out.append((size_t)d, ' '); }
	void end(bool semicolon) { if (semicolon) out += ";"; nl(); }
	void braces(const Block &b, int d) {
		out += " {"; nl();
		block(b, d + 1);
		ind(d); out += "}";
	}
	string lval(const LVal &l) {
		switch (l.kind) {
		case 'l': return "let " + l.name;
		case 'c': return "const " + l.name;
		case 'v': return l.name;
		default: return sub(l.coll, 16) + "[" + ex(l.key) + "]";
		}
	}
	string simple(const Stmt &s) {
		switch (s.k) {
		case LET: return "let " + s.name + " = " + ex(s.e[0]);
		case CONST: return "const " + s.name + " = " + ex(s.e[0]);
		case ASSIGN: return s.name + " = " + ex(s.e[0]);
		case AUG: return s.name + " " + s.op + "= " + ex(s.e[0]);
		case AUGIDX: return sub(s.e[0], 16) + "[" + ex(s.e[1]) + "] " + s.op + "= " + ex(s.e[2]);
		case SETIDX: return sub(s.e[0], 16) + "[" + ex(s.e[1]) + "] = " + ex(s.e[2]);
		case MULTI: {
			string r;
			for (size_t i = 0; i < s.lv.size(); i++) r += (i ? ", " : "") + lval(s.lv[i]);
			return r + " = " + list(s.e, 0);
		}
		case EXPR: return ex(s.e[0]);
		case ECHO: return "echo " + ex(s.e[0]);
		case BREAK: return "break";
		case CONTINUE: return "continue";
		case RETURN: return "return " + list(s.e, 0);
		case ASSERTS: return "assert " + ex(s.e[0]);
		case RAWS: return s.name;
		default: abort();
		}
	}
	void stmt(const Stmt &s, int d) {
		ind(d);
		s.line = line;
		switch (s.k) {
		case IF: {
			out += "if " + ex(s.e[0]);
			const Stmt *cur = &s;
			for (;;) {
				braces(cur->body, d);
				if (cur->els.empty()) break;
				if (cur->els.size() == 1 && cur->els[0]->k == IF && cur->els[0]->isconst) {   // isconst: render as elseif
					cur = cur->els[0].get();
					cur->line = line;
					out += " elseif " + ex(cur->e[0]);
					continue;
				}
				out += " else";
				braces(cur->els, d);
				break;
			}
			end(true);
			break;
		}
		case WHILE: out += "while " + ex(s.e[0]); braces(s.body, d); end(true); break;
		case FORC:
			s.init[0]->line = s.post[0]->line = line;
			out += "for " + simple(*s.init[0]) + "; " + ex(s.e[0]) + "; " + simple(*s.post[0]);
			braces(s.body, d); end(true); break;
		case FORIN: out += "for " + s.name + " <- " + ex(s.e[0]); braces(s.body, d); end(true); break;
		case FNDECL: {
			out += string(s.isconst ? "const " : "") + "fn " + s.name + "(";
			for (size_t i = 0; i < s.params.size(); i++) out += string(i ? ", " : "") + (s.constp[i] ? "const " : "") + s.params[i];
			out += ")"; braces(s.body, d); end(true); break;
		}
		case MATCH:
			out += "match " + ex(s.e[0]) + " {"; nl();
			s.armlines.clear();
			for (auto &a : s.arms) {
				ind(d + 1);
				s.armlines.push_back(line);
				out += pat(a.pat);
				if (a.guard) out += " if " + ex(a.guard);
				braces(a.body, d + 1);
				nl();
			}
			ind(d); out += "}"; end(true);
			break;
		default:
			out += simple(s);
			end(semi || oneline);
		}
	}
	void block(const Block &b, int d) { for (auto &s : b) stmt(*s, d); }
};
inline string render(const Block &b, bool semi = true, bool full = false) { Render r; r.semi = semi; r.full = full; r.block(b, 0); return r.out; }

// ------------------------------------------------------------------ evaluation
struct Cell { Val v; };
struct Env {                             // one variable; an environment is a list of them, innermost first
	string name;
	shared_ptr<Cell> cell;
	shared_ptr<Env> up;
};
using EnvP = shared_ptr<Env>;
struct FnObj {
	const vector<string> *params;
	const Block *body;
	EnvP env;
	std::function<vector<Val>(struct Machine &, vector<Val>)> native;
	~FnObj() {}
};

enum Flow { NORMAL, BRK, CNT, RET };

struct Machine {
	string out;
	int line = 0;
	long steps = 0, budget = 20000;
	vector<Val> retv;
	int depth = 0;
	vector<shared_ptr<FnObj>> fns;       // to break environment cycles at the end
	vector<EnvP> envs;
	vector<int> trace;                   // lines of the calls active when an error was raised
	vector<int> calls;
	std::set<uint64_t> points;           // fingerprints of (statement, environment) pairs reached
	uint64_t nsteps = 0;
	std::function<bool(Machine &, const Val &, const string &, const vector<Val> &, vector<Val> &)> method;

	~Machine() { for (auto &e : envs) { e->cell->v = Val{}; e->up.reset(); } }
	static Cell *find(const EnvP &env, const string &n) {
		for (Env *e = env.get(); e; e = e->up.get()) if (e->name == n) return e->cell.get();
		return nullptr;
	}
	void step() { nsteps++; if (++steps > budget) throw TooLong{}; }
	[[noreturn]] void raise(int st) { trace = calls; throw Raise{st, line}; }
	void decl(EnvP &env, const string &n, const Val &v) {
		auto e = make_shared<Env>();
		e->name = n; e->cell = make_shared<Cell>(); e->cell->v = v; e->up = env;
		envs.push_back(e);
		env = e;
	}

	Val get(const Val &c, const Val &k) {
		if (c.k == LIST) {
			if (k.k != INT) { if (k.k == STR) throw mc::Prune{}; raise(TYPE); }
			int64_t n = (int64_t)c.l->v.size(), i = k.i;
			if (i < -n || i >= n) raise(VALUE);
			return c.l->v[(size_t)(i < 0 ? i + n : i)];
		}
		if (c.k == TABLE) {
			auto *v = tget(*c.t, k);
			if (v) return *v;
			if (k.k == STR) throw mc::Prune{};       // may be a method
			return vundef();
		}
		if (c.k == STR && k.k == INT) {
			int64_t n = (int64_t)c.s.size(), i = k.i;
			if (i < -n || i >= n) raise(VALUE);
			return vstr(string(1, c.s[(size_t)(i < 0 ? i + n : i)]));
		}
		if (c.k == STR) { if (k.k == STR) throw mc::Prune{}; raise(TYPE); }
		if (k.k == STR) throw mc::Prune{};
		raise(VALUE);
	}
	void set(const Val &c, const Val &k, const Val &v) {
		if (c.k == LIST) {
			if (k.k != INT) raise(TYPE);
			int64_t n = (int64_t)c.l->v.size(), i = k.i;
			if (i < -n || i >= n) raise(VALUE);
			c.l->v[(size_t)(i < 0 ? i + n : i)] = v;
			return;
		}
		if (c.k == TABLE) {
			if (v.k != UNDEF && (k.k == LIST || k.k == TABLE || k.k == UNDEF)) raise(TYPE);
			tset(*c.t, k, v);
			return;
		}
		raise(TYPE);
	}
	vector<Val> callfn(const Val &f, vector<Val> args) {
		if (f.k != FN) { if (f.k == LIST || f.k == TABLE) throw mc::Prune{}; raise(TYPE); }
		if (f.fn->native) return f.fn->native(*this, args);
		if (++depth > 100) throw TooLong{};
		EnvP env = f.fn->env;
		for (size_t i = 0; i < f.fn->params->size(); i++) decl(env, (*f.fn->params)[i], i < args.size() ? args[i] : vundef());
		int saved = line;
		calls.push_back(line);
		Flow fl = block(*f.fn->body, env);
		calls.pop_back();
		depth--;
		line = saved;
		if (fl == RET) return std::move(retv);
		return { vundef() };
	}
	// arguments: a call in the last position contributes all its values
	vector<Val> evals(const vector<E> &c, size_t from, const EnvP &env) {
		vector<Val> r;
		for (size_t i = from; i < c.size(); i++) {
			if (i + 1 == c.size() && (c[i]->k == CALL || c[i]->k == MCALL)) {
				auto m = multi(c[i], env);
				r.insert(r.end(), m.begin(), m.end());
			} else r.push_back(ev(c[i], env));
		}
		return r;
	}
	vector<Val> multi(const E &e, const EnvP &env) {
		step();
		if (e->k == CALL) {
			Val f = ev(e->c[0], env);
			if (f.k != FN && f.k != LIST && f.k != TABLE) raise(TYPE);       // before the arguments
			return callfn(f, evals(e->c, 1, env));
		}
		if (e->k == MCALL) {
			Val o = ev(e->c[0], env);
			if (o.k != TABLE && o.k != LIST && o.k != STR && e->name == "m") raise(VALUE);   // no such method; before the arguments
			auto args = evals(e->c, 1, env);
			return callmethod(o, e->name, args);
		}
		return { ev(e, env) };
	}
	vector<Val> callmethod(const Val &o, const string &m, const vector<Val> &a) {
		vector<Val> r;
		if (method && method(*this, o, m, a, r)) return r;
		if (m == "tostr" && a.empty()) return { vstr(tostr(o)) };
		if (o.k == TABLE) {
			auto *f = tget(*o.t, vstr(m));
			if (f) { vector<Val> args = {o}; args.insert(args.end(), a.begin(), a.end()); return callfn(*f, args); }
		}
		if (o.k == LIST && m == "push") { if (a.empty()) throw mc::Prune{}; if (a.size() != 1) throw mc::Prune{}; o.l->v.push_back(a[0]); return { o }; }
		if (o.k == LIST && m == "pop" && a.empty()) { if (o.l->v.empty()) raise(VALUE); Val v = o.l->v.back(); o.l->v.pop_back(); return { v }; }
		throw mc::Prune{};
	}
	vector<Val> iterate(const Val &c) {
		if (c.k == LIST) return c.l->v;
		if (c.k == STR) { vector<Val> r; for (char ch : c.s) r.push_back(vstr(string(1, ch))); return r; }
		if (c.k == TABLE) { if (c.t->kv.size() > 1) throw mc::Prune{}; vector<Val> r; for (auto &p : c.t->kv) r.push_back(p.first); return r; }
		raise(TYPE);
	}
	Val ev(const E &ep, const EnvP &env) {
		const Expr &e = *ep;
		step();
		switch (e.k) {
		case LIT: return e.v;
		case VAR: { auto c = find(env, e.name); if (!c) throw mc::Prune{}; return c->v; }
		case BIN: {
			Val a = ev(e.c[0], env);
			if (e.name == "&&") return truthy(a) ? ev(e.c[1], env) : a;
			if (e.name == "||") return truthy(a) ? a : ev(e.c[1], env);
			if (e.name == "??") return a.k != UNDEF ? a : ev(e.c[1], env);
			Val b = ev(e.c[1], env);
			try { return binop(e.name, a, b); } catch (int st) { raise(st); }
		}
		case UN: { Val a = ev(e.c[0], env); try { return unop(e.name, a); } catch (int st) { raise(st); } }
		case TERN: return truthy(ev(e.c[0], env)) ? ev(e.c[1], env) : ev(e.c[2], env);
		case INDEX: { Val a = ev(e.c[0], env); Val b = ev(e.c[1], env); return get(a, b); }
		case FIELD: { Val a = ev(e.c[0], env); return get(a, vstr(e.name)); }
		case SLICE: {
			Val a = ev(e.c[0], env), b = e.c[1] ? ev(e.c[1], env) : vundef(), c = e.c[2] ? ev(e.c[2], env) : vundef();
			if (a.k != LIST && a.k != STR) throw mc::Prune{};
			int64_t n = a.k == LIST ? (int64_t)a.l->v.size() : (int64_t)a.s.size();
			if (b.k == UNDEF) b = vint(0);
			if (c.k == UNDEF) c = vint(n);
			if (b.k != INT || c.k != INT) raise(TYPE);
			int64_t x = b.i < 0 ? b.i + n : b.i, y = c.i < 0 ? c.i + n : c.i;
			x = std::max<int64_t>(0, std::min(n, x)); y = std::max<int64_t>(0, std::min(n, y));
			if (x > y) x = y;
			if (a.k == STR) return vstr(a.s.substr((size_t)x, (size_t)(y - x)));
			return vlist(vector<Val>(a.l->v.begin() + x, a.l->v.begin() + y));
		}
		case CALL: case MCALL: { auto r = multi(ep, env); return r.empty() ? vundef() : r[0]; }
		case FNLIT: return mkfn(&e.params, &e.body, env);
		case LISTLIT: return vlist(evals_one(e.c, env));
		case TABLELIT: {
			Val t = vtable();
			auto v = evals_one(e.c, env);
			for (size_t i = 0; i + 1 < v.size(); i += 2) {
				if (v[i + 1].k == UNDEF) { for (size_t j = 0; j < v.size(); j += 2) if (j != i && samekey(v[j], v[i])) throw mc::Prune{}; continue; }   // nothing is stored
				if (v[i].k == LIST || v[i].k == TABLE || v[i].k == UNDEF) raise(TYPE);
				if (tget(*t.t, v[i])) throw mc::Prune{};
				tset(*t.t, v[i], v[i + 1]);
			}
			return t;
		}
		case LISTCOMP: {
			Val coll = ev(e.c[0], env);
			EnvP env2 = env;
			decl(env2, e.name, vundef());
			Val r = vlist({});
			if (coll.k == LIST) {
				for (size_t i = 0; i < coll.l->v.size(); i++) {
					step();
					env2->cell->v = coll.l->v[i];
					if (e.c.size() > 2 && !truthy(ev(e.c[2], env2))) continue;
					r.l->v.push_back(ev(e.c[1], env2));
				}
				return r;
			}
			for (auto &x : iterate(coll)) {
				step();
				env2->cell->v = x;
				if (e.c.size() > 2 && !truthy(ev(e.c[2], env2))) continue;
				r.l->v.push_back(ev(e.c[1], env2));
			}
			return r;
		}
		case TABLECOMP: {
			Val coll = ev(e.c[0], env);
			EnvP env2 = env;
			decl(env2, e.name, vundef());
			Val r = vtable();
			for (auto &x : iterate(coll)) {
				step();
				env2->cell->v = x;
				if (e.c.size() > 3 && !truthy(ev(e.c[3], env2))) continue;
				Val k = ev(e.c[1], env2), v = ev(e.c[2], env2);
				if (tget(*r.t, k)) throw mc::Prune{};
				if (v.k == UNDEF) continue;
				if (k.k == LIST || k.k == TABLE || k.k == UNDEF) raise(TYPE);
				tset(*r.t, k, v);
			}
			return r;
		}
		case INTERP: {
			string r = e.parts[0];
			for (size_t i = 0; i < e.c.size(); i++) r += tostr(ev(e.c[i], env)) + e.parts[i + 1];
			return vstr(r);
		}
		case FOREIGN: throw mc::Prune{};
		}
		abort();
	}
	vector<Val> evals_one(const vector<E> &c, const EnvP &env) { vector<Val> r; for (auto &x : c) r.push_back(ev(x, env)); return r; }
	Val mkfn(const vector<string> *ps, const Block *b, const EnvP &env) {
		Val v; v.k = FN; v.fn = make_shared<FnObj>(); v.fn->params = ps; v.fn->body = b; v.fn->env = env;
		return v;
	}
	bool bind(const PP &p, const Val &v, EnvP &env) {
		switch (p->k) {
		case PANY: return true;
		case PLIT: return (isnum(p->v) ? isnum(v) : p->v.k == v.k) && equal(p->v, v);
		case PTYPE: return p->name == tname(v);
		case PLET: case PCONST: decl(env, p->name, v); return true;
		case PLIST:
			if (v.k != LIST) return false;
			if (p->open ? v.l->v.size() < p->c.size() : v.l->v.size() != p->c.size()) return false;
			for (size_t i = 0; i < p->c.size(); i++) if (!bind(p->c[i], v.l->v[i], env)) return false;
			return true;
		case PTABLE:
			if (v.k != TABLE) return false;
			if (p->open ? v.t->kv.size() < p->c.size() : v.t->kv.size() != p->c.size()) return false;
			for (size_t i = 0; i < p->c.size(); i++) {
				auto *x = tget(*v.t, p->keys[i]);
				if (!x || !bind(p->c[i], *x, env)) return false;
			}
			return true;
		case PALT:
			for (auto &q : p->c) {
				EnvP saved = env;
				if (bind(q, v, env)) return true;
				env = saved;
			}
			return false;
		}
		return false;
	}
	Flow block(const Block &b, EnvP env) {
		for (auto &s : b) { Flow f = st(*s, env); if (f != NORMAL) return f; }
		return NORMAL;
	}
	void store(const string &n, const Val &v, const EnvP &env) { auto c = find(env, n); if (!c) throw mc::Prune{}; c->v = v; }
	Flow loopbody(const Block &b, const EnvP &env) { return block(b, env); }
	void note(const Stmt &s, const EnvP &env) {
		uint64_t h = (uint64_t)s.line * 1000003u + s.k;
		for (Env *e = env.get(); e; e = e->up.get()) {
			const Val &v = e->cell->v;
			h = mc::fnv(&v.k, sizeof v.k, h); h = mc::fnv(&v.i, sizeof v.i, h); h = mc::fnv(&v.f, sizeof v.f, h); h = mc::fnv(v.s.data(), v.s.size(), h);
			if (v.k == LIST) for (auto &x : v.l->v) { h = mc::fnv(&x.k, sizeof x.k, h); h = mc::fnv(&x.i, sizeof x.i, h); }
		}
		points.insert(h);
	}
	Flow st(const Stmt &s, EnvP &env) {
		step();
		line = s.line;
		note(s, env);
		switch (s.k) {
		case LET: case CONST: {
			Val v = ev(s.e[0], env);
			decl(env, s.name, v);
			return NORMAL;
		}
		case MULTI: {
			vector<Val> v = evals(s.e, 0, env);
			while (v.size() < s.lv.size()) v.push_back(vundef());
			for (size_t i = 0; i < s.lv.size(); i++) {
				auto &l = s.lv[i];
				if (l.kind == 'l' || l.kind == 'c') decl(env, l.name, v[i]);
				else if (l.kind == 'v') store(l.name, v[i], env);
				else { Val c = ev(l.coll, env), k = ev(l.key, env); set(c, k, v[i]); }
			}
			return NORMAL;
		}
		case ASSIGN: store(s.name, ev(s.e[0], env), env); return NORMAL;
		case AUG: {
			auto c = find(env, s.name); if (!c) throw mc::Prune{};
			Val a = c->v;
			if (s.op == "&&") { if (truthy(a)) c->v = ev(s.e[0], env); return NORMAL; }
			if (s.op == "||") { if (!truthy(a)) c->v = ev(s.e[0], env); return NORMAL; }
			if (s.op == "??") { if (a.k == UNDEF) c->v = ev(s.e[0], env); return NORMAL; }
			Val b = ev(s.e[0], env);
			try { c->v = binop(s.op, a, b); } catch (int st_) { raise(st_); }
			return NORMAL;
		}
		case AUGIDX: {
			Val c = ev(s.e[0], env), k = ev(s.e[1], env);
			Val a = get(c, k), b = ev(s.e[2], env), r;
			try { r = binop(s.op, a, b); } catch (int st_) { raise(st_); }
			set(c, k, r);
			return NORMAL;
		}
		case SETIDX: { Val c = ev(s.e[0], env), k = ev(s.e[1], env), v = ev(s.e[2], env); set(c, k, v); return NORMAL; }
		case EXPR: multi(s.e[0], env); return NORMAL;
		case ECHO: { Val v = ev(s.e[0], env); if (v.k == FN) throw mc::Prune{}; out += tostr(v) + "\n"; return NORMAL; }
		case IF:
			if (truthy(ev(s.e[0], env))) return block(s.body, env);
			if (!s.els.empty()) {
				if (s.els.size() == 1 && s.els[0]->k == IF && s.els[0]->isconst) return st(*s.els[0], env);    // an elseif declares nothing
				return block(s.els, env);
			}
			return NORMAL;
		case WHILE:
			for (;;) {
				step();
				line = s.line;
				if (!truthy(ev(s.e[0], env))) return NORMAL;
				Flow f = loopbody(s.body, env);
				if (f == BRK) return NORMAL;
				if (f == RET) return RET;
			}
		case FORC: {
			EnvP env2 = env;
			st(*s.init[0], env2);
			for (;;) {
				step();
				line = s.line;
				if (!truthy(ev(s.e[0], env2))) return NORMAL;
				Flow f = loopbody(s.body, env2);
				if (f == BRK) return NORMAL;
				if (f == RET) return RET;
				line = s.line;
				st(*s.post[0], env2);
			}
		}
		case FORIN: {
			Val coll = ev(s.e[0], env);
			EnvP env2 = env;
			decl(env2, s.name, vundef());
			if (coll.k == LIST) {
				for (size_t i = 0; i < coll.l->v.size(); i++) {
					step();
					env2->cell->v = coll.l->v[i];
					Flow f = loopbody(s.body, env2);
					if (f == BRK) return NORMAL;
					if (f == RET) return RET;
				}
				return NORMAL;
			}
			for (auto &x : iterate(coll)) {
				step();
				env2->cell->v = x;
				Flow f = loopbody(s.body, env2);
				if (f == BRK) return NORMAL;
				if (f == RET) return RET;
			}
			return NORMAL;
		}
		case BREAK: return BRK;
		case CONTINUE: return CNT;
		case RETURN: { auto v = evals(s.e, 0, env); retv = std::move(v); return RET; }
		case FNDECL: {
			decl(env, s.name, vundef());
			env->cell->v = mkfn(&s.params, &s.body, env);
			return NORMAL;
		}
		case MATCH: {
			Val v = ev(s.e[0], env);
			for (size_t i = 0; i < s.arms.size(); i++) {
				auto &a = s.arms[i];
				EnvP env2 = env;
				line = s.armlines[i];
				if (!bind(a.pat, v, env2)) continue;
				if (a.guard && !truthy(ev(a.guard, env2))) continue;
				return block(a.body, env2);
			}
			return NORMAL;
		}
		case ASSERTS: if (!truthy(ev(s.e[0], env))) raise(ASSERT); return NORMAL;
		case RAWS: return NORMAL;
		}
		abort();
	}
};

// ------------------------------------------------------------------ static rules
// Declared before use, one declaration per scope, no assignment to constants, break/continue inside a loop of
// the same function, return inside a function.
struct Static {
	struct Scope { vector<std::pair<string, bool>> names; };
	vector<Scope> sc;
	int loops = 0, fns = 0;
	bool bad = false;
	void declare(const string &n, bool c) {
		for (auto &p : sc.back().names) if (p.first == n) { bad = true; return; }
		sc.back().names.emplace_back(n, c);
	}
	int find(const string &n) { for (size_t i = sc.size(); i--;) for (auto &p : sc[i].names) if (p.first == n) return p.second ? 2 : 1; return 0; }
	void use(const string &n) { if (!find(n)) bad = true; }
	void assignto(const string &n) { if (find(n) != 1) bad = true; }
	void ex(const E &ep) {
		if (!ep) return;
		const Expr &e = *ep;
		switch (e.k) {
		case VAR: use(e.name); break;
		case FNLIT: function(e.params, e.constp, e.body); break;
		case LISTCOMP: case TABLECOMP:
			ex(e.c[0]);
			sc.emplace_back(); declare(e.name, false);
			for (size_t i = 1; i < e.c.size(); i++) ex(e.c[i]);
			sc.pop_back();
			break;
		default: for (auto &x : e.c) ex(x);
		}
	}
	void function(const vector<string> &ps, const vector<bool> &cp, const Block &b) {
		int l = loops; loops = 0; fns++;
		sc.emplace_back();
		for (size_t i = 0; i < ps.size(); i++) declare(ps[i], cp[i]);
		block(b);
		sc.pop_back();
		loops = l; fns--;
	}
	void scoped(const Block &b) { sc.emplace_back(); block(b); sc.pop_back(); }
	void loop(const Block &b) { loops++; scoped(b); loops--; }
	void pat(const PP &p) {
		if (p->k == PLET || p->k == PCONST) declare(p->name, p->k == PCONST);
		if (p->k == PALT) { pat(p->c[0]); return; }     // all alternatives bind the same names
		for (auto &c : p->c) pat(c);
	}
	void block(const Block &b) { for (auto &s : b) st(*s); }
	void st(const Stmt &s) {
		switch (s.k) {
		case LET: case CONST: ex(s.e[0]); declare(s.name, s.k == CONST); break;
		case MULTI:
			for (auto &e : s.e) ex(e);
			if (s.e.size() > s.lv.size()) bad = true;
			for (auto &l : s.lv) {
				if (l.kind == 'l' || l.kind == 'c') declare(l.name, l.kind == 'c');
				else if (l.kind == 'v') assignto(l.name);
				else { ex(l.coll); ex(l.key); }
			}
			break;
		case ASSIGN: case AUG: assignto(s.name); ex(s.e[0]); break;
		case IF: ex(s.e[0]); scoped(s.body); scoped(s.els); break;
		case WHILE: ex(s.e[0]); loop(s.body); break;
		case FORC: sc.emplace_back(); st(*s.init[0]); ex(s.e[0]); st(*s.post[0]); loop(s.body); sc.pop_back(); break;
		case FORIN: ex(s.e[0]); sc.emplace_back(); declare(s.name, false); loop(s.body); sc.pop_back(); break;
		case BREAK: case CONTINUE: if (!loops) bad = true; break;
		case RETURN: for (auto &e : s.e) ex(e); if (!fns) bad = true; break;
		case FNDECL: declare(s.name, s.isconst); function(s.params, s.constp, s.body); break;
		case MATCH:
			ex(s.e[0]);
			for (auto &a : s.arms) { sc.emplace_back(); pat(a.pat); if (a.guard) ex(a.guard); scoped(a.body); sc.pop_back(); }
			break;
		default: for (auto &e : s.e) ex(e);
		}
	}
	bool valid(const Block &b, const vector<string> &predeclared = {}) {
		sc.clear(); sc.emplace_back();
		for (auto &n : predeclared) sc.back().names.emplace_back(n, false);
		block(b);
		return !bad;
	}
};

struct Result { int status = 0; int line = -1; string out; vector<int> trace; uint64_t steps = 0; };

// Evaluate a rendered program (statements carry their lines).
inline Result evaluate(const Block &b, mc::Case *c = nullptr, const std::function<void(Machine &, EnvP &)> &prelude = nullptr, long budget = 20000) {
	Result r;
	Static chk;
	vector<string> pre;
	Machine m;
	m.budget = budget;
	EnvP env;
	if (prelude) prelude(m, env);
	for (Env *e = env.get(); e; e = e->up.get()) pre.push_back(e->name);
	if (!chk.valid(b, pre)) { r.status = SYNTAX; return r; }
	try { m.block(b, env); }
	catch (Raise &x) { r.status = x.status; r.line = x.line; r.trace = m.trace; }
	catch (TooLong &) { throw mc::Prune{}; }
	r.out = m.out;
	r.steps = m.nsteps;
	if (c) { c->transitions = m.nsteps; c->states.assign(m.points.begin(), m.points.end()); }
	return r;
}
inline void fill(mc::Case &c, const Block &b, bool semi = true, const std::function<void(Machine &, EnvP &)> &prelude = nullptr, const string &pretext = "", bool full = false) {
	Render r; r.semi = semi; r.full = full;
	r.out = pretext;
	for (char ch : pretext) if (ch == '\n') r.line++;
	r.block(b, 0);
	Result e = evaluate(b, &c, prelude);
	c.src = r.out;
	c.status = e.status;
	c.out = e.out;
	if (e.status && e.status != SYNTAX) c.line = e.line;
}
}  // namespace ref
