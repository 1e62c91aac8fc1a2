// A01: the C API is a stack machine; every sequence of its operations leaves exactly the stack documented.
#include "ref.hpp"
#include <memory>
#include <algorithm>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;

namespace {
enum K { UNDEF, INT, FLOAT, BOOL, STR, LIST, TABLE, CFN, UD, UPTR };
struct MV; struct Box;
using P = std::shared_ptr<Box>;
struct MV { K k = UNDEF; int64_t i = 0; double f = 0; string s; P o; };
struct Box { vector<MV> l; vector<std::pair<MV, MV>> t; P mt; bool own = false; };   // own: not the built-in metatable
MV mi(int64_t i) { MV v; v.k = INT; v.i = i; return v; }
MV mf(double f) { MV v; v.k = FLOAT; v.f = f; return v; }
MV mb(bool b) { MV v; v.k = BOOL; v.i = b; return v; }
MV ms(const string &s) { MV v; v.k = STR; v.s = s; return v; }
MV mo(K k) { MV v; v.k = k; v.o = std::make_shared<Box>(); return v; }
string desc(const MV &v) {
	char b[64];
	switch (v.k) {
	case UNDEF: return "undef";
	case INT: return "int " + std::to_string(v.i);
	case FLOAT: snprintf(b, sizeof b, "float %a", v.f); return b;
	case BOOL: return v.i ? "true" : "false";
	case STR: return "'" + printable(v.s) + "'";
	case LIST: { string r = "["; for (auto &e : v.o->l) r += desc(e) + ", "; return r + "]"; }
	case TABLE: { vector<string> p; for (auto &e : v.o->t) p.push_back(desc(e.first) + ": " + desc(e.second)); std::sort(p.begin(), p.end()); string r = "{"; for (auto &e : p) r += e + ", "; return r + "}"; }
	case CFN: return "fn";
	case UD: return "userdata " + std::to_string(v.i);
	case UPTR: return "userptr";
	}
	return "?";
}
const char TAG1[] = "tag one", TAG2[] = "tag two";
const char *tname(const MV &v) { if (v.k == UD) return v.i & 1 ? TAG2 : TAG1; static const char *N[] = { "undef", "float", "int", "bool", "str", "list", "table", "fn", "userdata", "userptr" }; static const int M[] = { 0, 2, 1, 3, 4, 5, 6, 7, 8, 9 }; return N[M[v.k]]; }
bool hashable(const MV &v) { return v.k == INT || v.k == FLOAT || v.k == BOOL || v.k == STR || v.k == UPTR || v.k == CFN; }
bool same(const MV &a, const MV &b) { return a.k == b.k && (a.k == STR ? a.s == b.s : a.k == FLOAT ? a.f == b.f : a.i == b.i); }
bool reaches(const P &from, const P &to) {
	if (!from) return false;
	if (from == to) return true;
	for (auto &e : from->l) if (reaches(e.o, to)) return true;
	for (auto &e : from->t) if (reaches(e.second.o, to)) return true;
	return reaches(from->mt, to);
}

int freed[64];
int nuds;
void destroy(void *p) { ++*(int *)p; }
int add(struct YASL_State *S) {
	yasl_int r = YASL_popint(S), l = YASL_popint(S);
	YASL_pushint(S, l * 100 + r);
	return 1;
}

enum Op { PUNDEF, PINT, PFLOAT, PBOOL, PLIT, PLSTR, PZSTR, PKEY, PLIST, PTABLE, PCFN, PUD, PUPTR,
	DUP, POP, POPINT, POPFLOAT, POPBOOL, POPCSTR, POPUD,
	TSET, TITER, LPUSH, LGET0, LGETM1, LGET5, LEN, SETG, LOADG, SETNOPE, LOADNOPE, REGMT, LOADMT, LOADNOMT, SETMT, CALL2, NOPS };
const char *ONAME[] = { "pushundef", "pushint 7", "pushfloat 2.5", "pushbool true", "pushlit 'k'", "pushlstr 'a\\0b'", "pushzstr 'zs'", "pushint 1", "pushlist", "pushtable", "pushcfunction", "pushuserdata", "pushuserptr",
	"duptop", "pop", "popint", "popfloat", "popbool", "popcstr", "popuserdata",
	"tableset", "tablenext*", "listpush", "listget 0", "listget -1", "listget 5", "len", "setglobal g", "loadglobal g", "setglobal nope", "loadglobal nope", "registermt m", "loadmt m", "loadmt none", "setmt", "functioncall 2" };

struct World {
	vector<MV> st;
	MV g; bool gset = false;
	MV m; bool mset = false;
	int uds = 0;
	bool dead = false; int status = 0;             // a runtime error ended it
};
const MV &top(const World &w, size_t n = 0) { return w.st[w.st.size() - 1 - n]; }
// May this operation be used here (throwing = errors may be raised)?
bool legal(const World &w, int op, bool throwing) {
	size_t n = w.st.size();
	switch (op) {
	case DUP: case POP: case POPINT: case POPFLOAT: case POPBOOL: case POPCSTR: case SETG: case SETNOPE: return n >= 1;
	case POPUD: return n >= 1 && top(w).k == UD;
	case TSET: return n >= 3 && (top(w, 2).k != TABLE || (top(w, 1).k != UNDEF && !reaches(top(w).o, top(w, 2).o)));
	case TITER: return n >= 1 && top(w).k == TABLE;
	case LPUSH: return n >= 2 && (top(w, 1).k != LIST || !reaches(top(w).o, top(w, 1).o));
	case LGET0: case LGETM1: return n >= 1 && (top(w).k != LIST || !top(w).o->l.empty() || throwing);
	case LGET5: return n >= 1 && (top(w).k != LIST || throwing);
	case LEN: return n >= 1 && (top(w).k == STR || ((top(w).k == LIST || top(w).k == TABLE) && !top(w).o->own) || throwing) && !((top(w).k == LIST || top(w).k == TABLE || top(w).k == UD) && top(w).o->own);
	case REGMT: return n >= 1 && top(w).k == TABLE;
	case SETMT: return n >= 2 && (!(top(w).k == TABLE) || !reaches(top(w).o, top(w, 1).o));
	case CALL2: return n >= 3 && top(w, 2).k == CFN && top(w).k == INT && top(w, 1).k == INT;
	}
	return true;
}
// The reference. ret: what the call must return (-1: nothing to compare).
void model(World &w, int op, int64_t &ret) {
	auto &s = w.st;
	ret = -1;
	auto pop = [&] { MV v = s.back(); s.pop_back(); return v; };
	switch (op) {
	case PUNDEF: s.push_back({}); break;
	case PINT: s.push_back(mi(7)); break;
	case PKEY: s.push_back(mi(1)); break;
	case PFLOAT: s.push_back(mf(2.5)); break;
	case PBOOL: s.push_back(mb(true)); break;
	case PLIT: s.push_back(ms("k")); break;
	case PLSTR: s.push_back(ms(string("a\0b", 3))); break;
	case PZSTR: s.push_back(ms("zs")); break;
	case PLIST: s.push_back(mo(LIST)); break;
	case PTABLE: s.push_back(mo(TABLE)); break;
	case PCFN: { MV v; v.k = CFN; v.i = 1; s.push_back(v); break; }
	case PUD: { MV v = mo(UD); v.i = w.uds++; s.push_back(v); break; }
	case PUPTR: { MV v; v.k = UPTR; v.i = 1; s.push_back(v); break; }
	case DUP: s.push_back(top(w)); ret = 0; break;
	case POP: pop(); break;
	case POPINT: { MV v = pop(); ret = v.k == INT ? v.i : 0; break; }
	case POPFLOAT: { MV v = pop(); ret = v.k == FLOAT ? (int64_t)(v.f * 10) : 0; break; }
	case POPBOOL: { MV v = pop(); ret = v.k == BOOL ? v.i : 0; break; }
	case POPCSTR: { MV v = pop(); ret = v.k == STR ? (int64_t)fnv(v.s.c_str(), strlen(v.s.c_str())) : 0; break; }
	case POPUD: { MV v = pop(); ret = v.i; break; }
	case TSET: {
		MV v = pop(), k = pop(); MV &t = s.back();
		if (t.k != TABLE) { ret = YASL_TYPE_ERROR; break; }
		ret = 0;
		auto &m = t.o->t;
		size_t i = 0; while (i < m.size() && !same(m[i].first, k)) i++;
		if (v.k == UNDEF) { if (i < m.size()) m.erase(m.begin() + (long)i); }
		else if (!hashable(k)) ret = YASL_TYPE_ERROR;
		else if (i < m.size()) m[i].second = v;
		else m.push_back({ k, v });
		break;
	}
	case TITER: break;
	case LPUSH: { MV v = pop(); ret = s.back().k == LIST ? 0 : YASL_TYPE_ERROR; if (!ret) s.back().o->l.push_back(v); break; }
	case LGET0: case LGETM1: case LGET5: {
		if (top(w).k != LIST) { ret = YASL_TYPE_ERROR; break; }
		auto &l = top(w).o->l;
		size_t i = op == LGET0 ? 0 : op == LGET5 ? 5 : l.size() - 1;
		if (i >= l.size()) { w.dead = true; w.status = YASL_VALUE_ERROR; break; }
		MV v = l[i]; s.push_back(v); ret = 0; break;
	}
	case LEN: {
		const MV &v = top(w);
		if (v.k == STR) { int64_t n = (int64_t)v.s.size(); s.back() = mi(n); }
		else if (v.k == LIST) { int64_t n = (int64_t)v.o->l.size(); s.back() = mi(n); }
		else if (v.k == TABLE) { int64_t n = (int64_t)v.o->t.size(); s.back() = mi(n); }
		else { w.dead = true; w.status = YASL_TYPE_ERROR; }
		break;
	}
	case SETG: w.g = pop(); w.gset = true; ret = 0; break;
	case LOADG: if (w.gset) { s.push_back(w.g); ret = 0; } else ret = YASL_ERROR; break;
	case SETNOPE: ret = YASL_ERROR; break;
	case LOADNOPE: ret = YASL_ERROR; break;
	case REGMT: w.m = pop(); w.mset = true; ret = 0; break;
	case LOADMT: if (w.mset) { s.push_back(w.m); ret = 0; } else ret = YASL_ERROR; break;
	case LOADNOMT: ret = YASL_ERROR; break;
	case SETMT: {
		if (top(w).k != TABLE && top(w).k != UNDEF) { ret = YASL_TYPE_ERROR; break; }
		MV mt = pop();
		if (top(w).k != UD && top(w).k != LIST && top(w).k != TABLE) { ret = YASL_TYPE_ERROR; break; }
		top(w).o->mt = mt.o; top(w).o->own = true; ret = 0; break;
	}
	case CALL2: { MV r = pop(), l = pop(); pop(); s.push_back(mi(l.i * 100 + r.i)); ret = 1; break; }
	}
}
MV read(struct YASL_State *S, string &bad);
int64_t real(struct YASL_State *S, int op, const World &before, string &bad) {
	switch (op) {
	case PUNDEF: YASL_pushundef(S); break;
	case PINT: YASL_pushint(S, 7); break;
	case PKEY: YASL_pushint(S, 1); break;
	case PFLOAT: YASL_pushfloat(S, 2.5); break;
	case PBOOL: YASL_pushbool(S, true); break;
	case PLIT: YASL_pushlit(S, "k"); break;
	case PLSTR: { char b[3] = { 'a', 0, 'b' }; YASL_pushlstr(S, b, 3); b[0] = 'X'; break; }
	case PZSTR: { char b[3] = "zs"; YASL_pushzstr(S, b); b[0] = 'X'; break; }
	case PLIST: YASL_pushlist(S); break;
	case PTABLE: YASL_pushtable(S); break;
	case PCFN: YASL_pushcfunction(S, add, 2); break;
	case PUD: YASL_pushuserdata(S, &freed[nuds], nuds & 1 ? TAG2 : TAG1, destroy); nuds++; break;
	case PUPTR: YASL_pushuserptr(S, &freed[63]); break;
	case DUP: return YASL_duptop(S);
	case POP: YASL_pop(S); break;
	case POPINT: return YASL_popint(S);
	case POPFLOAT: return (int64_t)(YASL_popfloat(S) * 10);
	case POPBOOL: return YASL_popbool(S);
	case POPCSTR: { char *p = YASL_popcstr(S); if (!p) return 0; int64_t h = (int64_t)fnv(p, strlen(p)); free(p); return h; }
	case POPUD: return (int *)YASL_popuserdata(S) - freed;
	case TSET: return YASL_tableset(S);
	case TITER: {
		vector<MV> seen; int n = 0;
		YASL_pushundef(S);
		MV all = mo(TABLE);
		while (YASL_tablenext(S)) {
			MV v = read(S, bad); YASL_pop(S);
			MV k = read(S, bad);
			for (auto &x : all.o->t) if (same(x.first, k)) { bad += "tablenext came to " + desc(k) + " twice\n"; YASL_pop(S); return -1; }
			all.o->t.push_back({ k, v });
			if (++n > 50) break;
		}
		if (desc(all) != desc(top(before))) bad += "tablenext listed " + desc(all) + ", the table is " + desc(top(before)) + "\n";
		break;
	}
	case LPUSH: return YASL_listpush(S);
	case LGET0: return YASL_listget(S, 0);
	case LGETM1: return YASL_listget(S, -1);
	case LGET5: return YASL_listget(S, 5);
	case LEN: YASL_len(S); break;
	case SETG: return YASL_setglobal(S, "g");
	case LOADG: return YASL_loadglobal(S, "g");
	case SETNOPE: return YASL_setglobal(S, "nope");
	case LOADNOPE: return YASL_loadglobal(S, "nope");
	case REGMT: return YASL_registermt(S, "m");
	case LOADMT: return YASL_loadmt(S, "m");
	case LOADNOMT: return YASL_loadmt(S, "none");
	case SETMT: return YASL_setmt(S);
	case CALL2: return YASL_functioncall(S, 2);
	}
	return -1;
}
// What the top of the stack is, through the API alone.
MV read(struct YASL_State *S, string &bad) {
	MV v;
	int kinds = 0;
	if (YASL_isundef(S)) kinds++;
	if (YASL_isint(S)) { kinds++; v = mi(YASL_peekint(S)); } else if (YASL_peekint(S)) bad += "peekint of another kind is not 0\n";
	if (YASL_isfloat(S)) { kinds++; v = mf(YASL_peekfloat(S)); } else if (YASL_peekfloat(S) != 0) bad += "peekfloat of another kind is not 0\n";
	if (YASL_isbool(S)) { kinds++; v = mb(YASL_peekbool(S)); } else if (YASL_peekbool(S)) bad += "peekbool of another kind is not false\n";
	if (YASL_isstr(S)) {
		kinds++;
		YASL_duptop(S); YASL_len(S); int64_t n = YASL_popint(S);
		char *p = YASL_peekcstr(S); v = ms(string(p, (size_t)n)); free(p);
	} else { char *p = YASL_peekcstr(S); if (p) { bad += "peekcstr of another kind is not NULL\n"; free(p); } }
	if (YASL_islist(S)) {
		kinds++; v = mo(LIST);
		YASL_pushundef(S);                             // a list may have a metatable with a len of its own, so count by hand
		YASL_pop(S);
		YASL_duptop(S); YASL_len(S); int64_t n = YASL_popint(S);
		for (int64_t i = 0; i < n && i < 20; i++) { YASL_listget(S, i); v.o->l.push_back(read(S, bad)); YASL_pop(S); }
	}
	if (YASL_istable(S)) {
		kinds++; v = mo(TABLE);
		YASL_pushundef(S);
		for (int n = 0; YASL_tablenext(S) && n < 20; n++) { MV e = read(S, bad); YASL_pop(S); v.o->t.push_back({ read(S, bad), e }); }
	}
	bool t1 = YASL_isuserdata(S, TAG1), t2 = YASL_isuserdata(S, TAG2);
	if (t1 || t2) { kinds++; v = mo(UD); YASL_duptop(S); v.i = (int *)YASL_popuserdata(S) - freed; if (t1 == t2 || t2 != (v.i & 1)) bad += "isuserdata does not go by the tag\n"; }
	else if (YASL_peekuserdata(S)) bad += "peekuserdata of another kind is not NULL\n";
	if ((t1 || t2) && YASL_peekuserdata(S) != &freed[v.i]) bad += "peekuserdata gives another pointer\n";
	if (YASL_isuserptr(S)) { kinds++; v.k = UPTR; if (YASL_peekuserptr(S) != &freed[63]) bad += "peekuserptr gives another pointer\n"; }
	else if (YASL_peekuserptr(S)) bad += "peekuserptr of another kind is not NULL\n";
	string tn = YASL_peektypename(S);
	if (tn == "userptr") { YASL_duptop(S); if (YASL_popuserptr(S) != &freed[63]) bad += "popuserptr gives another pointer\n"; }
	if (tn == "fn") { kinds++; v.k = CFN; }
	static std::map<int, string> types;                    // one constant for each type
	string kn = v.k == UD ? "userdata" : tn;
	auto ty = types.insert({ YASL_peektype(S), kn });
	if (ty.first->second != kn) bad += "peektype says the same of " + kn + " and " + ty.first->second + "\n";
	if (kinds != 1) bad += "the top of the stack is of " + std::to_string(kinds) + " kinds\n";
	if (tn != tname(v)) bad += "peektypename says " + tn + " of " + desc(v) + "\n";
	return v;
}
bool has_mt(const MV &v) {
	if (!v.o) return false;
	if (v.o->own) return true;
	for (auto &e : v.o->l) if (has_mt(e)) return true;
	for (auto &e : v.o->t) if (has_mt(e.second)) return true;
	return false;
}
void reach(const MV &v, vector<bool> &live) {
	if (v.k == UD) live[(size_t)v.i] = true;
	if (!v.o) return;
	for (auto &e : v.o->l) reach(e, live);
	for (auto &e : v.o->t) reach(e.second, live);
	if (v.o->mt) for (auto &e : v.o->mt->t) reach(e.second, live);
}
// Every position against the model.
void check_stack(struct YASL_State *S, const World &w, unsigned base, string &bad) {
	for (unsigned i = 0; i < w.st.size(); i++) {
		const MV &v = w.st[i];
		unsigned n = base + i;
		string at = "position " + std::to_string(n) + " (" + desc(v) + "): ";
		if (YASL_isnundef(S, n) != (v.k == UNDEF) || YASL_isnint(S, n) != (v.k == INT) || YASL_isnfloat(S, n) != (v.k == FLOAT) || YASL_isnbool(S, n) != (v.k == BOOL) || YASL_isnstr(S, n) != (v.k == STR) ||
		    YASL_isnlist(S, n) != (v.k == LIST) || YASL_isntable(S, n) != (v.k == TABLE) || YASL_isnuserptr(S, n) != (v.k == UPTR) || YASL_isnuserdata(S, TAG1, n) != (v.k == UD && !(v.i & 1)) || YASL_isnuserdata(S, TAG2, n) != (v.k == UD && (v.i & 1))) bad += at + "wrong kind\n";
		if (string(YASL_peekntypename(S, n)) != tname(v)) bad += at + "is said to be a " + YASL_peekntypename(S, n) + "\n";
		if (YASL_peeknint(S, n) != (v.k == INT ? v.i : 0)) bad += at + "peeknint\n";
		if (YASL_peeknfloat(S, n) != (v.k == FLOAT ? v.f : 0)) bad += at + "peeknfloat\n";
		if (YASL_peeknbool(S, n) != (v.k == BOOL && v.i)) bad += at + "peeknbool\n";
		if (v.k == UD ? YASL_peeknuserdata(S, n) != &freed[v.i] : v.k != LIST && v.k != TABLE && YASL_peeknuserdata(S, n)) bad += at + "peeknuserdata\n";
	}
	if (w.st.empty()) return;
	if (!has_mt(top(w))) {
		MV got = read(S, bad);
		if (desc(got) != desc(top(w))) bad += "the top of the stack is " + desc(got) + ", expected " + desc(top(w)) + "\n";
	}
}
void check_uds(const World &w, string &bad) {
	vector<bool> live(64);
	for (auto &v : w.st) reach(v, live);
	if (w.gset) reach(w.g, live);
	if (w.mset) reach(w.m, live);
	for (int i = 0; i < w.uds; i++) {
		if (freed[i] > 1) bad += "userdata destroyed twice\n";
		if (live[(size_t)i] && freed[i]) bad += "userdata destroyed while in use\n";
	}
}

struct Script {
	vector<int> ops;
	int nret = 0;
	string text() const { string r; for (int o : ops) r += string(r.empty() ? "" : "; ") + ONAME[o]; return r; }
};
// One run at a time.
const Script *script; World *world; string *trouble; unsigned base; bool finished;
void play(struct YASL_State *S) {
	for (int op : script->ops) {
		World before = *world;
		int64_t want;
		model(*world, op, want);
		int64_t got = real(S, op, before, *trouble);         // does not come back if it raises an error
		if (world->dead) { *trouble += string(ONAME[op]) + " was expected to raise an error\n"; return; }
		if (want != -1 && got != want) *trouble += string(ONAME[op]) + " returned " + std::to_string(got) + ", expected " + std::to_string(want) + "\n";
		check_stack(S, *world, base, *trouble);
		check_uds(*world, *trouble);
		if (!trouble->empty()) { *trouble = "after " + string(ONAME[op]) + ": " + *trouble; return; }
	}
	finished = true;
}
int host(struct YASL_State *S) {
	play(S);
	return trouble->empty() ? script->nret : 0;
}
vector<MV> *collected;
int collect(struct YASL_State *S) {
	int64_t n = YASL_peekvargscount(S);
	for (int64_t i = 0; i < n; i++) {
		// len of a value with another metatable is not len of a list
		bool skip = i < script->nret && has_mt(world->st[world->st.size() - 1 - (size_t)i]);
		collected->insert(collected->begin(), skip ? MV{} : read(S, *trouble));
		YASL_pop(S);
	}
	YASL_pushint(S, n);
	return 1;
}
struct Args { const char *src; vector<MV> v; };
vector<MV> args_of(uint32_t k) {
	switch (k) {
	case 0: return {};
	case 1: { MV l = mo(LIST); l.o->l.push_back(mi(5)); return { mi(1), ms("x"), l }; }
	default: { MV t = mo(TABLE); t.o->t.push_back({ ms("k"), mi(2) }); return { t, MV{} }; }
	}
}
const char *ARGSRC[] = { "", "1, 'x', [5]", "{.k: 2}, undef" };
MV copy(const MV &v) { MV r = v; if (v.o) { r.o = std::make_shared<Box>(); for (auto &e : v.o->l) r.o->l.push_back(copy(e)); for (auto &e : v.o->t) r.o->t.push_back({ e.first, copy(e.second) }); } return r; }

void gen(Chooser &ch, Case &c, int depth, const vector<int> &alphabet, bool toplevel) {
	uint32_t where = toplevel ? 1 + ch.choose(2) : 0;            // in a C function; before, after the program runs
	uint32_t a = toplevel ? 0 : ch.choose(3);
	World w;
	w.st = args_of(a);
	auto sc = std::make_shared<Script>();
	for (int i = 0; i < depth && !w.dead; i++) {
		vector<int> can;
		for (int op : alphabet) if (legal(w, op, where == 0)) can.push_back(op);
		uint32_t k = ch.choose((uint32_t)can.size());
		sc->ops.push_back(can[k]);
		int64_t r; model(w, can[k], r);
		string s; for (auto &v : w.st) s += desc(v) + "|";
		if (w.gset) s += " g " + desc(w.g);
		if (w.mset) s += " m " + desc(w.m);
		c.states.push_back(fp(s)); c.transitions++;
	}
	if (where == 0 && !w.dead) {
		int h = (int)w.st.size();
		uint32_t k = ch.choose(3);
		sc->nret = k == 0 ? 0 : k == 1 ? std::min(h, 1) : h;
		if (k == 2 && h < 2) throw Prune{};
	}
	c.key = (where == 0 ? string("host(") + ARGSRC[a] + ")" : where == 1 ? "before the program" : "after the program") + ": " + sc->text() + "; return " + std::to_string(sc->nret);
	int64_t status = w.dead ? w.status : 0;
	c.custom = [sc, a, where, w, status]() -> string {
		World now; now.st = args_of(a);
		for (auto &v : now.st) v = copy(v);
		string bad; vector<MV> rets;
		script = sc.get(); world = &now; trouble = &bad; collected = &rets; base = where ? 1 : 0; finished = false;
		memset(freed, 0, sizeof freed); nuds = 0;
		RunOpts o; o.nolibs = true;
		auto drain = [&](struct YASL_State *S) {
			for (size_t i = now.st.size(); bad.empty() && i-- > 0;) {
				if (!has_mt(now.st[i])) { MV v = read(S, bad); if (desc(v) != desc(now.st[i])) bad += "popped " + desc(v) + ", expected " + desc(now.st[i]) + "\n"; }
				YASL_pop(S);
			}
			if (bad.empty() && YASL_popint(S) != 424242) bad += "the stack is not as high as it should be\n";
		};
		o.setup = [&](void *p) {
			auto S = (struct YASL_State *)p;
			YASL_declglobal(S, "host"); YASL_pushcfunction(S, host, (int)now.st.size()); YASL_setglobal(S, "host");
			YASL_declglobal(S, "collect"); YASL_pushcfunction(S, collect, -1); YASL_setglobal(S, "collect");
			YASL_declglobal(S, "g");
			if (where == 1) { YASL_pushint(S, 424242); play(S); drain(S); }
		};
		o.teardown = [&](void *p) {
			auto S = (struct YASL_State *)p;
			if (where == 2) { YASL_pushint(S, 424242); play(S); }
			if (where == 2) drain(S);
		};
		string src = where ? "echo 'on';\n" : "let before = ['kept'];\necho 'on';\n";
		if (where == 0) src += string("echo collect('<', host(") + ARGSRC[a] + "));\necho before;\n";
		count_traces(1);
		Outcome r = run_program(src + "echo 'off';\n", o);
		if (!bad.empty()) return bad;
		if (r.status != status) bad += "status " + std::to_string(r.status) + ", expected " + std::to_string(status) + ": " + printable(r.err) + "\n";
		if (!status && !finished) bad += "the operations did not end\n";
		string out = status ? "on\n" : where ? "on\noff\n" : "on\n" + std::to_string(1 + sc->nret) + "\n[kept]\noff\n";
		if (r.out != out) bad += "printed " + printable(r.out) + ", expected " + printable(out) + "\n";
		if (where == 0 && !status) {
			if (rets.size() != (size_t)sc->nret + 1 || desc(rets[0]) != "'<'") bad += "the call delivered " + std::to_string((int)rets.size() - 1) + " values\n";
			else for (int i = 0; i < sc->nret; i++) {
				const MV &v = now.st[now.st.size() - (size_t)sc->nret + (size_t)i];
				if (!has_mt(v) && desc(v) != desc(rets[(size_t)i + 1])) bad += "result " + std::to_string(i) + " is " + desc(rets[(size_t)i + 1]) + ", expected " + desc(v) + "\n";
			}
		}
		for (int i = 0; i < now.uds; i++) if (freed[i] != 1) bad += "a userdata was destroyed " + std::to_string(freed[i]) + " times\n";
		if (r.badheap) bad += "heap fault: " + r.heapmsg + "\n";
		if (r.leaked) bad += std::to_string(r.leaked) + " heap blocks leaked\n";
		return bad;
	};
}
// ---- YASL_functioncall of every kind of function, from C functions and from the host
struct Fn { const char *name; std::function<vector<string>(const vector<string> &)> f; };   // on printed values; {"!"} raises
string arg(const vector<string> &a, size_t i) { return i < a.size() ? a[i] : "undef"; }
const char *FNS =
	"let k = 10;\n"
	"fn two(a, b) { return [a, b]; };\n"
	"fn multi(a) { return a, 'and', a; };\n"
	"fn nothing() { let x = 0; };\n"
	"fn counter(d) { k += d ?? 1; return k; };\n"
	"fn rec(n) { if n == undef || n < 1 { return 0; }; return n + rec(n - 1); };\n"
	"fn loop(a) { for x <- [a, 2, 3] { for y <- {1: 2} { return x; }; }; return 'none'; };\n"
	"fn again(a, b) { const t = 'local'; return call2(two, a, b), t; };\n"
	"fn deep(a) { return call1(multi, a); };\n"
	"fn local(a) { let l = 5; const inner = fn(x) { l += 1; return [x, l]; }; const r = call1(inner, a); return r ~ l; };\n"
	"fn raise(a) { const l = [a]; for x <- l { assert false; }; return 1; };\n"
	"fn order(a, b, c) { let r = []; r->push(a); r->push(b); r->push(c); return r->tostr(), len r; };\n";
const char *CALLABLES[] = { "two", "multi", "nothing", "counter", "rec", "loop", "again", "deep", "local", "order", "cadd", "cmany", "cnone", "cvar", "obj", "raise", "notfn" };
const int NCALL = 17;
struct Ref { int64_t k = 10; bool err = false; int status = 0; };
// args are printed ints or 'undef'
vector<string> apply_ref(Ref &w, int f, const vector<string> &a) {
	auto num = [](const string &s) { return s == "undef" ? 0 : atoll(s.c_str()); };
	switch (f) {
	case 0: return { "[" + arg(a, 0) + ", " + arg(a, 1) + "]" };
	case 1: return { arg(a, 0), "and", arg(a, 0) };
	case 2: return { "undef" };
	case 3: w.k += a.empty() || a[0] == "undef" ? 1 : num(a[0]); return { std::to_string(w.k) };
	case 4: { int64_t n = a.empty() ? 0 : num(a[0]); return { std::to_string(n < 1 ? 0 : n * (n + 1) / 2) }; }
	case 5: return { arg(a, 0) };
	case 6: return { "[" + arg(a, 0) + ", " + arg(a, 1) + "]", "local" };
	case 7: return { arg(a, 0), "and", arg(a, 0) };
	case 8: return { "[" + arg(a, 0) + ", 6]6" };
	case 9: return { "[" + arg(a, 0) + ", " + arg(a, 1) + ", " + arg(a, 2) + "]", "3" };
	case 10: return { std::to_string((a.size() > 0 ? num(a[0]) : 0) * 100 + (a.size() > 1 ? num(a[1]) : 0)) };
	case 11: return { "1", "2", "3", "4" };
	case 12: return {};
	case 13: return { std::to_string(a.size()) };
	case 14: return { "called", arg(a, 0) };
	case 15: w.err = true; w.status = YASL_ASSERT_ERROR; return {};
	default: w.err = true; w.status = YASL_TYPE_ERROR; return {};
	}
}
int mode;                                                   // how the C function calls
int depth_of_c;
template <int N> int apply(struct YASL_State *S) {
	int64_t x[3];
	if (mode == 0) return YASL_functioncall(S, N);
	if (mode == 1) {                                    // with values of its own below
		YASL_pushlist(S); YASL_pushint(S, 5); YASL_listpush(S);
		YASL_loadglobal(S, "cur");
		bool undef[3];
		for (unsigned i = 0; i < N; i++) { undef[i] = YASL_isnundef(S, i + 1); x[i] = YASL_peeknint(S, i + 1); }
		for (int i = 0; i < N; i++) { if (undef[i]) YASL_pushundef(S); else YASL_pushint(S, x[i]); }
		int r = YASL_functioncall(S, N);
		if (!YASL_isnlist(S, N + 1)) *trouble += "a value below the call is gone\n";
		for (int i = 0; i < N; i++) if (YASL_isnundef(S, (unsigned)i + 1) != undef[i] || YASL_peeknint(S, (unsigned)i + 1) != x[i]) *trouble += "an argument below the call changed\n";
		return r;
	}
	// twice, delivering the results of both
	bool undef[3];
	for (unsigned i = 0; i < N; i++) { undef[i] = YASL_isnundef(S, i + 1); x[i] = YASL_peeknint(S, i + 1); }
	int r = YASL_functioncall(S, N);
	YASL_loadglobal(S, "cur");
	for (int i = 0; i < N; i++) { if (undef[i]) YASL_pushundef(S); else YASL_pushint(S, x[i]); }
	return r + YASL_functioncall(S, N);
}
int call1(struct YASL_State *S) { return YASL_functioncall(S, 1); }
int call2(struct YASL_State *S) { return YASL_functioncall(S, 2); }
int cmany(struct YASL_State *S) { for (int i = 1; i < 5; i++) YASL_pushint(S, i); return 4; }
int cnone(struct YASL_State *S) { YASL_pushint(S, 99); return 0; }
int cvar(struct YASL_State *S) { int64_t n = YASL_peekvargscount(S); YASL_pushint(S, n); return 1; }
int cadd(struct YASL_State *S) { int64_t a = YASL_peeknint(S, 0), b = YASL_peeknint(S, 1); YASL_pushint(S, a * 100 + b); return 1; }
int setmt(struct YASL_State *S) { YASL_setmt(S); return 1; }
void decl(struct YASL_State *S, const char *n, YASL_cfn f, int k) { YASL_declglobal(S, n); YASL_pushcfunction(S, f, k); YASL_setglobal(S, n); }
string printed(const MV &v) {
	if (v.k == INT) return std::to_string(v.i);
	if (v.k == STR) return v.s;
	if (v.k == UNDEF) return "undef";
	if (v.k != LIST) return "?";
	string r; for (auto &e : v.o->l) r += (r.empty() ? "" : ", ") + printed(e);
	return "[" + r + "]";
}
int show(struct YASL_State *S) {                              // all of its arguments, as one str
	string r;
	for (int64_t n = YASL_peekvargscount(S); n > 0; n--) { r = printed(read(S, *trouble)) + "," + r; YASL_pop(S); }
	YASL_pushlstr(S, ("<" + r + ">").data(), r.size() + 2);
	return 1;
}
void gen_call(Chooser &ch, Case &c, bool th) {
	int f = (int)ch.choose(NCALL), n = (int)ch.choose(4);
	uint32_t where = ch.choose(6);                              // 5: from the host, after the program
	int md = (int)ch.choose(3);
	int f2 = th ? (int)ch.choose(NCALL) : (int)ch.choose(3) * 5;
	static const vector<string> A = { "3", "undef", "1" };
	vector<string> a(A.begin(), A.begin() + n);
	if (f == 13 && where == 5) throw Prune{};
	string as; for (auto &x : a) as += ", " + x;
	string call = "apply" + std::to_string(n) + "(" + CALLABLES[f] + as + ")";
	string src = string(FNS) + "const obj = setmt({}, {.__call: fn(a) { return 'called', a; }});\nconst notfn = 5;\n";
	Ref w; string out = "on\n";
	src += "cur = " + string(CALLABLES[f]) + ";\necho 'on';\n";
	auto once = [&](int fn) { vector<string> r = apply_ref(w, fn, a); if (w.err) return r; if (md == 2) { auto q = apply_ref(w, fn, a); r.insert(r.end(), q.begin(), q.end()); } return r; };
	auto shown = [&](const vector<string> &r) { string s = "<"; for (auto &x : r) s += x + ","; return s + ">\n"; };
	auto first = [](const vector<string> &r) { return r.empty() ? string("undef") : r[0]; };
	switch (where) {
	case 0: src += "echo show(" + call + ");\n"; { auto r = once(f); if (!w.err) out += shown(r); } break;
	case 1: src += "echo [1, " + call + ", 2];\n"; { auto r = once(f); if (!w.err) out += "[1, " + first(r) + ", 2]\n"; } break;
	case 2: src += "for i <- [1, 2] { let q = 7; echo show(" + call + "); echo [i, q]; };\n"; for (int i = 1; i < 3 && !w.err; i++) { auto r = once(f); if (!w.err) out += shown(r) + "[" + std::to_string(i) + ", 7]\n"; } break;
	case 3: src += "fn outer(p) { let q = [p]; let r = " + call + "; q->push(r); return q; };\necho outer(8);\necho outer(9);\n"; for (int i = 8; i < 10 && !w.err; i++) { auto r = once(f); if (!w.err) out += "[" + std::to_string(i) + ", " + first(r) + "]\n"; } break;
	case 4: src += "let u = 0; let v = 0; let x = 0;\nu, v, x = 's', " + call + ";\necho [u, v, x];\n"; { auto r = once(f); if (!w.err) out += "[s, " + first(r) + ", " + (r.size() > 1 ? r[1] : string("undef")) + "]\n"; } break;
	default: if (w.err || f >= 15) throw Prune{}; if (md) throw Prune{}; break;
	}
	vector<string> hostr;
	if (where == 5) { hostr = apply_ref(w, f, a); }
	if (!w.err && where != 5) {
		src += "cur = " + string(CALLABLES[f2]) + ";\necho show(apply" + std::to_string(n) + "(" + CALLABLES[f2] + as + "));\n";
		auto r = once(f2); if (!w.err) out += shown(r);
	}
	if (where != 5) { src += "echo k;\n"; if (!w.err) out += std::to_string(w.k) + "\n"; }
	c.src = src;
	c.key = string("mode ") + std::to_string(md) + ": " + src;
	c.transitions = 4; c.states.push_back(fp(c.key));
	Case want; want.out = out; want.status = w.status;
	c.custom = [=]() -> string {
		string bad; vector<MV> rets; trouble = &bad; collected = &rets; mode = md; World none; world = &none;
		RunOpts o; o.nolibs = true;
		o.setup = [](void *p) {
			auto S = (struct YASL_State *)p;
			decl(S, "apply0", apply<0>, 1); decl(S, "apply1", apply<1>, 2); decl(S, "apply2", apply<2>, 3); decl(S, "apply3", apply<3>, 4);
			decl(S, "call1", call1, 2); decl(S, "call2", call2, 3);
			decl(S, "cmany", cmany, 0); decl(S, "cnone", cnone, 2); decl(S, "cvar", cvar, -1); decl(S, "cadd", cadd, 2); decl(S, "setmt", setmt, 2);
			YASL_declglobal(S, "cur"); YASL_pushundef(S); YASL_setglobal(S, "cur");
			decl(S, "show", show, -1);
		};
		count_traces(1);
		o.teardown = [&](void *p) {
			if (where != 5) return;
			auto S = (struct YASL_State *)p;
			YASL_pushint(S, 31337);
			for (int round = 0; round < 2; round++) {
				YASL_loadglobal(S, "cur");
				for (auto &x : a) { if (x == "undef") YASL_pushundef(S); else YASL_pushint(S, atoll(x.c_str())); }
				int r = YASL_functioncall(S, (int)a.size());
				if (r != (int)hostr.size()) { bad += "functioncall returned " + std::to_string(r) + ", expected " + std::to_string(hostr.size()) + "\n"; return; }
				if (round == 0) for (int i = r; i-- > 0;) {
					string got = YASL_isint(S) ? std::to_string(YASL_peekint(S)) : YASL_isundef(S) ? "undef" : "";
					if (YASL_isstr(S)) { char *t = YASL_peekcstr(S); got = t; free(t); }
					if (!YASL_islist(S) && got != hostr[(size_t)i]) bad += "result " + std::to_string(i) + " is " + got + ", expected " + hostr[(size_t)i] + "\n";
					YASL_pop(S);
				}
				else for (int i = 0; i < r; i++) YASL_pop(S);
			}
			if (YASL_popint(S) != 31337) bad += "the stack is not as high as it should be\n";
		};
		Outcome r = run_program(src, o);
		return bad + compare(want, r);
	};
}
// YASL_len and the checked accessors on everything a program can pass.
int clen(struct YASL_State *S) {
	YASL_pushlit(S, "below"); YASL_pushint(S, 4);
	YASL_loadglobal(S, "cur");
	YASL_len(S);
	int64_t n = YASL_peekint(S);
	if (!YASL_isint(S)) *trouble += "YASL_len left no int\n";
	YASL_pop(S);
	if (!YASL_isint(S) || YASL_popint(S) != 4) *trouble += "YASL_len took a value too many or left one\n";
	if (!YASL_isstr(S)) *trouble += "YASL_len took a value too many or left one\n";
	YASL_pop(S);
	YASL_pushint(S, n * 2);
	return 1;
}
void gen_len(Chooser &ch, Case &c) {
	static const vector<std::pair<string, int>> O = { {"[]", 0}, {"[1, 2]", 2}, {"''", 0}, {"'abc'", 3}, {"'abc'[1:]", 2}, {"{}", 0}, {"{1: 2}", 1}, {"setmt({}, {.__len: fn(x) { return 7; }})", 7},
		{"setmt([5], {.__len: fn(x) { let n = 0; for i <- [1, 2, 3] { n += i; }; return n; }})", 6}, {"setmt({}, {.__len: clen2})", 9}, {"setmt({}, {.__len: fn(x) { return len [x, x]; }})", 2},
		{"setmt({}, {.__len: fn(x) { return helper(x); }})", 12}, {"5", -5}, {"undef", -5}, {"1.5", -5}, {"true", -5}, {"fn(x) { return 1; }", -5}, {"clen", -5}, {"setmt({}, {})", -5}, {"setmt({}, {.__len: 5})", -5}, {"setmt({}, {.__len: fn(x) { assert false; return 1; }})", -10} };
	auto &o = ch.pick(O);
	uint32_t ctx = ch.choose(4);
	string n = std::to_string(o.second * 2), e = "clen()";
	c.src = "fn helper(x) { return 12; };\ncur = " + o.first + ";\necho 'on';\n";
	c.out = "on\n";
	switch (ctx) {
	case 0: c.src += "echo clen();\n"; if (o.second >= 0) c.out += n + "\n"; break;
	case 1: c.src += "echo [1, clen(), clen()];\n"; if (o.second >= 0) c.out += "[1, " + n + ", " + n + "]\n"; break;
	case 2: c.src += "for i <- [1, 2] { let k = clen(); echo k; };\n"; if (o.second >= 0) c.out += n + "\n" + n + "\n"; break;
	case 3: c.src += "fn f(a) { let k = a; k += clen(); return k; };\necho f(0) ~ f(0);\n"; if (o.second >= 0) c.out += n + n + "\n"; break;
	}
	if (o.second < 0) c.status = o.second == -5 ? 5 : 10;
	c.states.push_back(fp(c.src));
	Case want; want.out = c.out; want.status = c.status;
	string src = c.src;
	c.custom = [=]() -> string {
		string bad; vector<MV> rets; trouble = &bad; collected = &rets;
		RunOpts ro; ro.nolibs = true;
		ro.setup = [](void *p) {
			auto S = (struct YASL_State *)p;
			decl(S, "setmt", setmt, 2); decl(S, "clen", clen, 0);
			decl(S, "clen2", [](struct YASL_State *T) -> int { YASL_pop(T); YASL_pushint(T, 9); return 1; }, 1);
			YASL_declglobal(S, "cur"); YASL_pushundef(S); YASL_setglobal(S, "cur");
		};
		count_traces(1);
		Outcome r = run_program(src, ro);
		return bad + compare(want, r);
	};
}
// A checked accessor returns the argument or raises a TypeError that names the argument it is about.
int which;
int checker(struct YASL_State *S) {
	unsigned pos = (unsigned)which / 5;
	switch (which % 5) {
	case 0: YASL_pushint(S, YASLX_checknint(S, "checker", pos)); break;
	case 1: YASL_pushfloat(S, YASLX_checknfloat(S, "checker", pos)); break;
	case 2: YASL_pushbool(S, YASLX_checknbool(S, "checker", pos)); break;
	case 3: YASLX_checknundef(S, "checker", pos); YASL_pushundef(S); break;
	case 4: { void *p = YASLX_checknuserdata(S, TAG2, "checker", pos); if (p != &freed[1]) *trouble += "another userdata\n"; YASL_pushlit(S, "ud"); break; }
	}
	return 1;
}
void gen_checked(Chooser &ch, Case &c) {
	static const char *V[] = { "5", "2.5", "true", "undef", "ud2", "'s'", "[1]", "{}", "ud1", "checker" }, *T[] = { "int", "float", "bool", "undef", "tag two", "str", "list", "table", "tag one", "fn" };
	int w = (int)ch.choose(15), a[3];
	for (int &x : a) x = (int)ch.choose(10);
	int pos = w / 5, kind = w % 5, act = a[pos];
	bool ok = act == kind;
	c.src = string("echo checker(") + V[a[0]] + ", " + V[a[1]] + ", " + V[a[2]] + ");\n";
	c.key = "checker " + std::to_string(w) + ": " + c.src;
	c.states.push_back(fp(c.key));
	Case want; want.status = ok ? 0 : 5; want.out = !ok ? "" : kind == 4 ? "ud\n" : string(V[act]) + "\n";
	string msg = string("checker expected arg in position ") + std::to_string(pos) + " to be of type " + T[kind] + ", got arg of type " + T[act] + ".", src = c.src;
	c.custom = [=]() -> string {
		string bad; trouble = &bad; which = w; memset(freed, 0, sizeof freed);
		RunOpts ro; ro.nolibs = true;
		ro.setup = [](void *p) {
			auto S = (struct YASL_State *)p;
			decl(S, "checker", checker, 3);
			YASL_declglobal(S, "ud1"); YASL_pushuserdata(S, &freed[0], TAG1, destroy); YASL_setglobal(S, "ud1");
			YASL_declglobal(S, "ud2"); YASL_pushuserdata(S, &freed[1], TAG2, destroy); YASL_setglobal(S, "ud2");
		};
		count_traces(1);
		Outcome r = run_program(src, ro);
		bad += compare(want, r);
		if (!ok && r.err.find(msg) == string::npos) bad += "expected the message " + msg + ", got " + printable(r.err) + "\n";
		if (freed[0] != 1 || freed[1] != 1) bad += "a userdata was not destroyed exactly once\n";
		return bad;
	};
}
// ---- C functions with any number of arguments: some required ones, then the number of the others, then the others
int va_required;
int va_report(struct YASL_State *S) {
	string s;
	auto show = [&](unsigned i) { return YASL_isnundef(S, i) ? string("undef") : YASL_isnint(S, i) ? std::to_string(YASL_peeknint(S, i)) : string("?"); };
	for (int i = 0; i < va_required; i++) s += show((unsigned)i) + ",";
	int64_t n = YASL_peekvargscount(S);
	s += "#" + std::to_string(n);
	for (int64_t i = 0; i < n && i < 20; i++) s += "," + show((unsigned)(va_required + 1 + i));
	YASL_pushzstr(S, s.c_str());
	YASL_pushint(S, n);
	return 2;
}
int va_call(struct YASL_State *S) {     // va_call(f, n): calls f with 1..n
	int n = (int)YASL_popint(S);
	for (int i = 1; i <= n; i++) YASL_pushint(S, i);
	return YASL_functioncall(S, n);
}
void gen_va(Chooser &ch, Case &c, bool th) {
	int r = (int)ch.choose(th ? 9 : 5), n = (int)ch.choose(th ? 13 : 8), u = (int)ch.choose(3);
	static const char *CTX[] = { "echo '@' ~ F;", "let a = 0; let b = 0; let c = 0; a, b, c = F; echo a; echo b; echo c;", "echo [1, F, 2];", "fn g(x, y) { const z = F; return [x, y, z]; }; echo g(7, F);",
		"for i <- [1, 2] { let k = i; echo F ~ k; };", "echo [ F ~ i for i <- [5, 6] ];", "echo callva(va, N);" };
	const char *ctx = CTX[ch.choose(7)];
	bool viac = strstr(ctx, "callva");
	if (u && viac) throw Prune{};
	if (n == 0 && u) throw Prune{};
	vector<string> args; string al;
	for (int i = 1; i <= n; i++) args.push_back(u == 1 && i == n ? "undef" : u == 2 && i == 1 ? "undef" : std::to_string(i));
	for (auto &a : args) al += (al.empty() ? "" : ", ") + a;
	auto result = [r](const vector<string> &as) {
		string s;
		for (int i = 0; i < r; i++) s += (i < (int)as.size() ? as[(size_t)i] : "undef") + ",";
		int k = std::max(0, (int)as.size() - r);
		s += "#" + std::to_string(k);
		for (int i = r; i < (int)as.size(); i++) s += "," + as[(size_t)i];
		return std::make_pair(s, std::to_string(k));
	};
	auto R = result(args);
	string s = R.first, k = R.second, src, exp;
	for (const char *q = ctx; *q; q++) src += *q == 'F' ? "va(" + al + ")" : *q == 'N' ? std::to_string(n) : *q == 'A' ? "(" + al + ")" : string(1, *q);
	if (ctx == CTX[0]) exp = "@" + s + "\n";
	else if (ctx == CTX[1]) exp = s + "\n" + k + "\nundef\n";
	else if (ctx == CTX[2]) exp = "[1, " + s + ", 2]\n";
	else if (ctx == CTX[3]) exp = "[7, " + s + ", " + s + "]\n";
	else if (ctx == CTX[4]) exp = s + "1\n" + s + "2\n";
	else if (ctx == CTX[5]) exp = "[" + s + "5, " + s + "6]\n";
	if (viac) exp = s + "\n";
	src = "let first = 'kept'; const l = [first];\n" + src + "\necho first ~ len l; echo va();\n";
	auto E = result({});
	exp += "kept1\n" + E.first + "\n";
	c.key = std::to_string(r) + " required: " + src;
	c.custom = [=]() -> string {
		va_required = r;
		RunOpts o; 
		o.setup = [&](void *p) {
			auto S = (struct YASL_State *)p;
			YASL_declglobal(S, "va"); YASL_pushcfunction(S, va_report, -1 - r); YASL_setglobal(S, "va");
			YASL_declglobal(S, "callva"); YASL_pushcfunction(S, va_call, 2); YASL_setglobal(S, "callva");
		};
		count_traces(1);
		Outcome x = run_program(src, o);
		string bad;
		if (x.status) bad += "status " + std::to_string(x.status) + ": " + printable(x.err) + "\n";
		if (x.out != exp) bad += "printed " + printable(x.out) + ", expected " + printable(exp) + "\n";
		if (x.badheap) bad += "heap fault: " + x.heapmsg + "\n";
		if (x.leaked) bad += std::to_string(x.leaked) + " heap blocks leaked\n";
		return bad;
	};
}
// Tables with keys of every kind, some of them removed again, walked with YASL_tablenext.
void push(struct YASL_State *S, const MV &v) {
	switch (v.k) {
	case INT: YASL_pushint(S, v.i); break;
	case FLOAT: YASL_pushfloat(S, v.f); break;
	case BOOL: YASL_pushbool(S, v.i != 0); break;
	case STR: YASL_pushlstr(S, v.s.data(), v.s.size()); break;
	case UPTR: YASL_pushuserptr(S, &freed[63]); break;
	default: YASL_pushundef(S);
	}
}
void gen_walk(Chooser &ch, Case &c, size_t nkeys) {
	static const vector<MV> keys = { mb(false), ms(""), mi(0), mf(0.0), mb(true), ms("a"), [] { MV v; v.k = UPTR; return v; }(), mi(1), mf(-1.5), ms(string("a\0b", 4)), mi(-1), mf(1.0) };
	static const vector<MV> vals = { mi(5), mb(false), ms(""), mi(0), ms("value"), mf(0.0), mb(true) };
	vector<int> how;                                       // 0 not there, 1 stored, 2 stored and removed
	for (size_t i = 0; i < nkeys; i++) { how.push_back(ch.choose(3)); c.key += std::to_string(how.back()); }
	static const vector<int> fills = { 0, 7, 30 };
	int fill = ch.pick(fills);
	bool late = ch.choose(2);                              // the removals come last
	c.key += "fill" + std::to_string(fill) + (late ? "late" : "");
	c.states.push_back(fp(c.key));
	c.transitions = nkeys + fill;
	c.custom = [=]() -> string {
		string bad;
		Outcome x;
		heap_begin();
		{
			struct YASL_State *S = YASL_newstate_bb("", 0);
			MV want = mo(TABLE);
			YASL_pushtable(S);
			auto rm = [&](const MV &k) { push(S, k); YASL_pushundef(S); YASL_tableset(S); };
			for (size_t i = 0; i < how.size(); i++) {
				if (!how[i]) continue;
				push(S, keys[i]); push(S, vals[i % vals.size()]);
				if (YASL_tableset(S)) bad += "tableset refuses " + desc(keys[i]) + "\n";
				if (how[i] == 1) want.o->t.push_back({ keys[i], vals[i % vals.size()] });
				else if (!late) rm(keys[i]);
			}
			for (int i = 0; i < fill; i++) { MV k = mi(1000 + i * 37); push(S, k); push(S, mi(i)); YASL_tableset(S); want.o->t.push_back({ k, mi(i) }); }
			if (late) for (size_t i = 0; i < how.size(); i++) if (how[i] == 2) rm(keys[i]);
			for (int turn = 0; turn < 2 && bad.empty(); turn++) {
				MV all = mo(TABLE);
				YASL_pushundef(S);
				size_t n = 0;
				while (YASL_tablenext(S)) {
					MV v = read(S, bad); YASL_pop(S);
					all.o->t.push_back({ read(S, bad), v });
					if (++n > want.o->t.size()) break;
				}
				if (desc(all) != desc(want)) bad += "tablenext listed " + desc(all) + ", the table is " + desc(want) + "\n";
				else if (!YASL_istable(S)) bad += "the table is not on top after the last key\n";
			}
			if (bad.empty()) { YASL_len(S); if (YASL_popint(S) != (int64_t)want.o->t.size()) bad += "len is wrong\n"; }
			YASL_delstate(S);
		}
		heap_end(x);
		count_traces(1);
		if (x.badheap) bad += "heap fault: " + x.heapmsg + "\n";
		if (x.leaked) bad += std::to_string(x.leaked) + " heap blocks leaked\n";
		return bad;
	};
}
vector<int> all() { vector<int> v; for (int i = 0; i < NOPS; i++) v.push_back(i); return v; }
Reg reg({ "A01",
	"every sequence of C API operations up to the depth that their documented preconditions allow, in a C function called with three argument lists and at top level before and after the program, compared with a reference stack after every operation",
	{ "operations are used within their stated preconditions (enough values on the stack, no container put into itself)", "errors are raised only where a program is running" },
	[](vector<Space> &v, bool th) {
		v.push_back({ "in a function", string(th ? "4" : "3") + " operations of 36, 3 argument lists, 3 numbers of results", [th](Chooser &ch, Case &c) { gen(ch, c, th ? 4 : 3, all(), false); }, 3 });
		v.push_back({ "at top level", string(th ? "4" : "3") + " operations of 36, before and after the program", [th](Chooser &ch, Case &c) { gen(ch, c, th ? 4 : 3, all(), true); }, 3 });
		static const vector<int> CONT = { PINT, PLIT, PLIST, PTABLE, PUD, DUP, POP, TSET, TITER, LPUSH, LGETM1, SETG, LOADG }, META = { PTABLE, PUD, PLIST, PUNDEF, DUP, POP, SETMT, REGMT, LOADMT, SETG, LOADG },
			CALLS = { PCFN, PINT, PKEY, CALL2, DUP, PUNDEF, POP, SETG, LOADG };
		v.push_back({ "containers", string(th ? "7" : "5") + " operations of 13", [th](Chooser &ch, Case &c) { gen(ch, c, th ? 7 : 5, CONT, false); }, 4 });
		v.push_back({ "metatables", string(th ? "7" : "5") + " operations of 11", [th](Chooser &ch, Case &c) { gen(ch, c, th ? 7 : 5, META, false); }, 4 });
		v.push_back({ "calls", string(th ? "7" : "5") + " operations of 9", [th](Chooser &ch, Case &c) { gen(ch, c, th ? 7 : 5, CALLS, false); }, 4 });
		v.push_back({ "traversals", string(th ? "11" : "9") + " keys of every kind, each absent, stored or removed, among 0, 7 or 30 others", [th](Chooser &ch, Case &c) { gen_walk(ch, c, th ? 11 : 9); }, 3 });
		v.push_back({ "len", "21 objects in 4 contexts", [](Chooser &ch, Case &c) { gen_len(ch, c); }, 2 });
		v.push_back({ "checked accessors", "15 accessors x 1000 argument lists", [](Chooser &ch, Case &c) { gen_checked(ch, c); }, 2 });
		v.push_back({ "any number of arguments", th ? "0..8 required ones, 0..12 given, 7 contexts" : "0..4 required ones, 0..7 given, 7 contexts", [th](Chooser &ch, Case &c) { gen_va(ch, c, th); }, 2 });
		v.push_back({ "calls of functions", string("17 callables, 0..3 arguments, 6 contexts, 3 ways to call, ") + (th ? "17" : "3") + " second ones", [th](Chooser &ch, Case &c) { gen_call(ch, c, th); }, 3 });
	} });
}
