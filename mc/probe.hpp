// Exact transfer of values between a check and a program: globals set through the C API, and a C function
// `probe(x)` that records its argument bit for bit.
#pragma once
#include "ref.hpp"
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}

namespace probe {
using ref::Val;
inline std::vector<Val> &got() { static std::vector<Val> v; return v; }
inline Val peek(struct YASL_State *S) {
	if (YASL_isint(S)) return ref::vint(YASL_peekint(S));
	if (YASL_isfloat(S)) return ref::vflt(YASL_peekfloat(S));
	if (YASL_isbool(S)) return ref::vbool(YASL_peekbool(S));
	if (YASL_isundef(S)) return ref::vundef();
	if (YASL_isstr(S)) { char *p = YASL_peekcstr(S); Val v = ref::vstr(p); free(p); return v; }
	Val v; v.k = YASL_islist(S) ? ref::LIST : YASL_istable(S) ? ref::TABLE : ref::FN;
	return v;
}
inline int fn(struct YASL_State *S) { got().push_back(peek(S)); return 0; }
inline void push(struct YASL_State *S, const Val &v) {
	switch (v.k) {
	case ref::INT: YASL_pushint(S, v.i); break;
	case ref::FLOAT: YASL_pushfloat(S, v.f); break;
	case ref::BOOL: YASL_pushbool(S, v.i); break;
	case ref::STR: YASL_pushlstr(S, v.s.data(), v.s.size()); break;
	default: YASL_pushundef(S);
	}
}
inline mc::RunOpts opts(const std::vector<std::pair<std::string, Val>> &globals, bool nolibs = true) {
	mc::RunOpts o;
	o.nolibs = nolibs;
	o.setup = [globals](void *p) {
		auto S = (struct YASL_State *)p;
		got().clear();
		YASL_declglobal(S, "probe"); YASL_pushcfunction(S, fn, 1); YASL_setglobal(S, "probe");
		for (auto &g : globals) { YASL_declglobal(S, g.first.c_str()); push(S, g.second); YASL_setglobal(S, g.first.c_str()); }
	};
	return o;
}
// bit-for-bit, except that all nans are alike
inline bool same(const Val &a, const Val &b) {
	if (a.k != b.k) return false;
	if (a.k == ref::FLOAT) {
		if (std::isnan(a.f) || std::isnan(b.f)) return std::isnan(a.f) && std::isnan(b.f);
		return memcmp(&a.f, &b.f, sizeof a.f) == 0;
	}
	if (a.k == ref::STR) return a.s == b.s;
	return a.i == b.i;
}
inline std::string desc(const Val &v) {
	if (v.k == ref::FLOAT) { char b[64]; snprintf(b, sizeof b, "%a", v.f); return std::string("float ") + b; }
	if (v.k == ref::LIST || v.k == ref::TABLE) return ref::tname(v);
	return std::string(ref::tname(v)) + " " + ref::tostr(v);
}
}  // namespace probe
