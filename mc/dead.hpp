// Statements that never run, or run, in every kind of place: the static rules hold in all of them alike.
#pragma once
#include "mc.hpp"
namespace mc {
struct DeadPlace { const char *text; char kind; };      // kind: 'p' plain, 'l' a loop's body, 'f' a function's body, 'e' an expression
inline const std::vector<DeadPlace> &dead_places() {
	static const std::vector<DeadPlace> v = {
		{ "@", 'p' },
		{ "if true { @ };", 'p' }, { "if false { @ };", 'p' }, { "if undef { @ };", 'p' }, { "if t { @ };", 'p' }, { "if f { @ };", 'p' },
		{ "if true { } else { @ };", 'p' }, { "if false { } else { @ };", 'p' }, { "if f { } else { @ };", 'p' },
		{ "if false { } elseif false { @ };", 'p' }, { "if true { } elseif true { @ };", 'p' }, { "if f { } elseif undef { } else { @ };", 'p' },
		{ "while false { @ };", 'l' }, { "while undef { @ };", 'l' }, { "while f { @ };", 'l' }, { "while true { break; @ };", 'l' }, { "while true { if t { break; }; @ };", 'l' },
		{ "for let i = 0; false; i += 1 { @ };", 'l' }, { "for let i = 0; undef; i += 1 { @ };", 'l' }, { "for let i = 0; f; i += 1 { @ };", 'l' }, { "for let i = 0; i < 2; i += 1 { continue; @ };", 'l' },
		{ "for i <- [] { @ };", 'l' }, { "for i <- [1, 2] { @ };", 'l' },
		{ "const g = fn() { @ };", 'f' }, { "fn h() { return 1; @ };", 'f' }, { "fn h() { if f { return 2; }; @ }; h();", 'f' },
		{ "match 1 {\n2 { @ }\n* { }\n};", 'p' }, { "match 1 {\n1 { @ }\n* { }\n};", 'p' }, { "match 1 {\n* if false { @ }\n* { }\n};", 'p' },
		{ "const r = false && (@);", 'e' }, { "const r = true || (@);", 'e' }, { "const r = 1 ?? (@);", 'e' }, { "const r = true ? 1 : (@);", 'e' }, { "const r = false ? (@) : 1;", 'e' }, { "const r = t ? 1 : (@);", 'e' },
		{ "for let i = 0; false; i = (@) { };", 'e' }, { "while false && (@) { };", 'e' }, { "const r = [@ for x <- []];", 'e' }, { "const r = [x for x <- [1] if false && (@)];", 'e' }, { "const r = {x: @ for x <- []};", 'e' },
		{ "if false { assert @; };", 'e' }, { "match 1 {\n2 if @ { }\n* { }\n};", 'e' }, { "fn h(x) { return 1, @; };", 'e' }, { "const r = \"a#{false && (@)}\";", 'e' }, { "fn h() { return 1; return @; };", 'e' },
	};
	return v;
}
struct DeadStmt { const char *text; char kind; };       // kind: 'g' good, 'b' bad, 'l' good in a loop only, 'f' good in a function only
inline const std::vector<DeadStmt> &dead_stmts() {
	static const std::vector<DeadStmt> v = {
		{ "a = 1;", 'g' }, { "let q = a; const k2 = q;", 'g' }, { "if t { let a = a; let k = a; k = 2; };", 'g' }, { "fn z() { return a; };", 'g' }, { "a += k;", 'g' },
		{ "let c = 0; let d = c; c = d;", 'g' }, { "const l = [a]; l[0] = k;", 'g' },
		{ "[nope];", 'b' }, { "nope = 1;", 'b' }, { "nope += 1;", 'b' }, { "nope();", 'b' }, { "nope->m();", 'b' }, { "nope[0] = 1;", 'b' }, { "a[nope] = 1;", 'b' }, { "a[0] = nope;", 'b' }, { "nope.x = 1;", 'b' },
		{ "k = 1;", 'b' }, { "k += 1;", 'b' }, { "let q = 1; let q = 2;", 'b' }, { "const q = 1; let q = 2;", 'b' }, { "let q = 1; const q = 2;", 'b' }, { "let q = nope;", 'b' }, { "const q = q;", 'b' }, { "let u, v = 1, nope;", 'b' },
		{ "fn z(w) { return nope; };", 'b' }, { "fn z(w) { let w = 1; w = nope; };", 'b' }, { "fn z() { k = 2; };", 'b' }, { "let q = fn(const m) { m = 1; };", 'b' }, { "for x <- nope { };", 'b' }, { "for const x <- [1] { x = 2; };", 'b' },
		{ "if nope { };", 'b' }, { "while nope { };", 'b' }, { "match nope {\n* { }\n};", 'b' }, { "match 1 {\n* { nope(); }\n};", 'b' }, { "match 1 {\n* if nope { }\n* { }\n};", 'b' }, { "if t { let w = 1; }; w = 2;", 'b' }, { "for w <- [] { }; w = 2;", 'b' },
		{ "assert nope;", 'b' }, { "echo nope;", 'b' },
		{ "break;", 'l' }, { "continue;", 'l' }, { "if f { break; };", 'l' }, { "if false { continue; };", 'l' }, { "fn z() { break; };", 'b' }, { "const z = fn() { if f { continue; }; };", 'b' }, { "match 1 {\n2 { break; }\n* { }\n};", 'l' },
		{ "return a, k;", 'f' }, { "return 1;", 'f' }, { "if f { return a; };", 'f' },
	};
	return v;
}
inline const std::vector<DeadStmt> &dead_exprs() {
	static const std::vector<DeadStmt> v = {
		{ "a", 'g' }, { "[a, k]", 'g' }, { "(fn(a) { return a; })(k)", 'g' },
		{ "nope", 'b' }, { "!nope", 'b' }, { "a + nope", 'b' }, { "nope()", 'b' }, { "t(nope)", 'b' }, { "nope->m()", 'b' }, { "a->m(nope)", 'b' }, { "a[nope]", 'b' }, { "nope.x", 'b' }, { "a[1:nope]", 'b' }, { "{1: nope}", 'b' }, { "{nope: 1}", 'b' }, { "\"#{nope}\"", 'b' },
		{ "fn() { nope(); }", 'b' }, { "fn() { k = 1; }", 'b' }, { "fn(x) { let y = 1; let y = x; }", 'b' }, { "fn() { break; }", 'b' }, { "[nope for x <- a]", 'b' }, { "[x for x <- nope]", 'b' }, { "[x for x <- a if nope]", 'b' }, { "[y for y <- a] + y", 'b' }, { "false && nope", 'b' }, { "true ? 1 : nope", 'b' }, { "a ?? nope", 'b' }, { "len nope", 'b' },
	};
	return v;
}
inline void gen_dead(Chooser &ch, Case &c, int depth) {
	std::string pre, post;
	bool loop = false, fn = false, expr = false;
	for (int i = 0; i < depth && !expr; i++) {
		const DeadPlace &p = dead_places()[ch.choose((uint32_t)dead_places().size())];
		std::string t = p.text;
		if (t == "@" && i) throw Prune{};                  // depth 1 with nothing inside
		size_t at = t.find('@');
		pre += t.substr(0, at); post = t.substr(at + 1) + post;
		if (p.kind == 'l') loop = true;
		if (p.kind == 'f') { fn = true; loop = false; }
		if (p.kind == 'e') expr = true;
		if (t == "@") break;
	}
	const auto &S = expr ? dead_exprs() : dead_stmts();
	const DeadStmt &s = S[ch.choose((uint32_t)S.size())];
	bool good = s.kind == 'g' || (s.kind == 'l' && loop) || (s.kind == 'f' && fn);
	bool inner = ch.flip();                                // inside of a function of its own
	if (inner && !fn && s.kind == 'f') good = true;
	std::string body = "let a = 5; const k = 6; let t = true; let f = false;\n" + pre + s.text + post + "\n";
	c.src = "echo 'start';\n" + (inner ? "fn main() {\n" + body + "};\n" : body) + "echo 'end';\n";
	c.out = good ? "start\nend\n" : "";
	if (!good) c.status = 4;
	c.transitions = 1;
	c.states.push_back(fp(c.src));
}
}  // namespace mc
