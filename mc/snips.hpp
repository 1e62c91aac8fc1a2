// Program fragments that between them use every construct and every library function, for the checks that inject
// faults into them.  p(x) is a host function that returns x unless a fault is due; g is a global of the program.
#pragma once
#include <string>
#include <vector>

namespace snips {
inline const std::string &prelude() {
	static const std::string s =
		"const M = {};\n"
		"for q <- ['__add', '__sub', '__mul', '__div', '__idiv', '__mod', '__pow', '__bor', '__bxor', '__band', '__bandnot', '__bshl', '__bshr', '__get', '__neg', '__pos', '__bnot', '__call'] {\n"
		"	M[q] = fn(a, b) { return p(q ~ '!'); }\n"
		"}\n"
		"for q <- ['__lt', '__le', '__gt', '__ge', '__eq'] {\n"
		"	M[q] = fn(a, b) { return p(true); }\n"
		"}\n"
		"M.tostr = fn(a) { return p('o' ~ 'bj'); }\n"
		"M.tobool = fn(a) { return p(true); }\n"
		"M.__len = fn(a) { return p(7); }\n"
		"M.__set = fn(a, k, v) { echo p('set'); }\n"
		"M.m = fn(a, b) { return p([b]); }\n"
		"let o = mt.set({}, M)\n"
		"let ol = mt.set([1, 'x' ~ 'y'], M)\n"
		"let g = undef\n"
		"fn two() { return p('t1' ~ ''), p('t2' ~ ''); }\n"
		"fn id(x) { return x; }\n"
		"fn add(a, b) { return a ~ b; }\n"
		"fn rec(n) { if !(n > 0) { return p('r' ~ 'ec'); }; return rec(n - 1) ~ n; }\n"
		"fn counter() { let n = p(0); return fn() { n += p(1); return n; }; }\n";
	return s;
}
inline const std::vector<std::string> &all() {
	static const std::vector<std::string> v = [] {
		std::vector<std::string> v;
		// operators on fresh values
		for (auto op : { "+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>" }) {
			v.push_back(std::string("echo p(7) ") + op + " p(3)");
			v.push_back(std::string("echo o ") + op + " p('v' ~ 1)");
			if (op[0] != '*' || op[1]) v.push_back(std::string("g = p(6); g ") + op + "= p(2); echo g; let l = [p(5)]; l[p(0)] " + op + "= p(2); echo l");
		}
		for (auto op : { "<", "<=", ">", ">=", "==", "!=", "===", "!==" }) {
			v.push_back(std::string("echo p('a' ~ 'b') ") + op + " p('a' ~ 'c'); echo p(1) " + op + " p(1.0)");
			v.push_back(std::string("echo o ") + op + " p([1])");
			v.push_back(std::string("if p(1.5) ") + op + " p(2.5) { echo p('y' ~ ''); } else { echo p('n' ~ ''); }");
		}
		for (auto op : { "-", "+", "!", "^", "len " }) v.push_back(std::string("echo ") + op + (op[0] == 'l' ? "p('abc' ~ '')" : "p(5)") + "; echo " + op + "o; echo " + op + "p(ol)");
		v.insert(v.end(), {
			"echo p('a' ~ 1) ~ p(2.5) ~ p([1, 'x' ~ 'y']) ~ p({'k': [2]}) ~ p(undef) ~ p(true) ~ o",
			"echo p(false) && p('a' ~ ''); echo p(1) && p('a' ~ ''); echo p('') || p('b' ~ ''); echo p(undef) ?? p('c' ~ ''); echo p(0) ? p('d' ~ '') : p('e' ~ '')",
			"echo \"x#{p('a' ~ 'b')}y#{p([1, o])}z#{o}\"",
			"echo [p(1), p('a' ~ 'b'), [p(2.5)], {p('k' ~ ''): p([3])}]",
			"echo [p(1), p([2, 'x' ~ 'y'])->spread()]; echo add(p(['s' ~ 't', 'u' ~ 'v'])->spread())",
			"echo {p('a' ~ 'b'): p([1]), p(2): p({}), p(true): p('z' ~ '')}",
			"echo p(['a' ~ 'b', 'c' ~ 'd'])[p(1)]; echo p('hello' ~ '')[p(-1)]; echo p({'k': 'v' ~ 'w'})[p('k')]; echo p({'k': 'v' ~ 'w'}).k; echo o.foo; echo o['bar' ~ '']",
			"echo p(['a' ~ 'b', [1], {}])[p(0):p(2)]; echo p('hello' ~ ' world')[p(1):p(-1)]; echo p('hello' ~ '')[:p(2)]; echo p([1, 2, 3])[p(1):]",
			"let l = p([1, 2, 3]); l[p(1)] = p('v' ~ 'w'); let t = p({}); t[p('a' ~ 'b')] = p([l]); t.q = p('z' ~ ''); t[p('a' ~ 'b')] = undef; echo l; echo t; o.x = p('q' ~ ''); o[p([])] = p('r' ~ '')",
			"let a = p('1' ~ ''); let b = p('2' ~ ''); let c = p('3' ~ ''); a, b, c = p(c), p(a), p(b); echo a ~ b ~ c; a, b = two(); echo a ~ b; let l = [0, 0]; l[p(0)], l[p(1)] = two(); echo l",
			"g = two(); echo g; echo [two(), two()]; echo add(two(), p('x' ~ '')); echo add(two()); two(); id(two())",
			"echo rec(p(6))",
			"const c = counter(); c(); c(); echo c(); const d = counter(); echo d() ~ c()",
			"let fs = []; for i <- p([1, 'x' ~ 'y', 3]) { fs->push(fn() { return i; }); }; for f <- fs { echo f(); }",
			"for i <- p([1, 'x' ~ 'y', [3]]) { echo p(i); for j <- p('ab' ~ 'c') { if j == 'b' { continue; }; echo p(j); }; for k <- p({'q': 1}) { echo p(k); break; }; }",
			"let i = p(0); while i < p(3) { i += p(1); let s = p('w' ~ i); if i == 2 { continue; }; echo s; }",
			"for let i = p(0); i < p(3); i += p(1) { let s = p('f' ~ i); echo s; if i == 1 { break; }; }",
			"echo [p(x) ~ 'q' for x <- p([1, 2, 'a' ~ 'b'])]; echo [x for x <- p('abc' ~ '') if p(x) != 'b']; echo {p(k): p([k]) for k <- p(['a' ~ 'b', 2]) if p(true)}",
			"echo [[p(x) ~ y for y <- p([1, x])] for x <- p(['a' ~ 'b', 'c' ~ 'd'])]",
			"match p(['a' ~ 'b', [1, 'c' ~ 'd'], {'k': 'v' ~ 'w'}]) {\n[let x, [1, let y], {'k': let z}] if p(false) { echo x; }\n[let x, [1, let y], {'k': let z}] if p(true) { echo p(x) ~ p(y) ~ p(z); }\n* { echo p('no' ~ ''); }\n}",
			"match p('ab' ~ 'c') {\n'abd' { echo 1; }\n1 | 2.5 | true { echo 2; }\nlet x if p(false) { echo x; }\n'abc' | 'x' { echo p('hit' ~ ''); }\n}",
			"match p({'a': ['b' ~ 'c'], 'd': 2}) {\n{'a': [let u, let v, ...]} { echo u; }\n{'a': let w, ...} { echo p(w); }\n}\nmatch p([1, 2]) {\n[] { echo 0; }\n[let a, ...] { echo p(a); }\n}",
			"match p(5) {\nlet a1 if p(false) { echo a1; }\n1.5 { echo 1; }\n* { echo p('any' ~ ''); }\n}",
			"fn loc(a, b) { let c = p(a); let d = p(b); fn inner() { return c ~ d; }; return inner; }; echo loc('x' ~ 'y', 'z' ~ '')()",
			"fn early(x) { for i <- p([1, 2, 3]) { for j <- p('ab' ~ '') { if i == x { return p(i ~ j); }; }; }; return p('none' ~ ''); }; echo early(2); echo early(9)",
			"const f = fn(a, b) { return [a, b]; }; echo f(p('a' ~ 'b')); echo f(p(1), p(2), p('c' ~ 'd')); echo (fn(x) { return p(x ~ x); })(p('i' ~ ''))",
			"echo p('a' ~ 'b')->toupper(); echo p(o)->m(p('q' ~ '')); echo p([3, 1, 2])->copy(); p([1])->push(p('x' ~ 'y')); echo o(p('arg' ~ '')); echo ol",
			"assert p(true); assert p('x' ~ ''); g = p([1]); g = p({}); g = p('s' ~ 't'); echo g",
			"let a = p([1, 'x' ~ 'y']); echo p(a) == p([1, 'x' ~ 'y']); echo p({'k': [1]}) == p({'k': [1]}); echo p([o, 1]) == p([o, 1]); echo p([1]) == p([2])",
			// the library
			"echo p('a,b,,c' ~ '')->split(p(',')); echo p('a  b' ~ '')->split(); echo p('xabax' ~ '')->replace(p('a'), p('-' ~ '-'), p(1)); echo p('xabax' ~ '')->count(p('a'))",
			"echo p('  ab ' ~ '')->trim(); echo p('xxabx' ~ '')->ltrim(p('x')) ~ p('xxabx' ~ '')->rtrim(p('x')); echo p('ab' ~ '')->rep(p(40)); echo p('aB' ~ '')->tolower() ~ p('a1' ~ '')->isalnum()",
			"echo p('12' ~ '')->toint() ~ p('1.5' ~ '')->tofloat() ~ p('ab' ~ '')->startswith(p('a')) ~ p('ab' ~ '')->endswith(p('b')) ~ p('abc' ~ '')->search(p('c')) ~ p('q' ~ '')->tobool() ~ p('abc' ~ '')->tostr()",
			"let l = p([3, 'x' ~ 'y']); l->insert(p(1), p('ins' ~ '')); echo l->pop(); l->reverse(); echo l; echo l->search(p(3)); echo l->count(p('ins')); echo l->join(p(', ')); l->clear(); echo l",
			"let l = p([3, 1.5, 2, -1, 0.5, 9, 7, 8]); l->sort(); echo l; let s = p(['c' ~ '', 'a' ~ '', 'b' ~ '']); s->sort(); echo s; echo p([1]) + p(['q' ~ 'r']); echo p([o, [1, {}], 'z' ~ ''])->tostr(); echo p(['u' ~ 'v', [1], 2.5])->join(p('-' ~ '-'))",
			"let t = p({'a': 1, 'b': ['x' ~ 'y']}); echo t->keys(); echo t->values(); t->remove(p('a')); echo t->copy(); echo t | p({'c': 'u' ~ 'v'}); echo t->tostr(); t->clear(); echo len t",
			"let s = collections.set(p(1), p('a' ~ 'b'), p(2.5)); s->add(p('c' ~ 'd')); s->remove(p(1)); echo len s; echo s[p('ab')]; echo len (s | collections.set(p('e' ~ 'f'))); echo len (s & s->copy()); echo len (s ^ collections.set()); echo len (s &^ s); echo s == s->copy(); echo s <= s; echo len s->tolist(); echo collections.set(p('one' ~ '')); s->clear()",
			"echo collections.list(p(1), p('a' ~ 'b')); echo collections.table(p('k' ~ ''), p(['v' ~ ''])); echo len collections.set(p([1, 'x' ~ 'y']))",
			"echo math.max(p(1), p(2.5), p(-1)); echo math.min(p(3), p(2)); echo math.gcd(p(12), p(18)); echo math.floor(p(2.5)); echo math.sqrt(p(4.0)); echo math.abs(p(-3)); echo math.deg(p(0.0)); echo math.isprime(p(7))",
			"echo mt.get(p([1])) === mt.get([]); let x = mt.set(p({'a': 'b' ~ 'c'}), p({'z': 'y' ~ 'x'})); echo x.z; mt.setmt",
			"let f = io.open(p(path), p('w+')); echo f->write(p('ab' ~ '\\nc')); f->seek(p('set'), p(0)); echo f->read(p('l')); echo f->read(p('a')); f->flush(); f->close()",
			"let f = io.open(p(path), p('w')); f->write(p('left ' ~ 'open')); g = [f]; g = undef",
			"echo p(1)->tostr() ~ p(2.5)->toint() ~ p(3)->tofloat() ~ p(true)->tostr() ~ p(undef)->tostr() ~ p(0)->tobool()",
			"const it = p([[1, 'a' ~ 'b'], [2, 'c' ~ 'd']]); echo [x[p(1)] for x <- it if p(x)[0] > p(1)]; let n = p(0); for x <- it { n += p(x)[0]; }; echo n",
			"let deep = p([]); for let i = 0; i < 5; i += 1 { deep = [p(deep), {'d' ~ i: 'e' ~ i}]; }; echo deep; echo deep == deep",
			"let big = ''; for let i = 0; i < 6; i += 1 { big = p(big ~ 'chunk' ~ i); }; echo big; echo big[3:9] ~ big[-4:]; for c <- big[2:5] { echo p(c); }",
		});
		return v;
	}();
	return v;
}
}  // namespace snips
