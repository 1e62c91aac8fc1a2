// G01: programs work at every size, or are refused.
// BUILD: variant=asan wrap=rand
#include "mc.hpp"
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;
extern "C" int __wrap_rand(void) { static int n; return n++; }

namespace {
string S(long n) { return std::to_string(n); }
// join f(0), ..., f(n-1)
string J(int n, const string &sep, const std::function<string(int)> &f) { string s; for (int i = 0; i < n; i++) { if (i) s += sep; s += f(i); } return s; }
string R(int n, const std::function<string(int)> &f) { return J(n, "", f); }
string X(int n, const string &s) { string r; r.reserve(s.size() * n); for (int i = 0; i < n; i++) r += s; return r; }
string V(int i) { return "v" + S(i); }
string num(int i) { return S(i * 7 + 3); }
string list(int n, const std::function<string(int)> &f) { return "[" + J(n, ", ", f) + "]"; }
struct P { string src, out; bool whole = false; };   // whole: not put into a function
struct Dim { const char *name; int must, max; std::function<P(int)> make; };   // works up to must; tried up to max

const vector<Dim> &dims() {
	static const vector<Dim> v = {
		// ---- variables
		{ "locals", 240, 300, [](int n) { return P{ R(n, [](int i) { return "let v" + S(i) + " = " + num(i) + "\n"; }) + "echo " + list(n, V) + "\n" + R(n, [](int i) { return V(i) + " += " + S(i % 5) + "\n"; }) + R(n, [](int i) { return "echo " + V(i) + "\n"; }),
			list(n, num) + "\n" + R(n, [](int i) { return S(i * 7 + 3 + i % 5) + "\n"; }) }; } },
		{ "constants by name", 240, 300, [](int n) { return P{ "let k = 1\n" + R(n, [](int i) { return "const v" + S(i) + " = k + " + num(i) + "\n"; }) + R(n, [](int i) { return "echo " + V(i) + "\n"; }), R(n, [](int i) { return S(i * 7 + 4) + "\n"; }) }; } },
		{ "locals of one block after the other", 300, 2000, [](int n) { return P{ R(n, [](int i) { return "if true {\nlet a = " + num(i) + "\necho a\n}\n"; }), R(n, [](int i) { return num(i) + "\n"; }) }; } },
		{ "locals, the k-th captured", 240, 300, [](int n) { string s = R(n, [](int i) { return "let v" + S(i) + " = " + num(i) + "\n"; }), o;
			for (int k : { 0, 1, n / 2, 126, 127, 128, 129, n - 2, n - 1 }) if (k >= 0 && k < n) { s += "echo (fn() { " + V(k) + " += 1; return " + V(k) + "; })()\n"; }
			std::map<int, int> m; for (int k : { 0, 1, n / 2, 126, 127, 128, 129, n - 2, n - 1 }) if (k >= 0 && k < n) o += S(k * 7 + 3 + ++m[k]) + "\n";
			return P{ s, o }; } },
		{ "locals, all captured by one closure", 240, 300, [](int n) { return P{ R(n, [](int i) { return "let v" + S(i) + " = " + num(i) + "\n"; }) + "const all = fn() {\n" + R(n, [](int i) { return V(i) + " += 1\n"; }) + "return " + list(n, V) + "\n}\necho all()\necho all()\n",
			list(n, [](int i) { return S(i * 7 + 4); }) + "\n" + list(n, [](int i) { return S(i * 7 + 5); }) + "\n" }; } },
		{ "locals, each captured by its own closure", 120, 300, [](int n) { return P{ R(n, [](int i) { return "let v" + S(i) + " = " + num(i) + "\nlet c" + S(i) + " = fn() { v" + S(i) + " += 1; return v" + S(i) + "; }\n"; }) + R(n, [](int i) { return "echo c" + S(i) + "() + c" + S(i) + "()\n"; }), R(n, [](int i) { return S((i * 7 + 4) * 2 + 1) + "\n"; }) }; } },
		{ "variables of the caller live in a closure called later", 100, 128, [](int n) { return P{ "fn mk(q) {\n" + R(n, [](int i) { return "let v" + S(i) + " = q + " + S(i) + "\n"; }) + "return [" + J(n, ", ", [](int i) { return "fn() { " + V(i) + " += 1; return " + V(i) + "; }"; }) + "]\n}\nlet a = mk(0); let b = mk(1000)\nfor f <- a { f(); }\necho [f() for f <- a]\necho [f() for f <- b]\n",
			list(n, [](int i) { return S(i + 2); }) + "\n" + list(n, [](int i) { return S(i + 1001); }) + "\n" }; } },
		{ "parameters", 240, 300, [](int n) { return P{ "fn f(" + J(n, ", ", V) + ") {\nlet w = " + list(n, V) + "\nreturn w\n}\necho f(" + J(n, ", ", num) + ")\necho f(1)\n", list(n, num) + "\n" + list(n, [](int i) { return string(i ? "undef" : "1"); }) + "\n" }; } },
		{ "arguments", 240, 900, [](int n) { return P{ "fn f(a, b) {\nreturn [a, b]\n}\necho f(" + J(n, ", ", num) + ")\necho math.max(" + J(n, ", ", num) + ")\n", "[" + string(n > 0 ? "3" : "undef") + ", " + (n > 1 ? "10" : "undef") + "]\n" + (n ? num(n - 1) : string("-inf")) + "\n" }; } },
		{ "results", 200, 900, [](int n) { return P{ "fn r() {\nreturn " + J(n + 1, ", ", num) + "\n}\nfn g(a, b) {\nreturn [a, b]\n}\necho g(r())\necho math.max(r())\n let z = r()\necho z\n", "[3, " + string(n > 0 ? "10" : "undef") + "]\n" + num(n) + "\n3\n" }; } },
		{ "results spread", 200, 900, [](int n) { return P{ "let l = []\nfor let i = 0; i < " + S(n + 1) + "; i += 1 {\nl->push(i)\n}\necho math.max(l->spread())\nlet m = []\nm->push(l->spread())\necho m[0]\n", S(n) + "\n0\n" }; } },
		{ "assignments at once", 100, 300, [](int n) { n += 2; return P{ J(n, "\n", [](int i) { return "let v" + S(i) + " = " + num(i); }) + "\n" + J(n, ", ", V) + " = " + J(n, ", ", [n](int i) { return V((i + 1) % n); }) + "\necho " + list(n, V) + "\n", list(n, [n](int i) { return num((i + 1) % n); }) + "\n" }; } },
		{ "variables set from one call", 200, 300, [](int n) { n += 2; string t = J(n, ", ", [](int i) { return "let v" + S(i); }), u = J(n, ", ", [](int i) { return "l[" + S(i) + "]"; });
			return P{ "fn few() {\nreturn 3, 10\n}\nlet m = []\nfor let i = 0; i < " + S(n + 4) + "; i += 1 {\nm->push(i * 7 + 3)\n}\nfn get2() {\n" + t + " = few()\nreturn " + list(n, V) + "\n}\nfn get3() {\n" + t + " = m->spread()\nreturn " + list(n, V) + "\n}\necho get2()\necho get3()\nlet l = m->copy()\n" + u + " = few()\necho l[0]\necho len l\necho l[" + S(n - 1) + "]\n" + u + " = 5, m->spread()\necho l[" + S(n - 1) + "]\n",
				list(n, [](int i) { return i < 2 ? num(i) : string("undef"); }) + "\n" + list(n, num) + "\n3\n" + S(n + 4) + "\n" + (n > 2 ? "undef" : "10") + "\n" + num(n - 2) + "\n" }; } },
		{ "globals", 900, 2000, [](int n) { return P{ "echo [" + J(n, ", ", [](int i) { return "gl" + S(i); }) + "]->join('+')\n" + R(n, [](int i) { return "gl" + S(i) + " += 1\n"; }) + R(n, [](int i) { return "echo gl" + S(i) + "\n"; }), J(n, "+", num) + "\n" + R(n, [](int i) { return S(i * 7 + 4) + "\n"; }) }; } },
		{ "functions", 240, 300, [](int n) { return P{ R(n, [](int i) { return "fn v" + S(i) + "(x) {\nif x > 5 {\nreturn x\n}\nreturn x * " + num(i) + "\n}\n"; }) + R(n, [](int i) { return "echo v" + S(i) + "(2) + v" + S(i) + "(9)\n"; }), R(n, [](int i) { return S((i * 7 + 3) * 2 + 9) + "\n"; }) }; } },
		{ "functions in functions", 40, 300, [](int n) { return P{ R(n, [](int i) { return "let v" + S(i) + " = " + num(i) + "\nconst f" + S(i) + " = fn() {\n"; }) + (n ? R(n, [](int i) { return V(i) + " += 1\n"; }) + "return " + list(n, V) + "\n" : string("")) + R(n, [n](int i) { int k = n - 1 - i; return "}\n" + string(k ? "return " : "echo ") + "f" + S(k) + "()\n"; }),
			n ? list(n, [](int i) { return S(i * 7 + 4); }) + "\n" : "" }; } },
		{ "name length", 5000, 5000, [](int n) { string a(n, 'x'); return P{ "let a" + a + " = 1\nlet b" + a + " = 2\nlet " + a + "c = 3\nlet " + a + "d = 4\necho [a" + a + ", b" + a + ", " + a + "c, " + a + "d]\n", "[1, 2, 3, 4]\n" }; } },
		// ---- constants
		{ "ints", 900, 33000, [](int n) { if (n > 900) return P{ R(n, [](int i) { return "if x0 == " + S(1000 + i) + " { echo x0; } elseif x0 == -" + S(i + 1) + "000000 { echo x0; }\n"; }), "" }; return P{ "echo " + list(n, [](int i) { return S(1000000007L * i); }) + "\necho " + list(n, [](int i) { return S(i); }) + "\necho " + list(n, [](int i) { return S(-i); }) + "\n", list(n, [](int i) { return S(1000000007L * i); }) + "\n" + list(n, [](int i) { return S(i); }) + "\n" + list(n, [](int i) { return S(-i); }) + "\n" }; } },
		{ "floats", 900, 900, [](int n) { return P{ "echo " + list(n, [](int i) { return S(i) + ".5"; }) + "\necho 0.5 + " + S(n) + ".25\n", list(n, [](int i) { return S(i) + ".5"; }) + "\n" + S(n) + ".75\n" }; } },
		{ "strings", 2000, 33000, [](int n) { return P{ "let t = 0\n" + R(n, [](int i) { return "t += len 's" + S(i) + "é'\n"; }) + "echo t\necho 's0é' == 's' ~ 0 ~ 'é'\n" + R(n < 300 ? n : 0, [](int i) { return "echo 's" + S(i) + "é'\n"; }), [n] { long t = 0; for (int i = 0; i < n; i++) t += 3 + S(i).size(); return S(t); }() + "\ntrue\n" + R(n < 300 ? n : 0, [](int i) { return "s" + S(i) + "é\n"; }) }; } },
		{ "string length", 70000, 70000, [](int n) { string a; for (int i = 0; i < n; i++) a += (char)('a' + i % 26); return P{ "let a = '" + a + "'\necho len a\necho a\necho `" + a + "` == a\necho \"" + a + "#{n0}" + a + "\" == a ~ 0 ~ a\necho a[:-1] ~ a[-1:] == a || len a == 0\n", S(n) + "\n" + a + "\ntrue\ntrue\ntrue\n" }; } },
		{ "names of fields and methods", 2000, 2000, [](int n) { return P{ "let t = {}\n" + R(n, [](int i) { return "t.f" + S(i) + " = " + num(i) + "\n"; }) + "let s = 0\n" + R(n, [](int i) { return "s += t.f" + S(i) + "\n"; }) + "echo s\necho len t\n", S(3L * n + 7L * n * (n - 1) / 2) + "\n" + S(n) + "\n" }; } },
		// ---- literals
		{ "list literal", 900, 1100, [](int n) { return P{ "let l = " + list(n, num) + "\necho len l\necho l\n", S(n) + "\n" + list(n, num) + "\n" }; } },
		{ "table literal", 450, 600, [](int n) { return P{ "let t = {" + J(n, ", ", [](int i) { return "'k" + S(i) + "': " + num(i); }) + "}\necho len t\n" + R(n, [](int i) { return "echo t.k" + S(i) + "\n"; }), S(n) + "\n" + R(n, [](int i) { return num(i) + "\n"; }) }; } },
		{ "interpolations", 900, 5000, [](int n) { return P{ "let k = 1\necho \"a" + R(n, [](int i) { return "#{k + " + S(i) + "}b"; }) + "\"\n", "a" + R(n, [](int i) { return S(i + 1) + "b"; }) + "\n" }; } },
		{ "lists in lists", 250, 300, [](int n) { return P{ "let a = " + X(n, "[") + "5" + X(n, "]") + "\necho a\n", X(n, "[") + "5" + X(n, "]") + "\n" }; } },
		{ "list elements", 70000, 70000, [](int n) { return P{ "let l = []\nfor let i = 0; i < " + S(n) + "; i += 1 {\nl->push(i)\n}\nlet s = 0\nfor x <- l {\ns += x\n}\necho len l\necho s\nwhile len l > 0 {\ns -= l->pop()\n}\necho s\n", S(n) + "\n" + S((long)n * (n - 1) / 2) + "\n0\n" }; } },
		{ "table entries", 70000, 70000, [](int n) { return P{ "let t = {}\nfor let i = 0; i < " + S(n) + "; i += 1 {\nt[i] = i\nt['k' ~ i] = 1\n}\nlet s = 0\nfor x <- t {\ns += t[x]\n}\necho len t\necho s\nfor let i = 0; i < " + S(n) + "; i += 1 {\ns -= t[i]\nt->remove(i)\nt->remove('k' ~ i)\n}\necho s\necho len t\n", S(2L * n) + "\n" + S((long)n * (n - 1) / 2 + n) + "\n" + S(n) + "\n0\n" }; } },
		// ---- expressions
		{ "sum", 5000, 5000, [](int n) { return P{ "let k = 1\necho k" + R(n, [](int i) { return (i % 2 ? " - " : " + ") + num(i) + " * k"; }) + "\n", [n] { long t = 1; for (int i = 0; i < n; i++) t += (i % 2 ? -1 : 1) * (i * 7 + 3); return S(t); }() + "\n" }; } },
		{ "sum of literals", 5000, 5000, [](int n) { return P{ "echo 1" + R(n, [](int i) { return (i % 2 ? " - " : " + ") + num(i); }) + "\n", [n] { long t = 1; for (int i = 0; i < n; i++) t += (i % 2 ? -1 : 1) * (i * 7 + 3); return S(t); }() + "\n" }; } },
		{ "concatenation", 900, 900, [](int n) { return P{ "let k = 'q'\necho k" + R(n, [](int i) { return " ~ '" + S(i) + "'"; }) + "\n", "q" + R(n, [](int i) { return S(i); }) + "\n" }; } },
		{ "parentheses", 250, 1000, [](int n) { return P{ "let k = 1\necho " + X(n, "(k + ") + "k" + X(n, ")") + "\necho " + X(n, "(") + "k" + X(n, " + k)") + "\n", S(n + 1) + "\n" + S(n + 1) + "\n" }; } },
		{ "prefix operators", 250, 1000, [](int n) { return P{ "let k = 1\necho " + X(n, "-") + "k\necho " + X(n, "!") + "k\necho " + X(n, "^") + "k\n", string(n % 2 ? "-1" : "1") + "\n" + (n == 0 ? "1" : n % 2 ? "false" : "true") + "\n" + (n % 2 ? "-2" : "1") + "\n" }; } },
		{ "conjunctions", 900, 5000, [](int n) { return P{ "let k = 1\necho k" + X(n, " && k") + "\necho " + X(n, "k && ") + "false" + X(n, " && k") + "\necho " + X(n, "false || ") + "k" + X(n, " || k") + "\necho " + X(n, "undef ?? ") + "k" + X(n, " ?? 2") + "\n", "1\nfalse\n1\n1\n" }; } },
		{ "conditionals", 250, 1000, [](int n) { return P{ "let k = " + S(n / 2) + "\necho " + R(n, [](int i) { return "k == " + S(i) + " ? " + num(i) + " : "; }) + "'none'\n", (n ? num(n / 2) : string("none")) + "\n" }; } },
		{ "calls in calls", 250, 900, [](int n) { return P{ "fn f(x, y) {\nreturn x + y\n}\necho " + X(n, "f(") + "0" + R(n, [](int i) { return ", " + num(i) + ")"; }) + "\necho " + R(n, [](int i) { return "f(" + num(i) + ", "; }) + "0" + X(n, ")") + "\n", S(3L * n + 7L * n * (n - 1) / 2) + "\n" + S(3L * n + 7L * n * (n - 1) / 2) + "\n" }; } },
		{ "method calls in a row", 900, 5000, [](int n) { return P{ "echo 'a'" + R(n, [](int i) { return i % 2 ? "->tolower()" : "->toupper()"; }) + "\nlet t = {}\nt.t = t\nt.v = 5\necho t" + X(n, ".t") + ".v\nt.t = 0\n", string(n % 2 ? "A" : "a") + "\n5\n" }; } },
		{ "powers", 200, 900, [](int n) { return P{ "let k = 1\necho 3" + X(n, " ** k") + "\n", "3\n" }; } },
		// ---- distances
		{ "statements", 70000, 70000, [](int n) { return P{ "let x = 0\n" + X(n, "x += 1\n") + "echo x\n", S(n) + "\n" }; } },
		{ "statements in a branch", 20000, 20000, [](int n) { return P{ "let x = 0\nfor b <- [true, false, 1] {\nif b {\n" + X(n, "x += 1\n") + "} else {\n" + X(n, "x += 2\n") + "}\n}\necho x\n", S(4L * n) + "\n" }; } },
		{ "statements in a while", 20000, 20000, [](int n) { return P{ "let x = 0\nlet i = 0\nwhile i < 4 {\ni += 1\nif i == 2 {\ncontinue\n}\n" + X(n, "x += 1\n") + "if i == 3 {\nbreak\n}\n" + X(n, "x += 1\n") + "}\necho [x, i]\n", "[" + S(3L * n) + ", 3]\n" }; } },
		{ "statements in a for", 20000, 20000, [](int n) { return P{ "let x = 0\nfor let i = 0; i < 5; i += 1 {\nif i == 1 {\ncontinue\n}\n" + X(n, "x += 1\n") + "if i == 3 {\nbreak\n}\n}\necho x\nfor q <- [1, 2, 3, 4] {\nif q == 2 {\ncontinue\n}\n" + X(n, "x += q\n") + "if q == 3 {\nbreak\n}\n}\necho x\n", S(3L * n) + "\n" + S(7L * n) + "\n" }; } },
		{ "statements in a function", 20000, 20000, [](int n) { return P{ "fn f(x) {\nif x == 7 {\nreturn -1\n}\n" + X(n, "x += 1\n") + "return x\n}\necho [f(0), f(7)]\n", "[" + S(n) + ", -1]\n" }; } },
		{ "statements in an arm", 5000, 5000, [](int n) { return P{ "let x = 0\nfor q <- [1, 2, 3] {\nmatch q {\n1 {\n" + X(n, "x += 1\n") + "}\nlet z if z == 2 {\n" + X(n, "x += z\n") + "}\n* {\n" + X(n, "x += 5\n") + "}\n}\n}\necho x\n", S(8L * n) + "\n" }; } },
		{ "operands skipped", 5000, 5000, [](int n) { string big = "(0" + X(n, " + k") + ")"; return P{ "let k = 1\necho false && " + big + "\necho true || " + big + "\necho 5 ?? " + big + "\necho true ? 1 : " + big + "\necho false ? " + big + " : 2\necho k && " + big + "\necho k ? " + big + " : " + big + "\necho [" + big + " for x <- [1, 2] if x + " + big + " > " + S(n + 1) + "]\n", "false\ntrue\n5\n1\n2\n" + S(n) + "\n" + S(n) + "\n[" + S(n) + "]\n" }; } },
		{ "branches", 900, 2000, [](int n) { return P{ "for k <- [0, " + S(n / 2) + ", " + S(n - 1) + ", " + S(n) + "] {\nif k == -5 {\necho 'never'\n}" + R(n, [](int i) { return " elseif k == " + S(i) + " {\necho " + num(i) + "\n}"; }) + " else {\necho 'none'\n}\n}\n", [n] { string o; for (int k : { 0, n / 2, n - 1, n }) o += (k >= 0 && k < n ? num(k) : string("none")) + "\n"; return o; }() }; } },
		{ "arms", 900, 2000, [](int n) { return P{ "for k <- [0, " + S(n / 2) + ", " + S(n - 1) + ", " + S(n) + "] {\nmatch k {\n" + R(n, [](int i) { return S(i) + " {\necho " + num(i) + "\n}\n"; }) + "* {\necho 'none'\n}\n}\n}\n", [n] { string o; for (int k : { 0, n / 2, n - 1, n }) o += (k >= 0 && k < n ? num(k) : string("none")) + "\n"; return o; }() }; } },
		{ "alternatives", 250, 2000, [](int n) { n++; return P{ "for k <- [0, " + S(n / 2) + ", " + S(n - 1) + ", " + S(n) + "] {\nmatch k {\n" + J(n, " | ", [](int i) { return S(i); }) + " {\necho 'some'\n}\n* {\necho 'none'\n}\n}\n}\n", "some\nsome\nsome\nnone\n" }; } },
		{ "parts of a pattern", 200, 300, [](int n) { return P{ "match " + list(n, num) + " {\n[" + J(n, ", ", [](int i) { return "let v" + S(i); }) + "] {\necho " + list(n, V) + "\n}\n* {\necho 'none'\n}\n}\nmatch {" + J(n, ", ", [](int i) { return ".k" + S(i) + ": " + num(i); }) + "} {\n{" + J(n, ", ", [n](int i) { return ".k" + S(n - 1 - i) + ": let v" + S(i); }) + "} {\necho " + list(n, V) + "\n}\n* {\necho 'none'\n}\n}\n", list(n, num) + "\n" + list(n, [n](int i) { return num(n - 1 - i); }) + "\n" }; } },
		{ "patterns in patterns", 100, 300, [](int n) { return P{ "match " + X(n, "[1, ") + "5" + X(n, "]") + " {\n" + X(n, "[*, ") + "let z" + X(n, "]") + " {\necho z\n}\n* {\necho 'none'\n}\n}\n", "5\n" }; } },
		// ---- nesting of statements
		{ "ifs in ifs", 200, 300, [](int n) { return P{ "let x = 0\n" + R(n, [](int i) { return "if x == " + S(i) + " {\nlet a" + S(i) + " = x\nx += 1\n"; }) + X(n, "} else {\nx = -1\n}\n") + "echo x\n", S(n) + "\n" }; } },
		{ "whiles in whiles", 100, 300, [](int n) { return P{ "let x = 0\n" + X(n, "while true {\nx += 1\n") + X(n, "break\n}\n") + "echo x\n", S(n) + "\n" }; } },
		{ "fors in fors", 60, 130, [](int n) { return P{ "let x = 0\n" + R(n, [](int i) { return i % 2 ? "for a" + S(i) + " <- [1] {\nx += 1\n" : "for let a" + S(i) + " = 0; a" + S(i) + " < 1; a" + S(i) + " += 1 {\nx += 1\n"; }) + X(n, "}\n") + "echo x\n", S(n) + "\n" }; } },
		{ "matches in matches", 40, 130, [](int n) { return P{ "let x = 0\n" + R(n, [](int i) { return "match x {\n" + S(i) + " {\nx += 1\n"; }) + X(n, "}\n}\n") + "echo x\n", S(n) + "\n" }; } },
		{ "comprehensions in comprehensions", 20, 60, [](int n) { return P{ "echo " + X(n, "[") + "1" + R(n, [](int i) { return " for c" + S(i) + " <- [1, 2, 3] if c" + S(i) + " == 2]"; }) + "\n", X(n, "[") + "1" + X(n, "]") + "\n" }; } },
		// ---- at run time
		{ "recursion", 300, 1000, [](int n) { return P{ "fn f(x) {\nif x == 0 {\nreturn 0\n}\nreturn f(x - 1) + x\n}\necho f(" + S(n) + ")\n", S((long)n * (n + 1) / 2) + "\n", true }; } },
		{ "iterations", 70000, 70000, [](int n) { return P{ "let x = 0\nfor let i = 0; i < " + S(n) + "; i += 1 {\nif i % 3 == 0 {\ncontinue\n}\nlet y = i\nx += y\n}\necho x\n", [n] { long t = 0; for (int i = 0; i < n; i++) if (i % 3) t += i; return S(t); }() + "\n" }; } },
		{ "comment length", 70000, 70000, [](int n) { return P{ "let x = 1 #" + X(n, "c") + "\n/*" + X(n, "*") + "*/ x += 1 /*" + X(n, " /") + "*/\necho x\n#" + X(n, "d") + "\n", "2\n" }; } },
		{ "blank lines", 70000, 70000, [](int n) { return P{ "let x = [1,\n" + X(n, "\n") + "2]\n" + X(n, "\n") + "echo x" + X(n, "\n") + "\n", "[1, 2]\n" }; } },
	};
	return v;
}
vector<int> sizes(int max, bool th) {
	vector<int> v;
	for (int i = 0; i <= max && i <= 300; i++) if (th || i <= 20 || (i >= 63 && i <= 65) || (i >= 125 && i <= 131) || (i >= 251 && i <= 260) || i == 300) v.push_back(i);
	for (int i : { 511, 512, 513, 900, 1000, 1023, 1024, 1025, 1100, 2000, 4095, 4096, 4097, 5000, 20000, 32767, 32768, 65535, 65536, 65537, 70000 }) if (i <= max && i > v.back() && (th || i < 30000 || i == 32768 || i == 65536)) v.push_back(i);
	if (v.back() != max && (th || max < 30000)) v.push_back(max);
	return v;
}
int nglobals;
string judge(const Dim &d, int n, const P &p, const string &src) {
	RunOpts o;
	bool globals = !strcmp(d.name, "globals");
	static vector<string> names = [] { vector<string> v; for (int i = 0; i < 2000; i++) v.push_back("gl" + S(i)); return v; }();
	o.setup = [globals, n](void *q) {
		auto St = (struct YASL_State *)q;
		YASL_declglobal(St, "n0"); YASL_pushint(St, 0); YASL_setglobal(St, "n0");
		YASL_declglobal(St, "x0"); YASL_pushint(St, 0); YASL_setglobal(St, "x0");
		if (globals) for (int i = 0; i < n; i++) { YASL_declglobal(St, names[i].c_str()); YASL_pushint(St, i * 7 + 3); YASL_setglobal(St, names[i].c_str()); }
	};
	Outcome r = run_program(src, o);
	count_traces(1);
	count_state(fp(string(d.name) + (r.status ? "!" : "") + S(n)));
	string all = "\nerr: " + printable(r.err.substr(0, 300)) + "\nout: " + printable(r.out.substr(0, 300)) + "\nexp: " + printable(p.out.substr(0, 300));
	if (r.badheap) return "heap fault: " + r.heapmsg + all;
	if (r.leaked) return "keeps " + S(r.leaked) + " allocations" + all;
	if (r.status == 0) return r.out == p.out ? "" : "wrong output" + all;
	if (n <= d.must) return "does not work at size " + S(n) + ": status " + S(r.status) + all;
	if (r.status == 4 && r.out.empty() && r.err.find("SyntaxError") != string::npos) return "";
	if (r.status == 11 && p.out.compare(0, r.out.size(), r.out) == 0 && r.err.find("StackOverflow") != string::npos) return "";
	return "neither works nor is refused: status " + S(r.status) + all;
}
Reg r({ "G01", "one case per (dimension, size, at top level or in a function); the program works as at size 2, or is refused with a SyntaxError or StackOverflow, and must work up to the size noted for its dimension", {
	"the sizes up to which programs must work are taken from the tree as it is, rounded down",
}, [](vector<Space> &v, bool th) {
	v.push_back({ "sizes", S((long)dims().size()) + " dimensions × " + (th ? "every size up to 300" : "every size up to 20 and around 64, 128 and 256") + " and those around 512, 1024, 4096, 32768 and 65536 (as far as the dimension is tried) × top level or in a function", [th](Chooser &ch, Case &c) {
		const Dim &d = ch.pick(dims());
		vector<int> sz = sizes(d.max, th);
		int n = sz[ch.choose((uint32_t)sz.size())];
		bool infn = ch.flip();
		P p = d.make(n);
		if (p.whole && infn) throw Prune{};
		string src = infn ? "fn main() {\n" + p.src + "return 0\n}\nmain()\n" : p.src;
		c.key = string(d.name) + " " + S(n) + (infn ? " in a function" : "");
		c.src = src.size() < 2000 ? src : src.substr(0, 1000) + "\n...\n" + src.substr(src.size() - 900);
		const Dim *dp = &d;
		c.custom = [dp, n, p, src]() { return judge(*dp, n, p, src); };
	}, 2 });
} });
}  // namespace
