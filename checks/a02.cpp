// BUILD: variant=asancov budget=400 tbudget=3000
// A02: states do not affect each other: every interleaving of programs in different states is as if each ran alone.
#include "mc.hpp"
#include <cerrno>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;

namespace {
string S(long x) { return std::to_string(x); }
// Programs call y(), a host function, wherever control may pass to another state.
const vector<string> &progs() {
	static const vector<string> v = {
		"let a = ['x' ~ 'y', 1]\na->push(y('p'))\nfn f(n) { return a[0] ~ n; }\ny(1)\necho f(a) ~ y(f(2))\n",
		"const M = {'__add': fn(a, b) { return y('add') ~ b; }, '__lt': fn(a, b) { y(2); return a.k < b.k; }, 'tostr': fn(o) { return y('T') ~ o.k; }}\nconst o = mt.set({'k': 3}, M)\necho o + 1\necho [o < o, o ~ '']\n",
		"let l = [3, 1, 2]\nl->sort()\nfor i <- l { let j = y(i); echo j ~ l; }\n",
		"let s = 0\nconst c = [(fn(n) { return fn() { n += y(1); s += n; return n; }; })(i) for i <- [10, 20]]\necho c[0]() ~ c[1]() ~ c[0]() ~ s\n",
		"const t = {'a': 1, 'b': 2}\nt.c = y(3)\nt.a = undef\nmath.mine = y('m')\necho t.c ~ len t ~ math.mine\necho y(math).mine\n",
		"const s = collections.set(1, y('s'))\ns->add(2)\ny(0)\necho len s ~ (s & collections.set(2, 3))->tolist()\n",
		"fn f(n) { y(n); return [n, n - 'a']; }\necho 'start'\nlet q = [1, f(5)]\n",
		"fn r(n) { if n % 400 == 300 { y(n); }; return r(n + 1) ~ n; }\necho y('deep')\nr(0)\n",
		"let a = 1\necho y(a)\nlet b = a +\n",
		"match y([1, 'k' ~ 1]) {\n\t[let x, 'k1'] { echo y(x); }\n\t* { echo 'no'; }\n}\necho 'a,b,c'->split(y(','))\necho y(-7) % 3 ~ (1 << y(4))\n",
		"const m = require('mod')\necho m.f(y)\ny(1)\necho m.f(fn(x) { return x ~ 'z'; })\n",
		"const e = require(y('badmod'))\necho e\n",
		"let w = 'text'\nfor c <- w { if c == 'x' { y(c); break; }; }\necho w->replace('t', y('T'))->toupper() ~ w->rep(y(2)) ~ w[y(1):]\nassert y(false)\n",
		"echo 'ab'->rep(y(10))\ny(1)\necho 'x'->rep(3000)\necho y(2) ~ 'w'->rep(20000)\n",
		"y(0)\necho 'z'->rep(70000)\ny(1)\necho [i for i <- ['q'->rep(5000), y(1)]]\nassert y(undef)\n",
		"const m = mt.get(collections.set(1))\necho m.mine\nm.mine = fn(s) { return y('q'); }\necho collections.set(2)->mine() ~ mt.get('').mine ~ mt.get([]).mine\nmt.get('').mine = y(1)\nmt.get([]).mine = 2\ny(2)\necho 'a'.mine ~ [].mine\n",
		"const f = io.open('own', 'w')\nf->write(y('data'))\ny(1)\nf->close()\necho io.open('own')->read(y('a'))\n",
	};
	return v;
}
struct Task {
	const char *src; int yields = 0;
	Outcome r;
	bool finished = true, started = false;
	string dir;
};
const int MAXT = 3;
Task tasks[MAXT];
sem_t go[MAXT], back;
pthread_t thr[MAXT];
pid_t owner;
thread_local int self_id;

int host_y(struct YASL_State *S) {                           // give control away, then return the argument
	(void)S;
	tasks[self_id].yields++;
	sem_post(&back);
	sem_wait(&go[self_id]);
	return 1;
}
string grab(struct YASL_State *St) { char *c = YASL_peekcstr(St); string s = c ? c : ""; free(c); YASL_pop(St); return s; }
extern "C" void mc_make_room(struct YASL_State *S);
void run_task(Task &t) {
	struct YASL_State *St = YASL_newstate_bb(t.src, strlen(t.src));
	YASLX_decllibs(St);
	YASL_declglobal(St, "y");
	YASL_pushcfunction(St, host_y, 1);
	YASL_setglobal(St, "y");
	YASL_setprintout_tostr(St);
	YASL_setprinterr_tostr(St);
	sem_post(&back);                                     // between creation and execution
	sem_wait(&go[self_id]);
	t.r.status = YASL_execute(St);
	if (t.r.status == YASL_STACK_OVERFLOW_ERROR) mc_make_room(St);
	sem_post(&back);                                     // between execution and deletion
	sem_wait(&go[self_id]);
	YASL_loadprintout(St);
	t.r.out = grab(St);
	YASL_loadprinterr(St);
	t.r.err = grab(St);
	YASL_delstate(St);
}
void *worker(void *p) {
	self_id = (int)(intptr_t)p;
	while (true) {
		sem_wait(&go[self_id]);
		run_task(tasks[self_id]);
		tasks[self_id].finished = true;
		sem_post(&back);
	}
	return nullptr;
}
void ensure_threads() {
	if (owner == getpid()) return;
	owner = getpid();
	sem_init(&back, 0, 0);
	for (int i = 0; i < MAXT; i++) {
		sem_init(&go[i], 0, 0);
		if (pthread_create(&thr[i], nullptr, worker, (void *)(intptr_t)i)) _exit(94);
	}
}
void step(int i) { sem_post(&go[i]); sem_wait(&back); }
struct Solo { int status; string out, err; };
void put(const string &path, const char *text) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd < 0 || write(fd, text, strlen(text)) != (ssize_t)strlen(text)) _exit(92);
	close(fd);
}
string interleave(Chooser &ch, const vector<int> &which, int bound) {
	ensure_threads();
	char cwd[4096];
	if (!getcwd(cwd, sizeof cwd) || chdir(scratch_dir().c_str())) _exit(93);
	put("mod.yasl", "let n = 0\nexport {'f': fn(g) { n += 1; return g('mod' ~ n); }}\n");
	put("badmod.yasl", "let l = ['in' ~ 'bad']\nl + 1\nexport l\n");
	int n = (int)which.size();
	static std::map<int, Solo> solo;
	for (int w : which) if (!solo.count(w)) {            // alone
		Task &t = tasks[0]; t = Task(); t.src = progs()[w].c_str(); t.finished = false;
		while (!t.finished) step(0);
		solo[w] = { t.r.status, t.r.out, t.r.err };
	}
	// programs share the scratch directory; only one of them may be the one that writes a file
	Outcome all;
	heap_begin();
	for (int i = 0; i < n; i++) { tasks[i] = Task(); tasks[i].src = progs()[which[i]].c_str(); tasks[i].finished = false; }
	string sched;
	int last = -1, switches = 0;                          // switches away from a state that could go on
	while (true) {
		vector<int> live;
		for (int i = 0; i < n; i++) if (!tasks[i].finished) live.push_back(i);
		if (live.empty()) break;
		const bool cur = last >= 0 && !tasks[last].finished;
		int k = live.size() == 1 ? live[0] : cur && switches >= bound ? last : live[ch.choose_env((uint32_t)live.size())];
		if (cur && k != last) switches++;
		last = k;
		sched += char('A' + k);
		step(k);
		count_transitions(1);
	}
	vector<Outcome> rs;
	for (int i = 0; i < n; i++) { rs.push_back(tasks[i].r); tasks[i] = Task(); }
	string e;
	for (int i = 0; i < n; i++) {
		const Solo &s = solo[which[i]];
		if (rs[i].status != s.status) e += string("state ") + char('A' + i) + ": status " + S(rs[i].status) + ", alone " + S(s.status) + "\n";
		if (rs[i].out != s.out) e += string("state ") + char('A' + i) + ": output " + printable(rs[i].out) + ", alone " + printable(s.out) + "\n";
		if (rs[i].err != s.err) e += string("state ") + char('A' + i) + ": errors " + printable(rs[i].err) + ", alone " + printable(s.err) + "\n";
	}
	{ vector<Outcome> none; rs.swap(none); }
	{ string keep = sched; heap_end(all); }
	if (all.badheap) e += "heap fault: " + all.heapmsg + "\n";
	if (all.leaked > 0) e += S(all.leaked) + " heap blocks still live\n";
	if (chdir(cwd)) _exit(93);
	count_traces(1);
	count_state(fp(sched));
	if (!e.empty()) e = "schedule " + sched + "\n" + e;
	return e;
}
void gen(Chooser &ch, Case &c, int n, int limit, int bound) {
	vector<int> w;
	int files = 0;
	for (int i = 0; i < n; i++) {
		int p = ch.choose(limit);
		if (i && p < w.back()) throw Prune{};             // which state gets which program makes no difference
		if (progs()[p].find("io.open") != string::npos && files++) throw Prune{};
		w.push_back(p);
	}
	for (int p : w) c.key += "--- state\n" + progs()[p];
	Chooser *cp = &ch;
	c.custom = [=] { return interleave(*cp, w, bound); };
}
// ---- finer: one state runs from its creation to its deletion in between the basic blocks of another one
const vector<string> &small() {
	static const vector<string> v = {
		"",
		"echo 1.5 ~ [1, 2.25] ~ 3\n",
		"let l = [3, 1, 2]\nl->sort()\necho l\n",
		"const t = {'a': [1], 2: 'b'}\nt.c = 3.5\necho t\necho {'k': 0x1F}\n",
		"fn f(a) { return fn() { a += 1; return a; }; }\nconst g = f(1)\ng()\necho g()\n",
		"echo 'a#{1 + 1}b' ~ 'x y'->split() ~ 'ab'->toupper() ~ '12'->toint()\n",
		"match [1, 'b'] {\n\t[let x, 'b'] { echo x; }\n\t* { echo 'no'; }\n}\n",
		"const s = collections.set(1, 'a')\ns->add(2)\necho s->tolist()->__len() ~ (s | s)\n",
		"for c <- 'ab' { if c == 'b' { break; }; echo c; }\necho [i * 2 for i <- [1, 2] if i > 1]\n",
		"let a = 1\necho a - 'x'\n",
		"let b = (1 +\n",
		"fn f(n) { return n[0]; }\necho f('q')\nf(undef)\n",
		"echo mt.set({'k': 1}, {'tostr': fn(o) { return 'T' ~ o.k; }}) ~ math.max(1, 2.5) ~ '\\x41' ~ r'z'\n",
		"echo 1_000 ** 2 ~ 7 // 2 ~ 'abc'[1:] ~ ('b' < 'c') ~ (1 <=> 2 || 0)\n",
	};
	return v;
}
long left = -1;                                              // basic blocks until the other state runs
long passed;
bool counting;
std::vector<long> *places;                                   // the first visits of every basic block
std::map<void *, int> visits;
int max_visits = 2;
const char *guest;
Solo guest_seen;
Solo whole(const string &src, long at, bool setup) {         // run src; after `at` basic blocks, run the guest
	Solo r;
	if (setup) left = at;
	passed = 0; counting = setup;
	struct YASL_State *St = YASL_newstate_bb(src.data(), src.size());
	YASLX_decllibs(St);
	YASL_setprintout_tostr(St);
	YASL_setprinterr_tostr(St);
	if (!setup && at >= 0) left = at;
	if (at >= 0 || setup) counting = true;
	r.status = YASL_execute(St);
	YASL_loadprintout(St);
	r.out = grab(St);
	YASL_loadprinterr(St);
	r.err = grab(St);
	YASL_delstate(St);
	counting = false;
	return r;
}
void blocks_hook(void *pc) {
	if (counting) {
		if (places && ++visits[pc] <= max_visits) places->push_back(passed);
		passed++;
	}
	if (left < 0 || left-- > 0) return;
	const int e = errno;
	const long p = passed;
	const bool c = counting;
	left = -1; counting = false;
	{
		struct YASL_State *St = YASL_newstate_bb(guest, strlen(guest));
		YASLX_decllibs(St);
		YASL_setprintout_tostr(St);
		YASL_setprinterr_tostr(St);
		guest_seen.status = YASL_execute(St);
		YASL_loadprintout(St);
		guest_seen.out = grab(St);
		YASL_loadprinterr(St);
		guest_seen.err = grab(St);
		YASL_delstate(St);
	}
	passed = p; counting = c;
	errno = e;
}
string differ(const char *who, const Solo &a, const Solo &b) {
	if (a.status != b.status) return string(who) + ": status " + S(a.status) + ", alone " + S(b.status) + "\n";
	if (a.out != b.out) return string(who) + ": output " + printable(a.out) + ", alone " + printable(b.out) + "\n";
	if (a.err != b.err) return string(who) + ": errors " + printable(a.err) + ", alone " + printable(b.err) + "\n";
	return "";
}
const int CHUNKS = 8;
string within(const string &a, const string &b, int chunk) {
	guest = b.c_str();
	left = -1;
	const Solo b0 = whole(b, -1, false);
	const bool setup = a.empty();                        // the empty program: also while the state is made
	left = -1;
	vector<long> at_all;
	places = &at_all; visits.clear();
	const Solo a0 = whole(a, 1L << 60, setup);
	places = nullptr;
	left = -1;
	string e;
	Outcome all;
	for (size_t i = chunk; i < at_all.size() && e.empty(); i += CHUNKS) {
		const long at = at_all[i];
		heap_begin();
		{
			guest_seen = Solo();
			const Solo a1 = whole(a, at, setup);
			const bool ran = left == -1;
			left = -1;
			e = differ("the state that was interrupted", a1, a0);
			if (e.empty() && ran) e = differ("the state that ran in between", guest_seen, b0);
		}
		heap_end(all);
		if (all.badheap) e += "heap fault: " + all.heapmsg + "\n";
		if (all.leaked > 0) e += S(all.leaked) + " heap blocks still live\n";
		if (!e.empty()) e = "interrupted after " + S(at) + " basic blocks\n" + e;
		count_transitions(2);
		count_traces(1);
	}
	count_state(fp(a + "\1" + b + S(chunk)));
	return e;
}
void gen_blocks(Chooser &ch, Case &c, bool th) {
	const int a = ch.choose((int)small().size());
	const int b = ch.choose((int)small().size());
	if (!th && a && (a + b) % 3) throw Prune{};
	max_visits = th ? 8 : 2;
	const int k = ch.choose(CHUNKS);
	c.key = "--- state that is interrupted\n" + small()[a] + "--- state that runs in between\n" + small()[b] + "--- blocks " + S(k) + " modulo " + S(CHUNKS);
	c.custom = [=] { return within(small()[a], small()[b], k); };
}
Reg r({ "A02", "every pair (thorough: also triples) of programs, each in a state of its own and a thread of its own, under every interleaving at the points where they call the host, are created, start and end; compared with each program alone",
	{ "control passes between states only inside host functions and between API calls; in \"basic blocks\", once, between two basic blocks of YASL's own code as compiled here", "math.rand and the C library's own state are shared and left out" },
	[](vector<Space> &v, bool th) {
	v.push_back({ "pairs", string("all pairs of 17 programs with up to 5 yields, all interleavings") + (th ? "" : " with at most 4 preemptions"), [=](Chooser &ch, Case &c) { gen(ch, c, 2, (int)progs().size(), th ? 99 : 4); }, 2 });
	v.push_back({ "basic blocks", string("14 x 14 short programs") + (th ? "" : " (every third pair)") + ": one state is created, runs and is deleted before the first 2 (thorough: 8) visits of every basic block of the other one's creation, compilation, execution and deletion", [=](Chooser &ch, Case &c) { gen_blocks(ch, c, th); }, 2 });
	if (th) v.push_back({ "triples", "all triples of 8 programs, all interleavings with at most 3 preemptions", [](Chooser &ch, Case &c) { gen(ch, c, 3, 8, 3); }, 3 });
} });
}
extern "C" void __sanitizer_cov_trace_pc(void) { if (left >= 0 || counting) blocks_hook(__builtin_return_address(0)); }
