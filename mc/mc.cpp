#include "mc.hpp"
#include <atomic>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
void YASL_loadprinterr(struct YASL_State *S);
extern int mc_heap_on;
extern long mc_live, mc_bad, mc_files;
extern char mc_heapmsg[256];
void mc_heap_start(void);
void mc_heap_stop(void);
}

namespace mc {

// ------------------------------------------------------------------ small helpers
uint64_t fnv(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}

std::string printable(const std::string &s) {
	std::string r;
	char b[8];
	for (unsigned char c : s) {
		if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c == '\\') r += "\\\\";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char)c;
	}
	return r;
}

static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}

void Chooser::diverged(uint32_t n) {
	fprintf(stderr, "mc: choice tree diverged while replaying a prefix (got %u alternatives at depth %zu)\n", n, pos);
	fflush(stderr);
	_exit(93);
}

// ------------------------------------------------------------------ shared memory
constexpr int MAXW = 64, MAXSPACE = 64;
constexpr size_t TEXT = 1 << 16;
constexpr size_t SETSZ = 1 << 23;

struct Slot {
	std::atomic<uint64_t> cases, transitions, traces, started_ms, known;
	std::atomic<int> busy, space, capped, done;
	std::atomic<uint32_t> pathlen;
	uint32_t path[4096][2];
	char heap[64];
	char key[512];
};
struct Shared {
	std::atomic<uint64_t> ticket[MAXSPACE];
	std::atomic<uint64_t> cases[MAXSPACE], units[MAXSPACE];
	std::atomic<int> capped[MAXSPACE];
	std::atomic<int> stop;
	std::atomic<int> nfail;
	std::atomic<uint64_t> nstates, noutcomes;
	struct { int space; uint32_t len; uint32_t path[4096][2]; char text[TEXT]; char key[512]; int worker; uint64_t unit; } fail[64];
	Slot slot[MAXW];
	std::atomic<uint64_t> states[SETSZ];
	std::atomic<uint64_t> outcomes[1 << 20];
	std::atomic<int> nsamples;
	char samples[24][1024];
	std::atomic<int> nknown;
	char knownmsg[256][768];
};
static Shared *sh;
static Slot *me;

void Chooser::note_env() {
	if (!me || pos > 4096) return;
	me->path[pos - 1][0] = path[pos - 1].first;
	me->path[pos - 1][1] = path[pos - 1].second;
	me->pathlen = (uint32_t)pos;
}


static bool shared_insert(std::atomic<uint64_t> *t, size_t n, std::atomic<uint64_t> &cnt, uint64_t v) {
	if (!v) v = 1;
	size_t i = v & (n - 1);
	for (size_t k = 0; k < 4096; k++, i = (i + 1) & (n - 1)) {
		uint64_t c = t[i].load(std::memory_order_relaxed);
		if (c == v) return false;
		if (c == 0) {
			uint64_t z = 0;
			if (t[i].compare_exchange_strong(z, v)) { cnt++; return true; }
			if (z == v) return false;
		}
	}
	return false;      // table saturated: the count reported is a lower bound
}
void count_state(uint64_t f) { if (sh) shared_insert(sh->states, SETSZ, sh->nstates, f); }
void count_transitions(uint64_t n) { if (me) me->transitions += n; }
void count_traces(uint64_t n) { if (me) me->traces += n; }

// ------------------------------------------------------------------ running programs
void heap_begin() { mc_heap_start(); }
void heap_end(Outcome &o) {
	o.open_files = mc_files;
	o.leaked = mc_live;
	mc_heap_stop();
	o.badheap = mc_bad;
	o.heapmsg = mc_heapmsg;
}

static std::string g_scratch;
const std::string &scratch_dir() {
	if (g_scratch.empty()) {
		char b[] = "/tmp/mcXXXXXX";
		if (!mkdtemp(b)) { perror("mkdtemp"); _exit(92); }
		g_scratch = b;
	}
	return g_scratch;
}
static void rm_flat(const std::string &d, int depth = 0) {
	if (d.compare(0, 7, "/tmp/mc") != 0 || depth > 4) return;
	if (DIR *dir = opendir(d.c_str())) {
		while (struct dirent *e = readdir(dir)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") continue;
			std::string p = d + "/" + n;
			struct stat st;
			if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_flat(p, depth + 1);
			else unlink(p.c_str());
		}
		closedir(dir);
	}
	rmdir(d.c_str());
}
static void scratch_cleanup() {
	if (!g_scratch.empty()) rm_flat(g_scratch);
	g_scratch.clear();
}

extern "C" void mc_make_room(struct YASL_State *S);
static std::string grab(struct YASL_State *S) {
	std::string r;
	if (YASL_isstr(S)) {
		char *p = YASL_popcstr(S);
		if (p) { r = p; free(p); }
	} else YASL_pop(S);
	return r;
}

Outcome run_program(const std::string &src, const RunOpts &o) {
	Outcome r;
	heap_begin();
	struct YASL_State *S;
	std::string path;
	if (o.file) {
		path = scratch_dir() + "/p.yasl";
		int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fd < 0 || write(fd, src.data(), src.size()) != (ssize_t)src.size()) _exit(92);
		close(fd);
		S = YASL_newstate(path.c_str());
	} else {
		S = YASL_newstate_bb(src.data(), src.size());
	}
	if (!o.nolibs) YASLX_decllibs(S);
	YASL_setprintout_tostr(S);
	YASL_setprinterr_tostr(S);
	if (o.setup) o.setup(S);
	r.status = o.repl ? YASL_execute_REPL(S) : YASL_execute(S);
	if (r.status == YASL_STACK_OVERFLOW_ERROR) mc_make_room(S);   // to read the texts back
	YASL_loadprintout(S);
	r.out = grab(S);
	YASL_loadprinterr(S);
	r.err = grab(S);
	if (o.teardown) o.teardown(S);
	YASL_delstate(S);
	heap_end(r);
	return r;
}
Outcome run_program(const std::string &src, bool nolibs) {
	RunOpts o;
	o.nolibs = nolibs;
	return run_program(src, o);
}

static std::string sortfields(const std::string &s) {
	std::string r;
	std::istringstream in(s);
	std::string l;
	while (std::getline(in, l)) {
		if (!l.empty() && l[0] == '~') {
			std::vector<std::string> f;
			size_t a = 1, b;
			while ((b = l.find('|', a)) != std::string::npos) { f.push_back(l.substr(a, b - a)); a = b + 1; }
			f.push_back(l.substr(a));
			std::sort(f.begin(), f.end());
			l = "~";
			for (auto &x : f) l += x + "|";
		}
		r += l + "\n";
	}
	return r;
}

std::string compare(const Case &c, const Outcome &o) {
	std::ostringstream w;
	if (o.status != c.status) w << "status " << o.status << ", expected " << c.status << "\n";
	if (c.check_out) {
		bool same = c.sorted_lines ? sortfields(o.out) == sortfields(c.out) : o.out == c.out;
		if (!same) w << "output differs\n--- expected\n" << c.out << "--- got\n" << o.out << "---\n";
	}
	if (c.line >= 0) {
		std::string want = "(line " + std::to_string(c.line) + ")";
		size_t p = o.err.find("(line ");
		if (p == std::string::npos || o.err.compare(p, want.size(), want) != 0)
			w << "error text does not name " << want << ": " << printable(o.err.substr(0, 300)) << "\n";
	}
	if (o.badheap) w << "heap fault: " << o.heapmsg << "\n";
	if (c.check_leaks && o.leaked) w << o.leaked << " heap blocks still live after the state was deleted\n";
	if (o.open_files) w << o.open_files << " files still open after the state was deleted\n";
	std::string s = w.str();
	if (!s.empty() && !o.err.empty()) s += "stderr: " + printable(o.err.substr(0, 400)) + "\n";
	return s;
}

// ------------------------------------------------------------------ engine
static std::vector<Check> &checks() { static std::vector<Check> v; return v; }
void register_check(const Check &c) { checks().push_back(c); }
static bool g_thorough;
bool thorough() { return g_thorough; }

static std::set<std::string> known_keys;

static std::string run_case(Case &c) {
	if (c.custom) return c.custom();
	Outcome o = run_program(c.src, c.nolibs);
	shared_insert(sh->outcomes, 1 << 20, sh->noutcomes, fp(o.out + char('0' + o.status)));
	return compare(c, o);
}

static std::string describe(const Case &c) {
	std::string s;
	if (!c.src.empty()) s += "--- program\n" + c.src + (c.src.back() == '\n' ? "" : "\n");
	else s += "--- case\n" + c.key + "\n";
	return s;
}

static void save_path(uint32_t (*dst)[2], const std::vector<std::pair<uint32_t, uint32_t>> &p) {
	for (size_t i = 0; i < p.size() && i < 4096; i++) { dst[i][0] = p[i].first; dst[i][1] = p[i].second; }
}

// Runs one case given by a path in this process. Returns failure text.
static std::string run_path(const Space &sp, const std::vector<std::pair<uint32_t, uint32_t>> &path, std::string *desc = nullptr, std::string *key = nullptr) {
	Chooser ch;
	ch.split = (size_t)-1;
	ch.path = path;
	Case c;
	sp.gen(ch, c);
	if (c.key.empty()) c.key = c.src;
	if (desc) *desc = describe(c);
	if (key) *key = c.key;
	return run_case(c);
}

// Runs a path in a fresh child. kind: 0 ok, 1 mismatch, 2 crash, 3 hang
static int isolated(const Space &sp, const std::vector<std::pair<uint32_t, uint32_t>> &path, double limit, std::string &text) {
	static const size_t SZ = 1 << 18;
	char *m = (char *)mmap(NULL, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	m[0] = 0;
	int ep[2];
	if (pipe(ep)) abort();
	pid_t p = fork();
	if (p == 0) {
		close(ep[0]);
		dup2(ep[1], 2);
		dup2(ep[1], 1);
		signal(SIGALRM, SIG_DFL);
		std::string desc;
		{
			Chooser ch;
			ch.split = (size_t)-1;
			ch.path = path;
			Case c;
			sp.gen(ch, c);
			if (c.key.empty()) c.key = c.src;
			desc = describe(c);
			snprintf(m, SZ, "%s", desc.c_str());
			g_scratch.clear();
			std::string r = run_case(c);
			scratch_cleanup();
			size_t n = strlen(m);
			snprintf(m + n, SZ - n, "%s%s", r.empty() ? "" : "--- mismatch\n", r.c_str());
			_exit(r.empty() ? 0 : 1);
		}
	}
	close(ep[1]);
	fcntl(ep[0], F_SETFL, O_NONBLOCK);
	double t0 = now();
	int st, kind = -1;
	std::string err;
	char b[4096];
	while (true) {
		ssize_t n;
		while ((n = read(ep[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, n);
		pid_t q = waitpid(p, &st, WNOHANG);
		if (q == p) break;
		if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); kind = 3; break; }
		usleep(500);
	}
	ssize_t n;
	while ((n = read(ep[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, n);
	close(ep[0]);
	text = m;
	munmap(m, SZ);
	if (kind < 0) {
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) kind = 0;
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && text.find("--- mismatch\n") != std::string::npos) kind = 1;
		else kind = 2;
	}
	if (kind == 2) {
		text += "--- crash: ";
		text += WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
		text += "\n" + err.substr(0, 6000) + "\n";
	}
	if (kind == 3) text += "--- does not terminate (killed after " + std::to_string((int)limit) + " s)\n";
	return kind;
}

static void report_fail(int spi, const std::vector<std::pair<uint32_t, uint32_t>> &path, const std::string &text, const std::string &key, int w, uint64_t unit, int maxfail) {
	int i = sh->nfail++;
	if (i < 64) {
		auto &f = sh->fail[i];
		f.space = spi;
		f.len = (uint32_t)std::min<size_t>(path.size(), 4096);
		save_path(f.path, path);
		snprintf(f.text, TEXT, "%s", text.c_str());
		snprintf(f.key, sizeof f.key, "%s", printable(key).c_str());
		f.worker = w;
		f.unit = unit;
	}
	if (i + 1 >= maxfail) sh->stop = 1;
}

static double g_deadline;

static void worker(int w, const std::vector<Space> &spaces, int maxfail) {
	me = &sh->slot[w];
	prctl(PR_SET_PDEATHSIG, SIGKILL);
#ifndef MC_ASAN
	struct rlimit rl = { (rlim_t)6 << 30, (rlim_t)6 << 30 };
	setrlimit(RLIMIT_AS, &rl);
#endif
	struct rlimit core = { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
	for (int spi = me->space; spi < (int)spaces.size() && !sh->stop; spi++) {
		me->space = spi;
		const Space &sp = spaces[spi];
		Chooser ch;
		ch.split = sp.split;
		uint64_t t = sh->ticket[spi]++;
		bool have = true;
		ch.mine = [&](uint64_t u) {
			while (have && t < u) t = sh->ticket[spi]++;
			return t == u;
		};
		uint64_t lastunit = (uint64_t)-1;
		bool more = true;
		int tick = 0;
		while (more && !sh->stop) {
			if ((++tick & 63) == 0 && now() > g_deadline) { sh->capped[spi] = 1; break; }
			ch.begin();
			Case c;
			bool skipped = false, run = true;
			try {
				sp.gen(ch, c);
				if (!ch.gated) run = ch.mine(ch.unit);
			} catch (Skip &) {
				skipped = true;
				run = false;
			} catch (Prune &) {
				run = false;
			}
			if (run) {
				if (ch.unit != lastunit) { lastunit = ch.unit; sh->units[spi]++; }
				if (c.key.empty()) c.key = c.src;
				if (!known_keys.empty() && known_keys.count(printable(c.key))) {
					std::string text;
					auto p = ch.path;
					p.resize(ch.pos);
					int kind = isolated(sp, p, 5, text);
					if (kind) {
						int k = sh->nknown++;
						if (k < 256) snprintf(sh->knownmsg[k], sizeof sh->knownmsg[k], "%s", printable(c.key).c_str());
					}
				} else {
					me->pathlen = (uint32_t)std::min<size_t>(ch.pos, 4096);
					save_path(me->path, std::vector<std::pair<uint32_t, uint32_t>>(ch.path.begin(), ch.path.begin() + ch.pos));
					snprintf(me->key, sizeof me->key, "%s", printable(c.key).c_str());
					me->started_ms = (uint64_t)(now() * 1000);
					me->busy = 1;
					std::string r = run_case(c);
					me->busy = 0;
					me->cases++;
					sh->cases[spi]++;
					me->transitions += c.transitions;
					if (!c.custom) me->traces++;
					for (uint64_t s : c.states) count_state(s);
					if (sh->cases[spi] <= 2 || (sh->cases[spi] & 0xffff) == 777) {
						int k = sh->nsamples++;
						if (k < 24) snprintf(sh->samples[k], sizeof sh->samples[k], "[%s] %s", sp.name.c_str(), printable(c.src.empty() ? c.key : c.src).c_str());
					}
					if (!r.empty()) {
						std::vector<std::pair<uint32_t, uint32_t>> p(ch.path.begin(), ch.path.begin() + ch.pos);
						report_fail(spi, p, describe(c) + "--- mismatch\n" + r, c.key, w, ch.unit, maxfail);
					}
				}
			}
			more = ch.next(skipped);
		}
		if (!more) {}
	}
	me->done = 1;
	scratch_cleanup();
	_exit(0);
}

static std::string jstr(const std::string &s) {
	std::string r = "\"";
	char b[8];
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = (unsigned char)s[i];
		auto next = [&](size_t k) { return i + k < s.size() && ((unsigned char)s[i + k] & 0xc0) == 0x80 ? (unsigned)s[i + k] & 0x3f : 0x100u; };
		unsigned u = 0;
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c >= 0xc2 && c < 0xe0 && next(1) < 0x100) { u = (c & 0x1fu) << 6 | next(1); i++; }
		else if (c >= 0xe1 && c < 0xed && next(1) < 0x100 && next(2) < 0x100) { u = (c & 0xfu) << 12 | next(1) << 6 | next(2); i += 2; }
		if (u) { snprintf(b, sizeof b, "\\u%04x", u); r += b; }
		else if (c == '"' || c == '\\') {}
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}

static std::string write_replay(const std::string &dir, const Check &ck, const Space &sp, const std::vector<std::pair<uint32_t, uint32_t>> &path, const std::string &text, int n) {
	mkdir(dir.c_str(), 0755);
	std::string f = dir + "/" + ck.id + "-" + std::to_string(n) + ".txt";
	std::ofstream o(f);
	o << "property " << ck.id << "\nspace " << sp.name << "\nchoices";
	for (auto &p : path) o << " " << p.first << "/" << p.second;
	o << "\n# replay with: python3 /verif/run.py " << ck.id << " --replay " << f << "\n" << text << "\n";
	return f;
}

int main_(int argc, char **argv) {
	std::string id, tier = "quick", evidence, known, replays = "/verif/replays", replay;
	int nw = 8, maxfail = 1, seed = 1;
	double budget = 300;
	std::string only;
	bool listonly = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--tier") tier = val();
		else if (a == "--evidence") evidence = val();
		else if (a == "--known") known = val();
		else if (a == "--workers") nw = atoi(val().c_str());
		else if (a == "--max-fail") maxfail = atoi(val().c_str());
		else if (a == "--budget") budget = atof(val().c_str());
		else if (a == "--seed") seed = atoi(val().c_str());
		else if (a == "--replay") replay = val();
		else if (a == "--replays") replays = val();
		else if (a == "--space") only = val();
		else if (a == "--print") listonly = true;
		else id = a;
	}
	g_thorough = tier == "thorough";
	Check *ck = nullptr;
	for (auto &c : checks()) if (c.id == id || id.empty()) ck = &c;
	if (!ck) { fprintf(stderr, "no such check\n"); return 2; }
	id = ck->id;
	std::vector<Space> all, spaces;
	ck->spaces(all, g_thorough);
	for (auto &s : all) if (only.empty() || s.name == only) spaces.push_back(s);
	signal(SIGPIPE, SIG_IGN);

	sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }
	me = &sh->slot[MAXW - 1];

	if (!replay.empty()) {
		std::ifstream in(replay);
		std::string w, line, spname;
		std::vector<std::pair<uint32_t, uint32_t>> path;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			ls >> w;
			if (w == "space") { spname = line.substr(6); }
			if (w == "choices") {
				std::string c;
				while (ls >> c) path.emplace_back(atoi(c.c_str()), atoi(c.c_str() + c.find('/') + 1));
				break;
			}
		}
		for (auto &s : all) if (s.name == spname) {
			std::string text;
			int kind = isolated(s, path, 60, text);
			printf("%s\n%s\n", text.c_str(), kind ? "REPRODUCED" : "not reproduced");
			return kind ? 1 : 0;
		}
		return 2;
	}
	if (listonly) {
		for (auto &s : spaces) {
			Chooser ch;
			ch.split = (size_t)-1;
			uint64_t n = 0;
			do {
				ch.begin();
				Case c;
				try { s.gen(ch, c); n++; if (n <= 3 || n % 50000 == 0) printf("#%lu [%s]\n%s\n=> %d\n%s\n", n, s.name.c_str(), c.src.empty() ? c.key.c_str() : c.src.c_str(), c.status, c.out.c_str()); } catch (Prune &) {}
			} while (ch.next(false));
			printf("space %s: %lu cases\n", s.name.c_str(), n);
		}
		return 0;
	}

	// known findings:  finding: property=ID key=<printable key> :: what
	std::map<std::string, std::string> kf;
	if (!known.empty()) {
		std::ifstream in(known);
		std::string l;
		std::string pre = "finding: property=" + id + " key=";
		while (std::getline(in, l)) {
			if (l.compare(0, pre.size(), pre)) continue;
			size_t e = l.find(" :: ");
			if (e == std::string::npos) continue;
			std::string k = l.substr(pre.size(), e - pre.size());
			kf[k] = l.substr(e + 4);
			known_keys.insert(k);
		}
	}

	double t0 = now();
	g_deadline = t0 + budget;
	if (nw > MAXW - 1) nw = MAXW - 1;
	std::vector<pid_t> pids(nw, 0);
	std::vector<std::pair<std::vector<std::pair<uint32_t, uint32_t>>, int>> suspects;
	auto spawn = [&](int w) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) worker(w, spaces, maxfail);
		pids[w] = p;
	};
	for (int w = 0; w < nw; w++) spawn(w);
	int alive = nw;
	int internal = 0;
	while (alive > 0) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int w = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
			if (w < nw) {
				pids[w] = 0;
				alive--;
				Slot &s = sh->slot[w];
				if (!s.done) {
					if (WIFEXITED(st) && (WEXITSTATUS(st) == 93 || WEXITSTATUS(st) == 92)) internal = WEXITSTATUS(st);
					else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) internal = 95;   // ended from outside (memory guard)
					else if (s.busy) {
						std::vector<std::pair<uint32_t, uint32_t>> path;
						for (uint32_t i = 0; i < s.pathlen; i++) path.emplace_back(s.path[i][0], s.path[i][1]);
						std::string text;
						int kind = isolated(spaces[s.space], path, 30, text);
						if (!kind) text += "--- the worker died (status " + std::to_string(st) + ") on this case after others; alone it passes\n";
						report_fail(s.space, path, text, s.key, w, 0, maxfail);
						if (!sh->stop) {
							// development mode: resume this worker's remaining work is not possible; drop it
						}
					} else internal = 94;
				}
			}
			continue;
		}
		// watchdog
		uint64_t ms = (uint64_t)(now() * 1000);
		for (int w = 0; w < nw; w++) {
			Slot &s = sh->slot[w];
			if (!pids[w] || !s.busy) continue;
			uint64_t st0 = s.started_ms;
			static std::map<int, uint64_t> fine;                 // started then, slow, but fine alone
			const bool known = fine.count(w) && fine[w] == st0;
			if (known ? ms > st0 + 120000 : ms > st0 + 10000) {
				std::vector<std::pair<uint32_t, uint32_t>> path;
				for (uint32_t i = 0; i < s.pathlen; i++) path.emplace_back(s.path[i][0], s.path[i][1]);
				if (!s.busy || s.started_ms != st0) continue;
				std::string text;
				int kind = known ? 0 : isolated(spaces[s.space], path, 40, text);
				if (!kind && !known) { fine[w] = st0; fprintf(stderr, "note: slow: %.80s\n", s.key); continue; }
				if (!s.busy || s.started_ms != st0) { if (kind) report_fail(s.space, path, text, s.key, w, 0, maxfail); continue; }
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &st, 0);
				pids[w] = 0;
				alive--;
				if (kind) report_fail(s.space, path, text, s.key, w, 0, maxfail);
				else { sh->capped[s.space] = 1; fprintf(stderr, "note: a case was slow in a loaded worker and fine alone; its work unit was dropped\n"); }
			}
		}
		if (now() > g_deadline + 60) for (int w = 0; w < nw; w++) if (pids[w]) { kill(pids[w], SIGKILL); sh->capped[sh->slot[w].space] = 1; sh->slot[w].done = 1; }
		if (sh->stop && now() > t0) {
			static double ts = 0;
			if (!ts) ts = now();
			if (now() - ts > 15) for (int w = 0; w < nw; w++) if (pids[w]) { kill(pids[w], SIGKILL); sh->slot[w].done = 1; }
		}
		usleep(2000);
	}
	// sweep scratch directories of killed workers is unnecessary: they are under /tmp/mc*

	int nfail = sh->nfail;
	if (nfail > 64) nfail = 64;
	if (nfail > maxfail) nfail = maxfail;
	std::vector<std::string> files;
	for (int i = 0; i < nfail; i++) {
		auto &f = sh->fail[i];
		std::vector<std::pair<uint32_t, uint32_t>> path;
		for (uint32_t k = 0; k < f.len; k++) path.emplace_back(f.path[k][0], f.path[k][1]);
		std::string text = f.text, t2;
		int kind = isolated(spaces[f.space], path, 40, t2);
		if (kind) text = t2;
		else text += "\n--- note: passes when run alone in a fresh process; it fails after the cases worker " + std::to_string(f.worker) + " ran before it\n";
		std::string file = write_replay(replays, *ck, spaces[f.space], path, text, i);
		files.push_back(file);
		printf("%s\n", text.substr(0, 3000).c_str());
		printf("key=%.200s\n", f.key);
	}

	uint64_t cases = 0, trans = 0, traces = 0;
	for (int w = 0; w < MAXW; w++) { cases += sh->slot[w].cases; trans += sh->slot[w].transitions; traces += sh->slot[w].traces; }
	bool exhaustive = nfail == 0;
	std::string spj;
	for (size_t i = 0; i < spaces.size(); i++) {
		if (sh->capped[i]) exhaustive = false;
		if (i) spj += ", ";
		spj += "{\"name\": " + jstr(spaces[i].name) + ", \"bound\": " + jstr(spaces[i].bound) + ", \"cases\": " + std::to_string(sh->cases[i].load()) + ", \"work_units\": " + std::to_string(sh->units[i].load()) + ", \"complete\": " + (sh->capped[i] || nfail ? "false" : "true") + "}";
		printf("space %-28s %10lu cases%s\n", spaces[i].name.c_str(), sh->cases[i].load(), sh->capped[i] ? "  (time cap hit)" : "");
	}
	double wall = now() - t0;
	printf("%s: cases=%lu states=%lu transitions=%lu traces=%lu outcomes=%lu wall=%.1fs\n", id.c_str(), cases, sh->nstates.load(), trans, traces, sh->noutcomes.load(), wall);
	if (!evidence.empty()) {
		std::ofstream o(evidence);
		o << "{\n \"property\": " << jstr(id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n";
		o << "  \"states\": " << sh->nstates.load() << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << traces << ",\n";
		o << "  \"evaluations\": " << cases << ",\n  \"distinct_outcomes\": " << sh->noutcomes.load() << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n";
		o << "  \"rule\": " << jstr(ck->rule) << ",\n  \"spaces\": [" << spj << "],\n  \"samples\": [";
		int ns = std::min<int>(sh->nsamples, 24);
		for (int i = 0; i < ns; i++) o << (i ? ", " : "") << jstr(sh->samples[i]);
		o << "]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < ck->assumptions.size(); i++) o << (i ? ", " : "") << jstr(ck->assumptions[i]);
		o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << nfail << "\n}\n";
	}
	std::set<std::string> seen;
	for (int i = 0; i < std::min<int>(sh->nknown, 256); i++) {
		std::string k = sh->knownmsg[i];
		if (seen.insert(k).second) printf("KNOWN-FINDING: property=%s %s :: %s\n", id.c_str(), k.c_str(), kf[k].c_str());
	}
	if (internal && !nfail) { fprintf(stderr, "internal error %d in a worker\n", internal); return 3; }
	for (auto &f : files) printf("VIOLATION property=%s replay=%s\n", id.c_str(), f.c_str());
	return nfail ? 1 : 0;
}

}  // namespace mc

int main(int argc, char **argv) { return mc::main_(argc, argv); }
