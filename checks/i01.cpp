// I01: files hold exactly the bytes written to them, for every history of operations on them.
#include "mc.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "yasl.h"
#include "yasl_aux.h"
}
using namespace mc;
using std::string; using std::vector;
extern "C" FILE *(*mc_fopen_hook)(const char *, const char *);
extern "C" FILE *__real_fopen(const char *, const char *);

namespace {
string lit(const string &s) { string r = "'"; char b[8]; for (unsigned char c : s) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } return r + "'"; }
const char *MODES[] = { "r", "w", "a", "r+", "w+", "a+", nullptr };
// ---------------------------------------------------------------- the model: bytes and positions
struct File { bool exists = false; string data; };
struct Handle {
	bool open = false, undef = true;
	bool rd = false, wr = false, app = false;
	int64_t pos = 0;
	char last = 0;                                      // 'r', 'w' or 0 since the last seek or flush
	bool eof = false;
};
struct Disk { File f[2]; };
bool mopen(Disk &d, int file, const char *mode, Handle &h) {
	h = Handle();
	string m = mode ? mode : "r";
	File &f = d.f[file];
	if (m[0] == 'r' && !f.exists) return false;
	if (m[0] == 'w') f.data.clear();
	f.exists = true;
	h.open = true; h.undef = false;
	bool plus = m.size() > 1;
	h.rd = m[0] == 'r' || plus; h.wr = m[0] != 'r' || plus; h.app = m[0] == 'a';
	h.pos = m == "a" ? -1 : 0;                          // nobody says where a file opened for appending starts
	return true;
}
const vector<string> &contents() {
	static const vector<string> v = [] {
		vector<string> r = { "", "ab\ncd", "x\n\nyz\n", string("p\0q\nr", 5) };
		string big; for (int i = 0; i < 5000; i++) big += (char)(i % 97 == 96 ? '\n' : 'a' + i % 23);
		r.push_back(big);
		return r;
	}();
	return v;
}
const vector<string> &texts() {
	static const vector<string> v = { "XYZ", "", "u\nv\n", string("\0w\0", 3), "0123456789ABCDEFG\xff" };
	return v;
}
struct Prog { string src, out; int status = 0; Disk disk; Handle h[2]; int at[2] = { 0, 0 }; bool failed = false; uint64_t steps = 0; };
const char *HN[] = { "f", "g" };
void tail_write(File &f, int64_t pos, const string &s) {
	if (s.empty()) return;
	if ((int64_t)f.data.size() < pos) f.data.resize(pos, '\0');
	f.data.replace(pos, std::min<size_t>(s.size(), f.data.size() - pos), s);
}
// One operation on one handle.
const int NOPS = 22;
bool op(Prog &p, int hi, int o) {
	Handle &h = p.h[hi];
	File &f = p.disk.f[p.at[hi]];
	string e, res;
	auto b = [](bool x) { return string(x ? "true" : "false"); };
	p.steps++;
	bool closed = !h.open;
	if (h.undef) throw Prune{};
	string n = HN[hi];
	if (o < 5) {
		const string &s = texts()[o];
		// switching from reading to writing needs a seek in between, says the C library
		if (!closed && h.wr && h.last == 'r' && !h.app && !h.eof) throw Prune{};
		if (!closed && h.last == 'r' && h.rd && h.wr) throw Prune{};
		e = n + "->write(" + lit(s) + ")";
		if (!closed) {
			if (h.wr) {
				if (!h.app && h.pos < 0) throw Prune{};
				if (h.app && !s.empty()) h.pos = (int64_t)f.data.size();
				if (h.app && s.empty()) h.pos = -1;       // the C library may or may not have moved to the end
				else { tail_write(f, h.pos, s); h.pos += (int64_t)s.size(); }
				if (!s.empty()) h.last = 'w';
				res = std::to_string(s.size());
			} else res = s.empty() ? "0" : "0";
		}
	} else if (o < 8) {
		static const char *A[] = { "", "'l'", "'a'" };
		if (!closed && h.last == 'w' && h.rd && o < 7) throw Prune{};
		e = n + "->read(" + A[o - 5] + ")";
		if (!closed) {
			if (o == 7) {
				res = h.rd ? f.data : "";
				h.pos = h.rd ? (int64_t)f.data.size() : -1;   // where a file that cannot be read is left is open
				h.last = 'r';
			} else if (h.rd) {
				if (h.pos < 0) throw Prune{};
				h.last = 'r';
				if (h.pos < (int64_t)f.data.size()) {
					size_t q = f.data.find('\n', h.pos);
					if (q == string::npos) { res = f.data.substr(h.pos); h.pos = (int64_t)f.data.size(); h.eof = true; }
					else { res = f.data.substr(h.pos, q - h.pos); h.pos = (int64_t)q + 1; }
				} else h.eof = true;
			} else h.pos = -1;
		}
	} else if (o < 20) {
		static const struct { const char *t; int wh; int64_t k; } S[] = {
			{ "", 0, 0 }, { "'set'", 0, 0 }, { "'set', 2", 0, 2 }, { "'set', 9", 0, 9 }, { "'set', -1", 0, -1 }, { "'cur'", 1, 0 }, { "'cur', 1", 1, 1 }, { "'cur', -2", 1, -2 },
			{ "'end'", 2, 0 }, { "'end', -2", 2, -2 }, { "'end', -5001", 2, -5001 }, { "undef, 1", 0, 1 } };
		auto &s = S[o - 8];
		e = n + "->seek(" + s.t + ")";
		if (!closed && s.wh == 1 && h.pos < 0) throw Prune{};
		if (!closed) {
			int64_t base = s.wh == 0 ? 0 : s.wh == 1 ? h.pos : (int64_t)f.data.size(), to = base + s.k;
			res = b(to >= 0);
			if (to >= 0) { h.pos = to; h.last = 0; h.eof = false; }
		}
	} else if (o == 20) {
		if (!closed && h.last == 'r') throw Prune{};      // flushing after reading is not defined
		e = n + "->flush()";
		if (!closed) { res = "true"; h.last = 0; }
	} else {
		e = n + "->close()";
		if (!closed) { res = "true"; h.open = false; }
	}
	if (closed) { p.src += "echo " + e + ";\n"; p.status = 7; p.failed = true; return false; }
	// every byte counts: print the length and the bytes
	p.src += o >= 5 && o < 8 ? "r = " + e + "; echo len r; echo r->replace('\\0', '~');\n" : "echo " + e + ";\n";
	if (o >= 5 && o < 8) { p.out += std::to_string(res.size()) + "\n"; for (char &c : res) if (!c) c = '~'; }
	p.out += res + "\n";
	return true;
}
void put(const string &path, const File &f) {
	unlink(path.c_str());
	if (!f.exists) return;
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd < 0 || write(fd, f.data.data(), f.data.size()) != (ssize_t)f.data.size()) _exit(92);
	close(fd);
}
string get(const string &path, bool &exists) {
	string r;
	int fd = open(path.c_str(), O_RDONLY);
	exists = fd >= 0;
	char b[8192]; ssize_t n;
	while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	if (fd >= 0) close(fd);
	return r;
}
string path(int i) { return scratch_dir() + "/i" + std::to_string(i); }
void finish(Case &c, Prog &p, const Disk &before) {
	c.src = p.src; c.out = p.out; c.status = p.status;
	c.transitions = p.steps;
	string st;
	for (int i = 0; i < 2; i++) st += p.disk.f[i].data + char(p.h[i].open) + std::to_string(p.h[i].pos) + "|";
	c.states.push_back(fp(st));
	Disk after = p.disk;
	c.custom = [before, after, cs = Case(c)]() -> string {
		for (int i = 0; i < 2; i++) put(path(i), before.f[i]);
		count_traces(1);
		RunOpts ro;
		ro.setup = [](void *q) {
			auto S = (struct YASL_State *)q;
			for (int i = 0; i < 2; i++) {
				static const char *const N[] = { "P0", "P1" }; string v = path(i);
				YASL_declglobal(S, N[i]); YASL_pushlstr(S, v.data(), v.size()); YASL_setglobal(S, N[i]);
			}
		};
		Outcome o = run_program(cs.src, ro);
		string w = compare(cs, o);
		for (int i = 0; i < 2; i++) {
			bool ex; string d = get(path(i), ex);
			if (ex != after.f[i].exists) w += "file " + std::to_string(i) + (ex ? " exists\n" : " does not exist\n");
			if (d != after.f[i].data) w += "file " + std::to_string(i) + " holds " + printable(d.substr(0, 200)) + "\ninstead of " + printable(after.f[i].data.substr(0, 200)) + "\n";
			unlink(path(i).c_str());
		}
		return w;
	};
}
string opensrc(const char *h, int file, const char *mode) { return string(h) + " = io.open(P" + std::to_string(file) + (mode ? ", '" + string(mode) + "'" : "") + ");\necho " + h + " == undef;\n"; }
void one(Chooser &ch, Case &c, int depth) {
	Prog p;
	int cont = (int)ch.choose(6);
	if (cont) { p.disk.f[0].exists = true; p.disk.f[0].data = contents()[cont - 1]; }
	Disk before = p.disk;
	const char *mode = MODES[ch.choose(7)];
	p.src = "let r = 0; let f = 0;\n" + opensrc("f", 0, mode);
	bool ok = mopen(p.disk, 0, mode, p.h[0]);
	p.out += ok ? "false\n" : "true\n";
	for (int i = 0; i < depth && ok; i++) if (!op(p, 0, (int)ch.choose(NOPS))) break;
	bool close = ok && p.h[0].open && !p.failed && ch.flip();
	if (close) { p.src += "echo f->close();\n"; p.out += "true\n"; p.h[0].open = false; }
	finish(c, p, before);
}
// Two handles on two files, or one after another on the same file; reopening in any mode sees what was written.
void two(Chooser &ch, Case &c, int depth) {
	Prog p;
	p.disk.f[0].exists = true; p.disk.f[0].data = contents()[1];
	p.disk.f[1].exists = true; p.disk.f[1].data = contents()[2];
	Disk before = p.disk;
	p.src = "let r = 0; let f = 0; let g = 0;\n";
	p.at[1] = 1;
	for (int i = 0; i < 2; i++) {
		const char *mode = MODES[ch.choose(6)];
		p.src += opensrc(HN[i], i, mode); p.out += "false\n"; mopen(p.disk, i, mode, p.h[i]);
	}
	static const int OPS[] = { 0, 3, 5, 7, 10, 16, 20, 21 };
	for (int i = 0; i < depth; i++) if (!op(p, (int)ch.choose(2), OPS[ch.choose(8)])) break;
	finish(c, p, before);
}
void reopen(Chooser &ch, Case &c, int depth) {
	Prog p;
	int cont = (int)ch.choose(4);
	if (cont) { p.disk.f[0].exists = true; p.disk.f[0].data = contents()[cont]; }
	Disk before = p.disk;
	p.src = "let r = 0; let f = 0;\n";
	static const int OPS[] = { 0, 2, 5, 7, 10, 16, 17 };
	for (int s = 0; s < 3 && !p.failed; s++) {
		const char *mode = MODES[ch.choose(6)];
		// the file is closed by hand, by the assignment dropping it, or by the new open
		bool hand = p.h[0].open && ch.flip();
		if (hand) { p.src += "echo f->close();\n"; p.out += "true\n"; }
		else if (p.h[0].open) p.src += "f = undef;\nr = 0;\n";
		p.src += opensrc("f", 0, mode);
		bool ok = mopen(p.disk, 0, mode, p.h[0]);
		p.out += ok ? "false\n" : "true\n";
		for (int i = 0; i < depth && ok; i++) if (!op(p, 0, OPS[ch.choose(7)])) break;
	}
	finish(c, p, before);
}
// One line around every size a buffer may have, with one odd byte around every place where such a buffer ends.
void lengths(Chooser &ch, Case &c, bool th) {
	static const vector<int> EDGE = { 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096 };
	static const char ODD[] = { '\r', '\0', '\xff', '\t', '\x1a', '\n' };
	vector<int> at; for (int e : EDGE) for (int d = -1; d <= 1; d++) at.push_back(e + d);
	std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
	int n = ch.pick(at), pos;
	if (th || n < 20) pos = (int)ch.choose((uint32_t)n + 1); else { vector<int> q; for (int x : at) if (x <= n) q.push_back(x); q.push_back(n); if (q.back() == q[q.size() - 2]) q.pop_back(); pos = ch.pick(q); }
	if (n > 300 && th && pos % 16 > 2 && pos % 16 < 15) throw Prune{};
	char odd = pos == n ? 'y' : ODD[ch.choose(6)];
	string line; for (int i = 0; i < n; i++) line += (char)('a' + i % 23);
	if (pos < n) line[(size_t)pos] = odd;
	int tail = (int)ch.choose(3);
	string rest = tail == 0 ? "" : tail == 1 ? "\n" : "\nnext\n";
	uint32_t how = ch.choose(3);
	Prog p;
	p.disk.f[0].exists = how != 2;
	if (how != 2) p.disk.f[0].data = line + rest;
	Disk before = p.disk;
	string all = line + rest;
	p.src = "let r = 0; let f = 0;\n";
	if (how == 2) {
		p.src += "const w = io.open(P0, 'w');\necho w->write(" + lit(all) + ");\necho w->close();\n"; p.out += std::to_string(all.size()) + "\ntrue\n";
		p.disk.f[0].exists = true; p.disk.f[0].data = all;
	}
	p.src += opensrc("f", 0, "r"); p.out += "false\n";
	auto show = [&](string r) { p.src += "echo len r; echo r->replace('\\0', '~');\n"; p.out += std::to_string(r.size()) + "\n"; for (char &x : r) if (!x) x = '~'; p.out += r + "\n"; };
	if (how == 1) { p.src += "r = f->read('a');\n"; show(all); }
	else for (size_t a = 0;; ) {
		size_t q = all.find('\n', a); string got;
		bool end = a >= all.size();
		if (!end) { got = q == string::npos ? all.substr(a) : all.substr(a, q - a); a = q == string::npos ? all.size() : q + 1; }
		p.src += "r = f->read('l');\n"; show(got);
		if (end) break;
	}
	p.src += "echo f->close();\n"; p.out += "true\n";
	p.steps = 4;
	finish(c, p, before);
}
// ---------------------------------------------------------------- a device that fails
struct Dev { string data; int faults = 0; bool closed = false; Chooser *ch = nullptr; int budget = 0; };
Dev *g_dev;
ssize_t dev_write(void *, const char *b, size_t n) {
	int k = g_dev->budget-- > 0 ? (int)g_dev->ch->choose_env(3) : 0;
	if (k == 1) { g_dev->faults++; errno = ENOSPC; return 0; }
	size_t m = k == 2 && n > 1 ? 1 : n;                 // a short write: the C library reports it like any other failure
	if (m < n) g_dev->faults++;
	g_dev->data.append(b, m);
	return (ssize_t)m;
}
int dev_close(void *) {
	g_dev->closed = true;
	if (g_dev->budget-- > 0 && g_dev->ch->choose_env(2)) { g_dev->faults++; errno = EIO; return EOF; }
	return 0;
}
FILE *dev_open(const char *path, const char *mode) {
	if (path != string("/dev/model")) return __real_fopen(path, mode);
	cookie_io_functions_t io = { nullptr, dev_write, nullptr, dev_close };
	return fopencookie(g_dev, mode, io);
}
void faults(Chooser &ch, Case &c, int depth, int budget) {
	static const vector<string> T = [] { string big(5000, 'q'); return vector<string>{ "one", "2\n", big }; }();
	string src = "const big = 'q'->rep(5000);\nconst f = io.open('/dev/model', 'w');\n";
	vector<int> ops;
	for (int i = 0; i < depth; i++) ops.push_back((int)ch.choose(5));
	for (int o : ops) {
		if (o < 2) src += "echo f->write(" + lit(T[o]) + ");\n";
		else if (o == 2) src += "echo f->write(big);\n";
		else if (o == 3) src += "echo f->flush();\n";
		else { src += "echo f->close();\n"; break; }
	}
	c.src = src;
	c.transitions = ops.size();
	string all; for (int o : ops) all += char('0' + o);
	c.states.push_back(fp(all));
	c.custom = [&ch, src, ops, budget]() -> string {
		Dev d; d.ch = &ch; d.budget = budget;
		g_dev = &d; mc_fopen_hook = dev_open;
		// what was on the device at each step is not observable from the program: judge at the end
		count_traces(1);
		Outcome o = run_program(src);
		mc_fopen_hook = nullptr; g_dev = nullptr;
		string w;
		if (o.status) w += "status " + std::to_string(o.status) + " " + printable(o.err) + "\n";
		if (o.badheap) w += "heap fault: " + o.heapmsg + "\n";
		if (o.leaked) w += "leak\n";
		if (!d.closed) w += "the file was never closed\n";
		vector<string> l; { size_t a = 0, b; while ((b = o.out.find('\n', a)) != string::npos) { l.push_back(o.out.substr(a, b - a)); a = b + 1; } }
		string want; bool fault = d.faults > 0, claimed = true; size_t i = 0;
		for (int k : ops) {
			if (i >= l.size()) { w += "output ends early\n"; break; }
			if (k < 3) {
				if (l[i] != std::to_string(T[k].size())) { claimed = false; if (!fault) w += "write gave " + l[i] + "\n"; }
				want += T[k];
			} else if (k == 3) {
				if (l[i] != "true") { claimed = false; if (!fault) w += "flush gave " + l[i] + " though nothing failed\n"; }
			} else {
				if (l[i] != "true") { claimed = false; if (!fault) w += "close gave " + l[i] + " though nothing failed\n"; }
				if (claimed && fault) w += "something failed, and no one was told\n";
				i++;
				break;
			}
			i++;
		}
		if (i != l.size()) w += "more output than operations\n";
		if (!fault && d.data != want) w += "the device holds something else than what was written\n";
		return w;
	};
}
// Positions far away: two seeks with every whence and offsets around every power of two, then reading.
void far(Chooser &ch, Case &c, bool th) {
	Prog p;
	p.disk.f[0].exists = true; p.disk.f[0].data = contents()[1 + ch.choose(2)];
	const string &data = p.disk.f[0].data;
	Disk before = p.disk;
	p.src = "let r = 0; let f = 0;\n" + opensrc("f", 0, ch.flip() ? "r+" : "r"); p.out += "false\n";
	mopen(p.disk, 0, "r", p.h[0]);
	static const int K[] = { 3, 8, 16, 31, 32, 33, 40, 7, 15, 24, 30, 35 };
	auto offset = [&]() -> int64_t {
		int64_t v = ((int64_t)1 << K[ch.choose(th ? 12 : 7)]) + (int64_t)ch.choose(4) - 1;
		return ch.flip() ? -v : v;
	};
	int64_t pos = 0;
	auto seek = [&](uint32_t wh, int64_t k) {
		static const char *W[] = { "set", "cur", "end" };
		int64_t to = (wh == 0 ? 0 : wh == 1 ? pos : (int64_t)data.size()) + k;
		p.src += string("echo f->seek('") + W[wh] + "', " + std::to_string(k) + ");\n";
		p.out += to >= 0 ? "true\n" : "false\n";
		if (to >= 0) pos = to;
		p.steps++;
	};
	auto readl = [&] {
		string l;
		if (pos < (int64_t)data.size()) {
			size_t q = data.find('\n', (size_t)pos);
			l = data.substr((size_t)pos, q == string::npos ? q : q - (size_t)pos);
			pos = q == string::npos ? (int64_t)data.size() : (int64_t)q + 1;
		}
		p.src += "r = f->read('l'); echo r;\n"; p.out += l + "\n";
		p.steps++;
	};
	seek(ch.choose(3), offset());
	if (ch.flip()) readl();
	switch (ch.choose(3)) {
	case 0: seek(1, 1 - pos); break;                       // back, as far as it went
	case 1: seek(ch.choose(3), offset()); break;
	case 2: seek(2, -1); break;
	}
	readl();
	p.src += "echo f->close();\n"; p.out += "true\n"; p.h[0].open = false; p.h[0].pos = pos;
	finish(c, p, before);
}
Reg r({ "I01", "every history of opens, reads, writes, seeks, flushes and closes on files in a scratch directory, against byte arrays with positions; what each operation returns and the bytes on disk afterwards are compared; and every choice of writes and closes that fail on a simulated device",
	{ "reading right after writing, writing right after reading and flushing after reading are left out: the C library leaves them undefined", "one handle per file at a time" },
	[](vector<Space> &v, bool th) {
		int d1 = th ? 4 : 3, d2 = th ? 4 : 3, d3 = th ? 2 : 1;
		v.push_back({ "one file", "6 initial contents (none, empty, short, 5000 bytes) x 7 modes x all sequences of " + std::to_string(d1) + " of 22 operations x closed or not", [d1](Chooser &c, Case &k) { one(c, k, d1); }, 3 });
		v.push_back({ "two files", "36 pairs of modes x all sequences of " + std::to_string(d2) + " of 16 operations", [d2](Chooser &c, Case &k) { two(c, k, d2); }, 3 });
		v.push_back({ "opened again", "4 contents x 3 opens in 6 modes with " + std::to_string(d3) + " of 7 operations after each, closed by hand or dropped", [d3](Chooser &c, Case &k) { reopen(c, k, d3); }, 3 });
		v.push_back({ "lengths", "a line of 0 to 4097 bytes around every power of two, one of 6 odd bytes around every power of two in it, 3 ways for the file to go on, read by the line, as a whole, or written first", [th](Chooser &c, Case &k) { lengths(c, k, th); }, 3 });
		v.push_back({ "far", "2 contents x 2 modes x seek from each of 3 places by an offset around a power of two up to 2^40, either way, x read or not x a second such seek, or straight back, or to the end, x read", [th](Chooser &c, Case &k) { far(c, k, th); }, 3 });
		int d4 = th ? 5 : 4, b4 = th ? 5 : 4;
		v.push_back({ "failing device", "all sequences of " + std::to_string(d4) + " writes, flushes and closes x success, short write or failure of each of the first " + std::to_string(b4) + " accesses", [d4, b4](Chooser &c, Case &k) { faults(c, k, d4, b4); }, 2 });
	} });
}  // namespace
