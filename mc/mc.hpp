// Bounded-exhaustive explorer core.
//
// A check registers one or more "spaces".  A space is a generator function that asks a Chooser for
// choices; the explorer enumerates every sequence of answers (depth-first, complete), and for every
// leaf runs the case it describes against the real YASL code and compares it with the reference.
// Work is split between forked workers by choice prefix.  Every case that fails is replayed alone in a
// fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>

namespace mc {

struct Skip {};                      // thrown by choose(): subtree belongs to another worker
struct Prune {};                     // thrown by generators: this combination is not a case

class Chooser {
public:
	// n alternatives, returns 0..n-1.  Only legal while no C code of YASL is on the stack.
	uint32_t choose(uint32_t n) {
		if (n == 0) throw Prune{};
		if (pos < path.size()) {
			uint32_t c = path[pos].first;
			if (path[pos].second != n) diverged(n);
			pos++;
			gate();
			return c;
		}
		path.emplace_back(0, n);
		pos++;
		gate();
		return 0;
	}
	// Same, but never throws: for choices made by the environment while YASL code is running.
	uint32_t choose_env(uint32_t n) {
		if (n == 0) abort();
		if (pos < path.size()) {
			uint32_t c = path[pos].first;
			if (path[pos].second != n) diverged(n);
			pos++;
			note_env();
			return c;
		}
		path.emplace_back(0, n);
		pos++;
		note_env();
		return 0;
	}
	bool flip() { return choose(2) == 1; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[choose((uint32_t)v.size())]; }

	// --- engine side
	std::vector<std::pair<uint32_t, uint32_t>> path;
	size_t pos = 0;
	size_t split = 3;                // choices [0, split) identify a work unit
	uint64_t unit = 0;               // ordinal of the current work unit
	std::function<bool(uint64_t)> mine;  // is this unit for me?
	bool gated = false;
	[[noreturn]] void diverged(uint32_t n);
	void note_env();                 // make environment choices visible to the watchdog

	void gate() {
		if (pos == split && !gated) {
			gated = true;
			if (mine && !mine(unit)) throw Skip{};
		}
	}
	// advance to the next path; false when the space is exhausted
	bool next(bool skipped) {
		if (skipped && path.size() > split) path.resize(split);
		else if (path.size() > pos) path.resize(pos);
		while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
		if (path.empty()) return false;
		path.back().first++;
		if (path.size() <= split) unit++;
		pos = 0;
		gated = false;
		return true;
	}
	void begin() { pos = 0; gated = false; }
};

// What one program run did.
struct Outcome {
	int status = -1;
	std::string out, err;
	long leaked = 0;                 // live heap blocks after the state was deleted
	long badheap = 0;                // heap-discipline faults (double free, overflow, write after free)
	std::string heapmsg;
	long open_files = 0;
};

struct Case {
	std::string key;                 // identity used by known findings (defaults to src)
	std::string src;                 // YASL program (default runner)
	int status = 0;                  // expected status
	std::string out;                 // expected stdout
	int line = -1;                   // expected "(line N)" in the error text, -1: unchecked
	bool check_out = true;
	bool sorted_lines = false;       // compare out with '|' separated fields of lines starting with '~' sorted
	bool nolibs = false;             // bare state
	bool check_leaks = true;
	uint64_t transitions = 1;        // model steps this case performs
	std::vector<uint64_t> states;    // fingerprints of model states visited
	std::function<std::string()> custom;   // if set: runs the case itself, "" = ok, else what is wrong
};

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fp(const std::string &s) { return fnv(s.data(), s.size()); }

struct Space {
	std::string name;
	std::string bound;               // human description of the bound
	std::function<void(Chooser &, Case &)> gen;
	size_t split = 3;
};

struct Check {
	std::string id;
	std::string rule;                // how cases are made
	std::vector<std::string> assumptions;
	std::function<void(std::vector<Space> &, bool thorough)> spaces;
};

void register_check(const Check &c);
struct Reg { Reg(const Check &c) { register_check(c); } };

// Run one program in a fresh interpreter state (through the public C API).
Outcome run_program(const std::string &src, bool nolibs = false);
// Same through a hook called with the state before execution (to declare things).
struct RunOpts {
	bool nolibs = false;
	bool file = false;               // compile from a (scratch) file rather than from a buffer
	bool repl = false;               // YASL_execute_REPL
	std::function<void(void *S)> setup;
	std::function<void(void *S)> teardown;   // before delstate
};
Outcome run_program(const std::string &src, const RunOpts &o);
std::string compare(const Case &c, const Outcome &o);

void count_state(uint64_t fingerprint);
void count_transitions(uint64_t n);
void count_traces(uint64_t n);
void heap_begin();                       // start heap accounting for one case
void heap_end(Outcome &o);
const std::string &scratch_dir();        // per-worker scratch directory (created, removed by the engine)

std::string printable(const std::string &s);
bool thorough();

}  // namespace mc
