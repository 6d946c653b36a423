// Deterministic simulator for nullc: shared declarations.
// One seed -> one Plan (a list of operations, configuration and faults). A run is a pure function of its Plan and the code.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef uint64_t u64;
typedef uint32_t u32;

inline u64 mix64(u64 x){ x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
inline u64 hashStr(const char *s, size_t n, u64 h = 1469598103934665603ull){ for(size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull; return h; }
inline u64 hashStr(const std::string &s, u64 h = 1469598103934665603ull){ return hashStr(s.data(), s.size(), h); }

struct Rng
{
	u64 s;
	explicit Rng(u64 seed = 1): s(mix64(seed ^ 0x5bd1e995)) {}
	u64 next(){ s += 0x9E3779B97F4A7C15ull; return mix64(s); }
	u32 below(u32 n){ return n ? u32(next() % n) : 0; }
	int range(int a, int b){ return a + int(below(u32(b - a + 1))); }	// inclusive
	bool chance(u32 num, u32 den){ return below(den) < num; }
	bool coin(){ return next() & 1; }
	Rng fork(){ return Rng(next()); }
	template<typename T> const T& pick(const std::vector<T> &v){ return v[below(u32(v.size()))]; }
};

struct Op
{
	std::string name;
	std::vector<long long> a;
	std::string s;
	Op(){}
	Op(const std::string &n, std::vector<long long> args = {}, const std::string &str = ""): name(n), a(args), s(str) {}
	long long arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};

struct Plan
{
	std::string prop;
	u64 seed = 0;
	std::map<std::string, long long> cfg;
	std::vector<Op> ops;
	long long get(const char *k, long long def = 0) const { auto it = cfg.find(k); return it == cfg.end() ? def : it->second; }
	std::string text() const;
	bool parse(const std::string &t);
};

// What a run reports; lives in memory shared with the worker
struct Counter { char name[48]; u64 n; };
struct Shm
{
	int status;			// 0 running, 1 done, 2 violation
	char cls[200];
	char msg[6000];
	u64 hash, events, steps;
	u64 simTimeUs;
	u32 nfaults, nprobes, nstates;
	int nontrivial;
	Counter faults[64];
	Counter probes[192];
	u64 states[2048];
	char tail[4096]; u32 tailLen;	// last log events, for reports
};

extern Shm *shm;

namespace sim
{
	void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));	// event log: hashed, never draws randomness
	void logText(const std::string &s);
	[[noreturn]] void fail(const std::string &cls, const std::string &msg);	// violation: class (stable under minimisation) and details
	[[noreturn]] void failf(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void fault(const char *kind, u64 n = 1);	// a fault that actually fired
	void probe(const char *name, u64 n = 1);	// a rare condition that was hit
	void state(u64 signature);	// distinct behaviour measure
	void step(u64 n = 1);
	void nontrivial();
	void advance(u64 us);	// simulated time
	[[noreturn]] void done();
	std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
	extern bool verbose;
	extern bool inRun;	// inside a simulated run (child process)
}

struct Property
{
	const char *id;
	const char *what;			// one line: what is simulated
	void (*warm)();				// once per worker, before forking runs
	void (*generate)(Rng &rng, Plan &plan, int tier);
	void (*execute)(const Plan &plan);	// in the forked child; returns normally when the property held
	std::string (*describe)(const Plan &plan);	// readable form of the plan for the replay file
	int quickRuns, thoroughRuns;
	int quickSec, thoroughSec;
	const char *rule;
	const char *real, *stub;
};
// Fixed scenarios, run before the search: recorded findings and regressions.
struct Directed { std::string prop, name; Plan plan; void (*execute)(const Plan&); };
void addDirected(const Directed &d);
void registerProperty(const Property &p);
struct RegisterProperty { RegisterProperty(const Property &p){ registerProperty(p); } };

// ---- arena: deterministic host allocator with balance, overflow and double-free checks, and fault injection
namespace arena
{
	void init();
	void* alloc(int size);
	void dealloc(void *ptr);
	extern long long live, liveBytes, total;	// blocks outstanding
	extern long long failAt;		// fail the n-th allocation from now (0: never); decremented
	extern bool failSticky;
	extern u64 failed;
	extern long long refuseAfter; extern bool refuseSticky, refuseOn; extern u64 refused; void refuseReset(); void expectObject(u32 size); void shufflePages(u64 seed);	// refuse the n-th block of object memory
	void checkAll();				// verify canaries of live blocks
	bool contains(const void *p);
	std::vector<std::pair<u64, u32>> liveBlocks(u64 sinceOrdinal);	// (ordinal, size)
	extern u64 ordinal;
}

// ---- seam in NULLC::AllocObject
namespace gcsim
{
	struct Sched
	{
		bool on = false;
		u64 count = 0;		// allocations seen
		int period = 0, offset = 0;	// collect every period-th allocation
		std::vector<u64> at;	// collect at these ordinals (sorted)
		std::vector<u64> failAt;	// fail at these ordinals (sorted)
		bool failFrom = false;	// fail every allocation from failAt[0] on
		u64 collections = 0, failures = 0;
		u64 maxCollections = 100000;
	};
	extern Sched s;
	extern bool poison;
	void reset();
	void configure(const Plan &p);	// from cfg gc_period, gc_offset and ops gc/failalloc
}
