// Exhaustive-exploration core: jobs, counters, choice enumeration, violation reporting.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

enum class Tier { quick, thorough };

// Set of 64-bit hashes (distinct states seen by one job).
class HashSet {
public:
	bool insert(uint64_t h);
	size_t size() const { return n; }
private:
	std::vector<uint64_t> tab;
	size_t n = 0;
	bool zero = false;
	void grow();
};

struct Shared;  // per-job slot in memory shared with the parent

// What a job sees. One Run per job, in a process of its own.
class Run {
public:
	Run(Shared *s, Tier tier) : tier(tier), sh(s) {}
	const Tier tier;
	bool thorough() const { return tier == Tier::thorough; }
	// Names the case that starts now (for the report if it fails, crashes or hangs).
	void begin(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	// A transition: one operation on the real code.
	void step(uint64_t n = 1);
	// A state reached (hash of what is observable there).
	void state(uint64_t h);
	// A complete execution compared with the reference model.
	void trace(uint64_t n = 1);
	// Progress only (long loops).
	void tick();
	void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	// A bound was hit before the space was exhausted.
	void capped(const char *what);
private:
	Shared *sh;
	HashSet seen;
};

struct Job {
	std::string name;
	std::function<void(Run &)> fn;
	int weight;  // heavier jobs start first
	size_t mb = 5000;  // memory it may take
};

// Enumerates all choice sequences, with at most `bound` non-default choices each.
class Chooser {
public:
	explicit Chooser(int bound = 1 << 30) : bound(bound) {}
	void reset() { path.clear(); }
	// Starts an execution
	void start() { pos = 0; cost = 0; }
	// Answer 0 is the default; others cost `price` deviations.
	int choose(int n, int price = 1);
	// After an execution: moves on to the next sequence; false when all are done.
	bool next();
	std::string str() const;
	int deviations() const { return cost; }
private:
	struct P { int choice, n, price, before; };
	std::vector<P> path;
	size_t pos = 0;
	int cost = 0;
	const int bound;
};

// Seconds since the explorer was started.
double elapsed();
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);
inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29;
	return h;
}
std::string hex(const void *p, size_t n);

// Allocation control (operator new is replaced in every harness).
struct Alloc {
	static uint64_t count();       // allocations so far
	static uint64_t volume();      // bytes of them in all
	static int64_t live();         // live allocations
	static void fail_at(int64_t n);  // the n-th allocation from now (0 = next) throws bad_alloc; <0: never
	static bool fired();
	static void track();           // counts bytes from now on
	static void untrack();
	static int64_t bytes();        // bytes held more (or less) than at track()
	static int64_t peak();         // most of it so far
	static void reuse(int policy);   // 0: malloc, 1: last released first, 2: first released first
};

// Defined by each property's harness.
extern const char *const property;
void jobs(std::vector<Job> &out, Tier tier);
}  // namespace mc
