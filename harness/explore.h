// Controlled scheduler and race detector: the runtime behind -fsanitize=thread in the C17 explorer.
// One execution = one forked process; real threads pass a token at every synchronisation point.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
enum { MAXT = 4, MAXPATH = 1 << 16 };
struct Options {
	int bound;          // preemptions (and other deviations) per execution
	bool refcounts;     // reference counting is a schedule point as well
	bool stale;         // relaxed and acquire loads may return older values
	int part, parts;    // only schedules whose first deviation is at a point of this class
};
struct Outcome {
	int executions = 0;
	uint64_t points = 0;    // schedule points passed
	uint64_t accesses = 0;  // plain memory accesses checked
	bool capped = false;
	bool failed = false;
	std::string message;
};
// The bodies of one execution and the judgement of their results.
struct Case {
	std::vector<std::function<void()>> threads;
	std::function<std::string()> judge;  // "" or what is wrong (after all threads have ended)
};
// Runs make() in a fresh process for every schedule within the bound.
Outcome explore(const Options &o, const std::function<Case()> &make, const std::function<void(uint64_t)> &each, const std::function<bool()> &stop);
}
