// Controlled scheduler: explores the schedules of code that runs in several threads.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
enum Mode { REDUCED, ALL };
struct Result {
	uint64_t schedules = 0;      // executions explored
	uint64_t points = 0;         // visible operations executed by team threads, all executions
	uint64_t choices = 0;        // scheduling decisions with more than one alternative
	uint64_t syncs = 0;          // synchronisation operations seen
	bool complete = true;        // false when the cap on the number of schedules was reached
	std::string error;           // first race / deadlock / escaped exception, with its schedule
};
// Execute body under every schedule.  In REDUCED mode one execution per Mazurkiewicz trace class is
// enough when no synchronisation operation and no conflicting pair of accesses occurs (all other
// interleavings are then equivalent); otherwise every order of the synchronisation operations is
// explored.  In ALL mode every access to memory other than the thread's own stack is a scheduling
// point.  bound: preemptions per execution.  after: called after every execution.
Result explore(int threads, Mode mode, int bound, uint64_t cap, const std::function<void()>& body, const std::function<void()>& after);
// run the functions as concurrent threads (inside a body)
void threads(const std::vector<std::function<void()>>& f);
}
