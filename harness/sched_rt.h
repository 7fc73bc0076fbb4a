// Controlled scheduler and happens-before race detector: the run-time behind code compiled with -fsanitize=thread
// (instead of the ThreadSanitizer library).  Threads are real threads, of which exactly one runs at a time; which one
// is decided at every scheduling point (lock, atomic, once, thread start and end, and optionally function entries).
#ifndef SCHED_RT_H_
#define SCHED_RT_H_
#include <stdint.h>

#include <functional>
#include <string>
#include <vector>

namespace vs {
struct Options {
  int preemptions = 1;        // bound on switches away from a thread that could go on
  bool at_functions = false;  // scheduling points at function entries too
  int every = 1;              // ... at every n-th of them
  bool cold = false;          // every execution in a process of its own (function-local statics not yet initialised)
  std::function<bool()> stop;  // asked after every execution: whether the time for this exploration is used up
};
struct Stats {
  uint64_t executions = 0, points = 0, max_points = 0, accesses = 0;
  bool capped = false;
};
// Explores all schedules of the bodies within the bound.  `before` builds the shared state of one execution, `after`
// judges it; a non-empty string from `after`, a data race or a deadlock ends the exploration and is returned.
// With more than one preemption allowed, those with at most one come first.
std::string Explore(const Options& o, const std::function<std::vector<std::function<void()>>()>& before, const std::function<std::string()>& after, Stats* st, const std::function<void()>& beat);
// The schedule of the last execution, as text.
std::string LastSchedule();
uint64_t ScheduleHash();
// A scheduling point for use in harness code (e.g. mocks).
void Point();
}  // namespace vs
#endif
