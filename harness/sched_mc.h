// One configuration explored under the controlled scheduler, as a case of the engine.
#ifndef SCHED_MC_H_
#define SCHED_MC_H_
#include "mc.h"
#include "sched_rt.h"
namespace vs {
// All schedules within the bound of o; those with at most one preemption first, so that a time budget that runs out
// (code with far more scheduling points than today's) costs the deepest schedules of each configuration and no more.
inline void ExploreCase(mc::T& t, uint64_t id, const Options& o, const std::function<std::vector<std::function<void()>>()>& before, const std::function<std::string()>& after) {
  for (int bound = o.preemptions < 1 ? o.preemptions : 1;; bound = o.preemptions) {
    Options b = o;
    b.preemptions = bound;
    uint64_t n = 0;
    b.stop = [&] { return (++n & 15) == 0 && (t.late() || (bound > 1 && t.share_used() && (t.truncated = true))); };
    Stats st;
    std::string bad = Explore(b, before, after, &st, [&] {
      t.beat();
      t.state(mc::comb(id, ScheduleHash()));  // a distinct schedule
    });
    t.step(st.executions);
    t.check(bad.empty(), [&] { return bad + "; schedule: " + LastSchedule(); });
    if (bound == o.preemptions || t.late()) return;
  }
}
}  // namespace vs
#endif
