// Simulated threads: real threads of which exactly one runs at any moment,
// chosen by the plan.  Code under test is compiled with -fsanitize=thread
// instrumentation against the runtime in conc.cpp, which turns every memory
// access, atomic operation and lock into a scheduling point and checks the
// executed history for unsynchronised conflicting accesses.
#pragma once
#include <functional>
#include <vector>

#include "rt.hpp"

namespace sim {
struct Switch { int64_t after; int to; };  // run this many accesses, then continue with thread `to`
struct Sched {
  std::vector<Switch> sw;
  int64_t tail = 0;       // mean distance of further pseudo-random switches; 0: none
  uint64_t tailseed = 0;
};
struct ConcResult { uint64_t accesses = 0, switches = 0, blocked = 0, atomics = 0; };
ConcResult conc_run(int threads, const Sched&, const std::function<void(int)>& body);
void conc_barrier();   // every simulated thread waits for all others
}  // namespace sim
