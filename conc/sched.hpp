// Threads under the simulator's control: one runs at a time, and the choices of the run decide
// where it is interrupted and who goes on.  Memory accesses of instrumented code are checked for conflicts.
#pragma once
#include "harness.hpp"

namespace conc
{

constexpr int max_threads = 4;

// In a process: run the bodies as threads until all have ended.
// what: prefix of the signature of a reported conflict.
void runThreads(char const * what, std::vector<std::function<void()>> const & bodies);

struct Stats {
  uint64_t accesses;  // checked
  uint64_t switches;  // forced interruptions
  uint64_t sync;      // synchronisation operations
};
extern Stats stats;

} // namespace conc
