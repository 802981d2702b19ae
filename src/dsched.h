// Deterministic scheduler for code compiled with -fsanitize=thread
// instrumentation (without the ThreadSanitizer run time, which is replaced).
// Only one controlled thread runs at a time; at every atomic operation and
// every synchronisation call the choice sequence of the case decides who runs
// next.  Plain accesses to heap and global memory feed a happens-before race
// detector; deleted memory is quarantined, so that a late access is reported.
#pragma once

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "pbt.h"

namespace sched {

// Runs all bodies to completion under one schedule drawn from `s`.  Throws
// pbt::Fail for a data race, a use after free, or a failure of a body.
void run(pbt::Source& s, const std::vector<std::function<void()>>& bodies);

// logical time, strictly increasing
uint64_t now();

// an additional point where another thread may go on
void yield();

// a violation seen where no exception can be thrown
void report(const std::string& m);

// id of the running controlled thread, -1 outside of run()
int self();

struct Stats {
  uint64_t switches, steps, accesses;
};
Stats stats();  // of the last run

}  // namespace sched
