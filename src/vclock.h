// The clocks of the C library, as seen by the code under test.
#pragma once
#include <cstdint>

namespace vclock {

// while enabled, CLOCK_MONOTONIC (steady_clock) and CLOCK_REALTIME
// (system_clock, time) return these, in nanoseconds
extern bool enabled;
extern int64_t monotonic_ns;
extern int64_t realtime_ns;

// does steady_clock really follow?
bool effective();

}  // namespace vclock
