#include "vclock.h"

#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <chrono>

namespace vclock {
bool enabled = false;
int64_t monotonic_ns = 0;
int64_t realtime_ns = 0;

bool effective() {
  const bool was = enabled;
  const int64_t m = monotonic_ns, r = realtime_ns;
  enabled = true;
  monotonic_ns = 123456789012345;
  realtime_ns = 5000000000ll * 1000000000ll;
  const bool ok =
      std::chrono::steady_clock::now().time_since_epoch().count() ==
          monotonic_ns &&
      std::chrono::system_clock::now().time_since_epoch().count() ==
          realtime_ns &&
      ::time(nullptr) == 5000000000ll;
  enabled = was;
  monotonic_ns = m;
  realtime_ns = r;
  return ok;
}
}  // namespace vclock

extern "C" {

int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (vclock::enabled) {
    const bool mono = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE ||
                      id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_RAW;
    const bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
    if (mono || wall) {
      const int64_t ns = mono ? vclock::monotonic_ns : vclock::realtime_ns;
      ts->tv_sec = ns / 1000000000;
      ts->tv_nsec = ns % 1000000000;
      return 0;
    }
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

time_t time(time_t* out) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}

int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}
