// Virtual system clock: every read of CLOCK_REALTIME returns base + scale*k for
// consecutive ticks k.  Linked into the sequential harnesses, where it replaces
// libc's clock_gettime (also for std::chrono and friends, which call it).
#ifndef VCLOCK_H
#define VCLOCK_H
#include <cerrno>
#include <cstdint>
#include <ctime>
#include <sys/time.h>

namespace vclock {
static int64_t base = 0, scale = 1, tick = 1;
static inline int64_t ns_of(int64_t k) { return base + scale * k; }
static inline int64_t decode(int64_t ns) {
  if (ns == 0)
    return 0;
  int64_t d = ns - base;
  if (d >= 0 && d % scale == 0 && d / scale < 100000000)
    return d / scale;
  return -7; // no tick of this clock
}
} // namespace vclock

extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  int64_t ns = vclock::ns_of(vclock::tick++);
#ifdef PORT_MONOTONIC // the system clock of this target is the monotonic one
  id = id == CLOCK_MONOTONIC ? CLOCK_REALTIME : CLOCK_MONOTONIC;
#endif
  if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI)
    ns = ns / 3 + 17; // another clock: not the system time
  ts->tv_sec = ns / 1000000000;
  ts->tv_nsec = ns % 1000000000;
  return 0;
}
#endif
