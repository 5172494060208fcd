// A clock the harness moves.  Interposes libstdc++'s; include in one source.
// With FAKECLOCK_PER_THREAD every thread has its own.
#pragma once

#include <time.h>

#include <atomic>
#include <chrono>

#include "pbt.hpp"

namespace fakeclock {
#ifdef FAKECLOCK_PER_THREAD
inline thread_local std::atomic<int64_t> now{0};  // ns
#else
inline std::atomic<int64_t> now{0};  // ns
#endif
inline std::atomic<int64_t> reads{0};
inline std::atomic<int64_t> wall{0};  // ns the wall clock is ahead
inline int64_t real(clockid_t id) {
  timespec t;
  clock_gettime(id, &t);
  return int64_t{t.tv_sec} * 1000000000 + t.tv_nsec;
}
}  // namespace fakeclock

namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  if (pbt::realClock) return time_point{duration{fakeclock::real(CLOCK_MONOTONIC)}};
  ++fakeclock::reads;
  return time_point{duration{fakeclock::now.load()}};
}
system_clock::time_point system_clock::now() noexcept {
  if (pbt::realClock) return time_point{duration{fakeclock::real(CLOCK_REALTIME)}};
  ++fakeclock::reads;
  return time_point{duration{fakeclock::now.load() + fakeclock::wall.load()}};
}
}  // namespace _V2
}  // namespace std::chrono
