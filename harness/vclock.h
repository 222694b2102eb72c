// A clock the script controls: the executable's own definitions of the libc
// time functions take precedence over those of the C library.
#pragma once
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cstdint>
namespace vclock {
// Negative values are times before 1970.
extern bool on;
extern int64_t sec;
extern int64_t nsec;  // 0 .. 999999999
}  // namespace vclock
#ifdef VCLOCK_IMPL
namespace vclock {
bool on = false;
int64_t sec = 0;
int64_t nsec = 0;
}  // namespace vclock
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (vclock::on && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
    ts->tv_sec = vclock::sec;
    ts->tv_nsec = vclock::nsec;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) {
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
  }
  return 0;
}
extern "C" time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
#endif
