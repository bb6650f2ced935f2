// The wall clock as the harness wants it to be.
#pragma once
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
namespace fakeclock {
inline bool on = false;
inline long long now = 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
  if (! fakeclock::on || id != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, id, ts);
  long long s = fakeclock::now / 1000000000, n = fakeclock::now % 1000000000;
  if (n < 0) n += 1000000000, s -= 1;
  ts->tv_sec = s;
  ts->tv_nsec = n;
  return 0;
}
