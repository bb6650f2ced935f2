// The polling backend: its sleeps and its looks at the file tree are gates.
// A scan begins with the first look after a sleep, and ends with the sleep.
#pragma once
#include "shim.hpp"
#include <sys/stat.h>
#include <time.h>

namespace shim {

inline void looks(char const* gatekind, std::string const& at)
{
  Own own_;
  W* w = tl_w;
  if (! w || tl_in) return;
  if (! w->scanning) {
    w->scanning = true;
    logf("{\"e\":\"scanbegin\",\"w\":%d}", w->id);
  }
  gate(gatekind, at);
}

inline int sleeps()
{
  Own own_;
  W* w = tl_w;
  if (w->scanning) {
    {
      std::lock_guard<std::mutex> g(M);
      w->scanning = false;
      ++w->scans;
    }
    logf("{\"e\":\"scanend\",\"w\":%d}", w->id);
  }
  gate("wait");
  if (w->stops.empty()) {
    timespec t{0, 1000000};
    syscall(SYS_nanosleep, &t, nullptr);
  }
  return 0;
}

} // namespace shim

extern "C" {

int nanosleep(timespec const* t, timespec* left)
{
  using namespace shim;
  if (! tl_w || tl_in) return (int)syscall(SYS_nanosleep, t, left);
  return sleeps();
}
int clock_nanosleep(clockid_t c, int fl, timespec const* t, timespec* left)
{
  using namespace shim;
  if (! tl_w || tl_in) return syscall(SYS_clock_nanosleep, c, fl, t, left) == 0 ? 0 : errno;
  return sleeps();
}
int usleep(useconds_t us)
{
  timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
static int shim_statat(int dfd, char const* p, struct stat* s, int fl)
{
  using namespace shim;
  looks("stat", p ? p : "");
  return (int)syscall(SYS_newfstatat, dfd, p, s, fl);
}
int stat(char const* p, struct stat* s) noexcept { return shim_statat(AT_FDCWD, p, s, 0); }
int lstat(char const* p, struct stat* s) noexcept { return shim_statat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, char const* p, struct stat* s, int fl) noexcept { return shim_statat(d, p, s, fl); }
static int shim_openat(int d, char const* p, int fl, mode_t m)
{
  using namespace shim;
  if (! tl_w || tl_in) return (int)syscall(SYS_openat, d, p, fl, m);
  looks("list", p ? p : "");
  if (fault("openat", p ? p : "")) return -1;
  return (int)syscall(SYS_openat, d, p, fl, m);
}
int openat(int d, char const* p, int fl, ...)
{
  va_list a;
  va_start(a, fl);
  mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return shim_openat(d, p, fl, m);
}
int __openat_2(int d, char const* p, int fl) { return shim_openat(d, p, fl, 0); }

} // extern "C"
