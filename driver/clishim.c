/* Preloaded into the command line tool.
   The privileged facility is refused. One call may be made to fail (CLI_FAULT=name:nth:errno).
   With CLI_CTL=fd the main thread's sleeping is virtual: each sleep is announced on that
   descriptor ("S sec nsec\n"), lasts until a byte comes back, and moves the clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static atomic_llong voff_s, voff_ns;

static int is_main(void) { return syscall(SYS_gettid) == getpid(); }
static int ctl(void)
{
  static int fd = -2;
  if (fd == -2) { char const* e = getenv("CLI_CTL"); fd = e ? atoi(e) : -1; }
  return fd;
}
static int fault(char const* fn)
{
  static atomic_int n;
  char const* e = getenv("CLI_FAULT");
  size_t l = strlen(fn);
  if (! e || strncmp(e, fn, l) || e[l] != ':') return 0;
  int nth = 1, en = EIO;
  sscanf(e + l + 1, "%d:%d", &nth, &en);
  if (atomic_fetch_add(&n, 1) + 1 != nth) return 0;
  errno = en;
  return 1;
}
#define REAL(f) ((typeof(&f))dlsym(RTLD_NEXT, #f))

int clock_gettime(clockid_t c, struct timespec* t)
{
  int r = (int)syscall(SYS_clock_gettime, c, t);
  if (r == 0) {
    t->tv_sec += voff_s; t->tv_nsec += voff_ns;
    if (t->tv_nsec >= 1000000000) { t->tv_nsec -= 1000000000; ++t->tv_sec; }
  }
  return r;
}
static int vsleep(struct timespec const* d)
{
  char b[96];
  int n = snprintf(b, sizeof b, "S %lld %ld\n", (long long)d->tv_sec, (long)d->tv_nsec);
  if (write(ctl(), b, n) != n) return 0;
  char c;
  while (syscall(SYS_read, ctl(), &c, 1) < 0 && errno == EINTR) {}
  long long ns = voff_ns + d->tv_nsec;
  long long s = voff_s;
  if (d->tv_sec < (1LL << 60)) s += d->tv_sec;
  if (ns >= 1000000000) { ns -= 1000000000; ++s; }
  voff_ns = ns; voff_s = s;
  return 0;
}
static int virt(void) { return ctl() >= 0 && is_main(); }

int nanosleep(struct timespec const* d, struct timespec* rem)
{
  if (! virt()) return (int)syscall(SYS_nanosleep, d, rem);
  if (d->tv_sec < 0 || d->tv_nsec < 0 || d->tv_nsec > 999999999) { errno = EINVAL; return -1; }
  return vsleep(d);
}
int clock_nanosleep(clockid_t c, int fl, struct timespec const* d, struct timespec* rem)
{
  if (! virt()) return (int)syscall(SYS_clock_nanosleep, c, fl, d, rem) ? errno : 0;
  if (d->tv_nsec < 0 || d->tv_nsec > 999999999) return EINVAL;
  struct timespec x = *d;
  if (fl & TIMER_ABSTIME) {
    struct timespec now;
    clock_gettime(c, &now);
    x.tv_sec -= now.tv_sec; x.tv_nsec -= now.tv_nsec;
    if (x.tv_nsec < 0) { x.tv_nsec += 1000000000; --x.tv_sec; }
    if (x.tv_sec < 0) return 0;
  }
  return vsleep(&x);
}
int usleep(useconds_t u) { struct timespec d = {u / 1000000, (u % 1000000) * 1000L}; return nanosleep(&d, 0); }
unsigned sleep(unsigned s) { struct timespec d = {s, 0}; nanosleep(&d, 0); return 0; }

int fanotify_init(unsigned a, unsigned b) { (void)a; (void)b; errno = EPERM; return -1; }
int inotify_init1(int fl) { return fault("inotify_init") ? -1 : (int)syscall(SYS_inotify_init1, fl); }
int inotify_init(void) { return fault("inotify_init") ? -1 : (int)syscall(SYS_inotify_init1, 0); }
int inotify_add_watch(int fd, char const* p, unsigned m)
{ return fault("inotify_add_watch") ? -1 : (int)syscall(SYS_inotify_add_watch, fd, p, m); }
int epoll_create1(int fl) { return fault("epoll_create") ? -1 : (int)syscall(SYS_epoll_create1, fl); }
int epoll_create(int n) { (void)n; return fault("epoll_create") ? -1 : (int)syscall(SYS_epoll_create1, 0); }
int eventfd(unsigned v, int fl) { return fault("eventfd") ? -1 : (int)syscall(SYS_eventfd2, v, fl); }
int epoll_ctl(int a, int b, int c, struct epoll_event* e) { return fault("epoll_ctl") ? -1 : (int)syscall(SYS_epoll_ctl, a, b, c, e); }
int epoll_wait(int a, struct epoll_event* e, int n, int t)
{ return fault("epoll_wait") ? -1 : REAL(epoll_wait)(a, e, n, t); }
