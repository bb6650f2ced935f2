// Interposition layer: the kernel below is the real one, but every point at
// which the watching thread meets the kernel (and every callback) is a gate
// that the script can hold closed, and every system call can be made to fail.
//
// Gate kinds (see `gate`):
//   start   the watching thread begins           exit   it has finished
//   evr     before reading the stop eventfd      evr2   after
//   evw     before writing the stop eventfd      evw2   after  (closing thread)
//   mark    before a directory is marked         mark2  after
//   list    before a directory is listed         list2  after its first entry was read
//   wait    epoll_wait was called                read   before reading records
//   cb      inside of the callback
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <atomic>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace shim {

// ---------------------------------------------------------------- log
struct Log {
  char* buf = nullptr;
  size_t cap = 0;
  std::atomic<size_t>* len = nullptr;
};
inline Log L;
inline std::recursive_mutex logm;

inline std::string jesc(std::string const& s)
{
  std::string o;
  char t[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(t, sizeof t, "\\u%04x", c); o += t; } // bytes as latin-1
    else o += (char)c;
  }
  return o;
}

inline void logf(char const* fmt, ...)
{
  char tmp[16384];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(tmp, sizeof tmp - 2, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  std::string big;
  char* src = tmp;
  if (n > (int)sizeof tmp - 4) {
    big.resize(n + 2);
    va_start(ap, fmt);
    n = vsnprintf(&big[0], big.size(), fmt, ap);
    va_end(ap);
    src = &big[0];
  }
  src[n++] = '\n';
  std::lock_guard<std::recursive_mutex> g(logm);
  size_t at = L.len->load();
  if (at + n > L.cap) return;
  memcpy(L.buf + at, src, n);
  L.len->store(at + n);
}

// ---------------------------------------------------------------- roles and gates
struct Rec {
  std::string raw;
};

struct W {
  int id = 0;
  // gate
  std::set<std::string> stops;
  std::string at;      // gate at which the watching thread is held
  std::string at_info;
  bool go = false;
  bool blocked = false; // in a wait with nothing ready
  bool done = false;    // watching thread finished
  bool started = false;
  long gateno = 0;
  // directives for the wait
  int quota = -1;       // records for the next read; -1: all
  int order = 0;        // 0: as registered, 1: reversed
  int spurious = 0;     // number of empty wake-ups to produce
  int only = 0;         // 1: report only notification fds in the next wait, 2: only the stop fd
  // kernel side
  std::deque<Rec> q;
  int readfds = 0;
  int infd = -1;
  size_t weave_at = 0, weave_end = 0;
  unsigned last_from = 0; // cookie of the first half of a rename which ended the last read
  uint64_t drained = 0; // bytes ever taken from the kernel
  int ovf_at = -1;      // insert an overflow record after this many queued records
  int bad = 0;          // other records to insert
  // polling
  bool scanning = false;
  long scans = 0;       // scans which ended
};

// closing threads are roles of their own
struct Closer {
  int id = 0;
  W* w = nullptr;
  std::set<std::string> stops;
  std::string at;
  bool go = false;
  bool done = false;
  int verdict = -1;
  std::atomic<int> tid{0};
};

inline std::mutex M;
inline std::condition_variable CV;
inline bool dt_unknown = false;
inline std::map<int, W*> ws;
inline thread_local W* tl_w = nullptr;      // this thread watches for w
inline thread_local Closer* tl_c = nullptr; // this thread closes
inline thread_local W* tl_role = nullptr;   // resources are accounted to w
inline thread_local bool tl_in = false;     // inside of the shim: pass everything through
inline thread_local int tl_own = 0;         // what is allocated now is the driver's own
struct Own {
  Own() { ++tl_own; }
  ~Own() { --tl_own; }
};
inline W* spawn_for = nullptr;              // next thread belongs to w
inline std::atomic<bool> freeall{false};    // shutdown: all gates open
inline bool log_sys = false;
inline bool emulate = true;

template<class R, class... A> using fn = R (*)(A...);
#define REAL(name) ((decltype(&::name))real_(#name))
inline void* real_(char const* n)
{
  void* p = dlsym(RTLD_NEXT, n);
  if (! p) { fprintf(stderr, "no %s\n", n); abort(); }
  return p;
}

// ---------------------------------------------------------------- faults
struct Fault {
  std::string fnname;
  int w = -1;      // watcher or -1
  int nth = 0;     // 1-based; 0: every call
  int err = 0;
  int count = 0;
  bool used = false;
  std::string path; // only for this path suffix, if not empty
};
inline std::vector<Fault> faults;
inline std::map<std::string, int> calls;

inline std::string scratch;

inline std::string rel(std::string const& p)
{
  if (p.compare(0, scratch.size(), scratch) == 0 && p.size() > scratch.size() && p[scratch.size()] == '/')
    return p.substr(scratch.size() + 1);
  return p;
}

inline bool fault(char const* name, std::string const& path = "")
{
  Own own_;
  W* w = tl_w ? tl_w : tl_role;
  if (tl_in || ! w) return false;
  std::lock_guard<std::mutex> g(M);
  for (auto& f : faults) {
    if (f.fnname != name) continue;
    if (f.w >= 0 && f.w != w->id) continue;
    if (! f.path.empty() && rel(path) != f.path) continue;
    ++f.count;
    if (f.nth && f.count != f.nth) continue;
    f.used = true;
    logf("{\"e\":\"fault\",\"w\":%d,\"fn\":\"%s\",\"errno\":%d,\"p\":\"%s\"}", w->id, name, f.err, jesc(path).c_str());
    errno = f.err;
    return true;
  }
  return false;
}

inline void sys(char const* what, long a, long b, char const* extra = "")
{
  W* w = tl_w ? tl_w : tl_role;
  if (tl_in || ! w || ! log_sys) return;
  logf("{\"e\":\"sys\",\"w\":%d,\"fn\":\"%s\",\"a\":%ld,\"r\":%ld,\"x\":\"%s\"}", w->id, what, a, b, extra);
}

inline void gate(char const* kind, std::string const& info = "")
{
  Own own_;
  if (tl_in || freeall) return;
  if (Closer* c = tl_c) {
    std::unique_lock<std::mutex> g(M);
    if (! c->stops.count(kind)) return;
    c->at = kind;
    CV.notify_all();
    CV.wait(g, [&] { return c->go || freeall; });
    c->go = false;
    c->at.clear();
    return;
  }
  W* w = tl_w;
  if (! w) return;
  std::unique_lock<std::mutex> g(M);
  ++w->gateno;
  if (! w->stops.count(kind)) return;
  w->at = kind;
  w->at_info = info;
  CV.notify_all();
  CV.wait(g, [&] { return w->go || freeall; });
  w->go = false;
  w->at.clear();
}

// ---------------------------------------------------------------- fd knowledge
enum Kind { none, inot, fan, epl, evfd };
struct Fd {
  Kind k = none;
  W* w = nullptr;
};
inline std::map<int, Fd> fds;
inline std::set<int> baseline; // descriptors of the driver itself
struct Reg {
  int fd;
  epoll_event ev;
  uint64_t told = 0;  // arrivals when an edge was last reported
  bool spent = false; // one-shot
};
inline std::map<int, std::vector<Reg>> eps;
inline std::map<int, uint64_t> evwrites; // writes to each eventfd

inline Kind kind_of(int fd)
{
  std::lock_guard<std::mutex> g(M);
  auto i = fds.find(fd);
  return i == fds.end() ? none : i->second.k;
}

// hooks for a fake fanotify kernel (see fakefan.hpp); null when unused
inline int (*fake_fanotify_init)(unsigned, unsigned) = nullptr;
inline int (*fake_fanotify_mark)(int, unsigned, uint64_t, int, char const*) = nullptr;
inline ssize_t (*fake_fan_read)(W*, int, void*, size_t) = nullptr;
inline void (*fake_fan_close)(int) = nullptr;
inline int (*fake_open_by_handle)(int, struct file_handle*, int) = nullptr;

// Moves everything the kernel has into our queue.
inline void drain(W* w, int fd)
{
  for (;;) {
    int n = 0;
    if (ioctl(fd, FIONREAD, &n) != 0 || n <= 0) return;
    std::vector<char> b(n + 65536);
    ssize_t r = syscall(SYS_read, fd, b.data(), b.size());
    if (r <= 0) return;
    w->drained += r;
    for (ssize_t at = 0; at < r;) {
      auto* e = (inotify_event*)(b.data() + at);
      size_t len = sizeof(inotify_event) + e->len;
      w->q.push_back({std::string(b.data() + at, len)});
      at += len;
    }
  }
}

/*  Two operations at once: what the second had to tell comes before the
    second half of a rename. To be called before, and after, the second. */
inline bool tells(Rec const& r)
{
  return ((inotify_event*)r.raw.data())->mask & (IN_CREATE | IN_DELETE | IN_MODIFY | IN_MOVED_FROM | IN_MOVED_TO);
}
inline void weave(W* w)
{
  w->weave_at = w->weave_end = 0;
  if (w->infd < 0) return;
  drain(w, w->infd);
  size_t j = w->q.size();
  while (j > 0 && ! tells(w->q[j - 1])) --j;
  if (j < 2) return;
  auto in = [&](size_t i) { return (inotify_event*)w->q[i].raw.data(); };
  if (! (in(j - 1)->mask & IN_MOVED_TO) || ! (in(j - 2)->mask & IN_MOVED_FROM) || in(j - 1)->cookie != in(j - 2)->cookie) return;
  w->weave_at = j - 1, w->weave_end = w->q.size();
}
inline int woven(W* w, int most)
{
  if (! w->weave_at) return 0;
  drain(w, w->infd);
  int n = 0;
  while (n < most && w->weave_end + n < w->q.size() && tells(w->q[w->weave_end + n])) {
    auto r = w->q[w->weave_end + n];
    w->q.erase(w->q.begin() + w->weave_end + n);
    w->q.insert(w->q.begin() + w->weave_at + n, r);
    ++n;
  }
  return n;
}

inline bool inot_ready(W* w, int fd)
{
  if (! w->q.empty() || w->ovf_at >= 0 || w->bad) return true;
  int n = 0;
  return ioctl(fd, FIONREAD, &n) == 0 && n > 0;
}

inline std::string mask_str(unsigned m)
{
  std::string s;
  auto a = [&](unsigned b, char const* n) { if (m & b) { if (! s.empty()) s += '|'; s += n; } };
  a(IN_CREATE, "create"); a(IN_DELETE, "delete"); a(IN_MODIFY, "modify"); a(IN_MOVED_FROM, "from");
  a(IN_MOVED_TO, "to"); a(IN_DELETE_SELF, "dself"); a(IN_MOVE_SELF, "mself"); a(IN_IGNORED, "ignored");
  a(IN_Q_OVERFLOW, "ovf"); a(IN_UNMOUNT, "unmount"); a(IN_ISDIR, "dir");
  a(IN_ATTRIB, "attrib"); a(IN_ACCESS, "access"); a(IN_OPEN, "open"); a(IN_CLOSE, "close");
  return s;
}

inline bool is_fs_fd(Kind k) { return k == inot || k == fan; }

inline bool ready(W* w, int fd, Kind k, short want)
{
  if (k == inot) return inot_ready(w, fd);
  if (k == fan) return inot_ready(w, fd);
  pollfd p{fd, want, 0};
  tl_in = true;
  int r = (int)syscall(SYS_poll, &p, 1, 0);
  tl_in = false;
  return r > 0;
}

// How much has ever arrived at a descriptor (for edge-triggered registrations).
inline uint64_t arrivals(W* w, int fd, Kind k)
{
  if (k == inot || k == fan) {
    int n = 0;
    if (ioctl(fd, FIONREAD, &n) != 0 || n < 0) n = 0;
    return w->drained + n + 1;
  }
  if (k == evfd) {
    std::lock_guard<std::mutex> g(M);
    return evwrites[fd] + 1;
  }
  return ~0ull;
}

inline int wait_emulated(int epfd, epoll_event* evs, int max, int timeout)
{
  Own own_;
  W* w = tl_w;
  gate("wait");
  if (fault("epoll_wait")) return -1;
  if (w->spurious > 0) { --w->spurious; logf("{\"e\":\"spurious\",\"w\":%d}", w->id); return 0; }
  long waited = 0;
  for (;;) {
    std::vector<Reg> reg;
    {
      std::lock_guard<std::mutex> g(M);
      auto i = eps.find(epfd);
      if (i == eps.end()) { errno = EBADF; return -1; }
      reg = i->second;
    }
    std::vector<epoll_event> out;
    std::vector<int> outfd;
    for (auto& [fd, ev, told, spent] : reg) {
      Kind k = kind_of(fd);
      if (spent || ! (ev.events & (EPOLLIN | EPOLLRDNORM))) continue;
      if (w->only == 1 && ! is_fs_fd(k)) continue;
      if (w->only == 2 && is_fs_fd(k)) continue;
      if ((ev.events & EPOLLET) && ! (is_fs_fd(k) && (w->ovf_at >= 0 || w->bad)) && told && arrivals(w, fd, k) <= told && told != ~0ull) continue;
      if (ready(w, fd, k, POLLIN)) { epoll_event e = ev; e.events = EPOLLIN; out.push_back(e); outfd.push_back(fd); }
    }
    if (! out.empty()) {
      if (w->order) {
        std::vector<epoll_event> o2(out.rbegin(), out.rend()); out.swap(o2);
        std::vector<int> f2(outfd.rbegin(), outfd.rend()); outfd.swap(f2);
      }
      int n = 0;
      for (; n < (int)out.size() && n < max; ++n) {
        evs[n] = out[n];
        uint64_t a = arrivals(w, outfd[n], kind_of(outfd[n]));
        std::lock_guard<std::mutex> g(M);
        auto i = eps.find(epfd);
        if (i != eps.end())
          for (auto& r : i->second)
            if (r.fd == outfd[n]) r.told = a, r.spent = (r.ev.events & EPOLLONESHOT) != 0;
      }
      std::lock_guard<std::mutex> g(M);
      w->blocked = false;
      w->only = 0;
      return n;
    }
    {
      std::unique_lock<std::mutex> g(M);
      w->only = 0;
      if (! w->blocked) { w->blocked = true; CV.notify_all(); }
      CV.wait_for(g, std::chrono::milliseconds(1));
    }
    ++waited;
    if (timeout >= 0 && waited > timeout) {
      std::lock_guard<std::mutex> g(M);
      w->blocked = false;
      return 0;
    }
  }
}

inline ssize_t read_inotify(W* w, int fd, void* buf, size_t count)
{
  Own own_;
  gate("read");
  if (fault("read")) return -1;
  for (;;) {
    drain(w, fd);
    if (w->ovf_at >= 0) {
      inotify_event e{};
      e.wd = -1;
      e.mask = IN_Q_OVERFLOW;
      size_t at = (size_t)w->ovf_at < w->q.size() ? w->ovf_at : w->q.size();
      // the two halves of a rename are queued together
      auto in = [&](size_t i) { return (inotify_event*)w->q[i].raw.data(); };
      if (at == 0 && ! w->q.empty() && w->last_from && in(0)->cookie == w->last_from) at = 1;
      else if (at > 0 && at < w->q.size() && (in(at - 1)->mask & IN_MOVED_FROM) && in(at)->cookie == in(at - 1)->cookie) ++at;
      w->q.insert(w->q.begin() + at, Rec{std::string((char*)&e, sizeof e)});
      w->ovf_at = -1;
    }
    if (! w->q.empty()) break;
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL, 0);
    if (fl >= 0 && (fl & O_NONBLOCK)) { errno = EAGAIN; return -1; }
    std::unique_lock<std::mutex> g(M);
    if (! w->blocked) { w->blocked = true; CV.notify_all(); }
    CV.wait_for(g, std::chrono::milliseconds(1));
  }
  {
    std::lock_guard<std::mutex> g(M);
    w->blocked = false;
  }
  size_t used = 0;
  int n = 0;
  std::string recs;
  unsigned last_mask = 0, last_ck = 0;
  while (! w->q.empty() && (w->quota < 0 || n < w->quota)) {
    auto& r = w->q.front().raw;
    if (used + r.size() > count) break;
    memcpy((char*)buf + used, r.data(), r.size());
    used += r.size();
    auto* e = (inotify_event*)r.data();
    last_mask = e->mask, last_ck = e->cookie;
    char t[64];
    snprintf(t, sizeof t, "%s[%d,\"", n ? "," : "", e->wd);
    if (recs.size() < 8000) {
      recs += t;
      recs += mask_str(e->mask);
      snprintf(t, sizeof t, "\",%u,\"", e->cookie);
      recs += t;
      recs += jesc(e->len ? std::string(e->name) : std::string());
      recs += "\"]";
    }
    ++n;
    w->q.pop_front();
  }
  if (n == 0) { errno = EINVAL; return -1; }
  bool split = false;
  w->last_from = last_mask & IN_MOVED_FROM ? last_ck : 0;
  if (last_mask & IN_MOVED_FROM) {
    if (w->q.empty()) drain(w, fd);
    if (! w->q.empty()) {
      auto* e = (inotify_event*)w->q.front().raw.data();
      split = (e->mask & IN_MOVED_TO) && e->cookie == last_ck;
    }
  }
  w->quota = -1;
  logf("{\"e\":\"batch\",\"w\":%d,\"n\":%d,\"left\":%d,\"split\":%d,\"recs\":[%s]}", w->id, n, (int)w->q.size(), split, recs.c_str());
  return used;
}

} // namespace shim

// ---------------------------------------------------------------- interposed functions
extern "C" {

struct shim_start {
  void* (*f)(void*);
  void* arg;
  shim::W* w;
};

static void* shim_thread(void* p)
{
  auto s = *(shim_start*)p;
  delete (shim_start*)p;
  shim::tl_w = s.w;
  shim::gate("start");
  shim::logf("{\"e\":\"tstart\",\"w\":%d}", s.w->id);
  void* r = s.f(s.arg);
  shim::gate("exit");
  shim::logf("{\"e\":\"texit\",\"w\":%d}", s.w->id);
  {
    std::lock_guard<std::mutex> g(shim::M);
    s.w->done = true;
    shim::CV.notify_all();
  }
  return r;
}

int pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*f)(void*), void* arg)
{
  using namespace shim;
  W* w = tl_in ? nullptr : tl_w ? tl_w : spawn_for;
  if (! w) return REAL(pthread_create)(t, a, f, arg);
  if (fault("pthread_create")) return errno;
  w->started = true;
  return REAL(pthread_create)(t, a, shim_thread, new shim_start{f, arg, w});
}

static int shim_newfd(char const* name, int fd, shim::Kind k)
{
  using namespace shim;
  Own own_;
  W* w = tl_w ? tl_w : tl_role;
  if (fd >= 0 && w && ! tl_in) {
    std::lock_guard<std::mutex> g(M);
    fds[fd] = {k, w};
    if (k == epl) eps[fd] = {};
    if (k == inot) w->infd = fd;
  }
  sys(name, 0, fd);
  return fd;
}

int inotify_init1(int flags)
{
  using namespace shim;
  if (fault("inotify_init")) return -1;
  return shim_newfd("inotify_init", REAL(inotify_init1)(flags), inot);
}
int inotify_init(void)
{
  using namespace shim;
  if (fault("inotify_init")) return -1;
  return shim_newfd("inotify_init", REAL(inotify_init)(), inot);
}
int inotify_add_watch(int fd, char const* path, uint32_t mask)
{
  using namespace shim;
  gate("mark", path ? path : "");
  int r = fault("inotify_add_watch", path ? path : "") ? -1 : REAL(inotify_add_watch)(fd, path, mask);
  int e = errno;
  W* w = tl_w ? tl_w : tl_role;
  if (w && ! tl_in) logf("{\"e\":\"mark\",\"w\":%d,\"p\":\"%s\",\"wd\":%d}", w->id, jesc(path ? path : "").c_str(), r);
  gate("mark2", path ? path : "");
  errno = e;
  return r;
}
int inotify_rm_watch(int fd, int wd)
{
  using namespace shim;
  int r = REAL(inotify_rm_watch)(fd, wd);
  int e = errno;
  W* w = tl_w ? tl_w : tl_role;
  if (w && ! tl_in) logf("{\"e\":\"unmark\",\"w\":%d,\"wd\":%d,\"r\":%d}", w->id, wd, r);
  errno = e;
  return r;
}
int epoll_create1(int fl)
{
  using namespace shim;
  if (fault("epoll_create")) return -1;
  return shim_newfd("epoll_create", REAL(epoll_create1)(fl), epl);
}
int epoll_create(int n)
{
  using namespace shim;
  if (fault("epoll_create")) return -1;
  return shim_newfd("epoll_create", REAL(epoll_create)(n), epl);
}
int epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
  using namespace shim;
  Own own_;
  if (fault("epoll_ctl")) return -1;
  int r;
  Kind k = kind_of(fd);
  r = REAL(epoll_ctl)(ep, op, fd, ev);
  if (r == 0 && ! tl_in) {
    std::lock_guard<std::mutex> g(M);
    auto& v = eps[ep];
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].fd == fd) { v.erase(v.begin() + i); break; }
    if (op != EPOLL_CTL_DEL) v.push_back(Reg{fd, *ev});
  }
  return r;
}
int epoll_wait(int ep, epoll_event* evs, int max, int timeout)
{
  using namespace shim;
  if (! tl_w || tl_in || ! emulate) return REAL(epoll_wait)(ep, evs, max, timeout);
  return wait_emulated(ep, evs, max, timeout);
}
int epoll_pwait(int ep, epoll_event* evs, int max, int timeout, sigset_t const* s)
{
  using namespace shim;
  if (! tl_w || tl_in || ! emulate) return REAL(epoll_pwait)(ep, evs, max, timeout, s);
  return wait_emulated(ep, evs, max, timeout);
}
int poll(pollfd* p, nfds_t n, int timeout)
{
  using namespace shim;
  if (! tl_w || tl_in || ! emulate || ! n) return REAL(poll)(p, n, timeout);
  // a watcher built on poll(): same gates, same readiness
  gate("wait");
  if (fault("epoll_wait")) return -1;
  for (long waited = 0;; ++waited) {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      if (p[i].fd >= 0 && ready(tl_w, p[i].fd, kind_of(p[i].fd), p[i].events)) p[i].revents = p[i].events & POLLIN, ++c;
    }
    if (c || (timeout >= 0 && waited > timeout)) {
      std::lock_guard<std::mutex> g(M);
      tl_w->blocked = false;
      return c;
    }
    std::unique_lock<std::mutex> g(M);
    if (! tl_w->blocked) { tl_w->blocked = true; CV.notify_all(); }
    CV.wait_for(g, std::chrono::milliseconds(1));
  }
}
ssize_t read(int fd, void* buf, size_t n)
{
  using namespace shim;
  if (tl_w && ! tl_in) {
    Kind k = kind_of(fd);
    if (k == inot) return read_inotify(tl_w, fd, buf, n);
    if (k == fan && fake_fan_read) return fake_fan_read(tl_w, fd, buf, n);
    if (k == evfd) {
      gate("evr");
      ssize_t r = fault("eventfd_read") ? -1 : syscall(SYS_read, fd, buf, n);
      int e = errno;
      gate("evr2");
      errno = e;
      return r;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}
int close(int fd)
{
  using namespace shim;
  Own own_;
  W* w = tl_w ? tl_w : tl_role;
  if (w && ! tl_in) {
    int r = (int)syscall(SYS_close, fd);
    int e = errno;
    if (fake_fan_close) fake_fan_close(fd);
    sys(baseline.count(fd) ? "close_foreign" : "close", fd, r);
    std::lock_guard<std::mutex> g(M);
    if (r == 0) {
      fds.erase(fd), eps.erase(fd), evwrites.erase(fd);
      for (auto& e : eps)
        for (size_t i = 0; i < e.second.size(); ++i)
          if (e.second[i].fd == fd) { e.second.erase(e.second.begin() + i); break; }
    }
    errno = e;
    return r;
  }
  return (int)syscall(SYS_close, fd);
}
int eventfd(unsigned c, int fl)
{
  using namespace shim;
  if (fault("eventfd")) return -1;
  return shim_newfd("eventfd", (int)syscall(SYS_eventfd2, c, fl), evfd);
}
static int shim_evw(int fd, eventfd_t v)
{
  using namespace shim;
  Own own_;
  gate("evw");
  int r = fault("eventfd_write") ? -1 : syscall(SYS_write, fd, &v, sizeof v) == sizeof v ? 0 : -1;
  int e = errno;
  if (r == 0) {
    std::lock_guard<std::mutex> g(M);
    ++evwrites[fd];
  }
  W* w = tl_w ? tl_w : tl_role;
  if (r == 0 && w && ! tl_in) logf("{\"e\":\"req\",\"w\":%d}", w->id);
  gate("evw2");
  errno = e;
  return r;
}
int eventfd_write(int fd, eventfd_t v) { return shim_evw(fd, v); }
ssize_t write(int fd, void const* b, size_t n)
{
  using namespace shim;
  if ((tl_w || tl_role) && ! tl_in && n == sizeof(eventfd_t) && kind_of(fd) == evfd) {
    eventfd_t v;
    memcpy(&v, b, sizeof v);
    return shim_evw(fd, v) == 0 ? (ssize_t)n : -1;
  }
  return syscall(SYS_write, fd, b, n);
}
int eventfd_read(int fd, eventfd_t* v)
{
  using namespace shim;
  gate("evr");
  int r = fault("eventfd_read") ? -1 : syscall(SYS_read, fd, v, sizeof *v) == sizeof *v ? 0 : -1;
  int e = errno;
  gate("evr2");
  errno = e;
  return r;
}
DIR* opendir(char const* p)
{
  using namespace shim;
  gate("list", p ? p : "");
  if (fault("opendir", p ? p : "")) return nullptr;
  DIR* d = REAL(opendir)(p);
  int e = errno;
  if (tl_w && ! tl_in && d) sys("opendir", (long)(intptr_t)d & 0x7fffffff, dirfd(d));
  errno = e;
  return d;
}
int closedir(DIR* d)
{
  using namespace shim;
  if (tl_w && ! tl_in && d) sys("closedir", (long)(intptr_t)d & 0x7fffffff, 0);
  return REAL(closedir)(d);
}
static thread_local dirent shim_de;
static thread_local DIR* shim_last_dir = nullptr;
struct dirent* readdir(DIR* d)
{
  using namespace shim;
  static auto r = REAL(readdir);
  dirent* e = r(d);
  if (tl_w && ! tl_in && d != shim_last_dir) {
    int er = errno;
    shim_last_dir = d;
    gate("list2");
    errno = er;
  }
  if (e && dt_unknown && tl_w && ! tl_in) {
    memcpy(&shim_de, e, e->d_reclen < sizeof shim_de ? e->d_reclen : sizeof shim_de);
    shim_de.d_type = DT_UNKNOWN;
    return &shim_de;
  }
  return e;
}
int fanotify_init(unsigned fl, unsigned efl)
{
  using namespace shim;
  if (tl_in || ! (tl_w || tl_role)) return (int)syscall(SYS_fanotify_init, fl, efl);
  if (fault("fanotify_init")) return -1;
  if (fake_fanotify_init) return shim_newfd("fanotify_init", fake_fanotify_init(fl, efl), fan);
  errno = EPERM; // refused, as in any container
  return -1;
}
int fanotify_mark(int fd, unsigned fl, uint64_t mask, int dfd, char const* path)
{
  using namespace shim;
  gate("mark", path ? path : "");
  int r;
  if (fault("fanotify_mark", path ? path : "")) r = -1;
  else if (fake_fanotify_mark) r = fake_fanotify_mark(fd, fl, mask, dfd, path);
  else r = (int)syscall(SYS_fanotify_mark, fd, fl, mask, dfd, path);
  int e = errno;
  W* w = tl_w ? tl_w : tl_role;
  if (w && ! tl_in) logf("{\"e\":\"mark\",\"w\":%d,\"p\":\"%s\",\"wd\":%d}", w->id, jesc(path ? path : "").c_str(), r == 0 ? 1 : -1);
  gate("mark2", path ? path : "");
  errno = e;
  return r;
}
int open_by_handle_at(int mfd, struct file_handle* h, int fl)
{
  using namespace shim;
  if (fault("open_by_handle_at")) return -1;
  int fd = fake_open_by_handle ? fake_open_by_handle(mfd, h, fl) : (int)syscall(SYS_open_by_handle_at, mfd, h, fl);
  if (fd >= 0) shim_newfd("open_by_handle_at", fd, none);
  return fd;
}

} // extern "C"
