// Runs scripts against the real watcher under the interposition layer and
// records what happened.  usage: driver SCRIPTS OUT SCRATCH [JOBS]
#include "shim.hpp"
#include "mem.hpp"
#ifdef POLL
#include "pollshim.hpp"
#include <filesystem>
#include <functional>
#include <future>
#include <iomanip>
#include <iosfwd>
#include <iostream>
#include <memory>
#include <sstream>
#include <string_view>
#include <system_error>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <variant>
#ifndef WATER_WATCHER_USE_WARTHOG // as on a system which has none of the others
#undef __linux__
#undef __linux
#undef linux
#endif
#endif
#include "wtr/watcher.hpp"
#ifdef API_C
#include "wtr/watcher-c.h"
#endif
#include <array>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#ifdef FAKEFAN
#include "fakefan.hpp"
#endif

using namespace shim;
using std::string;
using std::vector;

static int const TIMEOUT_MS = getenv("DRV_TIMEOUT_MS") ? atoi(getenv("DRV_TIMEOUT_MS")) : 6000;

static string dec(string const& s)
{
  string o;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += s[i];
  return o;
}
static std::set<string> setof(string const& s)
{
  std::set<string> r;
  std::stringstream ss(s);
  string t;
  while (std::getline(ss, t, ',')) if (! t.empty()) r.insert(t);
  return r;
}

[[noreturn]] static void die(char const* kind, string const& what)
{
  logf("{\"e\":\"%s\",\"what\":\"%s\"}", kind, jesc(what).c_str());
  _exit(3);
}

// ------------------------------------------------------------ filesystem ops
static int proc_fd = -1; // /proc, once it can't be reached by its name any more
static int proc_open(string const& at, int fl)
{
  return proc_fd < 0 ? (int)syscall(SYS_open, ("/proc/" + at).c_str(), fl) : (int)syscall(SYS_openat, proc_fd, at.c_str(), fl);
}
static string P(string const& p) { return p.empty() || p[0] == '/' ? p : scratch + "/" + p; }
static std::map<string, int> held;

// A name, short enough for the system, of a path which is not.
struct Short {
  string s;
  int fd = -1;
  Short(string const& full)
      : s{full}
  {
    while (s.size() >= PATH_MAX) {
      size_t at = s.rfind('/', 3000);
      int n = (int)syscall(SYS_openat, AT_FDCWD, s.substr(0, at).c_str(), O_PATH | O_CLOEXEC, 0);
      if (n < 0) return;
      string rest = s.substr(at);
      s = "/proc/self/fd/" + std::to_string(n) + rest;
      if (fd >= 0) syscall(SYS_close, fd);
      fd = n;
    }
  }
  Short(Short const&) = delete;
  ~Short() { if (fd >= 0) syscall(SYS_close, fd); }
};

static int fsop(string const& op, string const& p, string const& q)
{
  Short sa{P(p)}, sb{P(q)};
  string const &a = sa.s, &b = sb.s;
  auto opn = [&](int fl, int mode = 0644) { return open(a.c_str(), fl, mode); };
  if (op == "mkdir") return mkdir(a.c_str(), 0755);
  if (op == "rmdir") return rmdir(a.c_str());
  if (op == "creat") { int f = opn(O_CREAT | O_EXCL | O_WRONLY); if (f < 0) return -1; syscall(SYS_close, f); return 0; }
  if (op == "write") { int f = opn(O_WRONLY | O_APPEND); if (f < 0) return -1; int r = syscall(SYS_write, f, "x", 1) == 1 ? 0 : -1; syscall(SYS_close, f); return r; }
  if (op == "trunc") return truncate(a.c_str(), 3);
  if (op == "otrunc") { int f = opn(O_WRONLY | O_TRUNC); if (f < 0) return -1; syscall(SYS_close, f); return 0; }
  if (op == "unlink") return unlink(a.c_str());
  if (op == "rename") return rename(a.c_str(), b.c_str());
  if (op == "xchg") return (int)syscall(SYS_renameat2, AT_FDCWD, a.c_str(), AT_FDCWD, b.c_str(), 2);
  if (op == "symlink") return symlink(b.c_str(), a.c_str()); // a -> b
  if (op == "symrel") return symlink(q.c_str(), a.c_str());
  if (op == "link") return link(b.c_str(), a.c_str());
  if (op == "fifo") return mkfifo(a.c_str(), 0644);
  if (op == "chmod") return chmod(a.c_str(), 0700);
  if (op == "chmod0") return chmod(a.c_str(), 0);
  if (op == "utime") return utimes(a.c_str(), nullptr);
  if (op == "stat") { struct stat s; return stat(a.c_str(), &s); }
  if (op == "readf") { int f = opn(O_RDONLY | O_NONBLOCK); if (f < 0) return -1; char c[64]; (void)! syscall(SYS_read, f, c, sizeof c); syscall(SYS_close, f); return 0; }
  if (op == "openw") { int f = opn(O_WRONLY | O_NONBLOCK); if (f < 0) return -1; syscall(SYS_close, f); return 0; }
  if (op == "lsdir") { DIR* d = REAL(opendir)(a.c_str()); if (! d) return -1; while (REAL(readdir)(d)) {} REAL(closedir)(d); return 0; }
  die("badscript", "op " + op);
}

static bool real_isdir(string const& p)
{
  struct stat s;
  Short a{P(p)};
  return lstat(a.s.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
}

static long changes;

#ifdef POLL
// A modification time of its own for each change. (Most differ by less than a second, none are in order.)
static void stamp(string const& a, long n)
{
  timespec t[2] = {{0, UTIME_OMIT}, {1700000000 + (n % 5 == 4 ? 7 - n : 0), (long)((n * 2654435761u + 12345) % 1000000000u)}};
  utimensat(AT_FDCWD, a.c_str(), t, 0);
}
#endif

static void do_fs(string const& op, string const& p, string const& q, char const* by)
{
  bool was = tl_in;
  tl_in = true;
  std::lock_guard<std::recursive_mutex> g(logm); // op and its record are one step
  bool d = op == "mkdir" || real_isdir(p);
  int r = fsop(op, p, q), er = errno;
  ++changes;
#ifdef POLL
  if (r == 0 && (op == "creat" || op == "write" || op == "trunc" || op == "otrunc" || op == "utime")) stamp(P(p), changes);
#endif
  errno = er;
  logf("{\"e\":\"op\",\"ver\":%ld,\"by\":\"%s\",\"op\":\"%s\",\"p\":\"%s\",\"q\":\"%s\",\"dir\":%d,\"ok\":%d,\"errno\":%d}", changes, by, op.c_str(),
    jesc(p).c_str(), jesc(q).c_str(), d, r == 0, r == 0 ? 0 : errno);
  tl_in = was;
}

// ------------------------------------------------------------ watchers
struct OnCb {
  string suffix, op, p, q;
  int times;
};
struct Watcher {
  W w;
  std::atomic<int> in_cb{0};
  std::atomic<long> ncb{0};
  vector<OnCb> oncb;
  string mode; // what a callback does on its own
#ifdef API_C
  void* h = nullptr;
#else
  wtr::watch* h = nullptr;
#endif
};
static std::map<int, Watcher*> watchers;

static long long now_ns() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static long long t_begin;

static char const* ets(int e) { static char const* n[] = {"rename", "modify", "create", "destroy", "owner", "other"}; return e >= 0 && e < 6 ? n[e] : "?"; }
static char const* pts(int e) { static char const* n[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"}; return e >= 0 && e < 6 ? n[e] : "?"; }

struct Ev {
  string path, apath;
  int et, pt, aet, apt;
  bool assoc;
  long long t;
};

static void on_event(Watcher* x, Ev const& ev)
{
  Own own_;
  int conc = ++x->in_cb;
  long n = ++x->ncb;
  bool tok = ev.t >= t_begin && ev.t <= now_ns();
  bool mine = tl_w == &x->w;
  // did the directory exist when it was reported?
  struct stat s;
  string const& dp = ev.assoc ? ev.apath : ev.path;
  bool was = tl_in;
  tl_in = true;
  bool isdir = lstat(dp.c_str(), &s) == 0 && S_ISDIR(s.st_mode);
  tl_in = was;
  logf("{\"e\":\"cb\",\"w\":%d,\"n\":%ld,\"pt\":\"%s\",\"et\":\"%s\",\"p\":\"%s\",\"assoc\":%d,\"ap\":\"%s\",\"apt\":\"%s\",\"aet\":\"%s\",\"tok\":%d,\"conc\":%d,\"thr\":%d,\"isdir\":%d}",
    x->w.id, n, pts(ev.pt), ets(ev.et), jesc(ev.path).c_str(), ev.assoc, jesc(ev.apath).c_str(),
    ev.assoc ? pts(ev.apt) : "", ev.assoc ? ets(ev.aet) : "", tok, conc, mine, isdir);
  for (auto& o : x->oncb)
    if (o.times && (o.suffix == "*" || (dp.size() >= o.suffix.size() && dp.compare(dp.size() - o.suffix.size(), string::npos, o.suffix) == 0))
        && ev.pt != 4) {
      if (o.times > 0) --o.times;
      do_fs(o.op, o.p, o.q, "cb");
    }
  gate("cb", ev.path);
  logf("{\"e\":\"cbend\",\"w\":%d,\"n\":%ld}", x->w.id, n);
  --x->in_cb;
}

#ifdef API_C
static void c_cb(wtr_watcher_event e, void* ctx)
{
  Own own_;
  Watcher* x = nullptr;
  for (auto& [_, y] : watchers) if (y == ctx) x = y;
  if (! x) { logf("{\"e\":\"badctx\"}"); return; }
  // strings must be readable for the whole call and null exactly when absent
  // the meaning of a number is the one which the header of the C interface gives it
  static int8_t const ef[] = {WTR_WATCHER_EFFECT_RENAME, WTR_WATCHER_EFFECT_MODIFY, WTR_WATCHER_EFFECT_CREATE, WTR_WATCHER_EFFECT_DESTROY, WTR_WATCHER_EFFECT_OWNER, WTR_WATCHER_EFFECT_OTHER};
  static int8_t const pf[] = {WTR_WATCHER_PATH_DIR, WTR_WATCHER_PATH_FILE, WTR_WATCHER_PATH_HARD_LINK, WTR_WATCHER_PATH_SYM_LINK, WTR_WATCHER_PATH_WATCHER, WTR_WATCHER_PATH_OTHER};
  int et = -1, pt = -1;
  for (int i = 0; i < 6; ++i) {
    if (ef[i] == e.effect_type) et = i;
    if (pf[i] == e.path_type) pt = i;
  }
  Ev v{e.path_name ? e.path_name : "(null)", e.associated_path_name ? e.associated_path_name : "", et, pt, et, pt, e.associated_path_name != nullptr, e.effect_time};
  on_event(x, v);
  if (e.path_name && v.path != e.path_name) logf("{\"e\":\"badstr\"}");
  if (e.associated_path_name && v.apath != e.associated_path_name) logf("{\"e\":\"badstr\"}");
}
#endif

static void api_open(Watcher* x, string const& path)
{
#ifdef API_C
  x->h = wtr_watcher_open(path.c_str(), c_cb, x);
  if (! x->h) logf("{\"e\":\"openfail\",\"w\":%d}", x->w.id);
#else
  x->h = new wtr::watch(
    path,
    [x](wtr::event const& e)
    {
      Own own_;
      Ev v{e.path_name.native(), e.associated ? e.associated->path_name.native() : "", (int)e.effect_type, (int)e.path_type,
           e.associated ? (int)e.associated->effect_type : 0, e.associated ? (int)e.associated->path_type : 0, !! e.associated, e.effect_time};
      on_event(x, v);
    });
#endif
}
static int api_close(Watcher* x)
{
#ifdef API_C
  return wtr_watcher_close(x->h);
#else
  return x->h->close();
#endif
}
static void api_destroy(Watcher* x)
{
#ifdef API_C
  (void)x;
#else
  delete x->h;
  x->h = nullptr;
#endif
}

static std::map<int, Closer*> closers;
static std::map<int, std::thread*> cthreads;

static std::thread* storm;
static std::atomic<bool> storming{false};

static void set_free(W& w)
{
  std::lock_guard<std::mutex> g(M);
  w.stops.clear();
  if (! w.at.empty()) w.go = true;
  CV.notify_all();
}

template<class F> static bool wait_for(F f, int ms = TIMEOUT_MS)
{
  std::unique_lock<std::mutex> g(M);
  return CV.wait_for(g, std::chrono::milliseconds(ms), f);
}

static bool anything_ready(W& w)
{
#ifdef POLL
  return true;
#endif
  bool r = false;
  tl_in = true;
  for (auto& [fd, f] : std::map<int, Fd>(fds))
    if (f.w == &w && (f.k == inot || f.k == evfd || f.k == fan)) r = r || ready(&w, fd, f.k, POLLIN);
  tl_in = false;
  return r || w.spurious > 0 || w.ovf_at >= 0;
}

static bool fault_pending(W& w)
{
  for (auto& f : faults)
    if (! f.used && (f.nth == 0 || f.count + 1 == f.nth) && (f.fnname == "epoll_wait") && (f.w < 0 || f.w == w.id)) return true;
  return false;
}

// Releases the held watching thread and waits until it is held again.
static void go(Watcher* x, std::set<string> const& until, string const& what)
{
  W& w = x->w;
  {
    std::lock_guard<std::mutex> g(M);
    w.stops = until;
    w.blocked = false;
    if (! w.at.empty() ) w.go = true;
    CV.notify_all();
  }
  if (! wait_for([&] { return w.done || (! w.at.empty() && ! w.go) || w.blocked; })) die("hang", what);
}

#ifdef POLL
// Does this closing thread now wait for something, and go on doing so?
static bool asleep(Closer* cl)
{
  int in_a_row = 0;
  for (int i = 0; i < 2000 && in_a_row < 10 && ! cl->done; ++i) {
    syscall(SYS_nanosleep, std::array<timespec, 1>{timespec{0, 300000}}.data(), nullptr);
    if (! cl->tid) continue;
    int fd = proc_open("self/task/" + std::to_string(cl->tid.load()) + "/stat", O_RDONLY);
    if (fd < 0) break;
    char b[512] = "";
    ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1);
    syscall(SYS_close, fd);
    char* e = n > 0 ? strrchr(b, ')') : nullptr;
    in_a_row = e && e[1] && e[2] == 'S' ? in_a_row + 1 : 0;
  }
  return in_a_row >= 10 && ! cl->done;
}
#endif

struct Script {
  string id;
  vector<vector<string>> cmds;
};

static string opt(vector<string> const& c, string const& key, string const& def = "")
{
  for (auto& t : c)
    if (t.compare(0, key.size() + 1, key + "=") == 0) return dec(t.substr(key.size() + 1));
  return def;
}

static int count_fds()
{
  int n = 0;
  tl_in = true;
  DIR* d = fdopendir(proc_open("self/fd", O_RDONLY | O_DIRECTORY));
  if (d) { while (REAL(readdir)(d)) ++n; REAL(closedir)(d); }
  tl_in = false;
  return n - 3;
}
static int count_tasks()
{
  int n = 0;
  tl_in = true;
  DIR* d = fdopendir(proc_open("self/task", O_RDONLY | O_DIRECTORY));
  if (d) { while (REAL(readdir)(d)) ++n; REAL(closedir)(d); }
  tl_in = false;
  return n - 2;
}

static void run(Script const& s)
{
  t_begin = now_ns();
  for (auto& c : s.cmds) {
    string const& k = c[0];
    auto arg = [&](size_t i) { return i < c.size() ? dec(c[i]) : string(); };
    auto num = [&](size_t i) { return i < c.size() ? atoi(c[i].c_str()) : 0; };
    auto W_ = [&](size_t i) -> Watcher*
    {
      auto it = watchers.find(num(i));
      if (it == watchers.end()) die("badscript", "no watcher");
      return it->second;
    };
    string what = k + " " + arg(1) + " " + arg(2);
    if (k == "fs") do_fs(arg(1), arg(2), arg(3), "main");
    else if (k == "toolong") logf("{\"e\":\"toolong\",\"p\":\"%s\"}", jesc(P(arg(1))).c_str()); // no name leads to this one
    else if (k == "pad") { // the scratch directory becomes one whose path has that many characters
      bool was = tl_in;
      tl_in = true;
      while ((int)scratch.size() + 1 < num(1)) {
        int left = num(1) - (int)scratch.size() - 1;
        scratch += "/" + string(left > 202 ? 200 : left, 'p');
        if (mkdir(scratch.c_str(), 0755) != 0) die("badscript", "pad");
      }
      tl_in = was;
      logf("{\"e\":\"pad\",\"root\":\"%s\"}", jesc(scratch).c_str());
    }
    else if (k == "jail") { // the scratch directory becomes the root, for this process alone
      auto put = [](char const* f, string const& x)
      {
        int fd = (int)syscall(SYS_open, f, O_WRONLY);
        bool ok = fd >= 0 && syscall(SYS_write, fd, x.data(), x.size()) == (ssize_t)x.size();
        return syscall(SYS_close, fd), ok;
      };
      string const u = std::to_string(geteuid()), g = std::to_string(getegid());
      proc_fd = proc_open("", O_RDONLY | O_DIRECTORY);
      bool ok = proc_fd >= 0 && syscall(SYS_unshare, CLONE_NEWUSER) == 0 && put("/proc/self/setgroups", "deny") && put("/proc/self/uid_map", u + " " + u + " 1")
             && put("/proc/self/gid_map", g + " " + g + " 1") && chroot(scratch.c_str()) == 0 && chdir("/") == 0;
      if (! ok) { // "/" is someone else's: leave it alone
        logf("{\"e\":\"nojail\"}");
        logf("{\"e\":\"end\"}");
        _exit(0);
      }
      scratch = "";
      logf("{\"e\":\"pad\",\"root\":\"\"}");
    }
    else if (k == "cd") (void)! chdir(P(arg(1)).c_str());
    else if (k == "open") {
      auto* x = new Watcher;
      x->w.id = num(1);
      x->w.stops = setof(opt(c, "stops"));
      watchers[x->w.id] = x;
      ws[x->w.id] = &x->w;
      string raw = arg(2);
      string path = raw[0] == '=' ? raw.substr(1) : P(raw); // "=x" is passed as it is
      logf("{\"e\":\"open\",\"w\":%d,\"p\":\"%s\",\"raw\":%d,\"real\":\"%s\",\"abs\":\"%s\"}", x->w.id, jesc(path).c_str(), raw[0] == '=',
        jesc(opt(c, "real")).c_str(), jesc(opt(c, "abs").empty() ? "" : P(opt(c, "abs"))).c_str());
      spawn_for = &x->w;
      tl_role = &x->w;
      api_open(x, path);
      tl_role = nullptr;
      spawn_for = nullptr;
      logf("{\"e\":\"opened\",\"w\":%d}", x->w.id);
    }
    else if (k == "oncb") // oncb w suffix times op p [q]
      W_(1)->oncb.push_back({arg(2), arg(4), arg(5), arg(6), num(3)});
    else if (k == "arrive") { // wait until the thread is held (or finished)
      auto* x = W_(1);
      if (! wait_for([&] { return x->w.done || ! x->w.at.empty() || x->w.blocked; })) die("hang", what);
      logf("{\"e\":\"at\",\"w\":%d,\"gate\":\"%s\",\"i\":\"%s\"}", x->w.id, x->w.done ? "done" : x->w.at.c_str(), jesc(x->w.at_info).c_str());
    }
    else if (k == "go") {
      auto* x = W_(1);
      W& w = x->w;
      if (! w.done) {
        if (! opt(c, "n").empty()) w.quota = atoi(opt(c, "n").c_str());
        w.order = atoi(opt(c, "order", "0").c_str());
        w.spurious = atoi(opt(c, "spurious", "0").c_str());
        w.only = atoi(opt(c, "only", "0").c_str());
        auto until = setof(opt(c, "until", "wait"));
        bool skip = false;
        if (w.at == "wait" && ! fault_pending(w)) skip = ! anything_ready(w);
        long scans = w.scans;
        if (! skip) go(x, until, what);
#ifdef POLL
        for (int i = 0; i < 64 && w.at == "wait" && ! w.done && w.scans == scans; ++i) go(x, until, what);
#endif
        (void)scans;
        logf("{\"e\":\"at\",\"w\":%d,\"gate\":\"%s\",\"i\":\"%s\"}", w.id, w.done ? "done" : w.at.empty() ? "blocked" : w.at.c_str(), jesc(w.at_info).c_str());
      }
    }
    else if (k == "idle") { // deliver everything that is pending
      auto* x = W_(1);
      W& w = x->w;
      w.quota = opt(c, "n").empty() ? -1 : atoi(opt(c, "n").c_str());
      int q = w.quota;
      long scans = w.scans;
      (void)scans;
      for (int i = 0; ; ++i) {
        if (i > 20000) die("hang", what);
        if (! wait_for([&] { return w.done || ! w.at.empty() || w.blocked; })) die("hang", what);
        if (w.done) break;
#ifdef POLL
        if (w.at == "wait" && w.scans >= scans + 2) break;
        if (i > 1000) die("hang", what);
        go(x, {"wait"}, what);
        continue;
#endif
        if ((w.at == "wait" || (w.at.empty() && w.blocked)) && ! anything_ready(w) && ! fault_pending(w)) break;
        w.quota = q;
        go(x, {"wait"}, what);
      }
      logf("{\"e\":\"%s\",\"w\":%d}", w.done ? "ended" : "idle", w.id);
    }
    else if (k == "free") set_free(W_(1)->w);
    else if (k == "weave" || k == "woven") { // around an operation: it is at the same time as the rename before
      bool was = tl_in;
      tl_in = true;
      if (k == "weave") weave(&W_(1)->w);
      else logf("{\"e\":\"woven\",\"w\":%d,\"n\":%d}", num(1), woven(&W_(1)->w, num(2)));
      tl_in = was;
    }
    else if (k == "ovf") W_(1)->w.ovf_at = num(2), logf("{\"e\":\"inject\",\"w\":%d,\"what\":\"ovf\",\"at\":%d}", num(1), num(2));
    else if (k == "fault") { // fault fn w nth errno [path]
      std::lock_guard<std::mutex> g(M);
      Fault f;
      f.fnname = arg(1); f.w = num(2); f.nth = num(3); f.err = num(4); f.path = arg(5);
      faults.push_back(f);
    }
    else if (k == "close") { // close c w [stops=]
      auto* x = W_(2);
      auto* cl = new Closer;
      cl->id = num(1);
      cl->w = &x->w;
      cl->stops = setof(opt(c, "stops"));
      closers[cl->id] = cl;
      bool destroy = opt(c, "how") == "destroy";
      cthreads[cl->id] = new std::thread(
        [cl, x, destroy]
        {
          tl_c = cl;
          tl_role = &x->w;
          cl->tid = (int)syscall(SYS_gettid);
          int v = -1;
          if (destroy) {
            logf("{\"e\":\"destroy\",\"w\":%d}", x->w.id);
            api_destroy(x);
            logf("{\"e\":\"destroyed\",\"w\":%d,\"incb\":%d}", x->w.id, x->in_cb.load());
          }
          else {
            logf("{\"e\":\"close\",\"w\":%d,\"c\":%d}", x->w.id, cl->id);
            v = api_close(x);
            logf("{\"e\":\"closed\",\"w\":%d,\"c\":%d,\"v\":%d,\"incb\":%d}", x->w.id, cl->id, v, x->in_cb.load());
          }
          std::lock_guard<std::mutex> g(M);
          cl->verdict = v;
          cl->done = true;
          CV.notify_all();
        });
      // (a close which sends no request now just goes on waiting for the watcher)
      if (! cl->stops.empty()) wait_for([&] { return cl->done || ! cl->at.empty(); }, 1000);
#ifdef POLL
      if (opt(c, "nowait").empty() && asleep(cl)) logf("{\"e\":\"req\",\"w\":%d}", x->w.id); // it has said so, and waits now
#endif
    }
    else if (k == "closenull") {
#ifdef API_C
      int v = wtr_watcher_close(nullptr);
      logf("{\"e\":\"closednull\",\"v\":%d}", v);
#endif
    }
    else if (k == "cgo") { // release a held closer
      auto* cl = closers[num(1)];
      {
        std::lock_guard<std::mutex> g(M);
        cl->stops = setof(opt(c, "until"));
        if (! cl->at.empty()) cl->go = true;
        CV.notify_all();
      }
      if (! cl->stops.empty()) wait_for([&] { return cl->done || (! cl->at.empty() && ! cl->go); }, 1000);
    }
    else if (k == "cjoin") { // the watcher runs freely until its close returns
      auto* cl = closers[num(1)];
      {
        std::lock_guard<std::mutex> g(M);
        cl->stops.clear();
        if (! cl->at.empty()) cl->go = true;
        CV.notify_all();
      }
      if (opt(c, "hold").empty()) {
        for (auto& [_, y] : watchers) if (&y->w == cl->w) set_free(y->w);
      }
      if (! wait_for([&] { return cl->done; })) die("hang", what);
      if (cthreads[num(1)]->joinable()) cthreads[num(1)]->join();
    }
    else if (k == "ctry") { // has close returned already? (it must not have, while a callback runs)
      std::this_thread::sleep_for(std::chrono::milliseconds(num(2) ? num(2) : 5));
      logf("{\"e\":\"ctry\",\"c\":%d,\"done\":%d}", num(1), closers[num(1)]->done);
    }
    else if (k == "destroy") {
      auto* x = W_(1);
      set_free(x->w);
      std::atomic<bool> fin{false};
      logf("{\"e\":\"destroy\",\"w\":%d}", x->w.id);
      std::thread t(
        [&]
        {
          tl_role = &x->w;
          api_destroy(x);
          logf("{\"e\":\"destroyed\",\"w\":%d,\"incb\":%d}", x->w.id, x->in_cb.load());
          std::lock_guard<std::mutex> g(M);
          fin = true;
          CV.notify_all();
        });
      if (! wait_for([&] { return fin.load(); })) die("hang", what);
      t.join();
    }
    else if (k == "wdone") { // the watching thread must end by itself
      auto* x = W_(1);
      set_free(x->w);
      if (! wait_for([&] { return x->w.done; })) die("hang", what);
    }
    else if (k == "waitcb") { // wait until n callbacks were made in total
      auto* x = W_(1);
      for (int i = 0; x->ncb < num(2); ++i) {
        if (i > TIMEOUT_MS) die("hang", what);
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      }
    }
    else if (k == "storm") { // endless changes of a file by another thread, until "calm"
      string f = arg(1);
      storming = true;
      storm = new std::thread(
        [f]
        {
          for (int i = 0; storming && i < 4000; ++i) {
            do_fs("write", f, "", "storm");
            std::this_thread::sleep_for(std::chrono::microseconds(200));
          }
        });
    }
    else if (k == "flood") { // more changes than the system's queue can hold
      bool was = tl_in;
      tl_in = true;
      long n = num(2);
      for (long i = 0; i < n; ++i) {
        int f = open(P(arg(1) + "/flood" + std::to_string(i)).c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
        if (f >= 0) syscall(SYS_close, f);
      }
      tl_in = was;
      logf("{\"e\":\"flood\",\"n\":%ld}", n);
    }
    else if (k == "calm") {
      storming = false;
      storm->join();
    }
    else if (k == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(num(1)));
    else if (k == "cwd") { char b[4096]; if (getcwd(b, sizeof b)) logf("{\"e\":\"cwd\",\"p\":\"%s\"}", jesc(b).c_str()); }
    else if (k == "stack") { // threads from here on get this many KiB of stack
      pthread_attr_t a;
      pthread_attr_init(&a);
      if (pthread_attr_setstacksize(&a, (size_t)num(1) * 1024) != 0 || pthread_setattr_default_np(&a) != 0) die("badscript", "stack");
    }
    else if (k == "dtunknown") dt_unknown = true; // a filesystem that does not report entry types
    else if (k == "logsys") log_sys = true;
    else if (k == "snap") {
      std::this_thread::sleep_for(std::chrono::milliseconds(0));
      int fdn = count_fds(), tn = count_tasks();
      if (baseline.empty()) { // from now on, nobody but the driver may close these
        for (int i = 0; i < 4096; ++i) if (syscall(SYS_fcntl, i, F_GETFD, 0) >= 0) baseline.insert(i);
      }
      for (int i = 0; i < 200 && tn > 1; ++i) { usleep(1000); tn = count_tasks(); }
      logf("{\"e\":\"snap\",\"fds\":%d,\"tasks\":%d,\"objs\":%ld}", fdn, tn, mem::ours.load());
    }
    else if (k == "mark") logf("{\"e\":\"note\",\"t\":\"%s\"}", jesc(arg(1)).c_str());
#ifdef FAKEFAN
    else if (fakefan::command(c, arg, num)) {}
#endif
    else die("badscript", k);
  }
  logf("{\"e\":\"end\"}");
}

static void on_crash(int sig)
{
  logf("{\"e\":\"crash\",\"sig\":%d}", sig);
  _exit(4);
}

int main(int argc, char** argv)
{
  if (argc < 4) return 2;
  vector<Script> scripts;
  {
    std::ifstream f(argv[1]);
    string line;
    while (std::getline(f, line)) {
      std::stringstream ss(line);
      vector<string> t;
      string x;
      while (ss >> x) t.push_back(x);
      if (t.empty()) continue;
      if (t[0] == "script") scripts.push_back({t[1], {}});
      else scripts.back().cmds.push_back(t);
    }
  }
  string base = argv[3];
  int jobs = argc > 4 ? atoi(argv[4]) : 8;
  size_t const cap = 8u << 20;
  FILE* out = fopen(argv[2], "w");
  if (! out) return 2;
  struct Slot {
    pid_t pid = 0;
    size_t script = 0;
    char* buf;
    std::atomic<size_t>* len;
    long long t0;
  };
  vector<Slot> slots(jobs);
  for (auto& s : slots) {
    s.buf = (char*)mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s.buf == MAP_FAILED) return 2;
    s.len = new (s.buf) std::atomic<size_t>(0);
    s.buf += 4096;
  }
  size_t next = 0, done = 0, bad = 0;
  size_t const maxbad = getenv("DRV_MAXBAD") ? atoi(getenv("DRV_MAXBAD")) : 32;
  vector<string> results(scripts.size());
  while (done < scripts.size()) {
    if (bad >= maxbad) // enough is known; what is left would only take time
      for (; next < scripts.size(); ++next, ++done) results[next] = "#skipped " + scripts[next].id + "\n";
    for (auto& s : slots) {
      if (s.pid || next >= scripts.size()) continue;
      s.script = next++;
      s.len->store(0);
      s.t0 = now_ns();
      fflush(out);
      s.pid = fork();
      if (s.pid == 0) {
        L.buf = s.buf, L.cap = cap, L.len = s.len;
        signal(SIGSEGV, on_crash), signal(SIGABRT, on_crash), signal(SIGBUS, on_crash), signal(SIGFPE, on_crash);
        signal(SIGPIPE, SIG_IGN);
        string dir = base + "/s" + std::to_string(s.script);
        tl_in = true;
        if (mkdir(dir.c_str(), 0755) != 0) _exit(9);
        char rp[PATH_MAX];
        if (! realpath(dir.c_str(), rp)) _exit(9);
        scratch = rp;
        tl_in = false;
#ifdef FAKEFAN
        fakefan::install();
#endif
        run(scripts[s.script]);
        _exit(0);
      }
      if (s.pid < 0) return 2;
    }
    if (done >= scripts.size()) break;
    int st = 0;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(300);
      for (auto& s : slots)
        if (s.pid && now_ns() - s.t0 > 40LL * 1000000000LL) kill(s.pid, SIGKILL);
      continue;
    }
    for (auto& s : slots)
      if (s.pid == p) {
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        char rp[PATH_MAX] = "";
        string dir = base + "/s" + std::to_string(s.script);
        (void)! realpath(dir.c_str(), rp);
        string& r = results[s.script];
        r = "#trace " + scripts[s.script].id + " " + std::to_string(code) + " " + rp + "\n";
        r.append(s.buf, s.len->load());
        if (code) ++bad;
        s.pid = 0;
        ++done;
      }
  }
  for (auto& r : results) fwrite(r.data(), 1, r.size(), out);
  fclose(out);
  return 0;
}
