// A stand-in for the C library, below the language bindings: it does what it is told through the socket in
// STUB_FD and writes down, in the file STUB_LOG, everything which passes the interface.
#include "wtr/watcher-c.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {
struct value {
  long long t;
  std::string p, a;
  bool has;
  int e, k;
};
struct watcher {
  int id;
  wtr_watcher_callback cb;
  void* ctx;
  bool verdict = true;
  std::vector<value> last;
};
std::mutex mtx;
std::map<watcher*, int> known;
std::map<int, watcher*> byid;
std::vector<value> staged, onopen;
bool refuse = false;
int count = 0;
int logfd = -1, ctl = -1;

std::string hex(char const* s)
{
  std::string r;
  char b[4];
  for (; *s; ++s) snprintf(b, sizeof b, "%02x", (unsigned char)*s), r += b;
  return r;
}
std::string unhex(std::string const& s)
{
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
void put(std::string s)
{
  s += "\n";
  if (write(logfd, s.data(), s.size()) < 0) _exit(97);
}
void play(watcher* w, std::vector<value> const& vs)
{
  for (auto const& v : vs) {
    // the strings are only valid during the call
    std::string p = v.p, a = v.a;
    std::ostringstream o;
    o << "{\"k\":\"cev\",\"c\":" << w->id << ",\"v\":{\"t\":" << v.t << ",\"p\":\"" << hex(p.c_str()) << "\",\"has\":" << (v.has ? "true" : "false")
      << ",\"a\":\"" << (v.has ? hex(a.c_str()) : "") << "\",\"e\":" << v.e << ",\"k\":" << v.k << "}}";
    put(o.str());
    wtr_watcher_event ev{};
    ev.effect_time = v.t;
    ev.path_name = p.c_str();
    ev.associated_path_name = v.has ? a.c_str() : nullptr;
    ev.effect_type = (int8_t)v.e;
    ev.path_type = (int8_t)v.k;
    w->cb(ev, w->ctx);
    for (auto& c : p) c = '?';
    for (auto& c : a) c = '?';
  }
}
void reply(char const* s)
{
  if (write(ctl, s, strlen(s)) < 0) _exit(96);
}
void control()
{
  std::string buf;
  char b[65536];
  ssize_t n;
  while ((n = read(ctl, b, sizeof b)) > 0) {
    buf.append(b, n);
    size_t at;
    while ((at = buf.find('\n')) != std::string::npos) {
      std::istringstream in(buf.substr(0, at));
      buf.erase(0, at + 1);
      std::string c;
      in >> c;
      if (c == "ev") {
        value v{};
        std::string p, a;
        in >> v.t >> p >> a >> v.e >> v.k;
        v.p = unhex(p);
        v.has = a != "-";
        if (v.has) v.a = unhex(a);
        staged.push_back(v);
        continue;
      }
      else if (c == "refuse") refuse = true;
      else if (c == "onopen") onopen.swap(staged), staged.clear();
      else if (c == "onclose") {
        int id, v;
        in >> id >> v;
        byid[id]->verdict = v;
        byid[id]->last.swap(staged), staged.clear();
      }
      else if (c == "emit") {
        int id;
        in >> id;
        std::vector<value> vs;
        vs.swap(staged);
        play(byid[id], vs);
      }
      else if (c == "storm") {
        std::vector<std::thread> ts;
        std::vector<value> vs;
        vs.swap(staged);
        int id;
        while (in >> id) ts.emplace_back([=, &vs] { play(byid[id], vs); });
        for (auto& t : ts) t.join();
      }
      else if (c == "last") {
        char r[32];
        snprintf(r, sizeof r, "%d\n", count);
        reply(r);
        continue;
      }
      reply("ok\n");
    }
  }
}
void start()
{
  static std::once_flag once;
  std::call_once(once, [] {
    logfd = open(getenv("STUB_LOG"), O_WRONLY | O_APPEND | O_CLOEXEC);
    ctl = atoi(getenv("STUB_FD"));
    std::thread(control).detach();
  });
}
__attribute__((constructor)) void loaded()
{
  if (getenv("STUB_LOG")) start();
}
}  // namespace

extern "C" void* wtr_watcher_open(char const* const path, wtr_watcher_callback callback, void* context)
{
  start();
  std::vector<value> first;
  watcher* w = nullptr;
  {
    std::lock_guard l(mtx);
    int id = ++count;
    std::ostringstream o;
    o << "{\"k\":\"copen\",\"c\":" << id << ",\"p\":\"" << hex(path) << "\",\"ok\":" << (refuse ? "false" : "true") << "}";
    put(o.str());
    if (refuse) return refuse = false, nullptr;
    w = new watcher{id, callback, context, true, {}};
    known[w] = id;
    byid[id] = w;
    first.swap(onopen);
  }
  std::thread([&] { play(w, first); }).join();
  return w;
}

extern "C" bool wtr_watcher_close(void* h)
{
  int id = 0;
  watcher* w = (watcher*)h;
  {
    std::lock_guard l(mtx);
    if (h) id = known.count(w) ? known[w] : -1;
    put("{\"k\":\"cclose\",\"c\":" + std::to_string(id) + "}");
  }
  bool v = false;
  if (id > 0) {
    std::vector<value> last;
    last.swap(w->last);
    std::thread([&] { play(w, last); }).join();
    v = w->verdict;
    w->verdict = false;
  }
  put("{\"k\":\"cclosed\",\"c\":" + std::to_string(id) + ",\"v\":" + (v ? "true" : "false") + "}");
  return v;
}
