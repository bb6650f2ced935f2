// A simulated fanotify kernel, made from the real inotify: each group is an inotify
// instance, each mark a watch. What the kernel queues there is handed out as fanotify
// records (metadata, directory handle, name), which the masks of the marks filter, in
// reads as large as the script says. Handles resolve to where the directory is now.
//   fanbad w KIND AT   puts a bad record before the AT-th queued one: stale (its directory
//                      is gone), fd (carries a descriptor), info (another kind of
//                      information), short (none), or merged:NAME (one record for the creation
//                      and the removal of NAME in the watched directory)
//   fanh N             handles are N bytes long
#pragma once

namespace fakefan {
using namespace shim;

struct Mark {
  int at;       // O_PATH descriptor of the directory
  uint64_t mask;
};
inline std::map<std::pair<int, int>, Mark> marks; // (group, wd)
inline std::map<int, unsigned> groups;
inline int hbytes = 12;
struct Bad {
  int w;
  std::string kind;
  int at;
};
inline std::vector<Bad> bads;

inline uint32_t to_in(uint64_t m)
{
  uint32_t r = IN_ONLYDIR | IN_EXCL_UNLINK * 0;
  if (m & FAN_CREATE) r |= IN_CREATE;
  if (m & FAN_DELETE) r |= IN_DELETE;
  if (m & FAN_MODIFY && m & FAN_EVENT_ON_CHILD) r |= IN_MODIFY;
  if (m & FAN_MOVED_FROM) r |= IN_MOVED_FROM;
  if (m & FAN_MOVED_TO) r |= IN_MOVED_TO;
  if (m & FAN_ATTRIB) r |= IN_ATTRIB;
  if (m & FAN_ACCESS) r |= IN_ACCESS;
  if (m & FAN_OPEN) r |= IN_OPEN;
  if (m & FAN_CLOSE_WRITE) r |= IN_CLOSE_WRITE;
  if (m & FAN_CLOSE_NOWRITE) r |= IN_CLOSE_NOWRITE;
  if (m & FAN_DELETE_SELF) r |= IN_DELETE_SELF;
  if (m & FAN_MOVE_SELF) r |= IN_MOVE_SELF;
  return r;
}

inline int init(unsigned fl, unsigned)
{
  int fd = (int)syscall(SYS_inotify_init1, (fl & FAN_CLOEXEC ? O_CLOEXEC : 0) | (fl & FAN_NONBLOCK ? O_NONBLOCK : 0));
  if (fd >= 0) {
    std::lock_guard<std::mutex> g(M);
    groups[fd] = fl;
  }
  return fd;
}

inline std::string where(int at)
{
  char p[40], b[PATH_MAX];
  snprintf(p, sizeof p, "/proc/self/fd/%d", at);
  ssize_t n = syscall(SYS_readlink, p, b, sizeof b - 1);
  return n < 0 ? std::string() : std::string(b, n);
}
inline bool removed(int at)
{
  struct stat s;
  return fstat(at, &s) != 0 || s.st_nlink == 0;
}

inline int mark(int fd, unsigned fl, uint64_t mask, int dfd, char const* path)
{
  {
    std::lock_guard<std::mutex> g(M);
    if (! groups.count(fd)) { errno = EBADF; return -1; }
  }
  int o = (int)syscall(SYS_openat, dfd, path && *path ? path : ".", O_PATH | O_CLOEXEC | (fl & FAN_MARK_DONT_FOLLOW ? O_NOFOLLOW : 0), 0);
  if (o < 0) return -1;
  struct stat st;
  if (fstat(o, &st) == 0 && ! S_ISDIR(st.st_mode)) {
    syscall(SYS_close, o);
    if (fl & FAN_MARK_ONLYDIR) { errno = ENOTDIR; return -1; }
    return 0; // a file may be marked: nothing in it to tell
  }
  char p[40];
  snprintf(p, sizeof p, "/proc/self/fd/%d/.", o);
  // the events of several marks of one directory add up
  int wd = (int)syscall(SYS_inotify_add_watch, fd, p, to_in(mask) | IN_MASK_ADD);
  int e = errno;
  if (wd < 0) { syscall(SYS_close, o); errno = e; return -1; }
  std::lock_guard<std::mutex> g(M);
  auto k = std::make_pair(fd, wd);
  if (fl & FAN_MARK_REMOVE) {
    syscall(SYS_inotify_rm_watch, fd, wd);
    syscall(SYS_close, o);
    marks.erase(k);
  }
  else if (marks.count(k) && ! removed(marks[k].at)) marks[k].mask |= mask, syscall(SYS_close, o);
  else {
    // out of the way of the watcher's descriptors
    int h = (int)syscall(SYS_fcntl, o, F_DUPFD_CLOEXEC, 600);
    syscall(SYS_close, o);
    marks[k] = {h, mask};
  }
  W* w = tl_w ? tl_w : tl_role;
  if (! (fl & FAN_MARK_REMOVE) && marks.count(k)) logf("{\"e\":\"fmark\",\"w\":%d,\"p\":\"%s\"}", w ? w->id : -1, jesc(where(marks[k].at)).c_str());
  return 0;
}

inline int open_by_handle(int, struct file_handle* h, int fl)
{
  int k[2] = {-1, -1};
  if (h->handle_bytes >= sizeof k) memcpy(k, h->f_handle, sizeof k);
  int at = -1;
  {
    std::lock_guard<std::mutex> g(M);
    auto i = marks.find({k[0], k[1]});
    if (h->handle_type == 0x57 && i != marks.end()) at = i->second.at;
  }
  if (at < 0 || removed(at)) { errno = ESTALE; return -1; }
  return (int)syscall(SYS_openat, at, ".", fl | O_CLOEXEC, 0);
}

// One record as the kernel lays it out.
inline std::string record(uint64_t mask, int info_type, int group, int wd, std::string const& name, int fd, bool child)
{
  fanotify_event_metadata m{};
  std::string infos;
  if (info_type >= 0) {
    std::string b;
    fanotify_event_info_header ih{};
    ih.info_type = (unsigned char)info_type;
    __kernel_fsid_t fsid{};
    struct { unsigned bytes; int type; } fh{(unsigned)hbytes, 0x57};
    b.append((char*)&ih, sizeof ih);
    b.append((char*)&fsid, sizeof fsid);
    b.append((char*)&fh, sizeof fh);
    std::string hd(hbytes, '\x01');
    int k[2] = {group, wd};
    memcpy(&hd[0], k, sizeof k);
    b += hd;
    if (info_type == FAN_EVENT_INFO_TYPE_DFID_NAME) b += name, b += '\0';
    while (b.size() % 4) b += '\0';
    ((fanotify_event_info_header*)b.data())->len = (unsigned short)b.size();
    infos += b;
    if (child) { // the entry itself follows
      std::string c(sizeof ih + sizeof fsid + sizeof fh + hbytes, '\0');
      ih.info_type = FAN_EVENT_INFO_TYPE_FID;
      ih.len = (unsigned short)c.size();
      fh.type = 0x58;
      memcpy(&c[0], &ih, sizeof ih);
      memcpy(&c[sizeof ih + sizeof fsid], &fh, sizeof fh);
      infos += c;
    }
  }
  m.event_len = (unsigned)(sizeof m + infos.size());
  m.vers = FANOTIFY_METADATA_VERSION;
  m.metadata_len = sizeof m;
  m.mask = mask;
  m.fd = fd;
  m.pid = getpid();
  return std::string((char*)&m, sizeof m) + infos;
}

inline void take(W* w, int fd)
{
  drain(w, fd);
  // what fanotify would not tell
  std::deque<Rec> q;
  std::lock_guard<std::mutex> g(M);
  for (auto& r : w->q) {
    auto* e = (inotify_event*)r.raw.data();
    if (e->mask & (IN_Q_OVERFLOW | 0x08000000)) { q.push_back(r); continue; }
    auto i = marks.find({fd, e->wd});
    if (e->mask & IN_IGNORED || i == marks.end()) continue;
    if (e->mask & IN_ISDIR && ! (i->second.mask & FAN_ONDIR)) continue;
    if (! e->len) continue;
    q.push_back(r);
  }
  w->q.swap(q);
}

inline ssize_t fread_(W* w, int fd, void* buf, size_t count)
{
  Own own_;
  gate("read");
  if (fault("read")) return -1;
  for (;;) {
    take(w, fd);
    auto in = [&](size_t i) { return (inotify_event*)w->q[i].raw.data(); };
    auto place = [&](size_t at)
    {
      if (at > w->q.size()) at = w->q.size();
      if (at == 0 && ! w->q.empty() && w->last_from && in(0)->cookie == w->last_from) at = 1;
      else if (at > 0 && at < w->q.size() && (in(at - 1)->mask & IN_MOVED_FROM) && in(at)->cookie == in(at - 1)->cookie) ++at;
      return at;
    };
    if (w->ovf_at >= 0) {
      inotify_event e{};
      e.wd = -1;
      e.mask = IN_Q_OVERFLOW;
      w->q.insert(w->q.begin() + place(w->ovf_at), Rec{std::string((char*)&e, sizeof e)});
      w->ovf_at = -1;
    }
    for (size_t i = 0; i < bads.size(); ++i)
      if (bads[i].w == w->id) {
        inotify_event e{};
        e.wd = -1;
        e.mask = 0x08000000; // not an inotify record
        e.cookie = (uint32_t)i + 1;
        w->q.insert(w->q.begin() + place(bads[i].at), Rec{std::string((char*)&e, sizeof e)});
        bads[i].w = -1;
        --w->bad;
      }
    if (! w->q.empty()) break;
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL, 0);
    if (fl >= 0 && (fl & O_NONBLOCK)) { errno = EAGAIN; return -1; }
    std::unique_lock<std::mutex> g(M);
    if (! w->blocked) { w->blocked = true; CV.notify_all(); }
    CV.wait_for(g, std::chrono::milliseconds(1));
  }
  {
    std::lock_guard<std::mutex> g(M);
    w->blocked = false;
  }
  size_t used = 0;
  int n = 0;
  std::string recs;
  unsigned last_mask = 0, last_ck = 0;
  while (! w->q.empty() && (w->quota < 0 || n < w->quota)) {
    auto raw = w->q.front().raw;
    auto* e = (inotify_event*)raw.data();
    std::string name = e->len ? e->name : "", kind, dir, out;
    bool gone = false;
    if (e->mask & IN_Q_OVERFLOW) kind = "ovf", out = record(FAN_Q_OVERFLOW, -1, 0, 0, "", FAN_NOFD, false);
    else if (e->mask & 0x08000000) {
      std::string b = bads[e->cookie - 1].kind;
      kind = "bad";
      int wd = -1;
      std::string root;
      for (auto& [k, m] : marks) if (k.first == fd && (wd < 0 || where(m.at).size() < root.size())) wd = k.second, root = where(m.at);
      if (b == "stale") out = record(FAN_CREATE, FAN_EVENT_INFO_TYPE_DFID_NAME, -7, 1, "stale", FAN_NOFD, false);
      else if (b == "staledir") out = record(FAN_CREATE | FAN_ONDIR, FAN_EVENT_INFO_TYPE_DFID_NAME, -7, 1, "stale", FAN_NOFD, false);
      else if (b == "stalefrom") out = record(FAN_MOVED_FROM, FAN_EVENT_INFO_TYPE_DFID_NAME, -7, 1, "stale", FAN_NOFD, false);
      else if (b == "staleto") out = record(FAN_MOVED_TO, FAN_EVENT_INFO_TYPE_DFID_NAME, -7, 1, "stale", FAN_NOFD, false);
      else if (b == "info") out = record(FAN_CREATE, FAN_EVENT_INFO_TYPE_FID, fd, wd, "", FAN_NOFD, false);
      else if (b == "short") out = record(FAN_CREATE, -1, 0, 0, "", FAN_NOFD, false);
      else if (b == "fd") {
        int o = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC);
        {
          std::lock_guard<std::mutex> g(M);
          fds[o] = {none, w};
        }
        sys("record", o, o);
        out = record(FAN_MODIFY, -1, 0, 0, "", o, false);
      }
      else if (b.compare(0, 7, "merged:") == 0) {
        kind = "merged", dir = root, name = b.substr(7);
        out = record(FAN_CREATE | FAN_DELETE, FAN_EVENT_INFO_TYPE_DFID_NAME, fd, wd, name, FAN_NOFD, false);
      }
    }
    else {
      uint64_t m = e->mask & IN_CREATE ? FAN_CREATE : e->mask & IN_DELETE ? FAN_DELETE : e->mask & IN_MODIFY ? FAN_MODIFY
                 : e->mask & IN_MOVED_FROM ? FAN_MOVED_FROM : e->mask & IN_MOVED_TO ? FAN_MOVED_TO : e->mask & IN_ATTRIB ? FAN_ATTRIB
                 : e->mask & IN_ACCESS ? FAN_ACCESS : e->mask & IN_OPEN ? FAN_OPEN : e->mask & IN_CLOSE_WRITE ? FAN_CLOSE_WRITE : FAN_CLOSE_NOWRITE;
      kind = mask_str(e->mask & ~IN_ISDIR);
      if (e->mask & IN_ISDIR) m |= FAN_ONDIR;
      std::lock_guard<std::mutex> g(M);
      int at = marks[{fd, e->wd}].at;
      gone = removed(at);
      dir = where(at);
      out = record(m, FAN_EVENT_INFO_TYPE_DFID_NAME, fd, e->wd, name, FAN_NOFD, m & FAN_MODIFY);
    }
    if (used + out.size() > count) break;
    memcpy((char*)buf + used, out.data(), out.size());
    used += out.size();
    last_mask = e->mask, last_ck = e->cookie;
    char t[64];
    snprintf(t, sizeof t, "\",\"ck\":%u,\"dir\":%d,\"gone\":%d}", e->mask & 0x08000000 ? 0 : e->cookie, !! (e->mask & IN_ISDIR), gone);
    recs += std::string(n ? "," : "") + "{\"k\":\"" + kind + "\",\"d\":\"" + jesc(dir) + "\",\"nm\":\"" + jesc(name) + t;
    ++n;
    w->q.pop_front();
  }
  if (n == 0) { errno = EINVAL; return -1; }
  w->last_from = last_mask & IN_MOVED_FROM ? last_ck : 0;
  w->quota = -1;
  logf("{\"e\":\"fbatch\",\"w\":%d,\"recs\":[%s]}", w->id, recs.c_str());
  return (ssize_t)used;
}

inline void closed(int fd)
{
  std::lock_guard<std::mutex> g(M);
  if (! groups.erase(fd)) return;
  for (auto i = marks.begin(); i != marks.end();)
    if (i->first.first == fd) syscall(SYS_close, i->second.at), i = marks.erase(i);
    else ++i;
}

inline void install()
{
  fake_fan_close = closed;
  fake_fanotify_init = init;
  fake_fanotify_mark = mark;
  fake_fan_read = fread_;
  fake_open_by_handle = open_by_handle;
}

template<class C, class A, class N> bool command(C const& c, A arg, N num)
{
  if (c[0] == "fanbad") {
    Own own_;
    bads.push_back({num(1), arg(2), num(3)});
    ++ws[num(1)]->bad;
  }
  else if (c[0] == "fanh") hbytes = num(1);
  else return false;
  return true;
}
} // namespace fakefan

// a watcher running as another user would not even try
extern "C" uid_t geteuid() __THROW { return 0; }
