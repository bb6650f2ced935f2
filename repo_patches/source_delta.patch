From 66752a719f14e6d7ecae00b76d9d5095c948999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/43] fix: keep watching when a signal interrupts the wait or
 the read

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp   | 6 ++++--
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 3 ++-
 include/wtr/watcher.hpp                                  | 9 ++++++---
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..1ae10dc 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -8,6 +8,7 @@
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <filesystem>
 #include <limits.h>
 #include <string.h>
@@ -322,8 +323,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..ae506df 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -27,7 +28,7 @@ inline auto watch =
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
       if (ep_c < 0)
-        sr.ok = result::e_sys_api_epoll;
+        sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
           if (is_ev_of(n, sr.il.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..418b4e7 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1287,6 +1287,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 
 #if (KERNEL_VERSION(2, 7, 0) <= LINUX_VERSION_CODE) || __ANDROID_API__
 
+#include <errno.h>
 #include <filesystem>
 #include <limits.h>
 #include <string.h>
@@ -1601,8 +1602,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
@@ -1647,6 +1649,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1664,7 +1667,7 @@ inline auto watch =
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
       if (ep_c < 0)
-        sr.ok = result::e_sys_api_epoll;
+        sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
           if (is_ev_of(n, sr.il.fd))
-- 
2.43.0


From b4ffbb2b9228d4bde146240976322929636401d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 02/43] fix: never overwrite a stop request with the result of
 reading events

---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index ae506df..487f5c0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -30,7 +30,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 418b4e7..3a129e5 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1669,7 +1669,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From c2ba3afba67abadb89904cfd31ef6f8c6aac8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/43] fix: report an overflow of the inotify queue as an
 overflow

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp        | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 1ae10dc..c8c4f70 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -337,12 +337,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3a129e5..b51b161 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1616,12 +1616,12 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
       else if (dmhit == sr.ke.dm.end())
         send_msg(result::w_sys_phantom, "", cb);
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From d4c157c5dce4e26965066c189ba4086e3831031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 04/43] fix: no phantom warning when a removed watch is
 confirmed in a later read

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp       | 5 +++--
 include/wtr/watcher.hpp                                      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index c8c4f70..4ce91f1 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -341,8 +341,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
-      else if (dmhit == sr.ke.dm.end())
-        send_msg(result::w_sys_phantom, "", cb);
+      else if (dmhit == sr.ke.dm.end()) {
+        if (! (msk & IN_IGNORED)) send_msg(result::w_sys_phantom, "", cb);
+      }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b51b161..49be52d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1620,8 +1620,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, "", cb);
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
-      else if (dmhit == sr.ke.dm.end())
-        send_msg(result::w_sys_phantom, "", cb);
+      else if (dmhit == sr.ke.dm.end()) {
+        if (! (msk & IN_IGNORED)) send_msg(result::w_sys_phantom, "", cb);
+      }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
-- 
2.43.0


From d43dbdc61392fc58f0f44745f4cdff1558d8bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 05/43] fix: convert every number to exactly its digits

---
 devel/include/wtr/watcher-/event.hpp | 12 +++++++-----
 include/wtr/watcher.hpp              | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..7950021 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  One more than `digits10` for the most digits, another for the sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto const len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 49be52d..f620f84 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,22 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  One more than `digits10` for the most digits, another for the sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto const len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From 21397f7d69bd9152d9afb2c1140643818da3929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 06/43] fix: report the new path of a rename in the directory
 it was renamed to

---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp       | 11 +++++++----
 include/wtr/watcher.hpp                               | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 4ce91f1..ada66a2 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -179,7 +179,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -187,7 +187,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -195,7 +195,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -345,7 +348,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (! (msk & IN_IGNORED)) send_msg(result::w_sys_phantom, "", cb);
       }
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f620f84..b88170c 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1460,7 +1460,7 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
@@ -1468,7 +1468,7 @@ inline auto parse_ev = [](
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.at(m->wd) / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1476,7 +1476,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && dm.find(b->wd) != dm.end();
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -1626,7 +1629,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (! (msk & IN_IGNORED)) send_msg(result::w_sys_phantom, "", cb);
       }
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
-- 
2.43.0


From 6027a1a2880ac1a3cecf6b3d2ff00d902e4de661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/43] fix: warn about directories which can not be read
 instead of skipping them silently

---
 devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp | 2 +-
 include/wtr/watcher.hpp                                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..b8b6289 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -151,8 +151,8 @@ inline auto is_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
+  f(path);
   if (DIR* d = opendir(path)) {
-    f(path);
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b88170c..3487493 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -969,8 +969,8 @@ inline auto is_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
+  f(path);
   if (DIR* d = opendir(path)) {
-    f(path);
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-- 
2.43.0


From f7dcf5080990b69558cf1bdf8197d68fbecfd19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 08/43] fix: watch everything inside of a directory which was
 created or moved in

---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp    | 8 +++++---
 include/wtr/watcher.hpp                                   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index ada66a2..0d5ad86 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -114,7 +114,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -349,8 +349,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
+          walkdir_do(
+            ev.path_name.c_str(),
+            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3487493..b1fb161 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1395,7 +1395,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1630,8 +1630,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
+          walkdir_do(
+            ev.path_name.c_str(),
+            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From d9d14e2a6f8889914641a88d7ff107ea3736e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 09/43] fix: keep reporting the right paths after a directory
 is renamed

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 34 ++++++++++++++++---
 include/wtr/watcher.hpp                       | 34 ++++++++++++++++---
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 0d5ad86..921c70a 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -119,6 +119,24 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  A watch descriptor stays with its directory
+    when the directory, or a parent, is renamed.
+    The paths which we know them by need to move
+    along from the old name to the new one. */
+inline auto do_move = [](
+                        std::filesystem::path const& from,
+                        std::filesystem::path const& to,
+                        ke_in_ev::paths& dm) -> void
+{
+  auto const& pre = from.native();
+  for (auto& [_, at] : dm) {
+    auto const& was = at.native();
+    if (was.compare(0, pre.size(), pre) != 0) continue;
+    if (was.size() > pre.size() && was[pre.size()] != '/') continue;
+    at = to.native() + was.substr(pre.size());
+  }
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -349,10 +367,18 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
-          walkdir_do(
-            ev.path_name.c_str(),
-            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
+        auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
+        if (msk & IN_ISDIR && ev.associated) {
+          /*  Directories might have been exchanged,
+              so we take another look at both names. */
+          auto const& from = ev.path_name;
+          auto const& to = ev.associated->path_name;
+          do_move(from, to, sr.ke.dm);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
+          if (is_dir(to.c_str())) walkdir_do(to.c_str(), mark);
+        }
+        else if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
+          walkdir_do(ev.path_name.c_str(), mark);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b1fb161..fc615b4 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1400,6 +1400,24 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  A watch descriptor stays with its directory
+    when the directory, or a parent, is renamed.
+    The paths which we know them by need to move
+    along from the old name to the new one. */
+inline auto do_move = [](
+                        std::filesystem::path const& from,
+                        std::filesystem::path const& to,
+                        ke_in_ev::paths& dm) -> void
+{
+  auto const& pre = from.native();
+  for (auto& [_, at] : dm) {
+    auto const& was = at.native();
+    if (was.compare(0, pre.size(), pre) != 0) continue;
+    if (was.size() > pre.size() && was[pre.size()] != '/') continue;
+    at = to.native() + was.substr(pre.size());
+  }
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1630,10 +1648,18 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
-          walkdir_do(
-            ev.path_name.c_str(),
-            [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); });
+        auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
+        if (msk & IN_ISDIR && ev.associated) {
+          /*  Directories might have been exchanged,
+              so we take another look at both names. */
+          auto const& from = ev.path_name;
+          auto const& to = ev.associated->path_name;
+          do_move(from, to, sr.ke.dm);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
+          if (is_dir(to.c_str())) walkdir_do(to.c_str(), mark);
+        }
+        else if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
+          walkdir_do(ev.path_name.c_str(), mark);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From a3253e41223d8f57b355ac9f5b9dc6bd0c9c851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 10/43] fix: Do not follow a symbolic link which replaced a
 directory out of the tree

---
 .../watcher/adapter/linux/fanotify/watch.hpp  |  6 +++--
 .../watcher/adapter/linux/inotify/watch.hpp   | 16 ++++++++---
 .../wtr/watcher/adapter/linux/sysres.hpp      |  5 ++--
 include/wtr/watcher.hpp                       | 27 +++++++++++++------
 4 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..797fea3 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -74,7 +74,7 @@ inline auto do_mark =
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
+    realpath(dirpath, real) && strcmp(dirpath, real) == 0 && is_dir(real)
       ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
   if (anonymous_wd == 0)
@@ -95,7 +95,9 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  char real[PATH_MAX];
+  auto base = realpath(base_path, real) ? real : base_path;
+  walkdir_do(base, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 921c70a..88b2804 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -109,10 +109,16 @@ inline auto do_mark =
   [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
+  /*  A new directory might have been replaced by
+      something else before we got here. We should
+      not follow it out of the tree if it was by a
+      symbolic link. (Our base path is resolved.) */
+  constexpr auto only_dir = IN_ONLYDIR | IN_DONT_FOLLOW;
   char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
-           : -1;
+  int wd =
+    realpath(dirpath, real) && strcmp(dirpath, real) == 0
+      ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask | only_dir)
+      : -1;
   if (wd > 0)
     return dm.insert_or_assign(wd, real), result::complete;
   else
@@ -154,7 +160,9 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    char real[PATH_MAX];
+    auto base = realpath(base_path, real) ? real : base_path;
+    walkdir_do(base, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index b8b6289..6795633 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -125,7 +125,7 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
 inline auto is_dir(char const* const path) -> bool
 {
   struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -152,6 +152,7 @@ template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
   f(path);
+  if (! is_dir(path)) return;
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
@@ -160,7 +161,7 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
+      if (! is_dir(next) || ! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
     (void)closedir(d);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index fc615b4..3100a73 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -943,7 +943,7 @@ inline auto make_ep(int ev_fs_fd, int ev_il_fd) -> ep
 inline auto is_dir(char const* const path) -> bool
 {
   struct stat s;
-  return stat(path, &s) == 0 && S_ISDIR(s.st_mode);
+  return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
 }
 
 /*  $ echo time wtr.watcher / -ms 1
@@ -970,6 +970,7 @@ template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
   f(path);
+  if (! is_dir(path)) return;
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
@@ -978,7 +979,7 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
+      if (! is_dir(next) || ! realpath(next, real)) continue;
       walkdir_do(real, f);
     }
     (void)closedir(d);
@@ -1062,7 +1063,7 @@ inline auto do_mark =
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int anonymous_wd =
-    realpath(dirpath, real) && is_dir(real)
+    realpath(dirpath, real) && strcmp(dirpath, real) == 0 && is_dir(real)
       ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
   if (anonymous_wd == 0)
@@ -1083,7 +1084,9 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  char real[PATH_MAX];
+  auto base = realpath(base_path, real) ? real : base_path;
+  walkdir_do(base, [&](auto dir) { do_mark(dir, fa_fd, cb); });
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1390,10 +1393,16 @@ inline auto do_mark =
   [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
+  /*  A new directory might have been replaced by
+      something else before we got here. We should
+      not follow it out of the tree if it was by a
+      symbolic link. (Our base path is resolved.) */
+  constexpr auto only_dir = IN_ONLYDIR | IN_DONT_FOLLOW;
   char real[PATH_MAX];
-  int wd = realpath(dirpath, real) && is_dir(real)
-           ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
-           : -1;
+  int wd =
+    realpath(dirpath, real) && strcmp(dirpath, real) == 0
+      ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask | only_dir)
+      : -1;
   if (wd > 0)
     return dm.insert_or_assign(wd, real), result::complete;
   else
@@ -1435,7 +1444,9 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    char real[PATH_MAX];
+    auto base = realpath(base_path, real) ? real : base_path;
+    walkdir_do(base, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
-- 
2.43.0


From 22e90e7cbd420306cf46c9aa9a6f2e210c54633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 11/43] fix: Watch directories on filesystems which do not
 report entry types

---
 devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp | 2 +-
 include/wtr/watcher.hpp                                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 6795633..aedc09b 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -157,7 +157,7 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 3100a73..1815ea6 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -975,7 +975,7 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     while (dirent* de = readdir(d)) {
       char next[PATH_MAX];
       char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
+      if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-- 
2.43.0


From 077a923e64ec75f3ee3eee3975d315d8c309bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 12/43] fix: stop watching directories which left the tree

A directory which was moved out of the tree stayed watched, and what
happened in it was reported under the path it had before. We forget it,
and everything inside of it, unless the next event is the other half of
its rename (from a later read), which moves its path instead.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 69 ++++++++++++++++---
 include/wtr/watcher.hpp                       | 69 ++++++++++++++++---
 2 files changed, 120 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 88b2804..36742d2 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -90,6 +90,12 @@ struct ke_in_ev {
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
+  /*  A directory which was moved away, and the
+      cookie of its event, until the next event
+      tells us where it was moved to, or that it
+      has left the tree. */
+  std::filesystem::path left{};
+  unsigned left_cookie = 0;
   alignas(inotify_event) char ev_buf[buf_len]{0};
   int rm_wd_buf[buf_len]{0};
 
@@ -125,6 +131,16 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+inline auto is_within = [](
+                          std::filesystem::path const& path,
+                          std::filesystem::path const& dir) -> bool
+{
+  auto const& p = path.native();
+  auto const& d = dir.native();
+  return p.compare(0, d.size(), d) == 0
+      && (p.size() == d.size() || p[d.size()] == '/');
+};
+
 /*  A watch descriptor stays with its directory
     when the directory, or a parent, is renamed.
     The paths which we know them by need to move
@@ -134,13 +150,24 @@ inline auto do_move = [](
                         std::filesystem::path const& to,
                         ke_in_ev::paths& dm) -> void
 {
-  auto const& pre = from.native();
-  for (auto& [_, at] : dm) {
-    auto const& was = at.native();
-    if (was.compare(0, pre.size(), pre) != 0) continue;
-    if (was.size() > pre.size() && was[pre.size()] != '/') continue;
-    at = to.native() + was.substr(pre.size());
-  }
+  for (auto& [_, at] : dm)
+    if (is_within(at, from))
+      at = to.native() + at.native().substr(from.native().size());
+};
+
+/*  A directory which has left the tree is not ours
+    to watch, and neither is anything inside of it.
+    Something else might be there by now. We forget
+    what we can't find under that name any more. The
+    path of a watch we are about to lose is empty. */
+inline auto do_leave = [](ke_in_ev& ke, auto const& mark) -> void
+{
+  auto const gone = std::exchange(ke.left, {});
+  for (auto& [_, at] : ke.dm)
+    if (is_within(at, gone)) at.clear();
+  if (is_dir(gone.c_str())) walkdir_do(gone.c_str(), mark);
+  for (auto const& [wd, at] : ke.dm)
+    if (at.empty()) inotify_rm_watch(ke.fd, wd);
 };
 
 inline auto make_sysres = [](
@@ -223,7 +250,7 @@ inline auto parse_ev = [](
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
     return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && dm.find(b->wd) != dm.end();
+        && dm.find(b->wd) != dm.end() && ! dm.at(b->wd).empty();
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
@@ -351,6 +378,14 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     return has_any && ! is_self_info;
   };
 
+  auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
+  auto is_left = [&](inotify_event const* ev) -> bool
+  {
+    auto at = sr.ke.dm.find(ev->wd);
+    return ev->mask & IN_MOVED_TO && ev->cookie == sr.ke.left_cookie
+        && at != sr.ke.dm.end() && ! at->second.empty();
+  };
+
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
   if (read_len < 0)
     return errno == EAGAIN || errno == EINTR ? result::pending
@@ -363,6 +398,16 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     while (in_ev && in_ev < in_ev_tail) {
       auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
+      if (! sr.ke.left.empty()) {
+        auto to = in_ev;
+        while (to && ! is_left(to)) to = peek(to, in_ev_tail);
+        if (! to) do_leave(sr.ke, mark);
+        else if (to == in_ev) {
+          auto const from = std::exchange(sr.ke.left, {});
+          do_move(from, sr.ke.dm.at(to->wd) / to->name, sr.ke.dm);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
+        }
+      }
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
@@ -373,9 +418,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end()) {
         if (! (msk & IN_IGNORED)) send_msg(result::w_sys_phantom, "", cb);
       }
+      else if (dmhit->second.empty()) {
+        if (msk & IN_IGNORED) sr.ke.dm.erase(dmhit);
+      }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
         if (msk & IN_ISDIR && ev.associated) {
           /*  Directories might have been exchanged,
               so we take another look at both names. */
@@ -387,6 +434,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         }
         else if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
           walkdir_do(ev.path_name.c_str(), mark);
+        else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
+          sr.ke.left = ev.path_name;
+          sr.ke.left_cookie = in_ev->cookie;
+        }
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1815ea6..390581d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1374,6 +1374,12 @@ struct ke_in_ev {
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
+  /*  A directory which was moved away, and the
+      cookie of its event, until the next event
+      tells us where it was moved to, or that it
+      has left the tree. */
+  std::filesystem::path left{};
+  unsigned left_cookie = 0;
   alignas(inotify_event) char ev_buf[buf_len]{0};
   int rm_wd_buf[buf_len]{0};
 
@@ -1409,6 +1415,16 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+inline auto is_within = [](
+                          std::filesystem::path const& path,
+                          std::filesystem::path const& dir) -> bool
+{
+  auto const& p = path.native();
+  auto const& d = dir.native();
+  return p.compare(0, d.size(), d) == 0
+      && (p.size() == d.size() || p[d.size()] == '/');
+};
+
 /*  A watch descriptor stays with its directory
     when the directory, or a parent, is renamed.
     The paths which we know them by need to move
@@ -1418,13 +1434,24 @@ inline auto do_move = [](
                         std::filesystem::path const& to,
                         ke_in_ev::paths& dm) -> void
 {
-  auto const& pre = from.native();
-  for (auto& [_, at] : dm) {
-    auto const& was = at.native();
-    if (was.compare(0, pre.size(), pre) != 0) continue;
-    if (was.size() > pre.size() && was[pre.size()] != '/') continue;
-    at = to.native() + was.substr(pre.size());
-  }
+  for (auto& [_, at] : dm)
+    if (is_within(at, from))
+      at = to.native() + at.native().substr(from.native().size());
+};
+
+/*  A directory which has left the tree is not ours
+    to watch, and neither is anything inside of it.
+    Something else might be there by now. We forget
+    what we can't find under that name any more. The
+    path of a watch we are about to lose is empty. */
+inline auto do_leave = [](ke_in_ev& ke, auto const& mark) -> void
+{
+  auto const gone = std::exchange(ke.left, {});
+  for (auto& [_, at] : ke.dm)
+    if (is_within(at, gone)) at.clear();
+  if (is_dir(gone.c_str())) walkdir_do(gone.c_str(), mark);
+  for (auto const& [wd, at] : ke.dm)
+    if (at.empty()) inotify_rm_watch(ke.fd, wd);
 };
 
 inline auto make_sysres = [](
@@ -1507,7 +1534,7 @@ inline auto parse_ev = [](
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
     return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && dm.find(b->wd) != dm.end();
+        && dm.find(b->wd) != dm.end() && ! dm.at(b->wd).empty();
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
@@ -1635,6 +1662,14 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     return has_any && ! is_self_info;
   };
 
+  auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
+  auto is_left = [&](inotify_event const* ev) -> bool
+  {
+    auto at = sr.ke.dm.find(ev->wd);
+    return ev->mask & IN_MOVED_TO && ev->cookie == sr.ke.left_cookie
+        && at != sr.ke.dm.end() && ! at->second.empty();
+  };
+
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
   if (read_len < 0)
     return errno == EAGAIN || errno == EINTR ? result::pending
@@ -1647,6 +1682,16 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     while (in_ev && in_ev < in_ev_tail) {
       auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
+      if (! sr.ke.left.empty()) {
+        auto to = in_ev;
+        while (to && ! is_left(to)) to = peek(to, in_ev_tail);
+        if (! to) do_leave(sr.ke, mark);
+        else if (to == in_ev) {
+          auto const from = std::exchange(sr.ke.left, {});
+          do_move(from, sr.ke.dm.at(to->wd) / to->name, sr.ke.dm);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
+        }
+      }
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
         return result::e_sys_ret;
@@ -1657,9 +1702,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (dmhit == sr.ke.dm.end()) {
         if (! (msk & IN_IGNORED)) send_msg(result::w_sys_phantom, "", cb);
       }
+      else if (dmhit->second.empty()) {
+        if (msk & IN_IGNORED) sr.ke.dm.erase(dmhit);
+      }
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
         if (msk & IN_ISDIR && ev.associated) {
           /*  Directories might have been exchanged,
               so we take another look at both names. */
@@ -1671,6 +1718,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         }
         else if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
           walkdir_do(ev.path_name.c_str(), mark);
+        else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
+          sr.ke.left = ev.path_name;
+          sr.ke.left_cookie = in_ev->cookie;
+        }
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From e5326a007ef7efa3ebea478286ca0b14fee3f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 13/43] fix: wait for the watcher when closing it even if the
 stop request could not be sent

If the system refuses the event descriptor behind the stop request,
close() returned at once, while the watcher's thread was still
running and calling back.
---
 devel/include/wtr/watcher-/watch.hpp | 4 ++--
 include/wtr/watcher.hpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/watch.hpp b/devel/include/wtr/watcher-/watch.hpp
index d92817d..be584d5 100644
--- a/devel/include/wtr/watcher-/watch.hpp
+++ b/devel/include/wtr/watcher-/watch.hpp
@@ -88,8 +88,8 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && released;
   };
 
   inline ~watch() noexcept { this->close(); }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 390581d..e6bc37c 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2373,8 +2373,8 @@ public:
 
   inline auto close() noexcept -> bool
   {
-    return this->living.release() != sb::state::error
-        && this->watching.valid() && this->watching.get();
+    auto released = this->living.release() != sb::state::error;
+    return this->watching.valid() && this->watching.get() && released;
   };
 
   inline ~watch() noexcept { this->close(); }
-- 
2.43.0


From 4ccbd24764c0c6c3cb8b135be38dde55f73c181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 14/43] fix: warn about directories whose entries can not be
 listed

A directory which could be marked but not opened (out of file
descriptors, for instance) left everything inside of it unwatched
without a word.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  |  2 +-
 .../watcher/adapter/linux/inotify/watch.hpp   | 20 +++++-----
 .../wtr/watcher/adapter/linux/sysres.hpp      | 16 ++++++--
 include/wtr/watcher.hpp                       | 38 ++++++++++++-------
 4 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 797fea3..9e830d6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -97,7 +97,7 @@ inline auto make_sysres = [](
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   auto base = realpath(base_path, real) ? real : base_path;
-  walkdir_do(base, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  walkdir_do(base, [&](auto dir) { return do_mark(dir, fa_fd, cb); }, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 36742d2..e6cf782 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -160,12 +160,13 @@ inline auto do_move = [](
     Something else might be there by now. We forget
     what we can't find under that name any more. The
     path of a watch we are about to lose is empty. */
-inline auto do_leave = [](ke_in_ev& ke, auto const& mark) -> void
+inline auto do_leave =
+  [](ke_in_ev& ke, auto const& mark, auto const& cb) -> void
 {
   auto const gone = std::exchange(ke.left, {});
   for (auto& [_, at] : ke.dm)
     if (is_within(at, gone)) at.clear();
-  if (is_dir(gone.c_str())) walkdir_do(gone.c_str(), mark);
+  if (is_dir(gone.c_str())) walkdir_do(gone.c_str(), mark, cb);
   for (auto const& [wd, at] : ke.dm)
     if (at.empty()) inotify_rm_watch(ke.fd, wd);
 };
@@ -189,7 +190,7 @@ inline auto make_sysres = [](
     if (*ok >= result::e) return dm;
     char real[PATH_MAX];
     auto base = realpath(base_path, real) ? real : base_path;
-    walkdir_do(base, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    walkdir_do(base, [&](auto dir) { return do_mark(dir, in_fd, dm, cb); }, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -378,7 +379,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     return has_any && ! is_self_info;
   };
 
-  auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
+  auto mark = [&](auto dir)
+  { return do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
   auto is_left = [&](inotify_event const* ev) -> bool
   {
     auto at = sr.ke.dm.find(ev->wd);
@@ -401,11 +403,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       if (! sr.ke.left.empty()) {
         auto to = in_ev;
         while (to && ! is_left(to)) to = peek(to, in_ev_tail);
-        if (! to) do_leave(sr.ke, mark);
+        if (! to) do_leave(sr.ke, mark, cb);
         else if (to == in_ev) {
           auto const from = std::exchange(sr.ke.left, {});
           do_move(from, sr.ke.dm.at(to->wd) / to->name, sr.ke.dm);
-          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark, cb);
         }
       }
       auto dmhit = sr.ke.dm.find(in_ev->wd);
@@ -429,11 +431,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           auto const& from = ev.path_name;
           auto const& to = ev.associated->path_name;
           do_move(from, to, sr.ke.dm);
-          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
-          if (is_dir(to.c_str())) walkdir_do(to.c_str(), mark);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark, cb);
+          if (is_dir(to.c_str())) walkdir_do(to.c_str(), mark, cb);
         }
         else if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
-          walkdir_do(ev.path_name.c_str(), mark);
+          walkdir_do(ev.path_name.c_str(), mark, cb);
         else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
           sr.ke.left = ev.path_name;
           sr.ke.left_cookie = in_ev->cookie;
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index aedc09b..7d49bb0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -147,11 +147,17 @@ inline auto is_dir(char const* const path) -> bool
     watching before we're done this
     hot find-and-mark path, despite
     not having a full picture.
+
+    A directory might be fine to mark and
+    still not let us list what is inside,
+    for instance when we're out of file
+    descriptors. That's not to be silent.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Cb>
+inline auto
+walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
 {
-  f(path);
+  bool marked = f(path) == result::complete;
   if (! is_dir(path)) return;
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
@@ -162,10 +168,12 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
       if (! is_dir(next) || ! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      walkdir_do(real, f, cb);
     }
     (void)closedir(d);
   }
+  else if (marked && errno != ENOENT && errno != ENOTDIR)
+    send_msg(result::w_sys_not_watched, path, cb);
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index e6bc37c..88d8212 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -965,11 +965,17 @@ inline auto is_dir(char const* const path) -> bool
     watching before we're done this
     hot find-and-mark path, despite
     not having a full picture.
+
+    A directory might be fine to mark and
+    still not let us list what is inside,
+    for instance when we're out of file
+    descriptors. That's not to be silent.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class Cb>
+inline auto
+walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
 {
-  f(path);
+  bool marked = f(path) == result::complete;
   if (! is_dir(path)) return;
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
@@ -980,10 +986,12 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
       if (strcmp(de->d_name, "..") == 0) continue;
       if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
       if (! is_dir(next) || ! realpath(next, real)) continue;
-      walkdir_do(real, f);
+      walkdir_do(real, f, cb);
     }
     (void)closedir(d);
   }
+  else if (marked && errno != ENOENT && errno != ENOTDIR)
+    send_msg(result::w_sys_not_watched, path, cb);
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
@@ -1086,7 +1094,7 @@ inline auto make_sysres = [](
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   auto base = realpath(base_path, real) ? real : base_path;
-  walkdir_do(base, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  walkdir_do(base, [&](auto dir) { return do_mark(dir, fa_fd, cb); }, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1444,12 +1452,13 @@ inline auto do_move = [](
     Something else might be there by now. We forget
     what we can't find under that name any more. The
     path of a watch we are about to lose is empty. */
-inline auto do_leave = [](ke_in_ev& ke, auto const& mark) -> void
+inline auto do_leave =
+  [](ke_in_ev& ke, auto const& mark, auto const& cb) -> void
 {
   auto const gone = std::exchange(ke.left, {});
   for (auto& [_, at] : ke.dm)
     if (is_within(at, gone)) at.clear();
-  if (is_dir(gone.c_str())) walkdir_do(gone.c_str(), mark);
+  if (is_dir(gone.c_str())) walkdir_do(gone.c_str(), mark, cb);
   for (auto const& [wd, at] : ke.dm)
     if (at.empty()) inotify_rm_watch(ke.fd, wd);
 };
@@ -1473,7 +1482,7 @@ inline auto make_sysres = [](
     if (*ok >= result::e) return dm;
     char real[PATH_MAX];
     auto base = realpath(base_path, real) ? real : base_path;
-    walkdir_do(base, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    walkdir_do(base, [&](auto dir) { return do_mark(dir, in_fd, dm, cb); }, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
@@ -1662,7 +1671,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     return has_any && ! is_self_info;
   };
 
-  auto mark = [&](auto dir) { do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
+  auto mark = [&](auto dir)
+  { return do_mark(dir, sr.ke.fd, sr.ke.dm, cb); };
   auto is_left = [&](inotify_event const* ev) -> bool
   {
     auto at = sr.ke.dm.find(ev->wd);
@@ -1685,11 +1695,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       if (! sr.ke.left.empty()) {
         auto to = in_ev;
         while (to && ! is_left(to)) to = peek(to, in_ev_tail);
-        if (! to) do_leave(sr.ke, mark);
+        if (! to) do_leave(sr.ke, mark, cb);
         else if (to == in_ev) {
           auto const from = std::exchange(sr.ke.left, {});
           do_move(from, sr.ke.dm.at(to->wd) / to->name, sr.ke.dm);
-          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark, cb);
         }
       }
       auto dmhit = sr.ke.dm.find(in_ev->wd);
@@ -1713,11 +1723,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           auto const& from = ev.path_name;
           auto const& to = ev.associated->path_name;
           do_move(from, to, sr.ke.dm);
-          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark);
-          if (is_dir(to.c_str())) walkdir_do(to.c_str(), mark);
+          if (is_dir(from.c_str())) walkdir_do(from.c_str(), mark, cb);
+          if (is_dir(to.c_str())) walkdir_do(to.c_str(), mark, cb);
         }
         else if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
-          walkdir_do(ev.path_name.c_str(), mark);
+          walkdir_do(ev.path_name.c_str(), mark, cb);
         else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
           sr.ke.left = ev.path_name;
           sr.ke.left_cookie = in_ev->cookie;
-- 
2.43.0


From ef4e7b6a61b0238a32b1b5f8d60527263d8fc57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 15/43] fix: closing a handle of the C interface twice, or a
 failed one, frees it exactly once

---
 watcher-c/src/watcher-c.cpp | 45 ++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..9174e1f 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -1,5 +1,8 @@
 #include <cstdint>
 #include <cstdio>
+#include <memory>
+#include <mutex>
+#include <unordered_map>
 #include "wtr/watcher-c.h"
 #include "wtr/watcher.hpp"
 
@@ -9,6 +12,27 @@
 #include <stringapiset.h>
 #endif
 
+namespace {
+
+/*  The watchers which are open, by handle. A handle
+    is a number which is never used again, so closing
+    one twice, or after another watcher was opened,
+    can't touch a watcher which is gone or not meant. */
+struct handles {
+  std::mutex mtx{};
+  std::unordered_map<std::uintptr_t, std::unique_ptr<wtr::watcher::watch>> open{};
+  std::uintptr_t last{0};
+
+  /*  Lives as long as the process. */
+  static auto get() -> handles&
+  {
+    static auto* h = new handles{};
+    return *h;
+  }
+};
+
+}  // namespace
+
 extern "C" {
 
 #ifdef _WIN32
@@ -63,15 +87,26 @@ void* wtr_watcher_open(
     ev_view.effect_time = ev_owned.effect_time;
     callback(ev_view, context);
   };
-  return (void*)new wtr::watcher::watch(path, wrapped_callback);
+  auto w = std::make_unique<wtr::watcher::watch>(path, wrapped_callback);
+  auto& h = handles::get();
+  auto lock = std::lock_guard{h.mtx};
+  h.open.emplace(++h.last, std::move(w));
+  return (void*)h.last;
 }
 
 bool wtr_watcher_close(void* watcher)
 {
-  if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
-  delete (wtr::watcher::watch*)watcher;
-  return true;
+  auto w = [&]() -> std::unique_ptr<wtr::watcher::watch>
+  {
+    auto& h = handles::get();
+    auto lock = std::lock_guard{h.mtx};
+    auto at = h.open.find((std::uintptr_t)watcher);
+    if (at == h.open.end()) return nullptr;
+    auto found = std::move(at->second);
+    h.open.erase(at);
+    return found;
+  }();
+  return w && w->close();
 }
 
 }  // extern "C"
-- 
2.43.0


From c979e58f59d063c358f87e2935987f00ae00244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:46 +0000
Subject: [PATCH 16/43] fix: escape paths in the json of events

---
 devel/include/wtr/watcher-/event.hpp | 28 ++++++++++++++++++++++++++--
 include/wtr/watcher.hpp              | 28 ++++++++++++++++++++++++++--
 src/wtr/watcher/main.cpp             |  2 +-
 3 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 7950021..d00ac7a 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -172,7 +172,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name)) + Lit"\"";    \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +183,8 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name))      \
+                       + Lit"\"";                                       \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -195,6 +196,29 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Quotes, backslashes and control characters can't be in a json
+    string as they are. Any other character can. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from) noexcept
+-> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  into.reserve(from.size());
+  for (auto c : from) {
+    if (c == Char('"') || c == Char('\\')) {
+      into += Char('\\');
+      into += c;
+    }
+    else if (c >= Char(0) && c < Char(0x20)) {
+      for (auto x : {'\\', 'u', '0', '0'}) into += Char(x);
+      into += Char("0123456789abcdef"[static_cast<int>(c) / 16]);
+      into += Char("0123456789abcdef"[static_cast<int>(c) % 16]);
+    }
+    else
+      into += c;
+  }
+  return into;
+}
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 88d8212..afd023d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -173,7 +173,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + json_escaped(to<Cls>(from.path_name)) + Lit"\"";    \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +184,8 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + json_escaped(to<Cls>(asc->path_name))      \
+                       + Lit"\"";                                       \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -196,6 +197,29 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Quotes, backslashes and control characters can't be in a json
+    string as they are. Any other character can. */
+template<class Char>
+inline auto json_escaped(std::basic_string<Char> const& from) noexcept
+-> std::basic_string<Char> {
+  auto into = std::basic_string<Char>{};
+  into.reserve(from.size());
+  for (auto c : from) {
+    if (c == Char('"') || c == Char('\\')) {
+      into += Char('\\');
+      into += c;
+    }
+    else if (c >= Char(0) && c < Char(0x20)) {
+      for (auto x : {'\\', 'u', '0', '0'}) into += Char(x);
+      into += Char("0123456789abcdef"[static_cast<int>(c) / 16]);
+      into += Char("0123456789abcdef"[static_cast<int>(c) % 16]);
+    }
+    else
+      into += c;
+  }
+  return into;
+}
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..427e6d4 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -95,7 +95,7 @@ auto json(event const& e) -> string
                ? json(*e.associated)
                : "null";
   auto s = [](auto a) { return to<string>(a); };
-  auto q = [&](auto a) { return '"' + s(a) + '"'; };
+  auto q = [&](auto a) { return '"' + json_escaped(s(a)) + '"'; };
   return "{\"path_type\":"   + q(e.path_type)
        + ",\"path_name\":"   + q(e.path_name)
        + ",\"effect_type\":" + q(e.effect_type)
-- 
2.43.0


From 0aa8b5ab98cc5d0a74fe91169c58d40bd5426aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:46 +0000
Subject: [PATCH 17/43] fix: no event is lost when the JavaScript thread is
 busy

---
 watcher-nodejs/lib/watcher-napi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..1b2b06d 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -142,7 +142,8 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  /*  Unlimited. Events would be lost when a limit was reached. */
+  size_t work_queue_size = 0;
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From 44d3b1161879f849dada9e23579bcfdb216f4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 18/43] fix: escape paths in the json of Python events

---
 watcher-py/watcher/watcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..6815ec9 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,10 +142,11 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
+        apn = json.dumps(self.associated_path_name or None)
+        pn = json.dumps(self.path_name)
         return f'{{\
 "effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
+"path_name":{pn},\
 "associated_path_name":{apn},\
 "effect_type":"{_ET_TO_S[self.effect_type]}",\
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
-- 
2.43.0


From 62cc656572212891b07e8bb656748b73c6cf66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 19/43] fix: events with paths which are not utf-8 reach the
 Python callback

---
 watcher-py/watcher/watcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 6815ec9..6842417 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -66,9 +66,9 @@ def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return s.tobytes().decode("utf-8", "surrogateescape")
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return s.decode("utf-8", "surrogateescape")
     raise TypeError()
 
 
-- 
2.43.0


From 30f076a3e25769c5f2950cb46021228950edf7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 20/43] fix: the Rust binding closes its watcher exactly once

---
 watcher-rs/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..39f46bf 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -16,6 +16,7 @@ use futures::channel::mpsc::UnboundedSender as Tx;
 use futures::Stream;
 use serde::Deserialize;
 use serde::Serialize;
+use std::cell::Cell;
 use std::ffi::CString;
 
 #[derive(Debug, Clone, Copy)]
@@ -108,7 +109,7 @@ unsafe extern "C" fn fwd_ev(ev: wtr_watcher_event, cx: *mut c_void) {
 
 #[allow(dead_code)] // tx is used in fwd_ev
 pub struct Watch {
-    w: *mut c_void,
+    w: Cell<*mut c_void>,
     tx: Box<Tx<Event>>,
     rx: Pin<Box<Rx<Event>>>,
 }
@@ -122,12 +123,18 @@ impl Watch {
         let cx = unsafe { transmute::<&Tx<Event>, *mut c_void>(&tx) };
         match unsafe { wtr_watcher_open(p.as_ptr(), Some(fwd_ev), cx) } {
             w if w.is_null() => Err("wtr_watcher_open"),
-            w => Ok(Watch { w, tx, rx }),
+            w => Ok(Watch {
+                w: Cell::new(w),
+                tx,
+                rx,
+            }),
         }
     }
 
     pub fn close(&self) -> Result<(), &'static str> {
-        match unsafe { wtr_watcher_close(self.w) } {
+        // The handle is ours to close once, here or when dropped
+        let w = self.w.replace(core::ptr::null_mut());
+        match unsafe { wtr_watcher_close(w) } {
             false => Err("wtr_watcher_close"),
             true => Ok(()),
         }
-- 
2.43.0


From c75d628247f666e9df57b35ee072851ad6246f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 21/43] fix: only real errors of reading stop the privileged
 backend

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp    | 7 +++----
 include/wtr/watcher.hpp                                    | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 9e830d6..7771ac6 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -263,10 +263,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index afd023d..928c289 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1284,10 +1284,9 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
-    return result::e_sys_api_read;
+  if (read_len < 0)
+    return errno == EAGAIN || errno == EINTR ? result::pending
+                                             : result::e_sys_api_read;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
-- 
2.43.0


From c7b24e63ae98d0e62009f50b9353f66a4cc8d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 22/43] fix: a bad record does not discard the records around
 it in the privileged backend

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 49 ++++++++++++-------
 include/wtr/watcher.hpp                       | 49 ++++++++++++-------
 2 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 7771ac6..85c95e0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -150,14 +150,16 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) *ec = errno;
   close(fd);
+  if (*ec) return {};
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
@@ -184,6 +186,13 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+inline auto ev_has_dirname(fanotify_event_metadata const* const m) -> bool
+{
+  auto info = (fanotify_event_info_fid*)(m + 1);
+  return m->event_len >= sizeof(*m) + sizeof(*info)
+      && info->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
+}
+
 struct Parsed {
   ::wtr::watcher::event ev;
   fanotify_event_metadata const* next = nullptr;
@@ -255,11 +264,6 @@ inline auto do_mark_if_newdir =
     version we were compiled with. */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto ev_info = [](fanotify_event_metadata const* const m)
-  { return (fanotify_event_info_fid*)(m + 1); };
-  auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
-  { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
-
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
@@ -272,20 +276,29 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
       else {
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
-        mtd = n;
-        read_len -= l;
+        auto this_len = mtd->event_len;
+        auto next = peek(mtd, read_len);
+        if (mtd->mask & FAN_Q_OVERFLOW)
+          send_msg(result::w_sys_q_overflow, "", cb);
+        else if (mtd->fd != FAN_NOFD)
+          close(mtd->fd), send_msg(result::w_sys_bad_fd, "", cb);
+        else if (! ev_has_dirname(mtd))
+          send_msg(result::w_sys_bad_meta, "", cb);
+        else {
+          auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+          if (ec)
+            send_msg(result::w_sys_bad_fd, "", cb);
+          else {
+            do_mark_if_newdir(ev, sr.ke.fd, cb);
+            cb(ev);
+            next = n;
+            this_len = l;
+          }
+        }
+        mtd = next;
+        read_len -= this_len;
       }
   return result::pending;
 };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 928c289..57d1efc 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1171,14 +1171,16 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) *ec = errno;
   close(fd);
+  if (*ec) return {};
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
@@ -1205,6 +1207,13 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+inline auto ev_has_dirname(fanotify_event_metadata const* const m) -> bool
+{
+  auto info = (fanotify_event_info_fid*)(m + 1);
+  return m->event_len >= sizeof(*m) + sizeof(*info)
+      && info->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
+}
+
 struct Parsed {
   ::wtr::watcher::event ev;
   fanotify_event_metadata const* next = nullptr;
@@ -1276,11 +1285,6 @@ inline auto do_mark_if_newdir =
     version we were compiled with. */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto ev_info = [](fanotify_event_metadata const* const m)
-  { return (fanotify_event_info_fid*)(m + 1); };
-  auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
-  { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
-
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
@@ -1293,20 +1297,29 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
       else {
         int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
-        cb(ev);
-        mtd = n;
-        read_len -= l;
+        auto this_len = mtd->event_len;
+        auto next = peek(mtd, read_len);
+        if (mtd->mask & FAN_Q_OVERFLOW)
+          send_msg(result::w_sys_q_overflow, "", cb);
+        else if (mtd->fd != FAN_NOFD)
+          close(mtd->fd), send_msg(result::w_sys_bad_fd, "", cb);
+        else if (! ev_has_dirname(mtd))
+          send_msg(result::w_sys_bad_meta, "", cb);
+        else {
+          auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
+          if (ec)
+            send_msg(result::w_sys_bad_fd, "", cb);
+          else {
+            do_mark_if_newdir(ev, sr.ke.fd, cb);
+            cb(ev);
+            next = n;
+            this_len = l;
+          }
+        }
+        mtd = next;
+        read_len -= this_len;
       }
   return result::pending;
 };
-- 
2.43.0


From 0f1209332ac0098712e19627e14d80d52d50fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 23/43] fix: the privileged backend pairs only the two sides of
 one rename

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 31 +++++++++++--------
 include/wtr/watcher.hpp                       | 31 +++++++++++--------
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 85c95e0..919139c 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -213,21 +213,26 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
-  auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
-  auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  /*  The kernel gives us both sides of a rename
+      one after the other, where it came from first.
+      The other way around, they aren't related. */
+  auto isfromto = [&]() -> bool
   {
-    auto nn = peek(n, read_len);
-    auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    return et == ev_et::rename && m->mask & FAN_MOVED_FROM
+        && n->mask & FAN_MOVED_TO && n->fd == FAN_NOFD && ev_has_dirname(n)
+        && (m->mask & FAN_ONDIR) == (n->mask & FAN_ONDIR);
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  auto from = pathof(m, ec);
+  if (n && ! *ec && isfromto()) {
+    int to_ec = 0;
+    auto to = pathof(n, &to_ec);
+    if (! to_ec)
+      return {
+        ev(ev(from, et, pt), ev(to, et, pt)),
+        peek(n, read_len - m->event_len),
+        m->event_len + n->event_len};
+  }
+  return {ev(from, et, pt), n, m->event_len};
 }
 
 inline auto do_mark_if_newdir =
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 57d1efc..b04861b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1234,21 +1234,26 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
           : m->mask & FAN_MODIFY ? ev_et::modify
           : m->mask & FAN_MOVE   ? ev_et::rename
                                  : ev_et::other;
-  auto isfromto = [et](unsigned a, unsigned b) -> bool
-  { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
-  auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  /*  The kernel gives us both sides of a rename
+      one after the other, where it came from first.
+      The other way around, they aren't related. */
+  auto isfromto = [&]() -> bool
   {
-    auto nn = peek(n, read_len);
-    auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    return et == ev_et::rename && m->mask & FAN_MOVED_FROM
+        && n->mask & FAN_MOVED_TO && n->fd == FAN_NOFD && ev_has_dirname(n)
+        && (m->mask & FAN_ONDIR) == (n->mask & FAN_ONDIR);
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  auto from = pathof(m, ec);
+  if (n && ! *ec && isfromto()) {
+    int to_ec = 0;
+    auto to = pathof(n, &to_ec);
+    if (! to_ec)
+      return {
+        ev(ev(from, et, pt), ev(to, et, pt)),
+        peek(n, read_len - m->event_len),
+        m->event_len + n->event_len};
+  }
+  return {ev(from, et, pt), n, m->event_len};
 }
 
 inline auto do_mark_if_newdir =
-- 
2.43.0


From af710b07b8cef11d52416519e9a92a922e32ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 24/43] fix: the privileged backend watches everything inside
 new directories

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 21 +++++++++++--------
 include/wtr/watcher.hpp                       | 21 +++++++++++--------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 919139c..11bd78e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -235,15 +235,18 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   return {ev(from, et, pt), n, m->event_len};
 }
 
-inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+/*  A new directory, or one which was moved here,
+    might not be empty by the time we get to it. */
+inline auto do_mark_if_newdir = [](
+                                  fanotify_event_metadata const* const m,
+                                  ::wtr::watcher::event const& ev,
+                                  int fa_fd,
+                                  auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto is_newdir = m->mask & FAN_ONDIR && ! ev.associated
+                && m->mask & (FAN_CREATE | FAN_MOVED_TO);
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd, cb); };
+  if (is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -296,7 +299,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           if (ec)
             send_msg(result::w_sys_bad_fd, "", cb);
           else {
-            do_mark_if_newdir(ev, sr.ke.fd, cb);
+            do_mark_if_newdir(mtd, ev, sr.ke.fd, cb);
             cb(ev);
             next = n;
             this_len = l;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b04861b..58af9da 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1256,15 +1256,18 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
   return {ev(from, et, pt), n, m->event_len};
 }
 
-inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+/*  A new directory, or one which was moved here,
+    might not be empty by the time we get to it. */
+inline auto do_mark_if_newdir = [](
+                                  fanotify_event_metadata const* const m,
+                                  ::wtr::watcher::event const& ev,
+                                  int fa_fd,
+                                  auto const& cb) -> void
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto is_newdir = m->mask & FAN_ONDIR && ! ev.associated
+                && m->mask & (FAN_CREATE | FAN_MOVED_TO);
+  auto mark = [&](auto dir) { return do_mark(dir, fa_fd, cb); };
+  if (is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1317,7 +1320,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           if (ec)
             send_msg(result::w_sys_bad_fd, "", cb);
           else {
-            do_mark_if_newdir(ev, sr.ke.fd, cb);
+            do_mark_if_newdir(mtd, ev, sr.ke.fd, cb);
             cb(ev);
             next = n;
             this_len = l;
-- 
2.43.0


From 5840fd63480039a48cbfeb4a09d99779d7d99c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 25/43] fix: use inotify where fanotify can not watch the given
 path

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp      | 11 +++++++++--
 include/wtr/watcher.hpp                               | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 11bd78e..e84935a 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -94,12 +94,19 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   auto base = realpath(base_path, real) ? real : base_path;
+  /*  Not every filesystem is able to give us events
+      by their file handles. If this one can't, then
+      fanotify is not for us. */
+  constexpr auto only_dir = FAN_MARK_ADD | FAN_MARK_ONLYDIR;
+  if (fanotify_mark(fa_fd, only_dir, ke_fa_ev::recv_flags, AT_FDCWD, base) != 0)
+    return close(fa_fd),
+           sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base, [&](auto dir) { return do_mark(dir, fa_fd, cb); }, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 58af9da..5b7240a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1115,12 +1115,19 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   auto base = realpath(base_path, real) ? real : base_path;
+  /*  Not every filesystem is able to give us events
+      by their file handles. If this one can't, then
+      fanotify is not for us. */
+  constexpr auto only_dir = FAN_MARK_ADD | FAN_MARK_ONLYDIR;
+  if (fanotify_mark(fa_fd, only_dir, ke_fa_ev::recv_flags, AT_FDCWD, base) != 0)
+    return close(fa_fd),
+           sysres{.ok = result::e_sys_api_fanotify, .il = living};
   walkdir_do(base, [&](auto dir) { return do_mark(dir, fa_fd, cb); }, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-- 
2.43.0


From 604f4589ab85f260b5f371606a45917121eeae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 26/43] fix: show the help for paths which the tool can not
 look at

---
 src/wtr/watcher/main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 427e6d4..cdc3a78 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -7,6 +7,7 @@
 #include <optional>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <thread>
 
 using namespace wtr;
@@ -54,10 +55,14 @@ struct Args {
 
     bool is_help = argis(1, "-h") || argis(1, "--help");
 
+    /*  Paths which can not be looked at, like ones
+        which are too long or which are loops, don't
+        exist as far as we are concerned. */
+    auto ec = error_code{};
+    auto arg = argc < 2 ? fs::current_path(ec) : fs::path(argv[1]);
     auto path =
       is_help ? nullopt
-      : argc < 2 ? optional(fs::current_path())
-      : fs::exists(argv[1]) ? optional(fs::path(argv[1]))
+      : ! ec && fs::exists(arg, ec) ? optional(arg)
       : nullopt;
 
     auto time = [&]() -> optional<nanoseconds> {
-- 
2.43.0


From 054c60656f95367f105f8a5544e1ce5b670b689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 27/43] fix: watch for as long as we can when asked to watch
 for longer

---
 src/wtr/watcher/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index cdc3a78..5f000a8 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -85,7 +85,10 @@ struct Args {
       if (is_help || td == HUGE_VAL || td <= 0)
         return nullopt;
       else
-        return nanoseconds(llroundl(td) * ttons);
+        /*  Longer than can be counted is as long as can be counted. */
+        return roundl(td) < nanoseconds::max().count() / ttons
+             ? nanoseconds(llroundl(td) * ttons)
+             : nanoseconds::max();
     }();
 
     return is_help || path || time
-- 
2.43.0


From 94f348958d6fc4fdca44a41bf9c44a13227b7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 28/43] fix: no path is composed from a directory name which
 could not be read

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp    | 7 +++++--
 include/wtr/watcher.hpp                                    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index e84935a..8250a2e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -164,9 +164,12 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
-  if (file_name_offset < 0) *ec = errno;
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
-  if (*ec) return {};
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 5b7240a..eff7d57 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1185,9 +1185,12 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
-  if (file_name_offset < 0) *ec = errno;
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
-  if (*ec) return {};
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
-- 
2.43.0


From 75568faff5fa91a6f190221199ec59364e94bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 29/43] fix: the privileged backend watches directories which
 were renamed before it could

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp       | 10 ++++++----
 include/wtr/watcher.hpp                                | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 8250a2e..6408727 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -246,17 +246,19 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 /*  A new directory, or one which was moved here,
-    might not be empty by the time we get to it. */
+    might not be empty by the time we get to it.
+    We might have missed it under an older name. */
 inline auto do_mark_if_newdir = [](
                                   fanotify_event_metadata const* const m,
                                   ::wtr::watcher::event const& ev,
                                   int fa_fd,
                                   auto const& cb) -> void
 {
-  auto is_newdir = m->mask & FAN_ONDIR && ! ev.associated
-                && m->mask & (FAN_CREATE | FAN_MOVED_TO);
+  auto is_newdir = m->mask & FAN_ONDIR
+                && (ev.associated || m->mask & (FAN_CREATE | FAN_MOVED_TO));
+  auto const& at = ev.associated ? ev.associated->path_name : ev.path_name;
   auto mark = [&](auto dir) { return do_mark(dir, fa_fd, cb); };
-  if (is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
+  if (is_newdir) walkdir_do(at.c_str(), mark, cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index eff7d57..d90615e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1267,17 +1267,19 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
 }
 
 /*  A new directory, or one which was moved here,
-    might not be empty by the time we get to it. */
+    might not be empty by the time we get to it.
+    We might have missed it under an older name. */
 inline auto do_mark_if_newdir = [](
                                   fanotify_event_metadata const* const m,
                                   ::wtr::watcher::event const& ev,
                                   int fa_fd,
                                   auto const& cb) -> void
 {
-  auto is_newdir = m->mask & FAN_ONDIR && ! ev.associated
-                && m->mask & (FAN_CREATE | FAN_MOVED_TO);
+  auto is_newdir = m->mask & FAN_ONDIR
+                && (ev.associated || m->mask & (FAN_CREATE | FAN_MOVED_TO));
+  auto const& at = ev.associated ? ev.associated->path_name : ev.path_name;
   auto mark = [&](auto dir) { return do_mark(dir, fa_fd, cb); };
-  if (is_newdir) walkdir_do(ev.path_name.c_str(), mark, cb);
+  if (is_newdir) walkdir_do(at.c_str(), mark, cb);
 };
 
 /*  Read some events from what fanotify gives
-- 
2.43.0


From c46484e5f3dd40f39931af4a1758f320c8f6f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 30/43] fix: the polling backend reports what appears in an
 empty directory

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 21 ++++++++++---------
 include/wtr/watcher.hpp                       | 21 ++++++++++---------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index c5637c2..91ad38b 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -113,12 +113,13 @@ inline bool scan(
                                           : false;
 };
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
+/*  The first time, try to populate the bucket.
+    Afterwards, prune it. */
 inline bool tend_bucket(
   std::filesystem::path const& path,
   auto const& send_event,
-  bucket_type& bucket) noexcept
+  bucket_type& bucket,
+  bool first) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
   auto populate = [&](std::filesystem::path const& path) -> bool
@@ -130,8 +131,10 @@ inline bool tend_bucket(
     auto lwt_ec = std::error_code{};
     if (! exists(path))
       return false;
-    else if (! is_directory(path))
+    else if (! is_directory(path)) {
       bucket[path] = last_write_time(path);
+      return true;
+    }
     else {
       for (auto file :
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
@@ -180,10 +183,7 @@ inline bool tend_bucket(
     return true;
   };
 
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
+  return first ? populate(path) : prune(path, send_event);
 };
 
 } /* namespace */
@@ -202,8 +202,9 @@ inline auto watch(
         - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
-  while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+  for (bool first = true; living.state() == semabin::state::pending;
+       first = false) {
+    if (! tend_bucket(path, callback, bucket, first)) return false;
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d90615e..36bb55c 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2248,12 +2248,13 @@ inline bool scan(
                                           : false;
 };
 
-/*  If the bucket is empty, try to populate it.
-    otherwise, prune it. */
+/*  The first time, try to populate the bucket.
+    Afterwards, prune it. */
 inline bool tend_bucket(
   std::filesystem::path const& path,
   auto const& send_event,
-  bucket_type& bucket) noexcept
+  bucket_type& bucket,
+  bool first) noexcept
 {
   /*  Creates a file map, the "bucket", from `path`. */
   auto populate = [&](std::filesystem::path const& path) -> bool
@@ -2265,8 +2266,10 @@ inline bool tend_bucket(
     auto lwt_ec = std::error_code{};
     if (! exists(path))
       return false;
-    else if (! is_directory(path))
+    else if (! is_directory(path)) {
       bucket[path] = last_write_time(path);
+      return true;
+    }
     else {
       for (auto file :
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
@@ -2315,10 +2318,7 @@ inline bool tend_bucket(
     return true;
   };
 
-  return bucket.empty() ? populate(path)          ? true
-                        : prune(path, send_event) ? true
-                                                  : false
-                        : true;
+  return first ? populate(path) : prune(path, send_event);
 };
 
 } /* namespace */
@@ -2337,8 +2337,9 @@ inline auto watch(
         - The bucket is doing well
         - No errors occured while scanning
       Otherwise, stop and return false. */
-  while (living.state() == semabin::state::pending) {
-    if (! tend_bucket(path, callback, bucket)) return false;
+  for (bool first = true; living.state() == semabin::state::pending;
+       first = false) {
+    if (! tend_bucket(path, callback, bucket, first)) return false;
     if (! scan(path, callback, bucket)) return false;
     sleep_for(16ms);
   }
-- 
2.43.0


From c6ab74ecbb9810c7adab0794be9c4c13db5c9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 31/43] fix: the polling backend knows what kind of thing
 vanished, and of directories which appeared

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 65 +++++++++++--------
 include/wtr/watcher.hpp                       | 65 +++++++++++--------
 2 files changed, 78 insertions(+), 52 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 91ad38b..9acbf29 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -28,8 +28,25 @@ inline constexpr std::filesystem::directory_options scan_dir_opts =
   std::filesystem::directory_options::skip_permission_denied
   & std::filesystem::directory_options::follow_directory_symlink;
 
-using bucket_type =
-  std::unordered_map<std::string, std::filesystem::file_time_type>;
+using path_type = enum ::wtr::watcher::event::path_type;
+
+struct seen {
+  std::filesystem::file_time_type time;
+  path_type type;
+};
+
+using bucket_type = std::unordered_map<std::string, seen>;
+
+/*  We look for directories and (maybe linked) files.
+    Everything else is `other`. */
+inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  return is_directory(symlink_status(path, ec)) ? path_type::dir
+       : is_regular_file(status(path, ec))      ? path_type::file
+                                                : path_type::other;
+}
 
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
@@ -50,7 +67,8 @@ inline bool scan(
     using namespace ::wtr::watcher;
     using namespace std::filesystem;
 
-    if (exists(file) && is_regular_file(file)) {
+    auto type = type_of(file);
+    if (type != path_type::other) {
       auto ec = std::error_code{};
       /*  grabbing the file's last write time */
       auto timestamp = last_write_time(file, ec);
@@ -58,27 +76,27 @@ inline bool scan(
         /*  the file changed while we were looking at it.
             so, we call the closure, indicating destruction,
             and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        if (bucket.contains(file)) {
+          send_event(
+            event{file, event::effect_type::destroy, bucket[file].type});
+          bucket.erase(file);
+        }
       }
       /*  if it's not in our bucket, */
       else if (! bucket.contains(file)) {
         /*  we put it in there and call the closure,
             indicating creation. */
-        bucket[file] = timestamp;
-        send_event(
-          event{file, event::effect_type::create, event::path_type::file});
+        bucket[file] = {timestamp, type};
+        send_event(event{file, event::effect_type::create, type});
       }
       /*  otherwise, it is already in our bucket. */
       else {
         /*  we update the file's last write time, */
-        if (bucket[file] != timestamp) {
-          bucket[file] = timestamp;
+        if (type == path_type::file && bucket[file].time != timestamp) {
+          bucket[file].time = timestamp;
           /*  and call the closure on them,
               indicating modification */
-          send_event(
-            event{file, event::effect_type::modify, event::path_type::file});
+          send_event(event{file, event::effect_type::modify, type});
         }
       }
       return true;
@@ -132,7 +150,7 @@ inline bool tend_bucket(
     if (! exists(path))
       return false;
     else if (! is_directory(path)) {
-      bucket[path] = last_write_time(path);
+      bucket[path] = {last_write_time(path), type_of(path)};
       return true;
     }
     else {
@@ -140,10 +158,9 @@ inline bool tend_bucket(
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
         if (! dir_ec) {
           auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
+          auto type = type_of(file);
+          if (! lwt_ec && type != path_type::other)
+            bucket[file.path()] = {lwt, type};
         }
       }
       return true;
@@ -152,16 +169,15 @@ inline bool tend_bucket(
 
   /*  Removes files which no longer exist from our bucket. */
   auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
+    [&](auto const& send_event) -> bool
   {
     using namespace ::wtr::watcher;
-    using namespace std::filesystem;
 
     auto bucket_it = bucket.begin();
     /*  while looking through the bucket's contents, */
     while (bucket_it != bucket.end()) {
       /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
+      type_of(bucket_it->first) == bucket_it->second.type
         /*  if so, move on. */
         ? std::advance(bucket_it, 1)
         /*  if not, call the closure,
@@ -172,10 +188,7 @@ inline bool tend_bucket(
         send_event(event{
           bucket_it->first,
           event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
+          bucket_it->second.type});
         /*  bucket, erase it! */
         bucket_it = bucket.erase(bucket_it);
       }();
@@ -183,7 +196,7 @@ inline bool tend_bucket(
     return true;
   };
 
-  return first ? populate(path) : prune(path, send_event);
+  return first ? populate(path) : prune(send_event);
 };
 
 } /* namespace */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 36bb55c..846a087 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2163,8 +2163,25 @@ inline constexpr std::filesystem::directory_options scan_dir_opts =
   std::filesystem::directory_options::skip_permission_denied
   & std::filesystem::directory_options::follow_directory_symlink;
 
-using bucket_type =
-  std::unordered_map<std::string, std::filesystem::file_time_type>;
+using path_type = enum ::wtr::watcher::event::path_type;
+
+struct seen {
+  std::filesystem::file_time_type time;
+  path_type type;
+};
+
+using bucket_type = std::unordered_map<std::string, seen>;
+
+/*  We look for directories and (maybe linked) files.
+    Everything else is `other`. */
+inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
+{
+  using namespace std::filesystem;
+  auto ec = std::error_code{};
+  return is_directory(symlink_status(path, ec)) ? path_type::dir
+       : is_regular_file(status(path, ec))      ? path_type::file
+                                                : path_type::other;
+}
 
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
@@ -2185,7 +2202,8 @@ inline bool scan(
     using namespace ::wtr::watcher;
     using namespace std::filesystem;
 
-    if (exists(file) && is_regular_file(file)) {
+    auto type = type_of(file);
+    if (type != path_type::other) {
       auto ec = std::error_code{};
       /*  grabbing the file's last write time */
       auto timestamp = last_write_time(file, ec);
@@ -2193,27 +2211,27 @@ inline bool scan(
         /*  the file changed while we were looking at it.
             so, we call the closure, indicating destruction,
             and remove it from the bucket. */
-        send_event(
-          event{file, event::effect_type::destroy, event::path_type::file});
-        if (bucket.contains(file)) bucket.erase(file);
+        if (bucket.contains(file)) {
+          send_event(
+            event{file, event::effect_type::destroy, bucket[file].type});
+          bucket.erase(file);
+        }
       }
       /*  if it's not in our bucket, */
       else if (! bucket.contains(file)) {
         /*  we put it in there and call the closure,
             indicating creation. */
-        bucket[file] = timestamp;
-        send_event(
-          event{file, event::effect_type::create, event::path_type::file});
+        bucket[file] = {timestamp, type};
+        send_event(event{file, event::effect_type::create, type});
       }
       /*  otherwise, it is already in our bucket. */
       else {
         /*  we update the file's last write time, */
-        if (bucket[file] != timestamp) {
-          bucket[file] = timestamp;
+        if (type == path_type::file && bucket[file].time != timestamp) {
+          bucket[file].time = timestamp;
           /*  and call the closure on them,
               indicating modification */
-          send_event(
-            event{file, event::effect_type::modify, event::path_type::file});
+          send_event(event{file, event::effect_type::modify, type});
         }
       }
       return true;
@@ -2267,7 +2285,7 @@ inline bool tend_bucket(
     if (! exists(path))
       return false;
     else if (! is_directory(path)) {
-      bucket[path] = last_write_time(path);
+      bucket[path] = {last_write_time(path), type_of(path)};
       return true;
     }
     else {
@@ -2275,10 +2293,9 @@ inline bool tend_bucket(
            recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
         if (! dir_ec) {
           auto lwt = last_write_time(file, lwt_ec);
-          if (! lwt_ec)
-            bucket[file.path()] = lwt;
-          else
-            bucket[file.path()] = last_write_time(path);
+          auto type = type_of(file);
+          if (! lwt_ec && type != path_type::other)
+            bucket[file.path()] = {lwt, type};
         }
       }
       return true;
@@ -2287,16 +2304,15 @@ inline bool tend_bucket(
 
   /*  Removes files which no longer exist from our bucket. */
   auto prune =
-    [&](std::filesystem::path const& path, auto const& send_event) -> bool
+    [&](auto const& send_event) -> bool
   {
     using namespace ::wtr::watcher;
-    using namespace std::filesystem;
 
     auto bucket_it = bucket.begin();
     /*  while looking through the bucket's contents, */
     while (bucket_it != bucket.end()) {
       /*  check if the stuff in our bucket exists anymore. */
-      exists(bucket_it->first)
+      type_of(bucket_it->first) == bucket_it->second.type
         /*  if so, move on. */
         ? std::advance(bucket_it, 1)
         /*  if not, call the closure,
@@ -2307,10 +2323,7 @@ inline bool tend_bucket(
         send_event(event{
           bucket_it->first,
           event::effect_type::destroy,
-          is_regular_file(path) ? event::path_type::file
-          : is_directory(path)  ? event::path_type::dir
-          : is_symlink(path)    ? event::path_type::sym_link
-                                : event::path_type::other});
+          bucket_it->second.type});
         /*  bucket, erase it! */
         bucket_it = bucket.erase(bucket_it);
       }();
@@ -2318,7 +2331,7 @@ inline bool tend_bucket(
     return true;
   };
 
-  return first ? populate(path) : prune(path, send_event);
+  return first ? populate(path) : prune(send_event);
 };
 
 } /* namespace */
-- 
2.43.0


From 914b93c84dd57845817ca254c53d331445a3a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 32/43] fix: what the polling backend can not look at does not
 end the process

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 59 ++++++++++---------
 include/wtr/watcher.hpp                       | 59 ++++++++++---------
 2 files changed, 60 insertions(+), 58 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 9acbf29..340fd3a 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -25,8 +25,7 @@ namespace adapter {
 namespace {
 
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
 
 using path_type = enum ::wtr::watcher::event::path_type;
 
@@ -48,6 +47,18 @@ inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
                                                 : path_type::other;
 }
 
+/*  Calls `f` with everything in `dir`, if it can.
+    What we can't look at doesn't throw. */
+inline auto for_each_in(std::filesystem::path const& dir, auto const& f)
+  -> std::error_code
+{
+  using iter = std::filesystem::recursive_directory_iterator;
+  auto ec = std::error_code{};
+  auto it = iter(dir, scan_dir_opts, ec);
+  for (; ! ec && it != iter{}; it.increment(ec)) f(it->path());
+  return ec;
+}
+
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
@@ -112,14 +123,9 @@ inline bool scan(
   auto const& scan_directory =
     [&](std::filesystem::path const& dir, auto const& send_event) -> bool
   {
-    using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
+    auto ec = std::error_code{};
+    if (std::filesystem::is_directory(dir, ec)) {
+      for_each_in(dir, [&](auto const& file) { scan_file(file, send_event); });
       return true;
     }
     else
@@ -145,26 +151,21 @@ inline bool tend_bucket(
     using namespace std::filesystem;
     /*  this happens when a path was changed while we were reading it.
         there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
+    auto ec = std::error_code{};
+    auto add = [&](auto const& file)
+    {
+      auto lwt_ec = std::error_code{};
+      auto lwt = last_write_time(file, lwt_ec);
+      auto type = type_of(file);
+      if (! lwt_ec && type != path_type::other) bucket[file] = {lwt, type};
+    };
+    if (! exists(path, ec))
       return false;
-    else if (! is_directory(path)) {
-      bucket[path] = {last_write_time(path), type_of(path)};
-      return true;
-    }
-    else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          auto type = type_of(file);
-          if (! lwt_ec && type != path_type::other)
-            bucket[file.path()] = {lwt, type};
-        }
-      }
-      return true;
-    }
+    else if (! is_directory(path, ec))
+      add(path);
+    else
+      for_each_in(path, add);
+    return true;
   };
 
   /*  Removes files which no longer exist from our bucket. */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 846a087..6693175 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2160,8 +2160,7 @@ namespace adapter {
 namespace {
 
 inline constexpr std::filesystem::directory_options scan_dir_opts =
-  std::filesystem::directory_options::skip_permission_denied
-  & std::filesystem::directory_options::follow_directory_symlink;
+  std::filesystem::directory_options::skip_permission_denied;
 
 using path_type = enum ::wtr::watcher::event::path_type;
 
@@ -2183,6 +2182,18 @@ inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
                                                 : path_type::other;
 }
 
+/*  Calls `f` with everything in `dir`, if it can.
+    What we can't look at doesn't throw. */
+inline auto for_each_in(std::filesystem::path const& dir, auto const& f)
+  -> std::error_code
+{
+  using iter = std::filesystem::recursive_directory_iterator;
+  auto ec = std::error_code{};
+  auto it = iter(dir, scan_dir_opts, ec);
+  for (; ! ec && it != iter{}; it.increment(ec)) f(it->path());
+  return ec;
+}
+
 /*  - Scans `path` for changes.
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
@@ -2247,14 +2258,9 @@ inline bool scan(
   auto const& scan_directory =
     [&](std::filesystem::path const& dir, auto const& send_event) -> bool
   {
-    using namespace std::filesystem;
-    if (is_directory(dir)) {
-      auto ec = std::error_code{};
-      for (auto file : recursive_directory_iterator(dir, scan_dir_opts, ec))
-        if (ec)
-          return false;
-        else
-          scan_file(file.path(), send_event);
+    auto ec = std::error_code{};
+    if (std::filesystem::is_directory(dir, ec)) {
+      for_each_in(dir, [&](auto const& file) { scan_file(file, send_event); });
       return true;
     }
     else
@@ -2280,26 +2286,21 @@ inline bool tend_bucket(
     using namespace std::filesystem;
     /*  this happens when a path was changed while we were reading it.
         there is nothing to do here; we prune later. */
-    auto dir_ec = std::error_code{};
-    auto lwt_ec = std::error_code{};
-    if (! exists(path))
+    auto ec = std::error_code{};
+    auto add = [&](auto const& file)
+    {
+      auto lwt_ec = std::error_code{};
+      auto lwt = last_write_time(file, lwt_ec);
+      auto type = type_of(file);
+      if (! lwt_ec && type != path_type::other) bucket[file] = {lwt, type};
+    };
+    if (! exists(path, ec))
       return false;
-    else if (! is_directory(path)) {
-      bucket[path] = {last_write_time(path), type_of(path)};
-      return true;
-    }
-    else {
-      for (auto file :
-           recursive_directory_iterator(path, scan_dir_opts, dir_ec)) {
-        if (! dir_ec) {
-          auto lwt = last_write_time(file, lwt_ec);
-          auto type = type_of(file);
-          if (! lwt_ec && type != path_type::other)
-            bucket[file.path()] = {lwt, type};
-        }
-      }
-      return true;
-    }
+    else if (! is_directory(path, ec))
+      add(path);
+    else
+      for_each_in(path, add);
+    return true;
   };
 
   /*  Removes files which no longer exist from our bucket. */
-- 
2.43.0


From 1d99a1992a8abb53e7836ab9908e71359ef22b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 33/43] fix: the polling backend can be chosen where the error
 message says so

---
 .../wtr/watcher/adapter/warthog/watch.hpp     | 19 ++++++++++++-------
 include/wtr/watcher.hpp                       | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 340fd3a..ed6ea75 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -6,8 +6,10 @@
       - Only support `kqueue` (`warthog` beats `kqueue`)
       - Only support the C++ standard library */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if (! defined(__linux__) && ! defined(__ANDROID_API__) \
+     && ! defined(__APPLE__) && ! defined(_WIN32)) \
+  || (defined(WATER_WATCHER_USE_WARTHOG) \
+      && (defined(__linux__) || defined(__ANDROID_API__)))
 
 #include "wtr/watcher.hpp"
 #include <chrono>
@@ -49,7 +51,8 @@ inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
 
 /*  Calls `f` with everything in `dir`, if it can.
     What we can't look at doesn't throw. */
-inline auto for_each_in(std::filesystem::path const& dir, auto const& f)
+template<class F>
+inline auto for_each_in(std::filesystem::path const& dir, F const& f)
   -> std::error_code
 {
   using iter = std::filesystem::recursive_directory_iterator;
@@ -63,9 +66,10 @@ inline auto for_each_in(std::filesystem::path const& dir, auto const& f)
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
     - Returns false if the file tree cannot be scanned. */
+template<class Send>
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -87,14 +91,14 @@ inline bool scan(
         /*  the file changed while we were looking at it.
             so, we call the closure, indicating destruction,
             and remove it from the bucket. */
-        if (bucket.contains(file)) {
+        if (bucket.count(file)) {
           send_event(
             event{file, event::effect_type::destroy, bucket[file].type});
           bucket.erase(file);
         }
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (! bucket.count(file)) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = {timestamp, type};
@@ -139,9 +143,10 @@ inline bool scan(
 
 /*  The first time, try to populate the bucket.
     Afterwards, prune it. */
+template<class Send>
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket,
   bool first) noexcept
 {
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6693175..c5a7e19 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2142,8 +2142,10 @@ inline auto watch(
       - Only support `kqueue` (`warthog` beats `kqueue`)
       - Only support the C++ standard library */
 
-#if ! defined(__linux__) && ! defined(__ANDROID_API__) && ! defined(__APPLE__) \
-  && ! defined(_WIN32)
+#if (! defined(__linux__) && ! defined(__ANDROID_API__) \
+     && ! defined(__APPLE__) && ! defined(_WIN32)) \
+  || (defined(WATER_WATCHER_USE_WARTHOG) \
+      && (defined(__linux__) || defined(__ANDROID_API__)))
 
 #include <chrono>
 #include <filesystem>
@@ -2184,7 +2186,8 @@ inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
 
 /*  Calls `f` with everything in `dir`, if it can.
     What we can't look at doesn't throw. */
-inline auto for_each_in(std::filesystem::path const& dir, auto const& f)
+template<class F>
+inline auto for_each_in(std::filesystem::path const& dir, F const& f)
   -> std::error_code
 {
   using iter = std::filesystem::recursive_directory_iterator;
@@ -2198,9 +2201,10 @@ inline auto for_each_in(std::filesystem::path const& dir, auto const& f)
     - Updates our bucket to match the changes.
     - Calls `send_event` when changes happen.
     - Returns false if the file tree cannot be scanned. */
+template<class Send>
 inline bool scan(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket) noexcept
 {
   /*  - Scans a (single) file for changes.
@@ -2222,14 +2226,14 @@ inline bool scan(
         /*  the file changed while we were looking at it.
             so, we call the closure, indicating destruction,
             and remove it from the bucket. */
-        if (bucket.contains(file)) {
+        if (bucket.count(file)) {
           send_event(
             event{file, event::effect_type::destroy, bucket[file].type});
           bucket.erase(file);
         }
       }
       /*  if it's not in our bucket, */
-      else if (! bucket.contains(file)) {
+      else if (! bucket.count(file)) {
         /*  we put it in there and call the closure,
             indicating creation. */
         bucket[file] = {timestamp, type};
@@ -2274,9 +2278,10 @@ inline bool scan(
 
 /*  The first time, try to populate the bucket.
     Afterwards, prune it. */
+template<class Send>
 inline bool tend_bucket(
   std::filesystem::path const& path,
-  auto const& send_event,
+  Send const& send_event,
   bucket_type& bucket,
   bool first) noexcept
 {
-- 
2.43.0


From 49bd9c158218ee9801e3f9d4738b6aee25bff234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 34/43] fix: the polling backend does not modify a directory
 which a file took the place of

---
 .../include/detail/wtr/watcher/adapter/warthog/watch.hpp  | 8 ++++++--
 include/wtr/watcher.hpp                                   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index ed6ea75..0444399 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -104,10 +104,14 @@ inline bool scan(
         bucket[file] = {timestamp, type};
         send_event(event{file, event::effect_type::create, type});
       }
-      /*  otherwise, it is already in our bucket. */
+      /*  otherwise, it is already in our bucket.
+          (If it has become something else since we
+          pruned, the next prune will find that out.) */
       else {
         /*  we update the file's last write time, */
-        if (type == path_type::file && bucket[file].time != timestamp) {
+        if (
+          type == path_type::file && bucket[file].type == type
+          && bucket[file].time != timestamp) {
           bucket[file].time = timestamp;
           /*  and call the closure on them,
               indicating modification */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c5a7e19..fa17049 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2239,10 +2239,14 @@ inline bool scan(
         bucket[file] = {timestamp, type};
         send_event(event{file, event::effect_type::create, type});
       }
-      /*  otherwise, it is already in our bucket. */
+      /*  otherwise, it is already in our bucket.
+          (If it has become something else since we
+          pruned, the next prune will find that out.) */
       else {
         /*  we update the file's last write time, */
-        if (type == path_type::file && bucket[file].time != timestamp) {
+        if (
+          type == path_type::file && bucket[file].type == type
+          && bucket[file].time != timestamp) {
           bucket[file].time = timestamp;
           /*  and call the closure on them,
               indicating modification */
-- 
2.43.0


From 0d72039eecf0c9ffbacf524c091b651aff6ae34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 35/43] fix: the polling backend looks past a directory which
 vanishes

---
 .../detail/wtr/watcher/adapter/warthog/watch.hpp   | 14 ++++++++------
 include/wtr/watcher.hpp                            | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
index 0444399..1b8c184 100644
--- a/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp
@@ -50,16 +50,18 @@ inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
 }
 
 /*  Calls `f` with everything in `dir`, if it can.
-    What we can't look at doesn't throw. */
+    What we can't look at doesn't throw, and doesn't
+    keep us from looking at what's beside it. */
 template<class F>
-inline auto for_each_in(std::filesystem::path const& dir, F const& f)
-  -> std::error_code
+inline auto for_each_in(std::filesystem::path const& dir, F const& f) -> void
 {
-  using iter = std::filesystem::recursive_directory_iterator;
+  using iter = std::filesystem::directory_iterator;
   auto ec = std::error_code{};
   auto it = iter(dir, scan_dir_opts, ec);
-  for (; ! ec && it != iter{}; it.increment(ec)) f(it->path());
-  return ec;
+  for (; ! ec && it != iter{}; it.increment(ec)) {
+    f(it->path());
+    if (type_of(it->path()) == path_type::dir) for_each_in(it->path(), f);
+  }
 }
 
 /*  - Scans `path` for changes.
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index fa17049..d0adab1 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -2185,16 +2185,18 @@ inline auto type_of(std::filesystem::path const& path) noexcept -> path_type
 }
 
 /*  Calls `f` with everything in `dir`, if it can.
-    What we can't look at doesn't throw. */
+    What we can't look at doesn't throw, and doesn't
+    keep us from looking at what's beside it. */
 template<class F>
-inline auto for_each_in(std::filesystem::path const& dir, F const& f)
-  -> std::error_code
+inline auto for_each_in(std::filesystem::path const& dir, F const& f) -> void
 {
-  using iter = std::filesystem::recursive_directory_iterator;
+  using iter = std::filesystem::directory_iterator;
   auto ec = std::error_code{};
   auto it = iter(dir, scan_dir_opts, ec);
-  for (; ! ec && it != iter{}; it.increment(ec)) f(it->path());
-  return ec;
+  for (; ! ec && it != iter{}; it.increment(ec)) {
+    f(it->path());
+    if (type_of(it->path()) == path_type::dir) for_each_in(it->path(), f);
+  }
 }
 
 /*  - Scans `path` for changes.
-- 
2.43.0


From dde55552bc4de219568e5a3a8c90b7aca4e0bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 36/43] fix: a deep tree exhausts neither the stack nor the
 descriptors

Every level of the walk which marks a tree's directories kept
a directory stream open and two buffers of PATH_MAX bytes on the
stack. A tree about a thousand levels deep (well within what a path
can name) overflowed the stack of the watching thread.
---
 .../wtr/watcher/adapter/linux/sysres.hpp      | 19 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 19 ++++++++++++++-----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 7d49bb0..26bcf87 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -8,6 +8,7 @@
 #include <errno.h>
 #include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -15,6 +16,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -159,21 +161,28 @@ walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
 {
   bool marked = f(path) == result::complete;
   if (! is_dir(path)) return;
+  /*  A level takes neither a descriptor nor
+      a path's buffer while we walk below it.
+      A tree can be a couple thousand deep. */
+  auto below = std::vector<std::string>{};
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
       if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! is_dir(next) || ! realpath(next, real)) continue;
-      walkdir_do(real, f, cb);
+      below.emplace_back(std::string{path} + "/" + de->d_name);
     }
     (void)closedir(d);
   }
   else if (marked && errno != ENOENT && errno != ENOTDIR)
     send_msg(result::w_sys_not_watched, path, cb);
+  for (auto const& next : below) {
+    if (! is_dir(next.c_str())) continue;
+    if (char* real = realpath(next.c_str(), nullptr)) {
+      walkdir_do(real, f, cb);
+      free(real);
+    }
+  }
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index d0adab1..eb74b1e 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -850,6 +850,7 @@ inline auto watch(
 #include <errno.h>
 #include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <string>
 #include <sys/epoll.h>
@@ -857,6 +858,7 @@ inline auto watch(
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -1001,21 +1003,28 @@ walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
 {
   bool marked = f(path) == result::complete;
   if (! is_dir(path)) return;
+  /*  A level takes neither a descriptor nor
+      a path's buffer while we walk below it.
+      A tree can be a couple thousand deep. */
+  auto below = std::vector<std::string>{};
   if (DIR* d = opendir(path)) {
     while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
       if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! is_dir(next) || ! realpath(next, real)) continue;
-      walkdir_do(real, f, cb);
+      below.emplace_back(std::string{path} + "/" + de->d_name);
     }
     (void)closedir(d);
   }
   else if (marked && errno != ENOENT && errno != ENOTDIR)
     send_msg(result::w_sys_not_watched, path, cb);
+  for (auto const& next : below) {
+    if (! is_dir(next.c_str())) continue;
+    if (char* real = realpath(next.c_str(), nullptr)) {
+      walkdir_do(real, f, cb);
+      free(real);
+    }
+  }
 }
 
 } /*  namespace detail::wtr::watcher::adapter */
-- 
2.43.0


From 95dd901ceb4004b9260848fddd9f3e51a9132eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 37/43] fix: a directory whose path is too long is said to be
 unwatched

The path was cut at PATH_MAX, and whatever the rest named (usually
nothing) was looked at instead. Neither the directory's events nor
a warning about it reached the user.
---
 .../detail/wtr/watcher/adapter/linux/sysres.hpp       | 11 ++++++++++-
 include/wtr/watcher.hpp                               | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 26bcf87..e06d237 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -6,6 +6,7 @@
 #include "wtr/watcher.hpp"
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -170,7 +171,15 @@ walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
       if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      below.emplace_back(std::string{path} + "/" + de->d_name);
+      auto next = std::string{path} + "/" + de->d_name;
+      struct stat s;
+      if (next.size() < PATH_MAX)
+        below.emplace_back(std::move(next));
+      /*  No path leads there, so we can't watch it. */
+      else if (
+        fstatat(dirfd(d), de->d_name, &s, AT_SYMLINK_NOFOLLOW) == 0
+        && S_ISDIR(s.st_mode))
+        send_msg(result::w_sys_not_watched, next, cb);
     }
     (void)closedir(d);
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index eb74b1e..c4897d1 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -848,6 +848,7 @@ inline auto watch(
 
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -1012,7 +1013,15 @@ walkdir_do(char const* const path, Fn const& f, Cb const& cb) -> void
       if (de->d_type != DT_DIR && de->d_type != DT_UNKNOWN) continue;
       if (strcmp(de->d_name, ".") == 0) continue;
       if (strcmp(de->d_name, "..") == 0) continue;
-      below.emplace_back(std::string{path} + "/" + de->d_name);
+      auto next = std::string{path} + "/" + de->d_name;
+      struct stat s;
+      if (next.size() < PATH_MAX)
+        below.emplace_back(std::move(next));
+      /*  No path leads there, so we can't watch it. */
+      else if (
+        fstatat(dirfd(d), de->d_name, &s, AT_SYMLINK_NOFOLLOW) == 0
+        && S_ISDIR(s.st_mode))
+        send_msg(result::w_sys_not_watched, next, cb);
     }
     (void)closedir(d);
   }
-- 
2.43.0


From a13620e69763cf5e6e47f765c9c595b02f98f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 38/43] fix: the privileged backend does not cut the path of an
 event short

An event in a directory with a path of nearly PATH_MAX characters
was reported with what fit of its path.
---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp       | 10 ++++------
 include/wtr/watcher.hpp                                | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 6408727..adec12d 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -170,18 +170,16 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     return {};
   }
   close(fd);
-  path_buf[file_name_offset] = 0;
+  auto path = std::string(path_buf, file_name_offset);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
+      can start writing the file name after it. */
   if (file_name_offset > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    if (file_name && not_selfdir) path.append("/").append(file_name);
   }
-  return {path_buf};
+  return path;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c4897d1..454a6e0 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1209,18 +1209,16 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     return {};
   }
   close(fd);
-  path_buf[file_name_offset] = 0;
+  auto path = std::string(path_buf, file_name_offset);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
-      can start writing the file name after its offset. */
+      can start writing the file name after it. */
   if (file_name_offset > 0) {
     char* file_name = ((char*)dir_fh->f_handle + dir_fh->handle_bytes);
     auto not_selfdir = strcmp(file_name, ".") != 0;
-    auto beg = path_buf + file_name_offset;
-    auto end = PATH_MAX - file_name_offset;
-    if (file_name && not_selfdir) snprintf(beg, end, "/%s", file_name);
+    if (file_name && not_selfdir) path.append("/").append(file_name);
   }
-  return {path_buf};
+  return path;
 }
 
 inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
-- 
2.43.0


From ed926eafa98db4fcdcbb96710507938a66eae402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 39/43] fix: the node binding watches the whole path, or
 nothing

A path of more than 4095 bytes, or with a null character in it, was
cut short, and whatever the rest named was watched instead. Anything
but a string was taken as the empty path.
---
 watcher-nodejs/lib/watcher-napi.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 1b2b06d..5dd685e 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -4,6 +4,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 
 #define WITH_TSFN_NONBLOCKING 1
 
@@ -133,10 +134,17 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     napi_throw_error(env, NULL, "Wrong number of arguments");
     return NULL;
   }
-  char path[4096];
-  memset(path, 0, sizeof(path));
   size_t path_len = 0;
-  napi_get_value_string_utf8(env, args[0], path, sizeof(path), &path_len);
+  if (napi_get_value_string_utf8(env, args[0], NULL, 0, &path_len) != napi_ok) {
+    napi_throw_type_error(env, NULL, "The path must be a string");
+    return NULL;
+  }
+  std::string path(path_len, '\0');
+  napi_get_value_string_utf8(env, args[0], &path[0], path_len + 1, &path_len);
+  if (path.find('\0') != std::string::npos) {
+    napi_throw_error(env, NULL, "The path must not have a null character in it");
+    return NULL;
+  }
   watcher_lifetime* wrapper = (watcher_lifetime*)malloc(sizeof(watcher_lifetime));
   napi_value js_callback = args[1];
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
@@ -156,7 +164,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     NULL,
     callback_js_receiver,
     &wrapper->tsfn);
-  wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
+  wrapper->watcher = wtr_watcher_open(path.c_str(), callback_bridge, wrapper);
   if (wrapper->watcher == NULL) {
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
-- 
2.43.0


From 5f63986ab4f13bf01fc30e946fc86b8ad5090920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:07 +0000
Subject: [PATCH 40/43] fix: a watch which could not be opened does not keep
 node running

The thread-safe function was never released, so the process
didn't end although nothing was watched.
---
 watcher-nodejs/lib/watcher-napi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 5dd685e..f13e520 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -166,6 +166,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     &wrapper->tsfn);
   wrapper->watcher = wtr_watcher_open(path.c_str(), callback_bridge, wrapper);
   if (wrapper->watcher == NULL) {
+    napi_release_threadsafe_function(wrapper->tsfn, napi_tsfn_release);
+    napi_delete_reference(env, wrapper->js_callback_ref);
+    free(wrapper);
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
-- 
2.43.0


From 173d939052c5aeaed42cdaa65dd0c3c54c57c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 41/43] fix: the python binding watches the whole path, or
 nothing

A path which is not UTF-8, as the events report it, could not be
watched. A path with a null character in it was cut there, and
whatever the rest named was watched instead.
---
 watcher-py/watcher/watcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 6842417..2e40039 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -175,8 +175,11 @@ class Watch:
             py_event = _c_event_to_event(c_event)
             callback(py_event)
 
+        self._watcher = None
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = path.encode("utf-8", "surrogateescape")
+        if b"\0" in self._path:
+            raise ValueError("The path must not have a null character in it")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From 1cf68cb24e310374bc584016362d7492cfe94d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 42/43] fix: the rust binding keeps what is UTF-8 of a path
 which is not

The path of such an event was empty.
---
 watcher-rs/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 39f46bf..758426e 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -7,7 +7,6 @@ use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -16,6 +15,7 @@ use futures::channel::mpsc::UnboundedSender as Tx;
 use futures::Stream;
 use serde::Deserialize;
 use serde::Serialize;
+use std::borrow::Cow;
 use std::cell::Cell;
 use std::ffi::CString;
 
@@ -54,12 +54,13 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<Cow<'a, str>> {
     match ptr.is_null() {
         true => None,
         false => {
             let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
+            // What isn't UTF-8 is replaced, the rest of the path stays
+            let s = String::from_utf8_lossy(b);
             Some(s)
         }
     }
@@ -95,7 +96,7 @@ fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
         path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        associated_path_name: c_chars_as_str(ev.associated_path_name).map(Cow::into_owned),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From dba7d03a5aebe46eeee71b8de098c69086d7b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 43/43] fix: the rust binding reports a path which can't be
 watched

A path with a null character in it ended in a panic although
the function returns a result.
---
 watcher-rs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 758426e..c82b89b 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -117,7 +117,7 @@ pub struct Watch {
 
 impl Watch {
     pub fn try_new(path: &str) -> Result<Watch, &'static str> {
-        let p = CString::new(path).unwrap();
+        let p = CString::new(path).map_err(|_| "a null character in the path")?;
         let (tx, rx) = async_channel();
         let tx = Box::new(tx);
         let rx = Box::pin(rx);
-- 
2.43.0

