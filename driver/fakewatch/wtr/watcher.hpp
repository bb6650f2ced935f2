// The real events with a watcher which reports what the file FAKE_EVENTS says, for the command line tool.
#pragma once
#include "clock.hpp"
#include "wtr/watcher-/event.hpp"
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>

namespace wtr {
inline namespace watcher {
class watch {
  bool open = true;

public:
  using callback = event::callback;
  inline watch(std::filesystem::path const&, event::callback const& cb) noexcept
  {
    auto unhex = [](std::string const& s) {
      std::string r;
      for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
      return r;
    };
    std::ifstream f(getenv("FAKE_EVENTS"));
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream in(line);
      auto make = [&](std::string const& p, int e, int k, long long t) {
        fakeclock::on = true;
        fakeclock::now = t;
        auto ev = event(std::filesystem::path(unhex(p)), (enum event::effect_type)e, (enum event::path_type)k);
        fakeclock::on = false;
        return ev;
      };
      std::string p;
      int e, k;
      long long t;
      in >> p >> e >> k >> t;
      auto base = make(p, e, k, t);
      if (in >> p >> e >> k >> t) {
        auto other = make(p, e, k, t);
        fakeclock::on = true;
        auto ev = event(base, std::move(other));
        fakeclock::on = false;
        cb(ev);
      }
      else
        cb(base);
    }
  }
  inline auto close() noexcept -> bool
  {
    bool was = open;
    open = false;
    return was;
  }
  inline ~watch() noexcept { close(); }
};
}
}
