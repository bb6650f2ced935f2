// Does with real events what the lines on its input say; answers in JSON lines.
#include "clock.hpp"
#include "wtr/watcher.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using wtr::event;
static std::string hex(std::string const& s)
{
  std::string r;
  char b[4];
  for (unsigned char c : s) snprintf(b, sizeof b, "%02x", c), r += b;
  return r;
}
static std::string unhex(std::string const& s)
{
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
// as {"n": narrow bytes} or {"w": code points}
static std::string txt(std::string const& s) { return "{\"n\":\"" + hex(s) + "\"}"; }
static std::string txt(std::wstring const& s)
{
  std::string r = "{\"w\":[";
  for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned long)s[i]);
  return r + "]}";
}
template<class S> static std::string view(S const& s) { return txt(std::basic_string<typename S::value_type>(s)); }
template<class C, class T> static std::string streamed(T const& v)
{
  std::basic_ostringstream<C> o;
  o << v;
  return o ? txt(o.str()) : "{\"n\":\"\"}";
}
static event make(std::string const& p, int e, int k, long long t)
{
  fakeclock::now = t;
  return event(std::filesystem::path(p), (enum event::effect_type)e, (enum event::path_type)k);
}
static std::string show(event const& e)
{
  return "{\"t\":\"" + std::to_string((long long)e.effect_time) + "\",\"p\":\"" + hex(e.path_name.string()) + "\",\"e\":" + std::to_string((int)e.effect_type)
       + ",\"k\":" + std::to_string((int)e.path_type) + ",\"as\":[" + (e.associated ? show(*e.associated) : "") + "]}";
}

int main()
{
  using namespace wtr;
  fakeclock::on = true;
  std::vector<std::unique_ptr<event>> slot(9);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string o;
    in >> o;
    std::ostringstream r;
    if (o == "script") {
      for (auto& s : slot) s.reset();
      std::string id;
      in >> id;
      r << "{\"id\":\"" << id << "\"}";
    }
    else if (o == "new") {
      int s, e, k;
      std::string p;
      long long t;
      in >> s >> p >> e >> k >> t;
      slot[s] = std::make_unique<event>(make(unhex(p), e, k, t));
      r << "{\"o\":\"new\",\"s\":" << s << ",\"v\":" << show(*slot[s]) << "}";
    }
    else if (o == "with") {
      int s, a, b;
      long long t;
      in >> s >> a >> b >> t;
      fakeclock::now = t;
      slot[s] = std::make_unique<event>(*slot[a], event(*slot[b]));
      r << "{\"o\":\"with\",\"s\":" << s << ",\"a\":" << a << ",\"b\":" << b << ",\"v\":" << show(*slot[s]) << "}";
    }
    else if (o == "copy") {
      int s, a;
      in >> s >> a;
      slot[s] = std::make_unique<event>(*slot[a]);
      r << "{\"o\":\"copy\",\"s\":" << s << ",\"a\":" << a << "}";
    }
    else if (o == "drop") {
      int s;
      in >> s;
      slot[s].reset();
      r << "{\"o\":\"drop\",\"s\":" << s << "}";
    }
    else if (o == "eq") {
      int a, b;
      in >> a >> b;
      r << "{\"o\":\"eq\",\"a\":" << a << ",\"b\":" << b << ",\"eq\":" << (*slot[a] == *slot[b] ? "true" : "false") << ",\"ne\":" << (*slot[a] != *slot[b] ? "true" : "false") << "}";
    }
    else if (o == "show") {
      int s;
      in >> s;
      r << "{\"o\":\"show\",\"s\":" << s << ",\"v\":" << show(*slot[s]) << "}";
    }
    else if (o == "effect") {
      int v;
      in >> v;
      auto e = (enum event::effect_type)v;
      r << "{\"o\":\"effect\",\"v\":" << v << ",\"texts\":[" << txt(to<std::string>(e)) << "," << view(to<std::string_view>(e)) << "," << txt(to<std::wstring>(e)) << ","
        << view(to<std::wstring_view>(e)) << "," << streamed<char>(e) << "," << streamed<wchar_t>(e) << "]}";
    }
    else if (o == "type") {
      int v;
      in >> v;
      auto e = (enum event::path_type)v;
      r << "{\"o\":\"type\",\"v\":" << v << ",\"texts\":[" << txt(to<std::string>(e)) << "," << view(to<std::string_view>(e)) << "," << txt(to<std::wstring>(e)) << ","
        << view(to<std::wstring_view>(e)) << "," << streamed<char>(e) << "," << streamed<wchar_t>(e) << "]}";
    }
    else if (o == "number") {
      long long v;
      in >> v;
      r << "{\"o\":\"number\",\"v\":\"" << v << "\",\"texts\":[" << txt(to<std::string>(v)) << "," << txt(to<std::wstring>(v)) << "]}";
    }
    else if (o == "path") {
      std::string p;
      in >> p;
      decltype(event::path_name) v{unhex(p)};
      r << "{\"o\":\"path\",\"v\":\"" << p << "\",\"texts\":[" << txt(to<std::string>(v)) << "," << txt(to<std::wstring>(v)) << "]}";
    }
    else if (o == "json") {
      // json P E K T [P E K T]
      std::string p;
      int e, k;
      long long t;
      in >> p >> e >> k >> t;
      auto base = make(unhex(p), e, k, t);
      std::unique_ptr<event> ev;
      if (in >> p >> e >> k >> t) {
        auto other = make(unhex(p), e, k, t);
        ev = std::make_unique<event>(base, std::move(other));
      }
      else
        ev = std::make_unique<event>(base);
      r << "{\"o\":\"json\",\"v\":" << show(*ev) << ",\"texts\":[" << txt(to<std::string>(*ev)) << "," << streamed<char>(*ev) << "," << txt(to<std::wstring>(*ev)) << ","
        << streamed<wchar_t>(*ev) << "]}";
    }
    std::cout << r.str() << std::endl;
  }
}
