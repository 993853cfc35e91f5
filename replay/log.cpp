#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <fitoria/log/level.hpp>
#include "rt.hpp"
using namespace fitoria;
using log::level;
static const char* N[] = { "trace", "debug", "info", "warning", "error", "fatal" };
static std::string low(std::string s)
{
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  return s;
}
static int want(std::string const& s)
{
  for (int i = 0; i < 6; ++i) if (low(s) == N[i]) return i;
  return 6;
}
static void one(std::string const& s)
{
  rt::c("to_level(" + rt::esc(s) + ")");
  std::vector<char> h(s.begin(), s.end());
  h.shrink_to_fit();
  auto l = log::to_level(std::string_view(h.data(), h.size()));
  rt::check(static_cast<int>(l) == want(s), "level " + std::to_string(static_cast<int>(l)) + ", expected " + std::to_string(want(s)));
}
static void env(const char* v)
{
  if (v) setenv("CPP_LOG", v, 1); else unsetenv("CPP_LOG");
  rt::c(std::string("filter::from_env() with CPP_LOG=") + (v ? v : "(unset)"));
  auto f = log::filter::from_env();
  int lo = v ? want(v) : 6;
  for (int q = 0; q <= 6; ++q) rt::check(f.is_allowed(static_cast<level>(q)) == (q < 6 && q >= lo), "level " + std::to_string(q));
}
static void file(std::string const& s)
{
  for (auto st : { log::file_name_style::full_path, log::file_name_style::file_name_only }) {
    rt::c("get_file_name(" + std::to_string(static_cast<int>(st)) + ", " + rt::esc(s) + ")");
    auto p = s.find_last_of("/\\");
    auto w = st == log::file_name_style::full_path || p == std::string::npos ? s : s.substr(p + 1);
    rt::check(log::get_file_name(st, s) == w, std::string(log::get_file_name(st, s)));
  }
}
void search()
{
  for (int i = 0; i <= 7; ++i) {
    auto l = static_cast<level>(i);
    rt::c("to_string(level " + std::to_string(i) + ")");
    auto s = log::to_string(l);
    rt::check(i < 6 ? low(s) == N[i] && s != low(s) : s == "UNKNOWN", s);
    rt::c("filter::at_least(level " + std::to_string(i) + ")");
    auto f = log::filter::at_least(l);
    for (int q = 0; q <= 6; ++q) rt::check(f.is_allowed(static_cast<level>(q)) == (q < 6 && q >= i), "level " + std::to_string(q));
    for (int j = 0; j <= 7; ++j)
      for (int k = 0; k <= 7; ++k) {
        rt::c("filter({" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + "})");
        log::filter g({ l, static_cast<level>(j), static_cast<level>(k) });
        for (int q = 0; q <= 6; ++q) rt::check(g.is_allowed(static_cast<level>(q)) == (q < 6 && (q == i || q == j || q == k)), "level " + std::to_string(q));
      }
  }
  rt::c("filter({})");
  log::filter e({});
  for (int q = 0; q <= 6; ++q) rt::check(!e.is_allowed(static_cast<level>(q)), "level " + std::to_string(q));
  rt::c("filter::all()");
  for (int q = 0; q <= 6; ++q) rt::check(log::filter::all().is_allowed(static_cast<level>(q)) == (q < 6), "level " + std::to_string(q));
  env(nullptr);
  for (auto w : { "", "trace", "DEBUG", "Info", "warning", "eRRor", "fatal", "off", "all", "warn", "0", "UNKNOWN" }) env(w);
  rt::check(log::get_newline(log::newline_style::lf) == "\n" && log::get_newline(log::newline_style::crlf) == "\r\n" && log::get_newline(log::newline_style::cr) == "\r", "newline");
  for (auto n : N) {
    std::string w = n;
    for (unsigned m = 0; m < (1u << w.size()); ++m) {
      auto s = w;
      for (std::size_t i = 0; i < s.size(); ++i) if (m >> i & 1) s[i] = static_cast<char>(s[i] - 32);
      one(s);
    }
    for (std::size_t i = 0; i < w.size(); ++i) {
      one(w.substr(0, i));
      one(w.substr(i));
      for (int ch = 0; ch < 256; ++ch) {
        auto s = w;
        s[i] = static_cast<char>(ch);
        one(s);
        s = w;
        s.insert(i, 1, static_cast<char>(ch));
        one(s);
      }
    }
    for (auto x : { "s", " ", "\n", "x" }) one(w + x), one(x + w);
    for (auto m : N) one(w + m);
  }
  for (auto w : { "off", "unknown", "count", "warn", "err", "all", "none", "verbose", "critical", "0", "1" }) one(w);
  rt::all("/\\a.", 6, file);
}
