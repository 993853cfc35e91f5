#include <fitoria/http/header/range.hpp>
#include "rt.hpp"
using namespace fitoria;
using http::header::range;
static std::string trimmed(std::string s)
{
  auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (!s.empty() && ws(s.front())) s.erase(0, 1);
  while (!s.empty() && ws(s.back())) s.pop_back();
  return s;
}
static std::vector<std::string> cut(std::string const& s, char d)
{
  std::vector<std::string> r(1);
  for (char c : s) if (c == d) r.emplace_back(); else r.back() += c;
  for (auto& x : r) x = trimmed(x);
  return r;
}
static bool number(std::string const& s, std::uint64_t& v)
{
  if (s.empty()) return false;
  unsigned __int128 n = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    n = n * 10 + static_cast<unsigned>(c - '0');
    if (n > UINT64_MAX) n = static_cast<unsigned __int128>(UINT64_MAX) + 1;
  }
  v = static_cast<std::uint64_t>(n);
  return n <= UINT64_MAX;
}
static bool ref(std::string const& s, std::uint64_t total, std::string& unit, std::vector<range::subrange_t>& out)
{
  auto u = cut(s, '=');
  if (u.size() != 2) return false;
  unit = u[0];
  std::uint64_t a, b;
  if (!u[1].empty() && u[1][0] == '-') {
    if (!number(u[1].substr(1), a)) return false;
    auto n = a < total ? a : total;
    out.push_back({ total - n, n });
    return true;
  }
  for (auto& t : cut(u[1], ',')) {
    auto p = cut(t, '-');
    if (p.size() != 2 || !number(p[0], a)) return false;
    if (p[1].empty()) {
      if (a > total) return false;
      out.push_back({ a, total - a });
    } else {
      if (!number(p[1], b) || a > b || b == UINT64_MAX) return false;
      out.push_back({ a, b - a + 1 });
    }
  }
  return true;
}
static void one(std::string const& s, std::uint64_t total)
{
  std::vector<char> heap(s.begin(), s.end());
  heap.shrink_to_fit();
  rt::c("range::parse(" + rt::esc(s) + ", " + std::to_string(total) + ")");
  std::string unit;
  std::vector<range::subrange_t> want;
  bool ok = ref(s, total, unit, want);
  auto r = range::parse(std::string_view(heap.data(), heap.size()), total);
  rt::check(static_cast<bool>(r) == ok, ok ? "rejected" : "accepted");
  if (!ok) return;
  rt::check(r->unit() == unit, "wrong unit");
  rt::check(r->size() == want.size(), "wrong number of subranges");
  for (std::size_t i = 0; i < want.size(); ++i)
    rt::check((*r)[i] == want[i], [&] { return "subrange " + std::to_string(i) + " is {" + std::to_string((*r)[i].offset) + "," + std::to_string((*r)[i].length) + "} expected {" + std::to_string(want[i].offset) + "," + std::to_string(want[i].length) + "}"; });
}
void search()
{
  std::vector<std::uint64_t> totals { 0, 1, 5, 10, 100, UINT64_MAX };
  rt::all("b=-, 19", 6, [&](std::string const& s) { one(s, 10); });
  rt::all("-,19 ", 7, [&](std::string const& s) { one("b=" + s, 10); });
  for (int c = 0; c < 256; ++c)
    for (auto t : { "b=@1-2", "b=1@2", "b=1-2@", "@=1-2", "b@1-2", "b=-@", "b=-1@", "b=1-@", "b=1-2@3-4", "@b=1-2", "b=1@-2" }) {
      std::string s = t;
      s[s.find('@')] = static_cast<char>(c);
      for (auto n : totals) one(s, n);
    }
  std::vector<std::string> nums { "", "0", "1", "2", "4", "5", "9", "10", "11", "99", "100", "18446744073709551614", "18446744073709551615", "18446744073709551616", "007", "+1", "-1", "x" };
  for (auto& a : nums) for (auto n : totals) {
    one("bytes=-" + a, n);
    for (auto& b : nums) { one("bytes=" + a + "-" + b, n); one("bytes=0-0, " + a + " - " + b, n); one("bytes=" + a + "-" + b + ",1-1", n); }
  }
  while (rt::time_left(30)) {
    std::string s = rt::rnd(8) ? "bytes=" : rt::text("b= ", 3);
    for (auto n = 1 + rt::rnd(6); n-- > 0;) {
      if (rt::rnd(6) == 0) s += " ";
      s += nums[rt::rnd(nums.size())] + (rt::rnd(12) ? "-" : "") + nums[rt::rnd(nums.size())];
      if (n || rt::rnd(10) == 0) s += ",";
    }
    one(s, totals[rt::rnd(totals.size())]);
  }
}
