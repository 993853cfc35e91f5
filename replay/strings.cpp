#include <fitoria/core/strings.hpp>
#include "rt.hpp"
using namespace fitoria;
static int low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c == '\xff' ? -1 : static_cast<unsigned char>(c); }
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int cmp(std::string_view a, std::string_view b)
{
  for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
    if (low(a[i]) != low(b[i])) return low(a[i]) < low(b[i]) ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() == b.size() ? 0 : 1;
}
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o == 0 ? 0 : 1; }
static std::string_view tl(std::string_view s) { while (!s.empty() && ws(s[0])) s = s.substr(1); return s; }
static std::string_view tr(std::string_view s) { while (!s.empty() && ws(s[s.size() - 1])) s = s.substr(0, s.size() - 1); return s; }
// heap copy without terminator: reads outside the view are seen by the sanitizer
struct hv {
  std::vector<char> v;
  hv(std::string const& s) : v(s.begin(), s.end()) { v.shrink_to_fit(); }
  std::string_view sv() const { return { v.data(), v.size() }; }
};
static void c2(std::string const& a, std::string const& b)
{
  if (rt::mode == "S02") return;
  hv x(a), y(b);
  rt::c("cmp_eq_ci(" + rt::esc(a) + ", " + rt::esc(b) + ")");
  rt::check(cmp_eq_ci(x.sv(), y.sv()) == (cmp(a, b) == 0), "wrong answer");
  rt::c("cmp_tw_ci(" + rt::esc(a) + ", " + rt::esc(b) + ")");
  auto r = sgn(cmp_tw_ci(x.sv(), y.sv()));
  rt::check(r == cmp(a, b), [&] { return "got " + std::to_string(r); });
}
static void t1(std::string const& a)
{
  if (rt::mode == "S01") return;
  hv x(a);
  auto one = [&](const char* nm, std::string_view got, std::string_view want) {
    rt::c(std::string(nm) + "(" + rt::esc(a) + ")");
    rt::check(got == want, [&] { return "got " + rt::esc(got); });
  };
  one("trim", trim(x.sv()), tl(tr(a)));
  one("ltrim", ltrim(x.sv()), tl(a));
  one("rtrim", rtrim(x.sv()), tr(a));
  one("trim is_space", trim(x.sv(), is_space), tl(tr(a)));
  one("ltrim is_space", ltrim(x.sv(), is_space), tl(a));
  one("rtrim is_space", rtrim(x.sv(), is_space), tr(a));
}
static void s1(std::string const& a, std::string const& d)
{
  if (rt::mode == "S01") return;
  hv x(a);
  rt::c("split_of(" + rt::esc(a) + ", " + rt::esc(d) + ")");
  std::vector<std::string> want;
  std::string cur;
  for (char ch : a) {
    if (d.find(ch) != std::string::npos) {
      want.emplace_back(tl(tr(cur)));
      cur.clear();
    } else
      cur += ch;
  }
  want.emplace_back(tl(tr(cur)));
  auto got = split_of(x.sv(), d);
  rt::check(got.size() == want.size(), [&] { return "got " + std::to_string(got.size()) + " tokens, expected " + std::to_string(want.size()); });
  for (std::size_t i = 0; i < want.size(); ++i)
    rt::check(got[i] == want[i], [&] { return "token " + std::to_string(i) + " is " + rt::esc(got[i]); });
}
void search()
{
  std::string every;
  for (int i = 0; i < 256; ++i) every += static_cast<char>(i);
  for (char a : every)
    for (char b : every) {
      c2({ a }, { b });
      c2({ 'x', a }, { 'X', b });
    }
  for (char a : every) {
    t1({ a });
    t1({ a, 'q', a });
    t1({ ' ', a, ' ' });
    s1({ a, ',', a }, ",");
    s1({ 'p', a, 'q' }, { a });
  }
  rt::all("aB@[ ", 4, [](auto& s) { rt::all("Ab`{", 2, [&](auto& t) { c2(s, t); c2(t, s); }); });
  rt::all(" \ta\v,", 7, [](auto& s) { t1(s); s1(s, ","); s1(s, ",a"); });
  rt::all("ab, ", 6, [](auto& s) { s1(s, ""); s1(s, "ab"); s1(s, " "); s1(s, ",,"); });
  while (rt::time_left(25)) {
    auto a = rt::bytes(20), b = a;
    for (auto& ch : b) if (rt::rnd(2)) ch = static_cast<char>(low(ch));
    c2(a, b);
    if (!b.empty()) b[rt::rnd(b.size())] ^= static_cast<char>(1 << rt::rnd(8));
    c2(a, b);
    c2(a, b.substr(0, rt::rnd(b.size() + 1)));
    t1(rt::text(" \t\r\n\v\fab", 300));
    s1(rt::text(" ,;ab", 300), rt::text(";,", 2));
  }
}
