#include <fitoria/core/from_string.hpp>
#include "rt.hpp"
#include <limits>
#include <typeinfo>
using namespace fitoria;
template <typename R> static void num(std::string const& s)
{
  std::vector<char> heap(s.begin(), s.end());
  heap.shrink_to_fit();
  std::string_view sv(heap.data(), heap.size());
  rt::c(std::string("from_string<") + (std::is_signed_v<R> ? "int" : "uint") + std::to_string(sizeof(R) * 8) + ">(" + rt::esc(s) + ")");
  auto r = from_string<R>(sv);
  bool ok = true, neg = false;
  std::size_t i = 0;
  if (std::is_signed_v<R> && !s.empty() && s[0] == '-') { neg = true; i = 1; }
  if (i == s.size()) ok = false;
  unsigned __int128 v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') { ok = false; break; }
    v = v * 10 + static_cast<unsigned>(s[i] - '0');
    if (v > (static_cast<unsigned __int128>(1) << 100)) v = static_cast<unsigned __int128>(1) << 100;
  }
  __int128 w = neg ? -static_cast<__int128>(v) : static_cast<__int128>(v);
  if (w < static_cast<__int128>(std::numeric_limits<R>::min()) || w > static_cast<__int128>(std::numeric_limits<R>::max())) ok = false;
  rt::check(r.has_value() == ok, ok ? "rejected" : "accepted");
  if (ok) rt::check(static_cast<__int128>(*r) == w, "wrong value");
  else rt::check(static_cast<bool>(r.error()), "error without code");
}
static void flag(std::string const& s)
{
  std::vector<char> heap(s.begin(), s.end());
  heap.shrink_to_fit();
  rt::c("from_string<bool>(" + rt::esc(s) + ")");
  auto r = from_string<bool>(std::string_view(heap.data(), heap.size()));
  std::string l;
  for (char ch : s) l += ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
  int want = l == "1" || l == "t" || l == "true" || l == "y" || l == "yes" ? 1 : l == "0" || l == "f" || l == "false" || l == "n" || l == "no" ? 0 : -1;
  rt::check(r.has_value() == (want >= 0), want >= 0 ? "rejected" : "accepted");
  if (want >= 0) rt::check(*r == (want == 1), "wrong value");
  else rt::check(static_cast<bool>(r.error()), "error without code");
}
static void each(std::string const& s)
{
  num<std::int8_t>(s); num<std::uint8_t>(s); num<std::int16_t>(s); num<std::uint16_t>(s);
  num<std::int32_t>(s); num<std::uint32_t>(s); num<std::int64_t>(s); num<std::uint64_t>(s);
  flag(s);
  rt::c("from_string<string>(" + rt::esc(s) + ")");
  auto t = from_string<std::string>(s);
  rt::check(t && *t == s, "text changed");
  auto u = from_string<std::string_view>(s);
  rt::check(u && *u == s, "text view changed");
}
void search()
{
  for (int c = 0; c < 256; ++c)
    for (auto t : { "@", "1@", "@1", "-@", "1@1", "tru@", "@rue", "ye@", "n@", "-1@" }) {
      std::string s = t;
      s[s.find('@')] = static_cast<char>(c);
      each(s);
    }
  rt::all("019-+ ", 6, each);
  for (int i = -70000; i <= 70000; ++i) each(std::to_string(i));
  for (auto w : { "true", "false", "yes", "no", "t", "f", "y", "n", "1", "0", "ok", "on", "off", "truee", "y e s", "yess" })
    for (unsigned m = 0; m < 32; ++m) {
      std::string s = w;
      for (std::size_t i = 0; i < s.size(); ++i) if (m >> i & 1) s[i] = static_cast<char>(std::toupper(s[i]));
      flag(s);
    }
  for (auto n : { 8, 16, 31, 32, 63, 64, 65 }) {
    auto p = static_cast<unsigned __int128>(1) << n;
    for (int d = -3; d <= 3; ++d) {
      auto v = p + static_cast<unsigned __int128>(d);
      std::string s;
      while (v) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; }
      for (auto pre : { "", "-", "0", "00000000000000000000", "-0", "+", " " }) { each(pre + s); each(pre + s + "0"); each(pre + s + " "); each(pre + s + "x"); }
    }
  }
}
