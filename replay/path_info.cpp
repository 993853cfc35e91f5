#include <fitoria/web/path_info.hpp>
#include <map>
#include "rt.hpp"
using namespace fitoria;
using namespace fitoria::web;
using pairs = std::vector<std::pair<std::string, std::string>>;
static void agree(path_info& p, std::string const& pat, std::string const& path, pairs const& in, std::vector<std::string> const& names)
{
  auto const& c = p;
  std::vector<std::string> keys;
  std::map<std::string, std::string> m;
  for (auto& [k, v] : in) {
    if (!m.count(k)) keys.push_back(k);
    m[k] = v;
  }
  rt::check(c.match_pattern() == pat, [&] { return "match_pattern() is " + rt::esc(c.match_pattern()); });
  rt::check(c.match_path() == path, [&] { return "match_path() is " + rt::esc(c.match_path()); });
  rt::check(c.keys() == keys, [&] { return "keys() has " + std::to_string(c.keys().size()) + " names in another order or number, expected " + std::to_string(keys.size()); });
  rt::check(c.size() == keys.size() && c.empty() == keys.empty(), "size() or empty() disagrees");
  for (auto& n : names) {
    bool is = m.count(n);
    std::string_view sv = n;
    auto g = c.get(n);
    auto h = c.get(sv);
    rt::check(c.contains(n) == is, [&] { return "contains(" + rt::esc(n) + ") is wrong"; });
    rt::check(g.has_value() == is && h.has_value() == is, [&] { return "get(" + rt::esc(n) + ") has " + (is ? "no value" : "a value"); });
    if (is) rt::check(*g == m[n] && *h == m[n], [&] { return "get(" + rt::esc(n) + ") is " + rt::esc(*g) + ", expected " + rt::esc(m[n]); });
    bool thrown = false;
    try { rt::check(c.at(n) == m[n] || !is, [&] { return "at(" + rt::esc(n) + ") is " + rt::esc(c.at(n)); }); } catch (std::out_of_range const&) { thrown = true; }
    rt::check(thrown != is, [&] { return "at(" + rt::esc(n) + (is ? ") throws" : ") does not throw"); });
    auto e = c.find(keys.size());
    auto f = c.find(n);
    rt::check((f == e) == !is && (!is || (f->first == n && f->second == m[n])), [&] { return "find(" + rt::esc(n) + ") is wrong"; });
  }
  for (std::size_t i = 0; i < keys.size() + 3; ++i) {
    bool is = i < keys.size();
    auto g = c.get(i);
    rt::check(g.has_value() == is, [&] { return "get(" + std::to_string(i) + ") has " + (is ? "no value" : "a value"); });
    if (is) rt::check(*g == m[keys[i]], [&] { return "get(" + std::to_string(i) + ") is " + rt::esc(*g) + ", expected " + rt::esc(m[keys[i]]); });
    bool thrown = false;
    try { auto& v = c.at(i); rt::check(is && v == m[keys[i]], [&] { return "at(" + std::to_string(i) + ") is " + rt::esc(v); }); } catch (std::out_of_range const&) { thrown = true; }
    rt::check(thrown != is, [&] { return "at(" + std::to_string(i) + (is ? ") throws" : ") does not throw"); });
    auto f = c.find(i);
    rt::check((f == c.find(keys.size() + 9)) == !is && (!is || f->first == keys[i]), [&] { return "find(" + std::to_string(i) + ") is wrong"; });
  }
  std::size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++i) {
    rt::check(i < keys.size(), "iteration goes beyond the last key");
    rt::check((*it).first == keys[i] && it->second == m[keys[i]], [&] { return "iteration visits " + rt::esc(it->first) + " at place " + std::to_string(i); });
    if (i % 2) { auto o = it++; rt::check(o != it && o->first == keys[i], "it++ returns another place"); } else { ++it; }
  }
  rt::check(i == keys.size(), "iteration ends early");
  auto it = p.end();
  while (i > 0) {
    --i;
    if (i % 2) { auto o = it--; rt::check(o != it, "it-- returns another place"); } else { --it; }
    rt::check(it->first == keys[i], "iteration backwards visits another key");
  }
  rt::check(it == p.begin() && c.cbegin() == it && c.cend() == c.end(), "begin() and end() disagree");
}
static void one(pairs const& in, std::vector<std::string> const& names)
{
  std::string s = "path_info(\"/p\", \"/q\", {";
  for (auto& [k, v] : in) s += "{" + rt::esc(k) + "," + rt::esc(v) + "},";
  rt::c(s + "})");
  path_info p("/p", "/q", in);
  agree(p, "/p", "/q", in, names);
  auto lst = [&](std::initializer_list<path_info::value_type> l) { rt::c(s + "} /* initializer_list */)"); path_info o("/p", "/q", l); agree(o, "/p", "/q", in, names); };
  if (in.size() == 1) lst({ { in[0].first, in[0].second } });
  if (in.size() == 2) lst({ { in[0].first, in[0].second }, { in[1].first, in[1].second } });
  if (in.size() == 3) lst({ { in[0].first, in[0].second }, { in[1].first, in[1].second }, { in[2].first, in[2].second } });
  if (in.size() == 4) lst({ { in[0].first, in[0].second }, { in[1].first, in[1].second }, { in[2].first, in[2].second }, { in[3].first, in[3].second } });
}
void search()
{
  std::vector<std::string> names { "a", "b", "c", "A", "", "ab", std::string(30, 'x') };
  { rt::c("path_info{}"); path_info p; agree(p, "", "", {}, names); }
  rt::all("abc", 6, [&](std::string const& s) {
    pairs in;
    for (std::size_t i = 0; i < s.size(); ++i) in.emplace_back(std::string(1, s[i]), std::string(1, static_cast<char>('1' + i)));
    one(in, names);
  });
  for (int k = 0; k < 3000 && rt::time_left(); ++k) {
    pairs in(rt::rnd(12));
    for (auto& [a, b] : in) { a = names[rt::rnd(names.size())]; b = rt::text("xyz", 20); }
    one(in, names);
  }
}
