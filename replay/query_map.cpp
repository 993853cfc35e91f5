#include <fitoria/web/query_map.hpp>
#include <boost/url.hpp>
#include <map>
#include "rt.hpp"
using namespace fitoria;
using namespace fitoria::web;
using ref = std::map<std::string, std::string>;
static std::string hist;
static void agree(query_map& q, ref const& r, std::vector<std::string> const& names)
{
  auto const& c = q;
  rt::check(c.size() == r.size(), [&] { return "size() is " + std::to_string(c.size()) + ", expected " + std::to_string(r.size()); });
  rt::check(c.empty() == r.empty(), "empty() disagrees");
  for (auto const& n : names) {
    auto it = r.find(n);
    bool in = it != r.end();
    std::string_view sv = n;
    rt::check(c.contains(n) == in, [&] { return "contains(" + rt::esc(n) + ") is " + (in ? "false" : "true"); });
    auto g = c.get(n);
    auto h = q.get(n);
    auto k = c.get(sv);
    auto l = q.get(sv);
    rt::check(g.has_value() == in && h.has_value() == in && k.has_value() == in && l.has_value() == in, [&] { return "get(" + rt::esc(n) + ") has " + (in ? "no value" : "a value"); });
    if (in) {
      rt::check(*g == it->second && *h == it->second && *k == it->second && *l == it->second, [&] { return "get(" + rt::esc(n) + ") is " + rt::esc(*g) + ", expected " + rt::esc(it->second); });
      rt::check(&*h == &q.at(n) && &*g == &c.at(n), "get() does not refer to the value in the map");
    }
    bool thrown = false;
    try {
      auto const& v = c.at(n);
      rt::check(!in || v == it->second, [&] { return "at(" + rt::esc(n) + ") is " + rt::esc(v); });
    } catch (std::out_of_range const&) {
      thrown = true;
    }
    rt::check(thrown == !in, [&] { return "at(" + rt::esc(n) + (in ? ") throws" : ") does not throw"); });
  }
  ref seen;
  std::string s;
  for (auto it = c.begin(); it != c.end(); ++it) {
    rt::check(seen.emplace(it->first, it->second).second, "iteration visits a name twice");
    s += it->first + "=" + it->second + "&";
  }
  rt::check(seen == r, "iteration does not visit the entries");
  if (!s.empty()) s.pop_back();
  auto t = c.to_string();
  rt::check(t == s, [&] { return "to_string() is " + rt::esc(t) + ", expected " + rt::esc(s); });
}
static void history(std::vector<std::string> const& names, std::size_t n)
{
  query_map q;
  ref r;
  std::string h = "query_map q;";
  for (std::size_t i = 0; i < n; ++i) {
    auto k = names[rt::rnd(names.size())];
    auto v = rt::rnd(3) ? rt::text("ab=& %\x80", 3) : std::string();
    switch (rt::rnd(8)) {
    case 0: case 1:
      h += " q.set(" + rt::esc(k) + "," + rt::esc(v) + ");";
      rt::c(h);
      q.set(k, v);
      r[k] = v;
      break;
    case 2: {
      h += " q.erase(" + rt::esc(k) + ");";
      rt::c(h);
      auto e = q.erase(k);
      auto it = r.find(k);
      rt::check(e.has_value() == (it != r.end()), "erase() returns the wrong state");
      if (e) { rt::check(*e == it->second, [&] { return "erase() returns " + rt::esc(*e); }); r.erase(it); }
      break;
    }
    case 3: {
      h += " q[" + rt::esc(k) + "];";
      rt::c(h);
      rt::check(q[k] == r[k], "operator[] gives another value");
      break;
    }
    case 4:
      h += " q[" + rt::esc(k) + "]=" + rt::esc(v) + ";";
      rt::c(h);
      q[k] = v;
      r[k] = v;
      break;
    case 5:
      if (rt::rnd(6) == 0) { h += " q.clear();"; rt::c(h); q.clear(); r.clear(); }
      break;
    case 6:
      if (auto g = q.get(k)) { h += " *q.get(" + rt::esc(k) + ")=" + rt::esc(v) + ";"; rt::c(h); *g = v; r[k] = v; }
      break;
    default:
      if (r.count(k)) { h += " q.at(" + rt::esc(k) + ")=" + rt::esc(v) + ";"; rt::c(h); q.at(k) = v; r[k] = v; }
    }
    agree(q, r, names);
  }
}
static void from(std::string const& s)
{
  auto t = "/?" + s;
  auto u = boost::urls::parse_origin_form(t);
  if (!u) return;
  rt::c("query_map::from(params of " + rt::esc(s) + ")");
  ref r;
  for (auto p : u->params()) if (p.has_value) r[p.key] = p.value;
  auto q = query_map::from(u->params());
  std::vector<std::string> names { "a", "b", "", "ab", "A" };
  for (auto& [k, v] : r) names.push_back(k);
  agree(q, r, names);
}
void search()
{
  std::vector<std::string> names { "", "a", "A", "b", "ab", std::string("a\0b", 3), std::string("a\0c", 3), std::string(40, 'x'), std::string(40, 'x') + "y", "name", "=", "&" };
  { query_map q; rt::c("query_map{}"); agree(q, {}, names); }
  rt::all("ab=&", 7, from);
  rt::all("a=&%41", 6, from);
  for (int i = 0; i < 1500 && rt::time_left(); ++i) history(names, 1 + rt::rnd(12));
  for (int i = 0; i < 20000 && rt::time_left(); ++i) from(rt::text("abA=&+%20", 24));
}
