#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>
#include "rt.hpp"
#include <algorithm>
#include <map>
using namespace fitoria;
using namespace fitoria::web;
using router_type = router<int, int>;
// reference: a pattern is a list of symbols (a char, a parameter, a wildcard); written from the documentation, by brute force
static const int PAR = 1000, WLD = 1001;
using pat = std::vector<int>;
struct entry {
  std::string text;
  pat q;
  http::verb m;
  int id;
};
static pat symbols(std::string const& s)
{
  pat q;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '{') {
      q.push_back(PAR);
      while (s[i] != '}') ++i;
    } else if (s[i] == '#') {
      q.push_back(WLD);
      break;
    } else {
      q.push_back(static_cast<unsigned char>(s[i]));
    }
  }
  return q;
}
static bool match(pat const& q, std::size_t i, std::string const& p, std::size_t j)
{
  if (i == q.size()) return j == p.size();
  if (q[i] == WLD) return true;
  if (q[i] == PAR) {
    auto e = p.find('/', j);
    if (e == std::string::npos) e = p.size();
    return e > j && match(q, i + 1, p, e);
  }
  return j < p.size() && static_cast<unsigned char>(p[j]) == q[i] && match(q, i + 1, p, j + 1);
}
static int rank(int c) { return c == PAR ? 1 : c == WLD ? 2 : 0; }
static bool better(pat const& a, pat const& b) // a before b at the first difference
{
  for (std::size_t i = 0;; ++i) {
    int ra = i < a.size() ? rank(a[i]) : 0, rb = i < b.size() ? rank(b[i]) : 0;
    if (ra != rb) return ra < rb;
    if (i >= a.size() || i >= b.size() || a[i] != b[i]) return false;
  }
}
static int want(std::vector<entry> const& es, http::verb m, std::string const& p)
{
  entry const* best = nullptr;
  for (auto& e : es) {
    if ((e.m != m && e.m != http::verb::unknown) || !match(e.q, 0, p, 0)) continue;
    if (!best || (e.q == best->q ? (e.m == m && best->m != m) : better(e.q, best->q))) best = &e;
  }
  return best ? best->id : -1;
}
static router_type::route_type mk(entry const& e)
{
  int id = e.id;
  return router_type::route_type(routable(e.m, path_matcher(e.text), {}, [id](int) { return id; }));
}
static const char* vn(http::verb v)
{
  return v == http::verb::unknown ? "any" : v == http::verb::get ? "GET" : v == http::verb::put ? "PUT" : "POST";
}
static void look(router_type const& r, std::vector<entry> const& es, http::verb m, std::string const& p, std::string const& h)
{
  rt::c(h + " find " + vn(m) + " " + rt::esc(p));
  int w = want(es, m, p);
  std::vector<char> heap(p.begin(), p.end());
  heap.shrink_to_fit();
  auto res = r.try_find(m, std::string_view(heap.data(), heap.size()));
  rt::check(res.has_value() == (w >= 0), [&] { return res ? "found route " + std::to_string((*res)(0)) + ", none matches" : "not found, expected route " + std::to_string(w); });
  if (res) {
    int got = (*res)(0);
    rt::check(got == w, [&] { return "route " + std::to_string(got) + ", expected " + std::to_string(w); });
    auto ms = res->matcher().match(p);
    rt::check(static_cast<bool>(ms), "the matcher of the chosen route rejects the path");
  } else {
    rt::check(res.error() == make_error_code(error::route_not_exists), "another error than route_not_exists");
  }
}
static void run(std::vector<std::pair<std::string, http::verb>> const& ops, std::vector<std::string> const& paths, int opt)
{
  router_type r;
  std::vector<entry> es;
  std::string h = "router";
  int id = 0;
  auto all = [&] {
    for (auto& p : paths)
      for (auto m : { http::verb::get, http::verb::put, http::verb::unknown, http::verb::post }) look(r, es, m, p, h);
  };
  for (auto& [t, m] : ops) {
    entry e { t, symbols(t), m, id++ };
    h += std::string(" insert#") + std::to_string(e.id) + "(" + vn(m) + " " + rt::esc(t) + ")";
    rt::c(h);
    bool dup = std::any_of(es.begin(), es.end(), [&](auto& x) { return x.m == e.m && x.q == e.q; });
    auto res = r.try_insert(mk(e));
    rt::check(res.has_value() == !dup, dup ? "accepted although the pattern and method are taken" : "rejected although the pattern and method are free");
    if (dup) rt::check(res.error() == make_error_code(error::route_already_exists), "another error than route_already_exists");
    else es.push_back(e);
    if (opt == 2) {
      h += " optimize";
      r.optimize();
    }
  }
  all();
  if (opt == 1) {
    for (int k = 0; k < 2; ++k) {
      h += " optimize";
      r.optimize();
      all();
    }
  }
}
void search()
{
  auto G = http::verb::get, P = http::verb::put, U = http::verb::unknown;
  std::vector<std::string> ps = { "", "/", "//", "/a", "/b", "/ab", "/abc", "/abd", "/a/", "//a", "/x/a", "/a/b", "/a/b/c", "/a/x/b", "/b/a", "/ab/", "/abc/x", "/a//b", "x", "/a/b/", "/x/y/z", "/abcd", "/a/bc", "/ac" };
  std::vector<std::string> pt = { "/a", "/ab", "/abc", "/abd", "/", "", "/{x}", "/{x}/a", "/#y", "/a/{x}", "/a/#y", "/{x}/{y}", "/a/{x}/b", "/{x}/#y", "/ab/{x}", "#y", "//", "/a#y", "/ab#y", "/abc/{x}" };
  for (auto& a : pt)
    for (auto& b : pt)
      for (int o = 0; o < 2; ++o) run({ { a, G }, { b, o ? U : G } }, ps, 1);
  for (auto& a : pt)
    for (auto& b : pt)
      for (auto& c : pt) {
        if (!rt::time_left(20)) break;
        run({ { a, U }, { b, G }, { c, rt::rnd(2) ? P : G } }, ps, static_cast<int>(rt::rnd(3)));
      }
  while (rt::time_left()) {
    std::vector<std::pair<std::string, http::verb>> ops;
    std::vector<std::string> q;
    std::size_t n = 2 + rt::rnd(9);
    http::verb vs[] = { G, G, P, U };
    for (std::size_t i = 0; i < n; ++i) {
      std::string t, p;
      std::size_t segs = rt::rnd(4);
      int nm = 0;
      for (std::size_t k = 0; k < segs; ++k) {
        t += "/";
        p += "/";
        if (rt::rnd(3) == 0) {
          t += "{p" + std::to_string(nm++) + "}";
          p += rt::text("abc", 3);
        } else {
          auto s = rt::text("aab", 3);
          t += s;
          p += s;
        }
      }
      if (rt::rnd(4) == 0) {
        if (t.empty() || t.back() != '}') {
          t += rt::rnd(2) && !t.empty() && t.back() != '/' ? "/#w" : "#w";
          p += rt::text("ab/", 4);
        } else {
          t += "/#w";
          p += "/" + rt::text("ab/", 4);
        }
      }
      ops.push_back({ t, vs[rt::rnd(4)] });
      q.push_back(p);
      q.push_back("/" + rt::text("aab/", 6));
    }
    if (rt::rnd(3) == 0) ops.push_back(ops[rt::rnd(ops.size())]);
    std::shuffle(ops.begin(), ops.end(), rt::rng());
    run(ops, q, static_cast<int>(rt::rnd(3)));
  }
}
