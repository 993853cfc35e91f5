#include <fitoria/web/path_matcher.hpp>
#include "rt.hpp"
using namespace fitoria;
using namespace fitoria::web;
using caps = std::vector<std::pair<std::string, std::string>>;
// reference: the pattern text read left to right; "{n}" is a non-empty segment, "#n" the rest
static bool ref(std::string const& t, std::string const& p, caps& out)
{
  std::size_t i = 0, j = 0;
  while (i < t.size()) {
    if (t[i] == '{') {
      auto e = t.find('}', i);
      auto k = j;
      while (k < p.size() && p[k] != '/') ++k;
      if (k == j) return false;
      out.emplace_back(t.substr(i + 1, e - i - 1), p.substr(j, k - j));
      i = e + 1;
      j = k;
    } else if (t[i] == '#') {
      out.emplace_back(t.substr(i + 1), p.substr(j));
      return true;
    } else {
      if (j >= p.size() || p[j] != t[i]) return false;
      ++i;
      ++j;
    }
  }
  return j == p.size();
}
static void one(path_matcher const& m, std::string const& t, std::string const& p)
{
  rt::c("path_matcher(" + rt::esc(t) + ").match(" + rt::esc(p) + ")");
  caps w;
  bool ok = ref(t, p, w);
  auto r = m.match(p);
  rt::check(static_cast<bool>(r) == ok, ok ? "does not match" : "matches");
  if (!ok) return;
  rt::check(r->size() == w.size(), [&] { return std::to_string(r->size()) + " captures, expected " + std::to_string(w.size()); });
  for (std::size_t i = 0; i < w.size(); ++i) {
    rt::check((*r)[i].first == w[i].first, [&] { return "capture name " + rt::esc((*r)[i].first) + ", expected " + rt::esc(w[i].first); });
    rt::check((*r)[i].second == w[i].second, [&] { return "capture " + rt::esc((*r)[i].second) + ", expected " + rt::esc(w[i].second); });
  }
}
static void pattern(std::string const& t, std::vector<std::string> const& ps)
{
  rt::c("path_matcher(" + rt::esc(t) + ")");
  path_matcher m(t);
  rt::check(m.pattern() == t, [&] { return "pattern() is " + rt::esc(m.pattern()); });
  path_parser<true> pp;
  if (pp.parse(t)) {
    auto tk = pp.get();
    rt::check(m.tokens() == tk, "tokens() are not the parsed tokens");
  }
  for (auto& p : ps) one(m, t, p);
}
void search()
{
  std::vector<std::string> ps;
  rt::all("a/x", 5, [&](std::string const& s) { ps.push_back(s); });
  for (auto s : { "/a+b(c)", "/aab(c)", "/a.b", "/axb", "/{", "/a{1}", "/a/{x}", "/[a]", "/a*", "/a?", "/^a$", "/a|b", "/\\d", "/a\nb", "/\n", "/a/\n", "/%20", "/a/ /x", "/{a}/b", "/#a", "/a#x", "/a$b", "/a}b" }) ps.push_back(s);
  ps.push_back(std::string("/a\0b", 4));
  ps.push_back("/\xff\x80");
  for (auto t : { "", "/", "/a", "/{x}", "/{x}/a", "/a/{x}", "/{x}/{y}", "/#y", "/a#y", "/a/#y", "#y", "/{x}/#y", "/a/{x}/x/{y}/#z", "/a+b(c)", "/a.b", "/a*", "/a$b", "/a.b/{x}", "//", "/{a}", "/%20", "/a/{a.b}", "/{x}/", "/{x}//{y}", "/aa/{x}", "/a/{b+c}/#d*", "/x/{a}/{b}/{c}/{d}" }) pattern(t, ps);
  while (rt::time_left()) {
    std::string t;
    std::vector<std::string> q;
    std::size_t segs = rt::rnd(5);
    int nm = 0;
    std::string base;
    for (std::size_t k = 0; k < segs; ++k) {
      t += "/";
      base += "/";
      if (rt::rnd(2)) {
        t += "{p" + std::to_string(nm++) + "}";
        base += "v" + rt::text("ab.{", 3);
      } else {
        auto s = rt::text("a.+b(", 3);
        t += s;
        base += s;
      }
    }
    if (rt::rnd(3) == 0 && (t.empty() || t.back() != '}')) {
      t += "#w";
      base += rt::text("ab/", 4);
    }
    q.push_back(base);
    for (int k = 0; k < 6; ++k) {
      auto b = base;
      if (rt::rnd(2)) b.insert(rt::rnd(b.size() + 1), 1, "/ax."[rt::rnd(4)]);
      else if (!b.empty()) b.erase(rt::rnd(b.size()), 1);
      q.push_back(b);
    }
    pattern(t, q);
  }
}
