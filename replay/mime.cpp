#include <fitoria/mime.hpp>
#include "rt.hpp"
#include <map>
#include <optional>
#include <memory>
using namespace fitoria;
namespace m = fitoria::mime;
using S = std::string;
// ---- independent description of the grammar
static bool al(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool name(S const& s)
{
  if (s.empty() || !al(s[0])) return false;
  for (size_t i = 1; i < s.size(); ++i)
    if (!al(s[i]) && (s[i] == 0 || !std::strchr("!#$&-^_", s[i]))) return false;
  return true;
}
static S trimmed(S s)
{
  while (!s.empty() && sp(s.back())) s.pop_back();
  size_t i = 0;
  while (i < s.size() && sp(s[i])) ++i;
  return s.substr(i);
}
static std::vector<S> cut(S const& s, char d)
{
  std::vector<S> r(1);
  for (char c : s)
    if (c == d) r.emplace_back(); else r.back() += c;
  for (auto& x : r) x = trimmed(x);
  return r;
}
static S low(S s)
{
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
  return s;
}
struct M { S ess, type, sub; std::optional<S> suf; std::map<S, S> par; };
static std::optional<M> parse(S const& s)
{
  auto t = cut(s, ';');
  M r;
  r.ess = t[0];
  auto p = cut(t[0], '/');
  if (p.size() != 2 || !name(p[0])) return {};
  r.type = p[0];
  auto q = cut(p[1], '+');
  if (q.size() > 2) return {};
  for (auto& x : q) if (!name(x)) return {};
  r.sub = q[0];
  if (q.size() == 2) r.suf = q[1];
  for (size_t i = 1; i < t.size(); ++i) {
    auto kv = cut(t[i], '=');
    if (kv.size() != 2 || !name(kv[0]) || !name(kv[1])) return {};
    r.par[low(kv[0])] = kv[1];
  }
  return r;
}
static std::string_view sv(m::name_view n) { return static_cast<std::string_view>(n); }
static void one_parse(S const& s)
{
  rt::c("mime_view::parse(" + rt::esc(s) + ")");
  // exact heap copy: reads past the text are caught
  std::unique_ptr<char[]> b(new char[s.size()]);
  std::memcpy(b.get(), s.data(), s.size());
  std::string_view in(b.get(), s.size());
  auto w = parse(s);
  auto g = m::mime_view::parse(in);
  rt::check(g.has_value() == w.has_value(), [&] { return S(g ? "accepted" : "rejected"); });
  if (!g) return;
  rt::check(sv(g->source()) == s, "wrong source");
  rt::check(sv(g->essence()) == w->ess, "wrong essence " + S(sv(g->essence())));
  rt::check(sv(g->type()) == w->type, "wrong type " + S(sv(g->type())));
  rt::check(sv(g->subtype()) == w->sub, "wrong subtype " + S(sv(g->subtype())));
  rt::check(g->suffix().has_value() == w->suf.has_value(), "suffix presence");
  if (w->suf) rt::check(sv(*g->suffix()) == *w->suf, "wrong suffix");
  auto& pv = g->params();
  rt::check(pv.size() == w->par.size(), "wrong number of parameters " + std::to_string(pv.size()));
  for (auto& [k, v] : w->par) {
    for (S const& kk : { k, [](S x) { for (auto& c : x) c = char(std::toupper(c)); return x; }(k) }) {
      auto o = pv.get(m::name_view(kk));
      rt::check(o.has_value(), "parameter missing: " + kk);
      rt::check(sv(*o) == v, "wrong value of " + kk + ": " + S(sv(*o)));
    }
  }
}
static void ext()
{
  struct { const char* e; const char* t; } T[] = { { "js", "application/javascript" }, { "json", "application/json" }, { "swf", "application/x-shockwave-flash" },
    { "wasm", "application/wasm" }, { "xml", "application/xml" }, { "bmp", "image/bmp" }, { "gif", "image/gif" }, { "jpe", "image/jpeg" }, { "jpeg", "image/jpeg" },
    { "jpg", "image/jpeg" }, { "png", "image/png" }, { "svg", "image/svg+xml" }, { "svgz", "image/svg+xml" }, { "tif", "image/tiff" }, { "tiff", "image/tiff" },
    { "css", "text/css" }, { "htm", "text/html" }, { "html", "text/html" }, { "php", "text/html" }, { "txt", "text/plain" }, { "flv", "video/x-flv" } };
  auto chk = [&](optional<m::mime_view> g, S const& e) {
    const char* w = nullptr;
    for (auto& x : T) if (low(e) == x.e) w = x.t;
    rt::check(g.has_value() == (w != nullptr), g ? "a type for an unknown extension" : "no type for a known extension");
    if (!w) return;
    auto p = *parse(w);
    rt::check(sv(g->source()) == w, "type " + S(sv(g->source())));
    rt::check(sv(g->essence()) == p.ess && sv(g->type()) == p.type && sv(g->subtype()) == p.sub, "parts of " + S(w));
    rt::check(g->suffix().has_value() == p.suf.has_value() && (!p.suf || sv(*g->suffix()) == *p.suf), "suffix of " + S(w));
    rt::check(g->params().empty(), "parameters");
  };
  auto both = [&](S const& e) {
    rt::c("from_extension(" + rt::esc(e) + ")");
    chk(m::mime_view::from_extension(e), e);
    for (S const& pre : { S("."), S("a."), S("/x.y/z."), S("..."), S("/a.js/b.html.") }) {
      rt::c("from_path(" + rt::esc(pre + e) + ")");
      auto p = pre + e;
      chk(m::mime_view::from_path(p), p.substr(p.rfind('.') + 1));
    }
    if (e.find('.') == S::npos) {
      rt::c("from_path(" + rt::esc(e) + ")");
      rt::check(!m::mime_view::from_path(e), "a type without extension");
    }
  };
  for (auto& x : T) {
    S e = x.e;
    both(e);
    for (unsigned k = 0; k < (1u << e.size()); ++k) {
      S v = e;
      for (size_t i = 0; i < v.size(); ++i) if (k >> i & 1) v[i] = char(v[i] - 32);
      both(v);
    }
    for (size_t i = 0; i <= e.size(); ++i)
      for (int c = 0; c < 256; ++c) {
        both(S(e).insert(i, 1, char(c)));
        if (i < e.size()) { S v = e; v[i] = char(c); both(v); both(S(e).erase(i, 1)); }
      }
  }
  both("");
}
static void consts()
{
#define K(n, t) { rt::c("mime::" #n "()"); auto g = m::n(); auto p = *parse(t); \
  rt::check(sv(g.source()) == t && sv(g.essence()) == t && sv(g.type()) == p.type && sv(g.subtype()) == p.sub && g.params().empty() \
    && g.suffix().has_value() == p.suf.has_value() && (!p.suf || sv(*g.suffix()) == *p.suf), "wrong parts"); }
  K(application_javascript, "application/javascript") K(application_json, "application/json") K(application_msgpack, "application/msgpack")
  K(application_octet_stream, "application/octet-stream") K(application_pdf, "application/pdf") K(application_shockwave_flash, "application/x-shockwave-flash")
  K(application_text, "application/text") K(application_wasm, "application/wasm") K(application_www_form_urlencoded, "application/x-www-form-urlencoded")
  K(application_xml, "application/xml") K(image_bmp, "image/bmp") K(image_gif, "image/gif") K(image_jpeg, "image/jpeg") K(image_png, "image/png")
  K(image_svg, "image/svg+xml") K(image_tiff, "image/tiff") K(multipart_form_data, "multipart/form-data") K(text_css, "text/css") K(text_csv, "text/csv")
  K(text_html, "text/html") K(text_javascript, "text/javascript") K(text_plain, "text/plain") K(text_xml, "text/xml") K(video_flv, "video/x-flv")
#undef K
}
static void maps(unsigned long n)
{
  const char* keys[] = { "a", "A", "b", "aB", "Ab", "AB", "ab", "abc", "ABC", "abd", "", "z[", "Z[", "z{", "Z{", "@", "`", "k1", "K1", "q\xe4", "q\xc4", "a-much-longer-parameter-name-than-any-buffer-1", "a-much-longer-parameter-name-than-any-buffer-2",
    "A-Much-Longer-Parameter-Name-Than-Any-Buffer-1" };
  const char* vals[] = { "", "x", "X", "yy", "utf-8" };
  for (unsigned long r = 0; r < n; ++r) {
    m::params_view p;
    std::map<S, S> w;
    S h = "params_view:";
    int len = int(1 + rt::rnd(12));
    for (int i = 0; i < len; ++i) {
      S k = keys[rt::rnd(std::size(keys))], lk = low(k);
      auto v = vals[rt::rnd(std::size(vals))];
      auto kp = keys[0];
      for (auto x : keys) if (k == x) kp = x;
      int op = int(rt::rnd(6));
      h += S(op == 0 ? " set(" : op == 1 ? " [](" : op == 2 ? " erase(" : op == 3 ? " get(" : op == 4 ? " at(" : " clear(") + rt::esc(k) + "," + rt::esc(v) + ")";
      rt::c(h);
      if (op == 0) { p.set(kp, v); w[lk] = v; }
      else if (op == 1) { rt::check(sv(p[kp]) == w[lk], "operator[] value"); }
      else if (op == 2) { auto g = p.erase(kp); rt::check(g.has_value() == (w.count(lk) > 0), "erase presence"); if (g) rt::check(sv(*g) == w[lk], "erased value"); w.erase(lk); }
      else if (op == 4) {
        bool thrown = false;
        try { rt::check(sv(p.at(kp)) == (w.count(lk) ? w[lk] : S("?")), "at value"); } catch (std::out_of_range&) { thrown = true; }
        rt::check(thrown == !w.count(lk), "at presence");
      } else if (op == 5 && rt::rnd(3) == 0) { p.clear(); w.clear(); }
      rt::check(p.size() == w.size(), "size " + std::to_string(p.size()) + " instead of " + std::to_string(w.size()));
      rt::check(p.empty() == w.empty(), "empty()");
      for (auto x : keys) {
        auto it = w.find(low(x));
        rt::check(p.contains(x) == (it != w.end()), "contains " + S(x));
        auto g = p.get(x);
        auto g2 = std::as_const(p).get(x);
        rt::check(g.has_value() == (it != w.end()) && g2.has_value() == g.has_value(), "get presence of " + S(x));
        if (g) rt::check(sv(*g) == it->second && sv(*g2) == it->second, "value of " + S(x));
      }
    }
  }
}
static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
static void cmp(S const& a, S const& b)
{
  rt::c("name_view " + rt::esc(a) + " against " + rt::esc(b));
  S x = low(a), y = low(b);
  auto c = [](S s) { std::vector<int> v; for (char k : s) v.push_back(k < -1 ? k + 256 : k); return v; };
  int o = c(x) < c(y) ? -1 : c(x) == c(y) ? 0 : 1;
  m::name_view n(a), k(b);
  rt::check((n == k) == (o == 0) && (n == std::string_view(b)) == (o == 0), "equality");
  rt::check(sgn(n <=> k) == o && sgn(n <=> std::string_view(b)) == o, "order");
  if (b.find('\0') == S::npos) rt::check((n == b.c_str()) == (o == 0) && sgn(n <=> b.c_str()) == o, "comparison with a C string");
  rt::check(n.to_string() == x, "to_string " + rt::esc(n.to_string()));
  auto ma = m::mime_view::parse(a), mb = m::mime_view::parse(b);
  if (ma) rt::check((*ma == std::string_view(b)) == (o == 0) && sgn(*ma <=> std::string_view(b)) == o, "mime_view against text");
  if (ma && mb) rt::check((*ma == *mb) == (o == 0) && sgn(*ma <=> *mb) == o, "mime_view comparison");
}
void search()
{
  if (rt::mode == "M01") {
    for (auto s : { "", "text/plain", "text/plain;", "a/b;c=d;C=e", " text / plain ; a = b ", "image/svg+xml", "a/b+c+d", "a/b/c", "a/b;c=d=e", "a/+b", "a/b+" }) one_parse(s);
    // all single bytes in every position of a well-formed type
    for (S base : { S("a1/b1+c1;d1=e1;D1=f1"), S("text/plain; charset=utf-8") })
      for (size_t i = 0; i <= base.size(); ++i)
        for (int c = 0; c < 256; ++c) {
          one_parse(S(base).insert(i, 1, char(c)));
          if (i < base.size()) { S v = base; v[i] = char(c); one_parse(v); one_parse(base.substr(0, i)); one_parse(base.substr(i)); }
        }
    rt::all("a/+;=", 7, one_parse);
    const char A[] = "aB/+;= -!1.";
    for (int i = 0; i < 300000; ++i) {
      S s;
      int k = int(1 + rt::rnd(6));
      const char* bits[] = { "a/b", "a/b+c", ";", ";a=b", "; A=c", ";b=", "=", "+", "/", " ", ";a=d", ";d=Q", "x", "+x", ".", "-" };
      while (k--) s += rt::rnd(4) ? S(bits[rt::rnd(std::size(bits))]) : S(1, A[rt::rnd(sizeof A - 1)]);
      one_parse(s);
    }
  } else if (rt::mode == "M02") {
    ext();
    consts();
    for (int i = 0; i < 100000; ++i) {
      S s;
      int k = int(rt::rnd(6));
      while (k--) s += "jJsShHtTmMlLpPnN.x"[rt::rnd(18)];
      rt::c("from_path(" + rt::esc(s) + ")");
      auto d = s.rfind('.');
      if (d == S::npos) rt::check(!m::mime_view::from_path(s), "a type without extension");
      else rt::check(m::mime_view::from_path(s).has_value() == m::mime_view::from_extension(s.substr(d + 1)).has_value(), "not the type of its extension");
    }
  } else {
    for (int a = 0; a < 256; ++a)
      for (int b = 0; b < 256; ++b) { cmp(S(1, char(a)), S(1, char(b))); cmp(S("x") + char(a) + "y", S("X") + char(b) + "Y"); }
    rt::all("aAbB", 4, [](S const& a) { rt::all("aAb", 4, [&](S const& b) { cmp(a, b); }); });
    cmp("text/HTML", "TEXT/html"); cmp("a/b", "a/b;c=d");
    for (size_t n = 0; n < 300; n = n < 70 ? n + 1 : n * 2) {
      S p(n, 'q');
      for (S const& a : { S(""), S("a"), S("A"), S("b"), S("ab") })
        for (S const& b : { S(""), S("a"), S("b"), S("B"), S("bA") }) { cmp(p + a, p + b); cmp(a + p, b + p); cmp(a + p + a, a + p + b); }
    }
    for (int i = 0; i < 30000; ++i) {
      S a = rt::bytes(40), b = a;
      for (int k = int(rt::rnd(3)); k > 0 && !b.empty(); --k) { auto& c = b[rt::rnd(b.size())]; c = rt::rnd(2) ? char(c ^ 32) : char(rt::rnd(256)); }
      if (rt::rnd(4) == 0) b = b.substr(0, rt::rnd(b.size() + 1));
      cmp(a, b);
    }
    maps(30000);
  }
}
