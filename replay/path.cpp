#include <fitoria/web/path_parser.hpp>
#include "rt.hpp"
#include <regex>
using namespace fitoria::web;
// reference written from the grammar: static text, "{name}" as a whole segment, "#name" last
static bool pch(std::string const& s, std::size_t& i, bool slash)
{
  static const std::string ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@";
  if (i >= s.size()) return false;
  if (s[i] == '/' && slash) { ++i; return true; }
  if (ok.find(s[i]) != std::string::npos && s[i] != '\0') { ++i; return true; }
  auto hex = [&](std::size_t k) { return k < s.size() && std::string("0123456789abcdefABCDEF").find(s[k]) != std::string::npos && s[k] != '\0'; };
  if (s[i] == '%' && hex(i + 1) && hex(i + 2)) { i += 3; return true; }
  return false;
}
static bool ref(std::string const& s, bool wild, path_tokens_t& out)
{
  out.clear();
  std::size_t i = 0;
  auto name_ok = [&](std::string const& n) {
    if (n.empty()) return false;
    for (auto& t : out) if (t.value == n) return false;
    return true;
  };
  for (;;) {
    auto b = i;
    while (i < s.size() && s[i] != '{' && s[i] != '#') if (!pch(s, i, true)) return false;
    auto st = s.substr(b, i - b);
    if (i == s.size()) {
      if (!st.empty()) out.push_back({ path_token_kind::static_, st });
      return true;
    }
    out.push_back({ path_token_kind::static_, st });
    if (s[i] == '#') {
      if (!wild) return false;
      b = ++i;
      while (i < s.size()) if (!pch(s, i, false)) return false;
      auto n = s.substr(b);
      if (!name_ok(n)) return false;
      out.push_back({ path_token_kind::wildcard, n });
      return true;
    }
    if (st.empty() || st.back() != '/') return false;
    b = ++i;
    while (i < s.size() && s[i] != '}') if (!pch(s, i, false)) return false;
    if (i == s.size()) return false;
    auto n = s.substr(b, i - b);
    if (!name_ok(n)) return false;
    out.push_back({ path_token_kind::param, n });
    ++i;
    if (i < s.size() && s[i] != '/') return false;
  }
}
static std::string show(path_tokens_t const& t)
{
  std::string r;
  for (auto& x : t) r += (x.kind == path_token_kind::static_ ? "static " : x.kind == path_token_kind::param ? "param " : "wildcard ") + rt::esc(x.value) + " ";
  return r;
}
template <bool W> static void one(std::string const& s)
{
  std::vector<char> heap(s.begin(), s.end());
  heap.shrink_to_fit();
  rt::c(std::string("path_parser<") + (W ? "true" : "false") + ">::parse(" + rt::esc(s) + ")");
  path_tokens_t want;
  bool ok = ref(s, W, want);
  static path_parser<W> p; // one object reused: a parse does not depend on the previous one
  bool r = p.parse(std::string_view(heap.data(), heap.size()));
  auto got = p.get();
  rt::check(r == ok, r ? "accepted" : "rejected");
  if (ok) {
    rt::check(got == want, [&] { return "tokens " + show(got) + "expected " + show(want); });
    std::string back;
    for (auto& t : got) back += t.kind == path_token_kind::static_ ? t.value : t.kind == path_token_kind::param ? "{" + t.value + "}" : "#" + t.value;
    rt::check(back == s, "the tokens do not spell the pattern");
  }
}
static void both(std::string const& s) { one<true>(s); one<false>(s); }
void search()
{
  both("");
  for (int c = 0; c < 256; ++c) {
    char x = static_cast<char>(c);
    for (auto t : { "@", "/@", "/{@}", "/{a@b}", "/#@", "/#a@", "/a@/b", "%@", "%0@", "%@0", "/{%@0}", "/{%0@}", "#%0@", "#%@0", "/{a}@", "/{a}/@", "@{a}", "a@#b" }) {
      std::string s = t;
      s[s.find('@')] = x;
      both(s);
    }
  }
  rt::all("/{}#a%0b", 7, both);
  while (rt::time_left(30)) {
    std::string s;
    std::vector<std::string> names { "a", "b", "ab", "a%20", "b-c", "abc", "id", "x1" };
    for (auto n = rt::rnd(9); n-- > 0;) {
      auto& nm = names[rt::rnd(names.size())];
      switch (rt::rnd(6)) {
      case 0: s += "/" + nm; break;
      case 1: case 2: s += "/{" + nm + "}"; break;
      case 3: s += "/" + nm + "/"; break;
      case 4: s += "/"; break;
      default: s += rt::rnd(3) ? nm : "#" + nm;
      }
    }
    both(s);
    if (!s.empty()) { s[rt::rnd(s.size())] = "/{}#a%0b\x80"[rt::rnd(9)]; both(s); }
  }
}
