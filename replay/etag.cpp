#include <fitoria/http/header/entity_tag.hpp>
#include <fitoria/http/header/if_none_match.hpp>
#include "rt.hpp"
using namespace fitoria;
using http::header::entity_tag;
using http::header::if_none_match;
static bool etagc(char c) { auto u = static_cast<unsigned char>(c); return u == 0x21 || (u >= 0x23 && u != 0x7f); }
struct tag { bool strong; std::string value; };
static bool ref(std::string s, tag& t)
{
  t.strong = true;
  if (s.size() >= 2 && s[0] == 'W' && s[1] == '/') { t.strong = false; s = s.substr(2); }
  if (s.size() < 2 || s.front() != '"' || s.back() != '"') return false;
  t.value = s.substr(1, s.size() - 2);
  for (char c : t.value) if (!etagc(c)) return false;
  return true;
}
struct hv {
  std::vector<char> v;
  hv(std::string const& s) : v(s.begin(), s.end()) { v.shrink_to_fit(); }
  std::string_view sv() const { return { v.data(), v.size() }; }
};
static void one(std::string const& s)
{
  hv h(s);
  rt::c("entity_tag::parse(" + rt::esc(s) + ")");
  tag t;
  bool ok = ref(s, t);
  auto r = entity_tag::parse(h.sv());
  rt::check(static_cast<bool>(r) == ok, ok ? "rejected" : "accepted");
  if (ok) rt::check(r->strong() == t.strong && r->value() == t.value, [&] { return "wrong tag: value " + rt::esc(r->value()); });
}
static void ser(std::string const& v)
{
  for (bool st : { true, false }) {
    rt::c(std::string("entity_tag(") + (st ? "strong, " : "weak, ") + rt::esc(v) + ")");
    entity_tag t(st, v), u = st ? entity_tag::make_strong(v) : entity_tag::make_weak(v);
    rt::check(t == u && u.strong() == st && u.value() == v, "make_strong/make_weak");
    auto s = t.to_string();
    rt::check(s == (st ? "\"" : "W/\"") + v + "\"", [&] { return "to_string gave " + rt::esc(s); });
    bool valid = true;
    for (char c : v) valid = valid && etagc(c);
    if (valid) {
      auto r = entity_tag::parse(s);
      rt::check(r && *r == t, "does not parse back to itself");
    }
    entity_tag o(!st, v), p(st, v + "x");
    rt::check(!(t == o) && t.weakly_equal_to(o) && !(t == p) && !t.weakly_equal_to(p) && t.weakly_equal_to(t), "comparison");
  }
}
static std::string trimmed(std::string s)
{
  auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (!s.empty() && ws(s.front())) s.erase(0, 1);
  while (!s.empty() && ws(s.back())) s.pop_back();
  return s;
}
static void list(std::string const& s)
{
  hv h(s);
  rt::c("if_none_match::parse(" + rt::esc(s) + ")");
  auto r = if_none_match::parse(h.sv());
  auto t = trimmed(s);
  bool any = t == "*", ok = true;
  std::vector<tag> want;
  if (!any) {
    std::vector<std::string> parts(1);
    bool q = false;
    for (char c : t) {
      if (c == ',' && !q) { parts.emplace_back(); q = false; continue; }
      if (c == '"') q = !q;
      parts.back() += c;
    }
    for (auto& p : parts) {
      tag x;
      if (!ref(trimmed(p), x)) { ok = false; break; }
      want.push_back(x);
    }
  }
  rt::check(static_cast<bool>(r) == ok, ok ? "rejected" : "accepted");
  if (!ok) return;
  rt::check(r->is_any() == any, "is_any");
  rt::check(r->etags().size() == want.size(), "wrong number of tags");
  for (std::size_t i = 0; i < want.size(); ++i)
    rt::check(r->etags()[i].strong() == want[i].strong && r->etags()[i].value() == want[i].value, "wrong tag");
}
void search()
{
  bool l = rt::mode == "H03";
  auto both = [&](std::string const& s) { if (l) list(s); else one(s); };
  for (int c = 0; c < 256; ++c) {
    char x = static_cast<char>(c);
    for (auto t : { "@", "\"@\"", "W/\"@\"", "\"a@b\"", "@\"a\"", "\"a\"@", "W@\"a\"", "@/\"a\"", "\"a\",@\"b\"", "\"a\"@\"b\"", "\"a@,\"" }) {
      std::string s = t;
      s[s.find('@')] = x;
      both(s);
      if (l) list(" " + s + " ,\"z\""); 
    }
    if (!l) { ser(std::string(1, x)); ser(std::string("a") + x + "b"); }
  }
  rt::all("W/\"a", 7, both);
  rt::all("\", aW/*", 6, both);
  if (!l) rt::all("aW/\",", 5, ser);
  std::vector<std::string> frag { "\"a\"", "W/\"b\"", "\"\"", "\"a,b\"", "*", " ", ",", ", ", "W/", "\"", "a", "W/\",\"", "\"\xff\"", "\"\x7f\"", "\t" };
  while (rt::time_left(25)) {
    std::string s;
    for (auto n = rt::rnd(8); n-- > 0;) s += frag[rt::rnd(frag.size())];
    both(s);
    s.clear();
    for (auto n = 1 + rt::rnd(5); n-- > 0;) { s += frag[rt::rnd(5)]; if (n) s += rt::rnd(2) ? "," : " , "; }
    both(s);
    if (!l) ser(rt::bytes(12));
  }
}
