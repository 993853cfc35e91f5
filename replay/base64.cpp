#include <fitoria/encoding/base64.hpp>
#include "rt.hpp"
#include <optional>
#include <stdexcept>
using namespace fitoria::encoding::base64;

static char A(unsigned v, bool url)
{
  if (v < 26) return static_cast<char>('A' + v);
  if (v < 52) return static_cast<char>('a' + (v - 26));
  if (v < 62) return static_cast<char>('0' + (v - 52));
  return v == 62 ? (url ? '-' : '+') : (url ? '_' : '/');
}
static std::string enc(std::string const& in, bool url, bool pad)
{
  std::string o;
  unsigned acc = 0;
  int bits = 0;
  for (unsigned char c : in) {
    acc = (acc << 8 | c) & 0xffffff;
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      o += A((acc >> bits) & 63, url);
    }
  }
  if (bits) o += A((acc << (6 - bits)) & 63, url);
  if (pad)
    while (o.size() % 4) o += '=';
  return o;
}
static int D(char c, bool url)
{
  for (unsigned v = 0; v < 64; ++v)
    if (A(v, url) == c) return static_cast<int>(v);
  return -1;
}
static std::optional<std::string> dec(std::string const& in, bool url)
{
  std::size_t m = 0;
  while (m < in.size() && D(in[m], url) >= 0) ++m;
  auto tail = in.substr(m);
  if (tail.find_first_not_of('=') != std::string::npos || m % 4 == 1) return std::nullopt;
  if (!(tail.empty() || (m % 4 == 2 && tail.size() <= 2) || (m % 4 == 3 && tail.size() == 1))) return std::nullopt;
  std::string o;
  unsigned acc = 0;
  int bits = 0;
  for (std::size_t i = 0; i < m; ++i) {
    acc = (acc << 6 | static_cast<unsigned>(D(in[i], url))) & 0xffffff;
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      o += static_cast<char>((acc >> bits) & 255);
    }
  }
  return o;
}
template <typename E, typename Dc, typename It>
static void one(std::string const& in, bool url, It f, It l, const char* kind)
{
  for (bool pad : { false, true }) {
    rt::c(std::string(url ? "url" : "standard") + " encode, padding " + (pad ? "yes" : "no") + ", " + kind + " input " + rt::esc(in));
    E e(pad ? padding::yes : padding::no);
    std::string o = "#";
    e.encode(f, l, std::back_inserter(o));
    auto want = "#" + enc(in, url, pad);
    rt::check(o == want, [&] { return "got " + rt::esc(o) + " expected " + rt::esc(want); });
    // encoder reusable, and chunking irrelevant
    std::string p;
    auto cut = in.empty() ? 0 : rt::rnd(in.size() + 1);
    auto mid = f + static_cast<std::ptrdiff_t>(cut);
    e.encode_next(f, mid, std::back_inserter(p));
    e.encode_next(mid, l, std::back_inserter(p));
    e.encode_rest(std::back_inserter(p));
    rt::check(p == enc(in, url, pad), [&] { return "in two chunks at " + std::to_string(cut) + ": got " + rt::esc(p); });
    rt::c(std::string(url ? "url" : "standard") + " decode(encode(x)), x = " + rt::esc(in));
    std::string q;
    Dc d;
    d.decode(o.data() + 1, o.data() + o.size(), std::back_inserter(q));
    rt::check(q == in, [&] { return "got " + rt::esc(q); });
  }
}
template <typename Dc, typename It>
static void dec1(std::string const& in, bool url, It f, It l)
{
  rt::c(std::string(url ? "url" : "standard") + " decode " + rt::esc(in));
  auto want = dec(in, url);
  std::string o = "#";
  bool ok = true;
  try {
    Dc d;
    d.decode(f, l, std::back_inserter(o));
  } catch (std::invalid_argument const&) {
    ok = false;
  } catch (...) {
    rt::fail("wrong exception type");
  }
  rt::check(ok == want.has_value(), ok ? "accepted a text that is not base64" : "rejected a base64 text");
  if (ok) rt::check(o == "#" + *want, [&] { return "decoded to " + rt::esc(o.substr(1)) + " expected " + rt::esc(*want); });
  // chunked decoding
  Dc d;
  std::string p;
  auto cut = rt::rnd(in.size() + 1);
  auto mid = f + static_cast<std::ptrdiff_t>(cut);
  d.decode_next(f, mid, std::back_inserter(p));
  d.decode_next(mid, l, std::back_inserter(p));
  rt::check(d.is_done() == want.has_value(), [&] { return "in two chunks at " + std::to_string(cut) + ": done=" + std::to_string(d.is_done()); });
  if (want) rt::check(p == *want, [&] { return "in two chunks at " + std::to_string(cut) + ": " + rt::esc(p); });
}
static void both(std::string const& in)
{
  auto u = reinterpret_cast<std::uint8_t const*>(in.data());
  one<standard_encoder, standard_decoder>(in, false, in.data(), in.data() + in.size(), "char");
  one<url_encoder, url_decoder>(in, true, in.data(), in.data() + in.size(), "char");
  one<standard_encoder, standard_decoder>(in, false, u, u + in.size(), "uint8_t");
  one<url_encoder, url_decoder>(in, true, u, u + in.size(), "uint8_t");
}
static void dboth(std::string const& in)
{
  auto u = reinterpret_cast<std::uint8_t const*>(in.data());
  dec1<standard_decoder>(in, false, in.data(), in.data() + in.size());
  dec1<url_decoder>(in, true, in.data(), in.data() + in.size());
  dec1<standard_decoder>(in, false, u, u + in.size());
  dec1<url_decoder>(in, true, u, u + in.size());
}
void search()
{
  for (int a = 0; a < 256; ++a) {
    both(std::string(1, static_cast<char>(a)));
    dboth(std::string(1, static_cast<char>(a)));
    for (auto pre : { "A", "AA", "AAA", "AAAA", "A=", "AA=", "AAA=", "AA==", "/+-_" })
      for (auto suf : { "", "A", "=", "AA", "==" }) dboth(std::string(pre) + static_cast<char>(a) + suf);
    for (int b = 0; b < 256; ++b) {
      both(std::string { static_cast<char>(a), static_cast<char>(b) });
      if (b % 16 == 5) both(std::string { static_cast<char>(a), static_cast<char>(b), static_cast<char>(a ^ 77) });
    }
  }
  rt::all("Az9+=", 6, dboth);
  while (rt::time_left(25)) {
    both(rt::bytes(40));
    both(rt::bytes(700));
    auto s = rt::bytes(30);
    std::string t = enc(s, rt::rnd(2), rt::rnd(2));
    dboth(t);
    if (!t.empty()) {
      t[rt::rnd(t.size())] = static_cast<char>(rt::rnd(256));
      dboth(t);
      t += '=';
      dboth(t);
    }
  }
}
