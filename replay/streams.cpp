#define STUB_BODIES
#include "../tu/file_stub.hpp"
#include <boost/beast.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_file_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/async_write_chunks.hpp>
#include "rt.hpp"
using namespace fitoria;
using namespace fitoria::web;
static const std::error_code denied = boost::system::error_code(boost::asio::error::access_denied);
using item = optional<expected<bytes, std::error_code>>;
static bytes by(std::string const& s) { return bytes(reinterpret_cast<std::byte const*>(s.data()), reinterpret_cast<std::byte const*>(s.data()) + s.size()); }
static std::string st(bytes const& b) { return std::string(reinterpret_cast<char const*>(b.data()), b.size()); }
static std::string st(std::string const& b) { return b; }
// delivers the chunks, then the end or an error; counts the reads
struct source {
  using is_async_readable_stream = void;
  std::vector<std::string> chunks;
  bool fails = false;
  std::size_t next = 0, beyond = 0;
  auto async_read_some() -> awaitable<item>
  {
    if (next < chunks.size()) {
      co_return by(chunks[next++]);
    }
    ++beyond;
    if (fails) {
      co_return unexpected { make_error_code(std::errc::io_error) };
    }
    co_return nullopt;
  }
  std::string all() const
  {
    std::string s;
    for (auto& c : chunks) s += c;
    return s;
  }
  std::string show() const
  {
    std::string s = "a stream delivering";
    for (auto& c : chunks) s += " " + (c.size() > 40 ? std::to_string(c.size()) + " bytes" : rt::esc(c));
    return s + (fails ? " and then an error" : " and then the end");
  }
};
template <typename T> static T run(awaitable<T> a, boost::asio::io_context& ioc)
{
  std::exception_ptr ep;
  std::optional<T> r;
  boost::asio::co_spawn(executor_type(ioc.get_executor()), [&]() -> awaitable<void> { r.emplace(co_await std::move(a)); }, [&](std::exception_ptr e) { ep = e; });
  ioc.run();
  if (ep) {
    std::rethrow_exception(ep);
  }
  rt::check(r.has_value(), "the operation never completes");
  return std::move(*r);
}
template <typename T> static T run(awaitable<T> a)
{
  boost::asio::io_context ioc;
  return run(std::move(a), ioc);
}
static std::string undo(std::string const& w, bool& complete)
{
  std::string s;
  std::size_t p = 0;
  for (;;) {
    auto e = w.find("\r\n", p);
    if (e == std::string::npos) { complete = false; return s; }
    auto n = std::stoul(w.substr(p, e - p), nullptr, 16);
    if (n == 0) { complete = w.substr(e) == "\r\n\r\n"; return s; }
    s += w.substr(e + 2, n);
    p = e + 2 + n + 2;
  }
}
static void one(source const& s0)
{
  auto exp = s0.all();
  auto judge = [&](source& s, bool has, std::error_code ec, std::string const& what) {
    rt::check(has == !s.fails, what + (has ? " succeeds although the stream fails" : " fails although the stream does not"));
    rt::check(has || ec == make_error_code(std::errc::io_error), what + " reports another error than the stream's");
    rt::check(s.next == s.chunks.size() && s.beyond == 1, what + " does not read the stream exactly to its end");
  };
  {
    rt::c("async_read_until_eof<std::string> of " + s0.show());
    auto s = s0;
    auto r = run(async_read_until_eof<std::string>(s));
    judge(s, r.has_value(), r ? std::error_code() : r.error(), "async_read_until_eof");
    rt::check(!r || *r == exp, [&] { return "the result is " + rt::esc(r->substr(0, 80)); });
  }
  {
    rt::c("async_read_until_eof<bytes> of " + s0.show());
    auto s = s0;
    auto r = run(async_read_until_eof<bytes>(s));
    judge(s, r.has_value(), r ? std::error_code() : r.error(), "async_read_until_eof");
    rt::check(!r || st(*r) == exp, [&] { return "the result is " + rt::esc(st(*r).substr(0, 80)); });
  }
  for (int k = 0; k < 2; ++k) {
    std::size_t after = rt::rnd(s0.chunks.size() + 1);
    rt::c("async_read_into_stream_file(f) with f holding \"old\" of " + s0.show() + (k ? "; write number " + std::to_string(after) + " fails" : ""));
    auto s = s0;
    stream_file f;
    f.content = "old";
    std::size_t n = 0;
    if (k) {
      f.limit = [&](std::size_t m) { return n++ == after ? -1 : static_cast<int>(m); };
    }
    auto r = run(async_read_into_stream_file(s, f));
    if (k && after < s0.chunks.size()) {
      rt::check(!r.has_value(), "succeeds although a write fails");
      rt::check(r.error() == denied, "reports another error than the file's");
      continue;
    }
    judge(s, r.has_value(), r ? std::error_code() : r.error(), "async_read_into_stream_file");
    rt::check(f.content == "old" + exp, [&] { return "the file holds " + rt::esc(f.content.substr(0, 80)); });
    rt::check(!r || *r == exp.size(), [&] { return "reports " + std::to_string(*r) + " bytes, expected " + std::to_string(exp.size()); });
  }
  {
    rt::c("async_write_chunks of " + s0.show());
    auto s = s0;
    boost::asio::io_context ioc;
    test_stream a(executor_type(ioc.get_executor())), b(executor_type(ioc.get_executor()));
    a.connect(b);
    auto r = run(async_write_chunks(a, s), ioc);
    judge(s, r.has_value(), r ? std::error_code() : r.error(), "async_write_chunks");
    bool complete = false;
    auto body = undo(std::string(b.str()), complete);
    rt::check(body == exp || (!r && exp.starts_with(body)), [&] { return "the receiver reads the body " + rt::esc(body.substr(0, 80)); });
    rt::check(complete == r.has_value(), complete ? "the receiver reads a complete body although the stream failed" : "the receiver does not read the end of the body");
  }
}
template <typename S> static std::vector<item> drain(S& s, std::size_t max)
{
  std::vector<item> v;
  for (std::size_t i = 0; i < max; ++i) {
    v.push_back(run(s.async_read_some()));
    if (!v.back()) {
      break;
    }
  }
  return v;
}
static void vec(std::string const& t)
{
  std::string arg = t.size() > 40 ? std::to_string(t.size()) + " bytes" : rt::esc(t);
  for (int k = 0; k < 3; ++k) {
    rt::c("async_readable_vector_stream(" + std::string(k == 0 ? "bytes " : k == 1 ? "span<const char> " : "span<const unsigned char> ") + arg + ")");
    async_readable_vector_stream s;
    if (k == 0) s = async_readable_vector_stream(by(t));
    if (k == 1) s = async_readable_vector_stream(std::span<char const>(t.data(), t.size()));
    if (k == 2) s = async_readable_vector_stream(std::span<unsigned char const>(reinterpret_cast<unsigned char const*>(t.data()), t.size()));
    auto v = drain(s, 6);
    std::string got;
    for (auto& x : v) {
      rt::check(!x || x->has_value(), "a read fails");
      if (x) got += st(**x);
    }
    rt::check(!v.empty() && !v.back(), "never reaches the end");
    rt::check(v.size() == (t.empty() ? 1 : 2), [&] { return "ends after " + std::to_string(v.size()) + " reads"; });
    rt::check(got == t, [&] { return "delivers " + rt::esc(got.substr(0, 80)); });
    rt::check(!run(s.async_read_some()), "delivers something after the end");
  }
}
static void file(std::string const& t, std::size_t off, optional<std::uint64_t> size, bool three, std::size_t piece, int failread, bool failseek)
{
  rt::c("async_readable_file_stream over a file of " + std::to_string(t.size()) + " bytes, " + (three ? "offset " + std::to_string(off) + ", size " + (size ? std::to_string(*size) : "nullopt") : "whole") + "; reads transfer at most "
        + std::to_string(piece) + " bytes" + (failread >= 0 ? ", read number " + std::to_string(failread) + " fails" : "") + (failseek ? ", the first seek fails" : ""));
  stream_file f;
  f.content = t;
  auto ns = std::make_shared<int>(0);
  auto first = std::make_shared<bool>(failseek);
  f.limit = [=](std::size_t m) { return (*ns)++ == failread ? -1 : static_cast<int>(std::min(m, piece)); };
  f.seek_fails = [=] { bool b = *first; *first = false; return b; };
  auto s = three ? async_readable_file_stream(std::move(f), off, size) : async_readable_file_stream(std::move(f));
  auto want = three ? (off <= t.size() ? t.substr(off, size ? *size : std::string::npos) : std::string()) : t;
  std::string got;
  std::size_t errors = 0, reads = 0;
  bool end = false;
  for (; reads < t.size() + 10; ++reads) {
    auto x = run(s.async_read_some());
    if (!x) {
      end = true;
      break;
    }
    if (!*x) {
      rt::check(x->error() == denied, "reports another error than the file's");
      ++errors;
      continue;
    }
    rt::check(!(*x)->empty(), "delivers an empty chunk");
    got += st(**x);
    rt::check(want.starts_with(got), [&] { return "delivers " + rt::esc(got.substr(0, 80)) + ", which is not the beginning of " + rt::esc(want.substr(0, 80)); });
  }
  rt::check(end, "never reaches the end");
  rt::check(got == want, [&] { return "delivers " + rt::esc(got.substr(0, 80)) + " and then the end, expected " + rt::esc(want.substr(0, 80)); });
  rt::check(errors <= 2, "reports more errors than occurred");
  rt::check(failread >= 0 || !run(s.async_read_some()), "delivers something after the end");
}
static std::string txt(std::size_t n)
{
  std::string s(n, 0);
  for (auto& c : s) c = static_cast<char>(rt::rnd(256));
  return s;
}
void search()
{
  for (int f = 0; f < 2; ++f) {
    for (auto v : std::vector<std::vector<std::string>> { {}, { "" }, { "a" }, { "ab", "c" }, { "ab", "", "cd" }, { "", "x" }, { "x", "" }, { std::string(70000, 'q') }, { std::string(513, 'a'), std::string(65536, 'b'), "c" } }) {
      one(source { v, f == 1 });
    }
  }
  for (int i = 0; i < 1500 && rt::time_left(); ++i) {
    source s;
    for (auto n = rt::rnd(6); n > 0; --n) s.chunks.push_back(txt(rt::rnd(8) ? rt::rnd(5) : rt::rnd(5000)));
    s.fails = rt::rnd(3) == 0;
    one(s);
  }
  for (std::size_t n : { 0, 1, 2, 3, 255, 65535, 65536, 65537, 200000 }) vec(txt(n));
  std::vector<std::size_t> sizes { 0, 1, 2, 7, 65535, 65536, 65537, 131072, 140000 };
  for (auto n : sizes) {
    auto t = txt(n);
    for (std::size_t piece : { std::size_t(1000000), std::size_t(40000) }) {
      file(t, 0, nullopt, false, piece, -1, false);
      for (auto off : { std::size_t(0), std::size_t(1), n / 2, n > 0 ? n - 1 : 0, n }) {
        if (off > n) continue;
        file(t, off, nullopt, true, piece, -1, false);
        for (auto sz : { std::size_t(0), std::size_t(1), n / 2, n, n + 5 }) {
          for (int fr = -1; fr < 2; ++fr) {
            file(t, off, sz, true, piece, fr, fr == 0 && off % 2 == 1);
          }
        }
      }
      if (n > 0) {
        file(t, n + 3, std::uint64_t(4), true, piece, -1, false);
      }
    }
  }
  for (int i = 0; i < 3000 && rt::time_left(); ++i) {
    auto n = rt::rnd(40);
    auto off = rt::rnd(n + 1);
    file(txt(n), off, rt::rnd(2) ? optional<std::uint64_t>(rt::rnd(50)) : optional<std::uint64_t>(), rt::rnd(4) != 0, 1 + rt::rnd(9), rt::rnd(2) ? static_cast<int>(rt::rnd(5)) : -1, rt::rnd(5) == 0);
  }
}
