// Stand-in for boost::asio::basic_stream_file, which needs io_uring headers: only its interface. A file is the sequence of
// bytes `content` with a read position; when STUB_BODIES is defined (replay harnesses) the operations have bodies.
#pragma once
#include <boost/asio.hpp>
#include <fitoria/core/net.hpp>
#include <fitoria/core/expected.hpp>
#include <functional>
#include <memory>
#include <string>
namespace boost::asio {
class file_base {
public:
  enum flags { read_only = 1, write_only = 2, read_write = 4, append = 8, create = 16, exclusive = 32, truncate = 64, sync_all_on_write = 128 };
  enum seek_basis { seek_set = 0, seek_cur = 1, seek_end = 2 };
};
template <typename Executor = any_io_executor>
class basic_stream_file : public file_base {
public:
  std::string content;
  std::uint64_t pos = 0;
#if defined(STUB_BODIES)
  std::function<int(std::size_t)> limit = [](std::size_t n) { return static_cast<int>(n); }; // bytes transferred at most, -1 for an error
  std::function<bool()> seek_fails = [] { return false; };
  basic_stream_file() = default;
  auto size() const -> std::uint64_t { return content.size(); }
  auto seek(std::int64_t o, seek_basis, boost::system::error_code& ec) -> std::uint64_t
  {
    if (seek_fails()) {
      ec = boost::asio::error::access_denied;
      return 0;
    }
    pos = static_cast<std::uint64_t>(o);
    return pos;
  }
  template <typename B, typename T>
  auto async_read_some(const B& b, const fitoria::as_expected_t<T>&) -> fitoria::awaitable<fitoria::expected<std::size_t, boost::system::error_code>>
  {
    auto n = limit(b.size());
    if (n < 0) {
      co_return fitoria::unexpected { boost::system::error_code(boost::asio::error::access_denied) };
    }
    if (pos >= content.size()) {
      co_return fitoria::unexpected { boost::system::error_code(boost::asio::error::eof) };
    }
    auto k = std::min<std::size_t>({ static_cast<std::size_t>(std::max(n, 1)), b.size(), content.size() - pos });
    std::memcpy(b.data(), content.data() + pos, k);
    pos += k;
    co_return k;
  }
#else
  explicit basic_stream_file(const Executor& ex);
  basic_stream_file(basic_stream_file&&);
  auto operator=(basic_stream_file&&) -> basic_stream_file&;
  auto size() const -> std::uint64_t;
  auto seek(std::int64_t, seek_basis, boost::system::error_code&) -> std::uint64_t;
  template <typename B, typename T>
  auto async_read_some(const B&, const fitoria::as_expected_t<T>&) -> fitoria::awaitable<fitoria::expected<std::size_t, boost::system::error_code>>;
#endif
};
#if defined(STUB_BODIES)
template <typename E, typename B, typename T>
auto async_write(basic_stream_file<E>& f, const B& b, const fitoria::as_expected_t<T>&) -> fitoria::awaitable<fitoria::expected<std::size_t, boost::system::error_code>>
{
  auto n = f.limit(b.size());
  if (n < 0) {
    co_return fitoria::unexpected { boost::system::error_code(boost::asio::error::access_denied) };
  }
  f.content.append(static_cast<const char*>(b.data()), b.size());
  co_return b.size();
}
#else
template <typename E, typename B, typename T>
auto async_write(basic_stream_file<E>&, const B&, const fitoria::as_expected_t<T>&) -> fitoria::awaitable<fitoria::expected<std::size_t, boost::system::error_code>>;
#endif
}
namespace fitoria::inline v0 {
using stream_file = boost::asio::basic_stream_file<executor_type>;
}
#define BOOST_ASIO_HAS_FILE 1
