// instantiates the functions under contract; the bodies are taken from the headers of /repo
#include "file_stub.hpp"
#include <boost/beast.hpp>
#include <fitoria/web/async_read_into_stream_file.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_file_stream.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/async_write_chunks.hpp>

namespace vt {
using namespace fitoria;
// any stream: what it delivers is left open
struct source {
  std::size_t next = 0;
  using is_async_readable_stream = void;
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>;
};
}

fitoria::awaitable<void> use(vt::source& s, fitoria::test_stream& t, fitoria::web::async_readable_vector_stream& v, fitoria::bytes b, std::span<const char> p)
{
  using namespace fitoria;
  (void)co_await web::async_read_until_eof<std::string>(s);
  (void)co_await web::async_read_until_eof<bytes>(s);
  (void)co_await web::async_write_chunks(t, s);
  (void)co_await v.async_read_some();
  web::async_readable_vector_stream w(b);
  web::async_readable_vector_stream x(p);
  web::async_readable_vector_stream y;
}
#if defined(BOOST_ASIO_HAS_FILE)
fitoria::awaitable<void> use2(vt::source& s, fitoria::web::async_readable_file_stream& f, fitoria::stream_file& o)
{
  using namespace fitoria;
  (void)co_await f.async_read_some();
  (void)co_await web::async_read_into_stream_file(s, o);
  web::async_readable_file_stream g(std::move(o));
  web::async_readable_file_stream h(std::move(o), 1, 2);
}
#endif
