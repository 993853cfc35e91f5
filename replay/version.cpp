#include <fitoria/http/version.hpp>
#include "rt.hpp"
using namespace fitoria;
void search()
{
  struct { const char* s; unsigned n; } t[] = { { "unknown", 11 }, { "0.9", 9 }, { "1.0", 10 }, { "1.1", 11 }, { "2.0", 20 }, { "3.0", 30 } };
  for (unsigned i = 0; i < 256; ++i) {
    auto v = static_cast<http::version>(i);
    rt::c("version " + std::to_string(i));
    auto k = i < 6 ? i : 0;
    rt::check(http::to_string(v) == t[k].s, "named " + http::to_string(v));
    rt::check(http::detail::to_impl_version(v) == t[k].n, "numbered " + std::to_string(http::detail::to_impl_version(v)));
  }
  auto num = [&](unsigned n) {
    rt::c("version number " + std::to_string(n));
    unsigned w = 0;
    for (unsigned i = 1; i < 6; ++i) if (t[i].n == n) w = i;
    rt::check(static_cast<unsigned>(http::detail::from_impl_version(n)) == w, "wrong version");
  };
  for (unsigned n = 0; n < 100000; ++n) num(n);
  for (unsigned n : { 256u + 9, 256u + 11, 65536u + 11, 4294967295u, 2147483648u + 11 }) num(n);
}
