// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/http/version.hpp>
using namespace fitoria;
bool stub(http::version v, unsigned u)
{
  return http::to_string(v) == "" && http::detail::to_impl_version(v) == u && http::detail::from_impl_version(u) == v;
}
