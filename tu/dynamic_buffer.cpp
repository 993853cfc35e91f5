// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/core/dynamic_buffer.hpp>
#include <string>
#include <vector>
using namespace fitoria;
template <typename C> std::size_t use(C c, std::size_t n)
{
  dynamic_buffer<C> a, b(n), d(std::move(c));
  auto const& k = d;
  auto w = d.prepare(n);
  d.commit(n);
  d.consume(n);
  auto s = d.data().size() + k.data().size() + d.cdata().size() + d.size() + d.max_size() + a.capacity() + w.size();
  return b.release().size() + s;
}
template std::size_t use(std::string, std::size_t);
template std::size_t use(std::vector<std::byte>, std::size_t);
template std::size_t use(std::vector<std::uint8_t>, std::size_t);
