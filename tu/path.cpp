// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/web/path_parser.hpp>
using namespace fitoria::web;
bool stub(std::string_view s)
{
  path_parser<true> a;
  path_parser<false> b;
  auto r = a.parse(s) && b.parse(s);
  a.get();
  b.get();
  return r;
}
