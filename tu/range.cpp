// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/http/header/range.hpp>
using namespace fitoria;
bool stub(std::string_view s)
{
  auto r = http::header::range::parse(s, 10);
  return r && r->unit() == "a" && r->size() == 1 && r->at(0) == (*r)[0] && r->begin() != r->end() && trim(s) == s;
}
