// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/http/header/entity_tag.hpp>
#include <fitoria/http/header/if_none_match.hpp>
using namespace fitoria::http::header;
bool stub(std::string_view s)
{
  auto r = entity_tag::parse(s);
  auto t = entity_tag::make_strong("a"), w = entity_tag::make_weak("a");
  auto m = if_none_match::parse(s);
  return r && r->to_string() == "a" && t == w && t.weakly_equal_to(w) && m && m->is_any() && m->etags().size() == 1 && fitoria::trim(s) == s && r->strong() && r->value() == "";
}
