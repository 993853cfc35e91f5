// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/core/strings.hpp>
using namespace fitoria;
void stub(std::string_view a, std::string_view b)
{
  split_of(a, b);
  cmp_eq_ci(a, b);
  cmp_tw_ci(a, b);
  trim(a);
  ltrim(a);
  rtrim(a);
  trim(a, is_space);
}
