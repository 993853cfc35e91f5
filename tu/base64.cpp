// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/encoding/base64.hpp>
#include <string>
#include <vector>
using namespace fitoria::encoding::base64;
template <typename E, typename D, typename B>
void go(const B* f, const B* l)
{
  std::string s;
  E e(padding::no), e2;
  e.encode(f, l, std::back_inserter(s));
  e.encode_next(f, l, std::back_inserter(s));
  e.encode_next(*f, std::back_inserter(s));
  e.encode_rest(std::back_inserter(s));
  D d;
  d.decode(f, l, std::back_inserter(s));
  d.decode_next(f, l, std::back_inserter(s));
  d.decode_next(*f, std::back_inserter(s));
}
void stub(const char* a, const std::uint8_t* b)
{
  go<standard_encoder, standard_decoder>(a, a);
  go<url_encoder, url_decoder>(a, a);
  go<standard_encoder, standard_decoder>(b, b);
  go<url_encoder, url_decoder>(b, b);
}
