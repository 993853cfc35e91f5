// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/core/from_string.hpp>
using namespace fitoria;
bool stub(std::string_view s)
{
  return from_string<std::uint64_t>(s) && from_string<std::int32_t>(s) && from_string<std::int8_t>(s) && from_string<std::uint8_t>(s)
      && from_string<std::int16_t>(s) && from_string<std::uint16_t>(s) && from_string<std::uint32_t>(s) && from_string<std::int64_t>(s)
      && from_string<bool>(s) && from_string<std::string>(s) && from_string<std::string_view>(s);
}
