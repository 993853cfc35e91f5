// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/log/filter.hpp>
#include <fitoria/log/formatter.hpp>
#include <fitoria/log/level.hpp>
using namespace fitoria;
bool stub(std::string_view s, log::level l)
{
  auto f = log::filter({ l, log::level::info });
  return f.is_allowed(l) && log::filter::all().is_allowed(l) && log::filter::at_least(l).is_allowed(l) && log::filter::from_env().is_allowed(l)
      && log::to_level(s) == l && log::to_string(l) == s && log::get_newline(log::newline_style::cr) == s
      && log::get_file_name(log::file_name_style::file_name_only, s) == s;
}
