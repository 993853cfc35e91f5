// instantiates the functions under contract; the bodies are taken from the headers of /repo
#include <fitoria/web/path_matcher.hpp>

void use(fitoria::web::path_matcher m, std::string s, std::string_view p)
{
  fitoria::web::path_matcher n(p);
  (void)m.match(s);
  (void)m.pattern();
  (void)m.tokens();
}
