// instantiates the functions under contract; the bodies are taken from the headers of /repo
#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>

namespace vt {
struct service {
  int operator()(int) const;
};
}

void use(fitoria::web::routable<vt::service> r, fitoria::web::router<int, int> t, std::string_view p)
{
  fitoria::web::any_routable<int, int> a(r);
  (void)a.method();
  (void)a.matcher();
  (void)a.states();
  (void)a(1);
  (void)t.try_insert(std::move(a));
  (void)t.optimize();
  (void)t.try_find(fitoria::http::verb::get, p);
}
