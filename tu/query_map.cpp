// instantiates the functions under contract; the bodies are taken from the headers of /repo
#include <fitoria/web/path_info.hpp>
#include <fitoria/web/query_map.hpp>

void use(fitoria::web::query_map m, const fitoria::web::query_map& c, std::string k, std::string_view v, boost::urls::params_view p)
{
  m.set(k, k);
  (void)m.get(k);
  (void)c.get(k);
  (void)m.get(v);
  (void)c.get(v);
  (void)m.erase(k);
  (void)m.at(k);
  (void)c.at(k);
  (void)m[k];
  (void)m.contains(k);
  (void)m.size();
  (void)m.empty();
  m.clear();
  (void)m.to_string();
  (void)fitoria::web::query_map::from(p);
}

void use2(std::string a, std::vector<std::pair<std::string, std::string>> v, std::initializer_list<fitoria::web::path_info::value_type> l, std::string_view k, std::size_t i)
{
  fitoria::web::path_info e;
  fitoria::web::path_info p(a, a, v);
  fitoria::web::path_info q(a, a, l);
  const fitoria::web::path_info& c = p;
  (void)c.match_pattern();
  (void)c.match_path();
  (void)c.keys();
  (void)c.empty();
  (void)c.size();
  (void)c.contains(a);
  (void)c.get(a);
  (void)c.get(k);
  (void)c.get(i);
  (void)c.at(a);
  (void)c.at(i);
  (void)c.find(a);
  (void)c.find(i);
  auto it = c.begin();
  (void)*it;
  (void)it->second;
  ++it;
  it++;
  --it;
  it--;
  (void)(it == c.end());
  (void)p.begin();
  (void)p.end();
  (void)c.cbegin();
  (void)c.cend();
}
