// instantiates the functions whose bodies are extracted; not itself verified
#include <fitoria/mime/mime_view.hpp>
using namespace fitoria;
using namespace fitoria::mime;
bool use(std::string_view s, name_view n, const params_view& cp)
{
  auto m = mime_view::parse(s);
  auto e = mime_view::from_extension(s);
  auto p = mime_view::from_path(s);
  params_view q;
  q.set(n, n);
  q[n] = n;
  auto g = q.get(n);
  auto h = cp.get(n);
  auto i = cp.at(n);
  q.at(n) = i;
  auto r = q.erase(n);
  q.clear();
  return m && e && p && g && h && r && q.contains(n) && q.empty() && q.size() == 0 && *m == *e && *m == s && (*m <=> *e) == 0 && (*m <=> s) == 0 && n == s && n == "x"
    && (n <=> s) == 0 && (n <=> "x") == 0 && n.to_string().empty() && m->source() == m->essence() && m->type() == m->subtype() && m->suffix() && m->params().empty()
    && std::string_view(*m).empty();
}
std::size_t all()
{
  std::size_t n = 0;
  for (auto f : { application_javascript, application_json, application_msgpack, application_octet_stream, application_pdf, application_shockwave_flash,
                  application_text, application_wasm, application_www_form_urlencoded, application_xml, image_bmp, image_gif, image_jpeg, image_png,
                  image_svg, image_tiff, multipart_form_data, text_css, text_csv, text_html, text_javascript, text_plain, text_xml, video_flv }) {
    n += std::string_view(f()).size();
  }
  return n;
}
