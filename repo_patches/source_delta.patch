From 9d3216e79cdc63896233854b0e03119ddee5c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 01/17] fix: base64 decoder indexes its table with a
 sign-extended char

A byte >= 0x80 given as (signed) char was converted to a huge index and
read outside decode_table; convert through an unsigned byte first.
---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..1d2c026 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::size_t>(static_cast<std::uint8_t>(byte));
   }
 
   state state_ = state::s0;
-- 
2.43.0


From 7f606f5b0b1be9a808114790f2fbfc3a7d29582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 02/17] fix: range::parse wraps around for positions beyond the
 representation

A suffix longer than the representation, an open-ended range starting after
its end, and an end position of 2^64-1 made the computed offset or length
wrap around, so that offset + length passed the file size check of
static_file.
---
 include/fitoria/http/header/range.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..8c1c870 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,8 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -165,8 +167,10 @@ public:
 
     if (unit[1].starts_with("-")) {
       if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+        // the entire representation if the suffix is longer than it
+        const auto length = *suffix < total_length ? *suffix : total_length;
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +193,13 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start <= total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end
+            && *end < std::numeric_limits<std::uint64_t>::max()) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From 1fd91f6be18923aa99541ed6c0ceb64203d8e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 03/17] fix: entity_tag accepts exactly the etagc characters

obs-text (>= 0x80) was rejected where char is signed, and DEL was accepted.
---
 include/fitoria/http/header/entity_tag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..bc5450c 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,9 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    // etagc = %x21 / %x23-7E / obs-text
+    const auto u = static_cast<unsigned char>(c);
+    return u >= 0x21 && u != 0x22 && u != 0x7f;
   }
 
   bool strong_;
-- 
2.43.0


From 2b4a14b6ce6f2ecccde7dfd2804956aca8136f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 04/17] fix: if_none_match no longer splits a quoted tag at its
 commas

---
 include/fitoria/http/header/if_none_match.hpp | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..1aff094 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,14 +120,28 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
-      auto etag = entity_tag::parse(token);
+    for (;;) {
+      // a comma between quotes belongs to the tag
+      std::size_t pos = 0;
+      bool quoted = false;
+      while (pos < input.size() && (quoted || input[pos] != ',')) {
+        if (input[pos] == '\"') {
+          quoted = !quoted;
+        }
+        ++pos;
+      }
+
+      auto etag = entity_tag::parse(trim(input.substr(0, pos)));
       if (!etag) {
         return nullopt;
       }
 
       etags.push_back(std::move(*etag));
+
+      if (pos == input.size()) {
+        break;
+      }
+      input.remove_prefix(pos + 1);
     }
 
     return if_none_match(std::move(etags));
-- 
2.43.0


From 1e67c1c5e603b6f5ddf23513070a3bf5e8c08a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 05/17] fix: dynamic_buffer::prepare returns a region beyond
 its container after moving the readable bytes

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From 05bf0f42a84e357c8d5e6915f1cd33fc417b057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 06/17] fix: dynamic_buffer::commit and consume wrap around for
 very large counts

---
 include/fitoria/core/dynamic_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..6294e40 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
@@ -148,7 +148,7 @@ public:
   /// @endverbatim
   void commit(std::size_t n)
   {
-    woffset_ = std::min(woffset_ + n, container_.size());
+    woffset_ += std::min(n, container_.size() - woffset_);
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 8c319f7b31745acc42f881bc21df1c4bf92cf476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 07/17] fix: dynamic_buffer::release leaves the buffer claiming
 the released bytes

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 6294e40..f9997fb 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -194,6 +194,7 @@ public:
   {
     compress();
     container_.resize(size());
+    woffset_ = 0;
     return std::move(container_);
   }
 
-- 
2.43.0


From eaab8631cb777cd9125ec887954cf608bb0b177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 08/17] fix: three-way comparison of optionals does not read an
 empty one

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..0addfca 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1014,7 +1014,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs && rhs) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From 9cc5bafd7db6e5eebce02e8dfb6da991e0de80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 09/17] fix: assigning an empty optional empties an optional
 reference

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 0addfca..1786908 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -773,6 +773,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From f0f2f6c895af5aa9ca5ffbab46d8b6cb34bd2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 10/17] fix: optional<void>::transform keeps the value the
 callback returns

---
 include/fitoria/core/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 1786908..5c38143 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -669,8 +669,12 @@ public:
   {
     using U = std::remove_cv_t<std::invoke_result_t<F>>;
     if (has_value()) {
-      std::forward<F>(f)();
-      return optional<U>(std::in_place);
+      if constexpr (std::is_void_v<U>) {
+        std::invoke(std::forward<F>(f));
+        return optional<U>(std::in_place);
+      } else {
+        return optional<U>(std::invoke(std::forward<F>(f)));
+      }
     } else {
       return optional<U>();
     }
-- 
2.43.0


From eb55527d1842d8dc1296a94c1e4c403a94a6c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 11/17] fix: assigning an error to an expected reference stores
 the error

---
 include/fitoria/core/expected.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..5a987e3 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1856,6 +1856,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1869,6 +1870,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
-- 
2.43.0


From 551e79dd87c2a6cd7165f403367b1a4c047f01e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 12/17] fix: keep every static route reachable when a shorter
 prefix is inserted

Inserting a static segment that is a prefix of several siblings moved only
the first of them below the new node. The other siblings stayed next to it
and could not be found any more, because the lookup commits to the first
sibling whose prefix matches.
---
 include/fitoria/web/router.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..51bfb53 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -75,18 +75,20 @@ public:
         }
       }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+      auto parent = node(token);
+      auto others = std::vector<node>();
+      for (auto& child : statics_) {
+        if (child.prefix_.starts_with(token)) {
+          child.prefix_.erase(0, token.size());
+          parent.statics_.push_back(std::move(child));
+        } else {
+          others.push_back(std::move(child));
         }
       }
+      others.push_back(std::move(parent));
+      statics_ = std::move(others);
 
-      return statics_.emplace_back(token).try_insert(std::move(route),
-                                                     token_index + 1);
+      return statics_.back().try_insert(std::move(route), token_index + 1);
     }
 
     auto try_insert_param(route_type route,
-- 
2.43.0


From 487264f8f4429d10175ba114874f159e546b2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 13/17] fix: do not match an empty path segment as a parameter

The router accepted an empty segment for a parameter while the matcher of
the route rejects it, so that serving such a request threw
bad_optional_access.
---
 include/fitoria/web/router.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index 51bfb53..2951026 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -148,7 +148,7 @@ public:
     auto try_find_param(http::verb method, std::string_view path) const
         -> expected<const route_type&, std::error_code>
     {
-      if (params_) {
+      if (params_ && !path.starts_with('/')) {
         if (auto pos = path.find('/'); pos != std::string_view::npos) {
           return params_->try_find(method, path.substr(pos));
         }
-- 
2.43.0


From 7ed424b5e7f15b144380782c87bdc0c2d845ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 14/17] fix: match paths against the parsed tokens instead of a
 regular expression

The pattern was turned into a regular expression without escaping its
static text, so that '+', '*', '(', ')', '$' and '.' in a route were
operators, and parameters rejected braces. The router does not share these
rules: a request could be routed to a route whose matcher then rejected the
path, and serving it threw bad_optional_access.
---
 include/fitoria/web/path_matcher.hpp | 55 +++++++++++-----------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..1bc758c 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -18,9 +18,8 @@
 #include <fitoria/web/error.hpp>
 #include <fitoria/web/path_parser.hpp>
 
-#include <boost/regex.hpp>
-
 #include <string>
+#include <string_view>
 #include <vector>
 
 FITORIA_NAMESPACE_BEGIN
@@ -41,7 +40,6 @@ public:
           std::terminate());
     }
     tokens_ = parser.get();
-    regex_ = to_regex(tokens_);
   }
 
   auto pattern() const noexcept -> std::string_view
@@ -57,47 +55,38 @@ public:
   auto match(const std::string& input) const
       -> optional<std::vector<std::pair<std::string, std::string>>>
   {
-    if (boost::smatch match; boost::regex_match(input, match, regex_)) {
-      std::vector<std::pair<std::string, std::string>> matches;
-      for (auto token : tokens_) {
-        if (token.kind == path_token_kind::param
-            || token.kind == path_token_kind::wildcard) {
-          matches.emplace_back(token.value, match[token.value].str());
-        }
-      }
-
-      return matches;
-    }
-
-    return nullopt;
-  }
+    std::vector<std::pair<std::string, std::string>> matches;
+    std::string_view rest = input;
 
-private:
-  static auto to_regex(const path_tokens_t& tokens) -> boost::regex
-  {
-    std::string regex;
-    for (auto& token : tokens) {
+    for (auto& token : tokens_) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        if (!rest.starts_with(token.value)) {
+          return nullopt;
+        }
+        rest.remove_prefix(token.value.size());
       } else if (token.kind == path_token_kind::param) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">[^{}/]+)";
+        auto value = rest.substr(0, rest.find('/'));
+        if (value.empty()) {
+          return nullopt;
+        }
+        matches.emplace_back(token.value, std::string(value));
+        rest.remove_prefix(value.size());
       } else if (token.kind == path_token_kind::wildcard) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">.*)";
+        matches.emplace_back(token.value, std::string(rest));
+        rest = std::string_view();
       }
     }
 
-    return boost::regex(regex);
+    if (!rest.empty()) {
+      return nullopt;
+    }
+
+    return matches;
   }
 
+private:
   std::string pattern_;
   path_tokens_t tokens_;
-  boost::regex regex_;
 };
 
 }
-- 
2.43.0


From b6c0df3099a47e3e3154770ec43e6b5ac0e70294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 15/17] fix: query_map::set updates the value of an existing
 key

It is documented to insert a new element or to update the value of an
existing one, but kept the old value.
---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From 842c3d801b59adce8f198fe5cedced529fbc76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 16/17] fix: path_info lists a repeated key once

A key given twice was kept twice in keys() but once in the map, so that the
lookups by index, size() and the iterators disagreed.
---
 include/fitoria/web/path_info.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/path_info.hpp b/include/fitoria/web/path_info.hpp
index 66e551a..8789d3f 100644
--- a/include/fitoria/web/path_info.hpp
+++ b/include/fitoria/web/path_info.hpp
@@ -116,8 +116,9 @@ public:
       , match_path_(std::move(match_path))
   {
     for (auto& [key, value] : params) {
-      keys_.push_back(key);
-      map_[key] = value;
+      if (map_.insert_or_assign(key, value).second) {
+        keys_.push_back(key);
+      }
     }
   }
 
@@ -131,8 +132,9 @@ public:
       , match_path_(std::move(match_path))
   {
     for (auto& [key, value] : params) {
-      keys_.push_back(key);
-      map_[key] = value;
+      if (map_.insert_or_assign(key, value).second) {
+        keys_.push_back(key);
+      }
     }
   }
 
-- 
2.43.0


From ee97df99bb62a136aebe3a9869b329eaeff5c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 17/17] fix: async_write_chunks ended the body early when the
 stream delivered an empty chunk

---
 include/fitoria/web/async_write_chunks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..4a1f4eb 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,10 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      // a chunk of size zero would denote the end of the body
+      if (d->empty()) {
+        continue;
+      }
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0

