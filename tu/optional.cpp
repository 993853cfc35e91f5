// Instantiations of optional<T> verified with an element type whose every operation is an obligation on lifetimes.
#include "elements.hpp"
#include <fitoria/core/optional.hpp>

namespace vt {
using fitoria::optional;
using fitoria::nullopt;
int use(optional<A>& a, const optional<A>& ca, optional<B>& b, const optional<B>& cb, A& x, const A& cx, int n,
        optional<A> (*mk)(), optional<B> (*f1)(A&), optional<B> (*f2)(const A&), optional<B> (*f3)(A&&), optional<B> (*f4)(const A&&),
        B (*g1)(A&), B (*g2)(const A&), B (*g3)(A&&), B (*g4)(const A&&))
{
  optional<A> d0, d1(nullopt), d2(ca), d3(std::move(a)), d4(std::in_place, n), d5(std::in_place, n, n), d6(n), d7(x), d8(cx), d9(std::move(x)),
      d10(std::in_place, { 1 }, n);
  optional<B> e1(ca), e2(std::move(a)), e3(cb), e4(std::move(b));
  a = nullopt;
  a = ca;
  a = std::move(a);
  a = n;
  a = cx;
  a = std::move(x);
  b = cb;
  b = std::move(b);
  b = ca;
  b = std::move(a);
  a.emplace(n);
  a.emplace(n, n);
  a.emplace(std::initializer_list<int> { 1 }, n);
  b.emplace(cx);
  (void)a.operator->();
  (void)ca.operator->();
  (void)*a;
  (void)*ca;
  (void)*std::move(a);
  (void)*std::move(ca);
  (void)bool(a);
  (void)a.has_value();
  (void)a.value();
  (void)ca.value();
  (void)std::move(a).value();
  (void)std::move(ca).value();
  (void)ca.value_or(n);
  (void)std::move(a).value_or(n);
  (void)ca.value_or(cx);
  (void)a.and_then(f1);
  (void)ca.and_then(f2);
  (void)std::move(a).and_then(f3);
  (void)std::move(ca).and_then(f4);
  (void)a.transform(g1);
  (void)ca.transform(g2);
  (void)std::move(a).transform(g3);
  (void)std::move(ca).transform(g4);
  (void)ca.or_else(mk);
  (void)std::move(a).or_else(mk);
  a.swap(a);
  b.swap(b);
  swap(a, a);
  a.reset();
  bool r = ca == ca;
  r = ca != ca;
  r = ca < ca;
  r = ca <= ca;
  r = ca > ca;
  r = ca >= ca;
  r = (ca <=> ca) == 0;
  r = ca == nullopt;
  r = (ca <=> nullopt) == 0;
  r = ca == n;
  r = ca != n;
  r = ca < n;
  r = ca <= n;
  r = ca > n;
  r = ca >= n;
  r = cx == ca;
  r = cx != ca;
  r = cx < ca;
  r = cx <= ca;
  r = cx > ca;
  r = cx >= ca;
  (void)fitoria::make_optional(cx);
  (void)fitoria::make_optional<A>(n, n);
  (void)fitoria::make_optional<A>({ 1 }, n);
  return r;
}
// trivial elements take the defaulted members and the trivial destructor
int use_trivial(optional<C>& a, const optional<C>& ca, C& x, const C& cx, int n, optional<C> (*mk)(), optional<B> (*f1)(C&), B (*g1)(C&))
{
  optional<C> d0, d1(nullopt), d4(std::in_place, n), d6(n), d7(x), d8(cx), d9(std::move(x));
  a = nullopt;
  a = cx;
  a = ca;
  a.emplace(n);
  a.emplace(cx);
  (void)a.value();
  (void)ca.value_or(cx);
  (void)a.and_then(f1);
  (void)a.transform(g1);
  (void)ca.or_else(mk);
  a.swap(a);
  a.reset();
  return ca == ca;
}
int use_ref(optional<A&>& a, const optional<A&>& ca, A& x, optional<B> (*f1)(A&), B (*g1)(A&), optional<A&> (*mk)())
{
  optional<A&> d0, d1(nullopt), d2(ca), d3(x);
  a = nullopt;
  a = ca;
  a = x;
  a.emplace(x);
  (void)ca.operator->();
  (void)*ca;
  (void)bool(ca);
  (void)ca.has_value();
  (void)ca.value();
  (void)ca.value_or(x);
  (void)ca.and_then(f1);
  (void)ca.transform(g1);
  (void)ca.or_else(mk);
  a.reset();
  a.swap(a);
  return 0;
}
int use_cref(optional<const A&>& a, const optional<A&>& ca)
{
  optional<const A&> d(ca);
  a = ca;
  return 0;
}
int use_void(optional<void>& a, const optional<void>& ca, optional<void> (*mk)(), A (*g)(), void (*h)())
{
  optional<void> d0, d1(nullopt), d2(ca), d3(std::in_place);
  a = nullopt;
  a = ca;
  a.emplace();
  ca.value();
  *ca;
  ca.operator->();
  (void)bool(ca);
  (void)ca.has_value();
  (void)ca.and_then(mk);
  (void)ca.transform(g);
  (void)ca.transform(h);
  (void)ca.or_else(mk);
  a.swap(a);
  a.reset();
  bool r = ca == ca;
  r = ca != ca;
  r = ca < ca;
  r = ca <= ca;
  r = ca > ca;
  r = ca >= ca;
  return r;
}
}
