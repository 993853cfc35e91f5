// Instantiations of expected<T, E> verified with element types whose every operation is an obligation on lifetimes.
#include "elements.hpp"
#include <fitoria/core/expected.hpp>

namespace vt {
using fitoria::expected;
using fitoria::unexpected;
using fitoria::unexpect;
template <typename T, typename E>
int use(expected<T, E>& a, const expected<T, E>& ca, T& x, const T& cx, E& e, const E& ce, unexpected<E>& u, const unexpected<E>& cu,
        expected<B, E> (*f1)(T&), expected<B, E> (*f2)(const T&), expected<B, E> (*f3)(T&&), expected<B, E> (*f4)(const T&&),
        B (*g1)(T&), B (*g2)(const T&), B (*g3)(T&&), B (*g4)(const T&&),
        expected<T, B> (*h1)(E&), expected<T, B> (*h2)(const E&), expected<T, B> (*h3)(E&&), expected<T, B> (*h4)(const E&&),
        B (*k1)(E&), B (*k2)(const E&), B (*k3)(E&&), B (*k4)(const E&&))
{
  expected<T, E> d0, d1(ca), d2(std::move(a)), d3(x), d4(cx), d5(std::move(x)), d6(cu), d7(std::move(u)), d8(std::in_place, cx), d9(unexpect, ce),
      d10(unexpect, std::move(e)), d11(std::in_place, std::move(x));
  a = ca;
  a = std::move(a);
  a = cx;
  a = std::move(x);
  a = cu;
  a = std::move(u);
  (void)a.operator->();
  (void)ca.operator->();
  (void)*a;
  (void)*ca;
  (void)*std::move(a);
  (void)*std::move(ca);
  (void)bool(a);
  (void)a.has_value();
  (void)a.value();
  (void)ca.value();
  (void)std::move(a).value();
  (void)std::move(ca).value();
  (void)a.error();
  (void)ca.error();
  (void)std::move(a).error();
  (void)std::move(ca).error();
  (void)ca.value_or(cx);
  (void)std::move(a).value_or(cx);
  (void)ca.error_or(ce);
  (void)std::move(a).error_or(ce);
  (void)a.and_then(f1);
  (void)ca.and_then(f2);
  (void)std::move(a).and_then(f3);
  (void)std::move(ca).and_then(f4);
  (void)a.transform(g1);
  (void)ca.transform(g2);
  (void)std::move(a).transform(g3);
  (void)std::move(ca).transform(g4);
  (void)a.or_else(h1);
  (void)ca.or_else(h2);
  (void)std::move(a).or_else(h3);
  (void)std::move(ca).or_else(h4);
  (void)a.transform_error(k1);
  (void)ca.transform_error(k2);
  (void)std::move(a).transform_error(k3);
  (void)std::move(ca).transform_error(k4);
  a.swap(a);
  swap(a, a);
  bool r = ca == ca;
  r = ca == cx;
  r = ca == cu;
  return r;
}
template int use<A, A>(expected<A, A>&, const expected<A, A>&, A&, const A&, A&, const A&, unexpected<A>&, const unexpected<A>&, expected<B, A> (*)(A&),
                       expected<B, A> (*)(const A&), expected<B, A> (*)(A&&), expected<B, A> (*)(const A&&), B (*)(A&), B (*)(const A&), B (*)(A&&),
                       B (*)(const A&&), expected<A, B> (*)(A&), expected<A, B> (*)(const A&), expected<A, B> (*)(A&&), expected<A, B> (*)(const A&&),
                       B (*)(A&), B (*)(const A&), B (*)(A&&), B (*)(const A&&));
template int use<A, B>(expected<A, B>&, const expected<A, B>&, A&, const A&, B&, const B&, unexpected<B>&, const unexpected<B>&, expected<B, B> (*)(A&),
                       expected<B, B> (*)(const A&), expected<B, B> (*)(A&&), expected<B, B> (*)(const A&&), B (*)(A&), B (*)(const A&), B (*)(A&&),
                       B (*)(const A&&), expected<A, B> (*)(B&), expected<A, B> (*)(const B&), expected<A, B> (*)(B&&), expected<A, B> (*)(const B&&),
                       B (*)(B&), B (*)(const B&), B (*)(B&&), B (*)(const B&&));
template int use<B, A>(expected<B, A>&, const expected<B, A>&, B&, const B&, A&, const A&, unexpected<A>&, const unexpected<A>&, expected<B, A> (*)(B&),
                       expected<B, A> (*)(const B&), expected<B, A> (*)(B&&), expected<B, A> (*)(const B&&), B (*)(B&), B (*)(const B&), B (*)(B&&),
                       B (*)(const B&&), expected<B, B> (*)(A&), expected<B, B> (*)(const A&), expected<B, B> (*)(A&&), expected<B, B> (*)(const A&&),
                       B (*)(A&), B (*)(const A&), B (*)(A&&), B (*)(const A&&));
template int use<A, C>(expected<A, C>&, const expected<A, C>&, A&, const A&, C&, const C&, unexpected<C>&, const unexpected<C>&, expected<B, C> (*)(A&),
                       expected<B, C> (*)(const A&), expected<B, C> (*)(A&&), expected<B, C> (*)(const A&&), B (*)(A&), B (*)(const A&), B (*)(A&&),
                       B (*)(const A&&), expected<A, B> (*)(C&), expected<A, B> (*)(const C&), expected<A, B> (*)(C&&), expected<A, B> (*)(const C&&),
                       B (*)(C&), B (*)(const C&), B (*)(C&&), B (*)(const C&&));
template int use<C, A>(expected<C, A>&, const expected<C, A>&, C&, const C&, A&, const A&, unexpected<A>&, const unexpected<A>&, expected<B, A> (*)(C&),
                       expected<B, A> (*)(const C&), expected<B, A> (*)(C&&), expected<B, A> (*)(const C&&), B (*)(C&), B (*)(const C&), B (*)(C&&),
                       B (*)(const C&&), expected<C, B> (*)(A&), expected<C, B> (*)(const A&), expected<C, B> (*)(A&&), expected<C, B> (*)(const A&&),
                       B (*)(A&), B (*)(const A&), B (*)(A&&), B (*)(const A&&));
template int use<C, B>(expected<C, B>&, const expected<C, B>&, C&, const C&, B&, const B&, unexpected<B>&, const unexpected<B>&, expected<B, B> (*)(C&),
                       expected<B, B> (*)(const C&), expected<B, B> (*)(C&&), expected<B, B> (*)(const C&&), B (*)(C&), B (*)(const C&), B (*)(C&&),
                       B (*)(const C&&), expected<C, B> (*)(B&), expected<C, B> (*)(const B&), expected<C, B> (*)(B&&), expected<C, B> (*)(const B&&),
                       B (*)(B&), B (*)(const B&), B (*)(B&&), B (*)(const B&&));
template int use<B, C>(expected<B, C>&, const expected<B, C>&, B&, const B&, C&, const C&, unexpected<C>&, const unexpected<C>&, expected<B, C> (*)(B&),
                       expected<B, C> (*)(const B&), expected<B, C> (*)(B&&), expected<B, C> (*)(const B&&), B (*)(B&), B (*)(const B&), B (*)(B&&),
                       B (*)(const B&&), expected<B, B> (*)(C&), expected<B, B> (*)(const C&), expected<B, B> (*)(C&&), expected<B, B> (*)(const C&&),
                       B (*)(C&), B (*)(const C&), B (*)(C&&), B (*)(const C&&));
template int use<C, C>(expected<C, C>&, const expected<C, C>&, C&, const C&, C&, const C&, unexpected<C>&, const unexpected<C>&, expected<B, C> (*)(C&),
                       expected<B, C> (*)(const C&), expected<B, C> (*)(C&&), expected<B, C> (*)(const C&&), B (*)(C&), B (*)(const C&), B (*)(C&&),
                       B (*)(const C&&), expected<C, B> (*)(C&), expected<C, B> (*)(const C&), expected<C, B> (*)(C&&), expected<C, B> (*)(const C&&),
                       B (*)(C&), B (*)(const C&), B (*)(C&&), B (*)(const C&&));
int use_mixed(expected<A, A>& a, const expected<A, A>& ca, const unexpected<A>& cu, unexpected<A>& u, expected<A, B>& b, A& x, const A& cx, int n)
{
  expected<B, B> d0(ca), d1(std::move(a)), d2(cu), d3(std::move(u)), d4(cx), d5(std::in_place, n), d6(unexpect, n);
  expected<A, A> d7(n), d8(std::in_place, n, n), d9(unexpect, n, n), d10(std::in_place, { 1 }, n), d11(unexpect, { 1 }, n);
  a = n;
  b = n;
  b = cu;
  b = std::move(u);
  a.emplace(std::move(x));
  a.emplace(nx(), n);
  a.emplace({ 1 }, nx());
  (void)ca.value_or(n);
  (void)ca.error_or(n);
  unexpected<A> u0(n), u1(cx), u2(std::move(x)), u3(std::in_place, n, n), u4(std::in_place, { 1 }, n);
  (void)u.error();
  (void)cu.error();
  (void)std::move(u).error();
  (void)std::move(cu).error();
  u.swap(u);
  swap(u, u);
  return cu == cu;
}
template <typename E>
int use_void(expected<void, E>& a, const expected<void, E>& ca, E& e, const E& ce, unexpected<E>& u, const unexpected<E>& cu, expected<B, E> (*f)(), B (*g)(),
             expected<void, B> (*h1)(E&), expected<void, B> (*h2)(const E&), expected<void, B> (*h3)(E&&), expected<void, B> (*h4)(const E&&),
             B (*k1)(E&), B (*k2)(const E&), B (*k3)(E&&), B (*k4)(const E&&))
{
  expected<void, E> d0, d1(ca), d2(std::move(a)), d3(cu), d4(std::move(u)), d5(std::in_place), d6(unexpect, ce), d7(unexpect, std::move(e));
  a = ca;
  a = std::move(a);
  a = cu;
  a = std::move(u);
  *a;
  a.operator->();
  (void)bool(a);
  (void)a.has_value();
  ca.value();
  std::move(a).value();
  (void)a.error();
  (void)ca.error();
  (void)std::move(a).error();
  (void)std::move(ca).error();
  (void)ca.error_or(ce);
  (void)std::move(a).error_or(ce);
  (void)a.and_then(f);
  (void)ca.and_then(f);
  (void)std::move(a).and_then(f);
  (void)std::move(ca).and_then(f);
  (void)a.transform(g);
  (void)ca.transform(g);
  (void)std::move(a).transform(g);
  (void)std::move(ca).transform(g);
  (void)a.or_else(h1);
  (void)ca.or_else(h2);
  (void)std::move(a).or_else(h3);
  (void)std::move(ca).or_else(h4);
  (void)a.transform_error(k1);
  (void)ca.transform_error(k2);
  (void)std::move(a).transform_error(k3);
  (void)std::move(ca).transform_error(k4);
  a.emplace();
  a.swap(a);
  swap(a, a);
  bool r = ca == ca;
  r = ca == cu;
  return r;
}
template int use_void<A>(expected<void, A>&, const expected<void, A>&, A&, const A&, unexpected<A>&, const unexpected<A>&, expected<B, A> (*)(), B (*)(),
                         expected<void, B> (*)(A&), expected<void, B> (*)(const A&), expected<void, B> (*)(A&&), expected<void, B> (*)(const A&&),
                         B (*)(A&), B (*)(const A&), B (*)(A&&), B (*)(const A&&));
template int use_void<B>(expected<void, B>&, const expected<void, B>&, B&, const B&, unexpected<B>&, const unexpected<B>&, expected<B, B> (*)(), B (*)(),
                         expected<void, B> (*)(B&), expected<void, B> (*)(const B&), expected<void, B> (*)(B&&), expected<void, B> (*)(const B&&),
                         B (*)(B&), B (*)(const B&), B (*)(B&&), B (*)(const B&&));
template int use_void<C>(expected<void, C>&, const expected<void, C>&, C&, const C&, unexpected<C>&, const unexpected<C>&, expected<B, C> (*)(), B (*)(),
                         expected<void, B> (*)(C&), expected<void, B> (*)(const C&), expected<void, B> (*)(C&&), expected<void, B> (*)(const C&&),
                         B (*)(C&), B (*)(const C&), B (*)(C&&), B (*)(const C&&));
int use_void_mixed(const expected<void, A>& ca, expected<void, A>& a, const expected<A, A>& da)
{
  expected<void, A> d5(unexpect, { 1 }, nx());
  expected<void, B> d0(ca), d1(std::move(a));
  return 0;
}
template <typename T, typename E>
int use_ref(expected<T&, E>& a, const expected<T&, E>& ca, T& x, E& e, const E& ce, unexpected<E>& u, const unexpected<E>& cu,
            expected<B, E> (*f)(T&), B (*g)(T&),
            expected<T&, B> (*h1)(E&), expected<T&, B> (*h2)(const E&), expected<T&, B> (*h3)(E&&), expected<T&, B> (*h4)(const E&&),
            B (*k1)(E&), B (*k2)(const E&), B (*k3)(E&&), B (*k4)(const E&&))
{
  expected<T&, E> d1(ca), d2(std::move(a)), d3(x), d4(cu), d5(std::move(u)), d6(std::in_place, x), d7(unexpect, ce), d8(unexpect, std::move(e));
  a = ca;
  a = std::move(a);
  a = x;
  a = cu;
  a = std::move(u);
  (void)ca.operator->();
  (void)*ca;
  (void)bool(ca);
  (void)ca.has_value();
  (void)ca.value();
  (void)a.error();
  (void)ca.error();
  (void)std::move(a).error();
  (void)std::move(ca).error();
  (void)ca.value_or(x);
  (void)ca.error_or(ce);
  (void)std::move(a).error_or(ce);
  (void)a.and_then(f);
  (void)ca.and_then(f);
  (void)std::move(a).and_then(f);
  (void)std::move(ca).and_then(f);
  (void)a.transform(g);
  (void)ca.transform(g);
  (void)std::move(a).transform(g);
  (void)std::move(ca).transform(g);
  (void)a.or_else(h1);
  (void)ca.or_else(h2);
  (void)std::move(a).or_else(h3);
  (void)std::move(ca).or_else(h4);
  a.emplace(x);
  a.swap(a);
  swap(a, a);
  bool r = ca == ca;
  r = ca == x;
  r = ca == cu;
  return r;
}
template int use_ref<A, A>(expected<A&, A>&, const expected<A&, A>&, A&, A&, const A&, unexpected<A>&, const unexpected<A>&, expected<B, A> (*)(A&), B (*)(A&),
                           expected<A&, B> (*)(A&), expected<A&, B> (*)(const A&), expected<A&, B> (*)(A&&), expected<A&, B> (*)(const A&&),
                           B (*)(A&), B (*)(const A&), B (*)(A&&), B (*)(const A&&));
template int use_ref<A, B>(expected<A&, B>&, const expected<A&, B>&, A&, B&, const B&, unexpected<B>&, const unexpected<B>&, expected<B, B> (*)(A&), B (*)(A&),
                           expected<A&, B> (*)(B&), expected<A&, B> (*)(const B&), expected<A&, B> (*)(B&&), expected<A&, B> (*)(const B&&),
                           B (*)(B&), B (*)(const B&), B (*)(B&&), B (*)(const B&&));
template int use_ref<A, C>(expected<A&, C>&, const expected<A&, C>&, A&, C&, const C&, unexpected<C>&, const unexpected<C>&, expected<B, C> (*)(A&), B (*)(A&),
                           expected<A&, B> (*)(C&), expected<A&, B> (*)(const C&), expected<A&, B> (*)(C&&), expected<A&, B> (*)(const C&&),
                           B (*)(C&), B (*)(const C&), B (*)(C&&), B (*)(const C&&));
int use_terr(expected<A&, A>& a, const expected<A&, A>& ca, B (*k1)(A&), B (*k2)(const A&), B (*k3)(A&&), B (*k4)(const A&&), expected<A, A>& p, const expected<A, A>& cp)
{
  (void)std::move(a).transform_error(k3);
  (void)std::move(ca).transform_error(k4);
  expected<const A&, B> d1(p), d2(cp);
  expected<const A&, A> d5(unexpect, { 1 }, nx());
  (void)a.transform_error(k1);
  (void)ca.transform_error(k2);
  return 0;
}
}
