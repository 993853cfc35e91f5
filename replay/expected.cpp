// every operation of expected on every combination of states, with an exception injected at every element operation
#include "elems.hpp"
#include <fitoria/core/expected.hpp>
using namespace fitoria;
using namespace el;
namespace {
struct S { // what an expected holds
  bool has;
  int v;
  bool operator==(S const&) const = default;
};
std::string sh(S s) { return (s.has ? "value " : "error ") + std::to_string(s.v); }
template <typename W> S look(W const& w)
{
  if (w.has_value()) {
    if constexpr (std::is_void_v<typename W::value_type>) {
      return { true, 0 };
    } else {
      return { true, (*w).v };
    }
  }
  return { false, w.error().v };
}
template <typename W> W mk(S s)
{
  using T = typename W::value_type;
  if (s.has) {
    if constexpr (std::is_void_v<T>) {
      return W();
    } else {
      return W(std::in_place, s.v);
    }
  }
  return W(unexpect, s.v);
}
template <typename W> std::size_t owned(W const& w)
{
  using T = typename W::value_type;
  if (w.has_value()) {
    if constexpr (std::is_void_v<T> || std::is_reference_v<T>) {
      return 0;
    } else {
      return counted<T>;
    }
  }
  return counted<typename W::error_type>;
}
// after an operation: the two objects are sound
template <typename W> void sound(W const& w, char const* which)
{
  look(w);
  if constexpr (!std::is_void_v<typename W::value_type>) {
    if (w.has_value()) {
      if constexpr (requires { (*w).in_use(); }) {
        (*w).in_use();
      }
    }
  }
  if (!w.has_value()) {
    if constexpr (requires { w.error().in_use(); }) {
      w.error().in_use();
    }
  }
  (void)which;
}
template <typename F> void guarded(std::string const& what, F f)
{
  for (int k = -1; k < 8; ++k) {
    rt::c(what + (k < 0 ? "" : ", element operation " + std::to_string(k) + " throws"));
    auto const before = alive.size();
    countdown = k;
    f(k);
    bool const all = k >= 0 && countdown >= 0;
    countdown = -1;
    rt::check(alive.size() == before, "elements leaked or were destroyed twice: " + std::to_string(before) + " alive before, " + std::to_string(alive.size()) + " after");
    if (all) {
      break;
    }
  }
}
template <typename T, typename Er> int mv(S s) { return s.has ? gone<T>(s.v) : gone<Er>(s.v); }

// op(a, b) on two expecteds; ra, rb: what they hold afterwards; on an exception a keeps its alternative, and its content when `strong`
template <typename W, typename Op> void two(std::string const& name, S a0, S b0, S ra, S rb, bool strong, Op op, bool self = false)
{
  guarded(name + " with " + sh(a0) + (self ? " (itself)" : " and " + sh(b0)), [&](int k) {
    int const saved = countdown;
    countdown = -1;
    W a = mk<W>(a0), b = mk<W>(b0);
    auto const base = alive.size() - owned(a) - owned(b);
    countdown = saved;
    bool threw = false;
    try {
      op(a, self ? a : b);
    } catch (boom const&) {
      threw = true;
    }
    int const rest = countdown;
    countdown = -1;
    sound(a, "left"), sound(b, "right");
    rt::check(alive.size() == base + owned(a) + owned(b), "elements leaked or were destroyed twice");
    if (threw) {
      rt::check(k >= 0, "exception although no element operation throws");
      rt::check(a.has_value() == a0.has, "a failed operation changed what the object says it holds");
      if (strong) {
        rt::check(look(a) == a0, "a failed operation left " + sh(look(a)) + ", before it was " + sh(a0));
      }
    } else {
      rt::check(look(a) == ra, "the object holds " + sh(look(a)) + ", expected " + sh(ra));
      if (!self) {
        rt::check(look(b) == rb, "the other object holds " + sh(look(b)) + ", expected " + sh(rb));
      }
    }
    countdown = rest;
  });
}
template <typename T, typename Er, int Q, typename W> decltype(auto) as(W& w)
{
  if constexpr (Q == 0) {
    return static_cast<W&>(w);
  } else if constexpr (Q == 1) {
    return static_cast<W const&>(w);
  } else if constexpr (Q == 2) {
    return static_cast<W&&>(w);
  } else {
    return static_cast<W const&&>(w);
  }
}
template <typename T, typename Er, int Q> void monadic(std::string const& n, S s)
{
  using W = expected<T, Er>;
  constexpr bool VV = std::is_void_v<T>;
  guarded(n + " and_then/transform/or_else/transform_error (qualifier " + std::to_string(Q) + ") on " + sh(s), [&](int) {
    int const saved = countdown;
    for (int op = 0; op < 4; ++op) {
      countdown = -1;
      W w = mk<W>(s);
      auto const base = alive.size() - owned(w);
      int calls = 0, seen = 0;
      S res {};
      countdown = saved;
      try {
        auto cbv = [&](auto&&... x) {
          ++calls;
          if constexpr (sizeof...(x) > 0) {
            seen = (x.v + ...);
          }
        };
        if (op == 0) {
          auto r = as<T, Er, Q>(w).and_then([&](auto&&... x) { return cbv(x...), expected<Y, Er>(std::in_place, 41); });
          res = look(r);
        } else if (op == 1) {
          auto r = as<T, Er, Q>(w).transform([&](auto&&... x) { return cbv(x...), Y(42); });
          res = look(r);
        } else if (op == 2) {
          auto r = as<T, Er, Q>(w).or_else([&](auto&& x) { return cbv(x), expected<T, Y>(unexpect, 43); });
          res = look(r);
        } else {
          if constexpr (!std::is_reference_v<T>) {
            auto r = as<T, Er, Q>(w).transform_error([&](auto&& x) { return cbv(x), Y(44); });
            res = look(r);
          } else {
            continue;
          }
        }
        bool const on = (op < 2) == s.has;
        rt::check(calls == (on ? 1 : 0), "operation " + std::to_string(op) + ": the callback ran " + std::to_string(calls) + " times");
        if (on && !(VV && op < 2)) {
          rt::check(seen == s.v, "operation " + std::to_string(op) + ": the callback received " + std::to_string(seen));
        }
        S const want = on ? S { op < 2, 41 + op } : s;
        rt::check(res == want, "operation " + std::to_string(op) + " results in " + sh(res) + ", expected " + sh(want));
      } catch (boom const&) {
      }
      countdown = -1;
      sound(w, "");
      rt::check(w.has_value() == s.has, "operation " + std::to_string(op) + " changed what the object says it holds");
      if (Q == 1 || Q == 3) {
        rt::check(look(w) == s, "a const operation changed the object");
      }
      rt::check(alive.size() == base + owned(w), "elements leaked");
    }
    countdown = saved;
  });
}
template <typename T, typename Er> void pair_tests()
{
  using W = expected<T, Er>;
  constexpr bool VV = std::is_void_v<T>;
  std::string n = std::string("expected<") + (VV ? "void" : nm<T>()) + ", " + nm<Er>() + ">: ";
  S const st[] = { { true, VV ? 0 : 11 }, { true, VV ? 0 : 12 }, { false, 11 }, { false, 22 } };
  auto m = [](S s) { return S { s.has, VV && s.has ? 0 : s.has ? gone<std::conditional_t<VV, Tr, T>>(s.v) : gone<Er>(s.v) }; };
  for (S a : st) {
    for (S b : st) {
      bool const strong = a.has != b.has;
      if constexpr (requires(W& x, W const& y) { x = y; }) {
        two<W>(n + "copy assignment", a, b, b, b, strong, [](W& x, W& y) { x = static_cast<W const&>(y); });
      }
      if constexpr (requires(W& x, W& y) { x = std::move(y); }) {
        two<W>(n + "move assignment", a, b, b, m(b), strong, [](W& x, W& y) { x = std::move(y); });
      }
      if constexpr (requires(W& x, W& y) { x.swap(y); }) {
        two<W>(n + "swap", a, b, b, a, false, [](W& x, W& y) { x.swap(y); });
        two<W>(n + "free swap", a, b, b, a, false, [](W& x, W& y) { swap(x, y); });
      }
      two<W>(n + "comparison", a, b, a, b, true, [&](W& x, W& y) {
        bool const r = x == y;
        rt::check(r == (a == b), "operator== says " + std::to_string(r));
      });
      two<W>(n + "copy construction", a, b, a, b, true, [&](W&, W& y) {
        W z(static_cast<W const&>(y));
        int const c = countdown;
        countdown = -1;
        rt::check(look(z) == b, "the copy holds " + sh(look(z)));
        countdown = c;
      });
      two<W>(n + "move construction", a, b, a, m(b), true, [&](W&, W& y) {
        W z(std::move(y));
        int const c = countdown;
        countdown = -1;
        rt::check(look(z) == b, "the new object holds " + sh(look(z)));
        countdown = c;
      });
      if (!b.has) {
        if constexpr (requires(W& x, unexpected<Er> const& u) { x = u; }) {
          two<W>(n + "assignment of an error", a, b, b, b, strong, [&](W& x, W&) {
            int const c = countdown;
            countdown = -1;
            unexpected<Er> const u(std::in_place, b.v);
            countdown = c;
            x = u;
          });
          two<W>(n + "move assignment of an error", a, b, b, b, strong, [&](W& x, W&) {
            int const c = countdown;
            countdown = -1;
            unexpected<Er> u(std::in_place, b.v);
            countdown = c;
            x = std::move(u);
          });
        }
        two<W>(n + "construction from an error", a, b, a, b, true, [&](W&, W&) {
          int const c = countdown;
          countdown = -1;
          unexpected<Er> u(std::in_place, b.v);
          countdown = c;
          W z(static_cast<unexpected<Er> const&>(u));
          W z2(unexpect, b.v);
          W z3(std::move(u));
          int const c2 = countdown;
          countdown = -1;
          rt::check(look(z) == b && look(z2) == b && look(z3) == b, "the new object does not hold the error");
          rt::check((z == unexpected<Er>(std::in_place, b.v)) && !(z == unexpected<Er>(std::in_place, b.v + 1)), "comparison with an error");
          countdown = c2;
        });
      } else if constexpr (!VV) {
        if constexpr (requires(W& x, T const& u) { x = u; }) {
          two<W>(n + "assignment of a value", a, b, b, b, strong, [&](W& x, W&) {
            int const c = countdown;
            countdown = -1;
            T u(b.v);
            countdown = c;
            if (b.v == 11) {
              x = static_cast<T const&>(u);
            } else {
              x = std::move(u);
            }
          });
        }
        two<W>(n + "construction from a value", a, b, a, b, true, [&](W&, W&) {
          int const c = countdown;
          countdown = -1;
          T u(b.v);
          countdown = c;
          W z(static_cast<T const&>(u)), z2(std::in_place, b.v), z3(std::move(u));
          int const c2 = countdown;
          countdown = -1;
          rt::check(look(z) == b && look(z2) == b && look(z3) == b, "the new object does not hold the value");
          rt::check((z == T(b.v)) && !(z == T(b.v + 1)), "comparison with a value");
          countdown = c2;
        });
        two<W>(n + "emplace", a, b, S { true, b.v }, b, false, [&](W& x, W&) {
          int const c = countdown;
          countdown = -1;
          if constexpr (requires { x.emplace(nx(), b.v); }) {
            auto& r = x.emplace(nx(), b.v);
            rt::check(&r == &*x, "emplace does not return the new value");
          } else {
            x = mk<W>(b);
          }
          countdown = c;
        });
      } else {
        two<W>(n + "emplace", a, b, S { true, 0 }, b, false, [&](W& x, W&) { x.emplace(); });
      }
    }
    // on one object
    two<W>(n + "copy assignment from itself", a, a, a, a, false, [](W& x, W& y) {
      if constexpr (requires { x = y; }) {
        x = static_cast<W const&>(y);
      }
    }, true);
    if constexpr (requires(W& x, W& y) { x.swap(y); }) {
      two<W>(n + "swap with itself", a, a, a, a, false, [](W& x, W& y) { x.swap(y); }, true);
    }
    if constexpr (requires(W& x, W& y) { x = std::move(y); }) {
      two<W>(n + "move assignment from itself", a, a, a, a, false, [](W& x, W& y) { x = std::move(y); }, true);
    }
    two<W>(n + "observers", a, a, a, a, true, [&](W& x, W&) {
      int const c = countdown;
      countdown = -1;
      W const& k = x;
      rt::check(x.has_value() == a.has && bool(k) == a.has, "has_value/operator bool");
      auto bad = [&](auto f) {
        try {
          f();
          rt::check(a.has, "value() returned although an error is held");
        } catch (bad_expected_access<Er> const& e) {
          rt::check(!a.has, "value() threw although a value is held");
          rt::check(e.error().v == a.v, "the exception carries " + std::to_string(e.error().v));
        }
      };
      if constexpr (VV) {
        bad([&] { k.value(); });
        bad([&] { W y(x); std::move(y).value(); });
      } else {
        bad([&] { rt::check(&x.value() == &*x, "value() is not the held value"); });
        bad([&] { rt::check(&k.value() == &*k, "value() is not the held value"); });
        bad([&] { W y(x); auto&& r = std::move(y).value(); rt::check(&r == &*y, "value() is not the held value"); });
        bad([&] { auto&& r = std::move(k).value(); rt::check(&r == &*k, "value() is not the held value"); });
        if (a.has) {
          rt::check(x.operator->() == &*x && k.operator->() == &*x, "operator->");
        }
        T r = k.value_or(T(77));
        rt::check(r.v == (a.has ? a.v : 77), "value_or gives " + std::to_string(r.v));
        W y(x);
        T r2 = std::move(y).value_or(T(77));
        rt::check(r2.v == (a.has ? a.v : 77), "value_or gives " + std::to_string(r2.v));
      }
      Er r = k.error_or(Er(78));
      rt::check(r.v == (a.has ? 78 : a.v), "error_or gives " + std::to_string(r.v));
      W y(x);
      Er r2 = std::move(y).error_or(Er(78));
      rt::check(r2.v == (a.has ? 78 : a.v), "error_or gives " + std::to_string(r2.v));
      countdown = c;
    });
    monadic<T, Er, 0>(n, a);
    monadic<T, Er, 1>(n, a);
    monadic<T, Er, 2>(n, a);
    monadic<T, Er, 3>(n, a);
  }
  rt::c(n + "default construction");
  W d;
  rt::check(d.has_value(), "a default constructed expected holds no value");
  if constexpr (!VV) {
    if constexpr (counted<T>) {
      rt::check((*d).v == 100, "a default constructed expected holds a wrong value");
    }
  }
}
template <typename Er> void ref_tests()
{
  using W = expected<N&, Er>;
  std::string const n = std::string("expected<T&, ") + nm<Er>() + ">: ";
  for (int ah = 0; ah < 2; ++ah) {
    for (int bh = 0; bh < 2; ++bh) {
      for (int op = 0; op < 9; ++op) {
        guarded(n + "operation " + std::to_string(op) + (ah ? " on a reference" : " on an error") + (bh ? " with a reference" : " with an error"), [&](int k) {
          int const saved = countdown;
          countdown = -1;
          N o1(1), o2(2);
          W a = ah ? W(o1) : W(unexpect, 31), b = bh ? W(o2) : W(unexpect, 32);
          auto const base = alive.size() - owned(a) - owned(b);
          auto is = [&](W const& w, bool h, int one) { return w.has_value() == h && (h ? &*w == (one == 1 ? &o1 : &o2) && w.operator->() == &*w && &w.value() == &*w : w.error().v == 30 + one); };
          unexpected<Er> u(std::in_place, 32);
          auto const extra = counted<Er>;
          countdown = saved;
          bool threw = false;
          try {
            switch (op) {
            case 0: a = static_cast<W const&>(b); break;
            case 1: a = std::move(b); break;
            case 2: a = static_cast<W const&>(a); break;
            case 3: a.swap(b); break;
            case 4: swap(a, b); break;
            case 5: a.swap(a); break;
            case 6: bh ? void(a = o2) : void(a = static_cast<unexpected<Er> const&>(u)); break;
            case 7: bh ? void(a.emplace(o2)) : void(a = std::move(u)); break;
            case 8: {
              W z(static_cast<W const&>(b));
              int const c = countdown;
              countdown = -1;
              rt::check(is(z, bh, 2), "the copy differs");
              countdown = c;
              W z2(std::move(b));
              countdown = -1;
              rt::check(is(z2, bh, 2), "the moved object differs");
            } break;
            }
          } catch (boom const&) {
            threw = true;
          }
          int const rest = countdown;
          countdown = -1;
          look(a), look(b);
          rt::check(alive.size() == base + owned(a) + owned(b) + extra, "elements leaked or were destroyed twice");
          if (threw) {
            rt::check(k >= 0, "exception although no element operation throws");
            rt::check(a.has_value() == ah, "a failed operation changed what the object says it holds");
            if (ah) {
              rt::check(&*a == &o1, "a failed operation lost the reference");
            }
          } else {
            bool const keeps = op == 2 || op == 5 || op == 8;
            rt::check(is(a, keeps ? ah : bh, keeps ? 1 : 2), "the object holds " + std::string(a.has_value() ? "a reference" : "error " + std::to_string(a.error().v)) + ", which is not what was assigned");
            if (op == 3 || op == 4) {
              rt::check(is(b, ah, 1), "swap lost one side");
            }
          }
          countdown = rest;
        });
      }
    }
    guarded(n + "observers and callbacks", [&](int) {
      int const saved = countdown;
      countdown = -1;
      N o1(1), dflt(5);
      W a = ah ? W(o1) : W(unexpect, 31);
      W const& k = a;
      rt::check(bool(k) == ah && k.has_value() == ah, "has_value");
      try {
        rt::check(&k.value() == &o1 && ah, "value()");
      } catch (bad_expected_access<Er> const& e) {
        rt::check(!ah && e.error().v == 31, "value() threw");
      }
      rt::check(k.value_or(dflt).v == (ah ? 1 : 5), "value_or");
      rt::check(k.error_or(Er(6)).v == (ah ? 6 : 31), "error_or");
      int calls = 0;
      auto r1 = k.and_then([&](N& x) { ++calls; rt::check(&x == &o1, "callback got another object"); return expected<Y, Er>(std::in_place, 41); });
      auto r2 = k.transform([&](N& x) { ++calls; rt::check(&x == &o1, "callback got another object"); return Y(42); });
      rt::check(calls == 2 * ah && look(r1) == S { ah != 0, ah ? 41 : 31 } && look(r2) == S { ah != 0, ah ? 42 : 31 }, "and_then/transform");
      calls = 0;
      auto r3 = k.or_else([&](Er const& x) { ++calls; rt::check(x.v == 31, "callback got another error"); return expected<N&, Y>(unexpect, 43); });
      rt::check(calls == !ah && r3.has_value() == ah && (ah ? &*r3 == &o1 : r3.error().v == 43), "or_else");
      rt::check(k == k && (k == o1) == ah && !(k == dflt), "comparison");
      countdown = saved;
    });
  }
}
void conversions()
{
  for (int h = 0; h < 2; ++h) {
    guarded(std::string("converting from expected<nothrow-move, nothrow-move> to expected<other, other> holding ") + (h ? "a value" : "an error"), [&](int) {
      int const saved = countdown;
      countdown = -1;
      S const s { h != 0, 9 };
      auto src = mk<expected<N, N>>(s);
      auto vs = h ? expected<void, N>() : expected<void, N>(unexpect, 9);
      countdown = saved;
      try {
        expected<Y, Y> a(static_cast<expected<N, N> const&>(src));
        expected<void, Y> va(static_cast<expected<void, N> const&>(vs));
        int const c = countdown;
        countdown = -1;
        rt::check(look(a) == s && look(src) == s, "copy conversion: holds " + sh(look(a)));
        rt::check(va.has_value() == !!h && (h || va.error().v == 9), "copy conversion of expected<void>");
        countdown = c;
        expected<Y, Y> b(std::move(src));
        expected<void, Y> vb(std::move(vs));
        countdown = -1;
        rt::check(look(b) == s && src.has_value() == !!h, "move conversion: holds " + sh(look(b)));
        rt::check(vb.has_value() == !!h && (h || vb.error().v == 9), "move conversion of expected<void>");
        expected<Y, Y> c1(unexpected<N>(std::in_place, 4));
        rt::check(look(c1) == S { false, 4 }, "conversion from an error");
        expected<N, N> d(std::in_place, { 3, 4 }, 5), e(unexpect, { 3, 4 }, 5);
        rt::check(look(d) == S { true, 20305 } && look(e) == S { false, 20305 }, "in place construction from a list");
        d.emplace({ 6, 1, 1 }, nx());
        rt::check(look(d) == S { true, 30600 }, "emplace from a list");
        e.emplace({ 6, 1, 1 }, nx());
        rt::check(look(e) == S { true, 30600 }, "emplace from a list");
      } catch (boom const&) {
      }
      countdown = saved;
    });
  }
  rt::c("unexpected");
  unexpected<N> a(std::in_place, 1), b(std::in_place, { 3, 4 }, 5), c(N(7));
  rt::check(a.error().v == 1 && b.error().v == 20305 && c.error().v == 7, "construction of unexpected");
  a.swap(b);
  rt::check(a.error().v == 20305 && b.error().v == 1, "unexpected::swap");
  swap(a, c);
  rt::check(a.error().v == 7 && c.error().v == 20305, "swap(unexpected, unexpected)");
  rt::check(a == a && !(a == b), "comparison of unexpected");
  unexpected<N> const k(std::move(a));
  rt::check(k.error().v == 7, "move construction of unexpected");
}
}
void search()
{
  pair_tests<N, N>();
  pair_tests<N, X>();
  pair_tests<X, N>();
  pair_tests<N, Tr>();
  pair_tests<Tr, N>();
  pair_tests<X, Tr>();
  pair_tests<Tr, X>();
  pair_tests<Tr, Tr>();
  pair_tests<void, N>();
  pair_tests<void, X>();
  pair_tests<void, Tr>();
  ref_tests<N>();
  ref_tests<X>();
  ref_tests<Tr>();
  conversions();
}
