// every operation of optional on every combination of states, with an exception injected at every element operation
#include "elems.hpp"
#include <fitoria/core/optional.hpp>
using namespace fitoria;
using namespace el;
namespace {
struct S {
  bool has;
  int v;
  bool operator==(S const& o) const { return has == o.has && (!has || v == o.v); }
};
std::string sh(S s) { return s.has ? "value " + std::to_string(s.v) : "nothing"; }
template <typename T> S look(optional<T> const& w)
{
  if (!w.has_value()) {
    return { false, 0 };
  }
  if constexpr (std::is_void_v<T>) {
    return { true, 0 };
  } else {
    if constexpr (requires { (*w).in_use(); }) {
      (*w).in_use();
    }
    return { true, (*w).v };
  }
}
template <typename T> std::size_t owned(optional<T> const& w) { return w.has_value() && counted<T> ? 1 : 0; }
struct quiet { // no exceptions are injected in here
  int c = countdown;
  quiet() { countdown = -1; }
  ~quiet() { countdown = c; }
};
template <typename F> void guarded(std::string const& what, F f)
{
  for (int k = -1; k < 8; ++k) {
    rt::c(what + (k < 0 ? "" : ", element operation " + std::to_string(k) + " throws"));
    auto const before = alive.size();
    countdown = k;
    f(k);
    bool const all = k >= 0 && countdown >= 0;
    countdown = -1;
    rt::check(alive.size() == before, "elements leaked or were destroyed twice: " + std::to_string(before) + " alive before, " + std::to_string(alive.size()) + " after");
    if (all) {
      break;
    }
  }
}
enum : int { STRONG = 1, EMPTIES = 2, SELF = 4, FREE = 8 };
template <typename T, typename Op> void two(std::string const& name, S a0, S b0, S ra, S rb, int flags, Op op)
{
  bool const self = flags & SELF;
  guarded(name + " with " + sh(a0) + (self ? " (itself)" : " and " + sh(b0)), [&](int k) {
    using W = optional<T>;
    auto mk = [](S s) {
      quiet q;
      return s.has ? W(std::in_place, s.v) : W();
    };
    W a = [&] { return mk(a0); }(), b = [&] { return mk(b0); }();
    auto const base = alive.size() - owned(a) - owned(b);
    bool threw = false;
    try {
      op(a, self ? a : b);
    } catch (boom const&) {
      threw = true;
    }
    quiet q;
    S const sa = look(a), sb = look(b);
    rt::check(alive.size() == base + owned(a) + owned(b), "elements leaked or were destroyed twice");
    if (threw) {
      rt::check(k >= 0, "exception although no element operation throws");
      if (flags & EMPTIES) {
        rt::check(!a.has_value(), "a failed emplace left something in the optional");
      } else if (!(flags & FREE)) {
        rt::check(a.has_value() == a0.has, "a failed operation changed what the object says it holds");
        if (flags & STRONG) {
          rt::check(sa == a0, "a failed operation left " + sh(sa) + ", before it was " + sh(a0));
        }
      }
    } else {
      rt::check(sa == ra, "the object holds " + sh(sa) + ", expected " + sh(ra));
      if (!self) {
        rt::check(sb == rb, "the other object holds " + sh(sb) + ", expected " + sh(rb));
      }
    }
  });
}
template <int Q, typename W> decltype(auto) as(W& w)
{
  if constexpr (Q == 0) {
    return static_cast<W&>(w);
  } else if constexpr (Q == 1) {
    return static_cast<W const&>(w);
  } else if constexpr (Q == 2) {
    return static_cast<W&&>(w);
  } else {
    return static_cast<W const&&>(w);
  }
}
template <typename T, int Q> void monadic(std::string const& n, S s)
{
  guarded(n + " and_then/transform/or_else (qualifier " + std::to_string(Q) + ") on " + sh(s), [&](int) {
    for (int op = 0; op < 3; ++op) {
      optional<T> w = [&] {
        quiet q;
        return s.has ? optional<T>(std::in_place, s.v) : optional<T>();
      }();
      auto const base = alive.size() - owned(w);
      int calls = 0, seen = 0;
      S res {};
      try {
        if (op == 0) {
          auto r = as<Q>(w).and_then([&](auto&& x) { return ++calls, seen = x.v, optional<Y>(std::in_place, 41); });
          quiet q;
          res = look(r);
        } else if (op == 1) {
          auto r = as<Q>(w).transform([&](auto&& x) { return ++calls, seen = x.v, Y(42); });
          quiet q;
          res = look(r);
        } else {
          if constexpr (Q == 1 || Q == 2) {
            auto r = as<Q>(w).or_else([&] { return ++calls, optional<T>(std::in_place, 43); });
            quiet q;
            res = look(r);
          } else {
            continue;
          }
        }
        quiet q;
        bool const on = (op < 2) == s.has;
        rt::check(calls == (on ? 1 : 0), "operation " + std::to_string(op) + ": the callback ran " + std::to_string(calls) + " times");
        if (on && op < 2) {
          rt::check(seen == s.v, "operation " + std::to_string(op) + ": the callback received " + std::to_string(seen));
        }
        S const want = on ? S { true, 41 + op } : s.has ? s : S { false, 0 };
        rt::check(res == want, "operation " + std::to_string(op) + " results in " + sh(res) + ", expected " + sh(want));
      } catch (boom const&) {
      }
      quiet q;
      S const after = look(w);
      rt::check(after.has == s.has, "operation " + std::to_string(op) + " changed what the object says it holds");
      if (Q == 1 || Q == 3) {
        rt::check(after == s, "a const operation changed the object");
      }
      rt::check(alive.size() == base + owned(w), "elements leaked");
    }
  });
}
template <typename T> void element_tests()
{
  using W = optional<T>;
  std::string const n = std::string("optional<") + nm<T>() + ">: ";
  S const st[] = { { false, 0 }, { true, 11 }, { true, 12 } };
  auto m = [](S s) { return S { s.has, gone<T>(s.v) }; };
  auto val = [](int v) {
    quiet q;
    return T(v);
  };
  for (S a : st) {
    for (S b : st) {
      int const strong = a.has != b.has ? STRONG : 0;
      two<T>(n + "copy assignment", a, b, b, b, strong, [](W& x, W& y) { x = static_cast<W const&>(y); });
      two<T>(n + "move assignment", a, b, b, m(b), strong, [](W& x, W& y) { x = std::move(y); });
      two<T>(n + "swap", a, b, b, a, 0, [](W& x, W& y) { x.swap(y); });
      two<T>(n + "free swap", a, b, b, a, 0, [](W& x, W& y) { swap(x, y); });
      two<T>(n + "copy construction", a, b, a, b, STRONG, [&](W&, W& y) {
        W z(static_cast<W const&>(y));
        quiet q;
        rt::check(look(z) == b, "the copy holds " + sh(look(z)));
      });
      two<T>(n + "move construction", a, b, a, m(b), STRONG, [&](W&, W& y) {
        W z(std::move(y));
        quiet q;
        rt::check(look(z) == b, "the new object holds " + sh(look(z)));
      });
      two<T>(n + "comparison", a, b, a, b, STRONG, [&](W& x, W& y) {
        auto key = [](S s) { return s.has ? s.v : -1000; };
        auto const want = key(a) <=> key(b);
        auto bad = [&](char const* op) { rt::fail(std::string("operator") + op + " is wrong"); };
        W const &l = x, &r = y;
        if ((l == r) != (want == 0)) { bad("=="); }
        if ((l != r) != (want != 0)) { bad("!="); }
        if ((l < r) != (want < 0)) { bad("<"); }
        if ((l <= r) != (want <= 0)) { bad("<="); }
        if ((l > r) != (want > 0)) { bad(">"); }
        if ((l >= r) != (want >= 0)) { bad(">="); }
        if ((l <=> r) != want) { bad("<=>"); }
        if ((l == nullopt) != !a.has) { bad("== nullopt"); }
        if ((l <=> nullopt) != (a.has <=> false)) { bad("<=> nullopt"); }
        if (b.has) {
          quiet q;
          T const v(b.v);
          if ((l == v) != (want == 0)) { bad("== value"); }
          if ((l != v) != (want != 0)) { bad("!= value"); }
          if ((l < v) != (want < 0)) { bad("< value"); }
          if ((l <= v) != (want <= 0)) { bad("<= value"); }
          if ((l > v) != (want > 0)) { bad("> value"); }
          if ((l >= v) != (want >= 0)) { bad(">= value"); }
          auto const back = key(b) <=> key(a);
          if ((v == l) != (back == 0)) { bad("== (value first)"); }
          if ((v != l) != (back != 0)) { bad("!= (value first)"); }
          if ((v < l) != (back < 0)) { bad("< (value first)"); }
          if ((v <= l) != (back <= 0)) { bad("<= (value first)"); }
          if ((v > l) != (back > 0)) { bad("> (value first)"); }
          if ((v >= l) != (back >= 0)) { bad(">= (value first)"); }
        }
      });
      if (b.has) {
        two<T>(n + "assignment of a value", a, b, b, b, strong, [&](W& x, W&) {
          T u = val(b.v);
          x = static_cast<T const&>(u);
        });
        two<T>(n + "move assignment of a value", a, b, b, b, strong, [&](W& x, W&) {
          T u = val(b.v);
          x = std::move(u);
        });
        two<T>(n + "emplace", a, b, b, b, EMPTIES, [&](W& x, W&) {
          T& r = x.emplace(b.v);
          rt::check(&r == &*x, "emplace does not return the new value");
        });
        two<T>(n + "construction from a value", a, b, a, b, STRONG, [&](W&, W&) {
          T u = val(b.v);
          W z(static_cast<T const&>(u)), z2(std::in_place, b.v), z3(std::move(u)), z4(make_optional(W(std::in_place, b.v).value()));
          quiet q;
          rt::check(look(z) == b && look(z2) == b && look(z3) == b && look(z4) == b, "the new object does not hold the value");
          W z5(std::in_place, 3, 4), z6(make_optional<T>(3, 4));
          rt::check(look(z5) == S { true, 3004 } && look(z6) == S { true, 3004 }, "in place construction");
        });
      } else {
        two<T>(n + "reset", a, b, b, b, STRONG, [](W& x, W&) { x.reset(); });
        two<T>(n + "assignment of nullopt", a, b, b, b, STRONG, [](W& x, W&) { x = nullopt; });
      }
    }
    two<T>(n + "copy assignment from itself", a, a, a, a, SELF, [](W& x, W& y) { x = static_cast<W const&>(y); });
    two<T>(n + "move assignment from itself", a, a, a, a, SELF, [](W& x, W& y) { x = std::move(y); });
    two<T>(n + "swap with itself", a, a, a, a, SELF | FREE, [](W& x, W& y) { x.swap(y); });
    two<T>(n + "observers", a, a, a, a, STRONG, [&](W& x, W&) {
      quiet q;
      W const& k = x;
      rt::check(x.has_value() == a.has && bool(k) == a.has, "has_value/operator bool");
      auto bad = [&](auto f) {
        try {
          f();
          rt::check(a.has, "value() returned although nothing is held");
        } catch (bad_optional_access const&) {
          rt::check(!a.has, "value() threw although a value is held");
        }
      };
      bad([&] { rt::check(&x.value() == &*x, "value() is not the held value"); });
      bad([&] { rt::check(&k.value() == &*k, "value() is not the held value"); });
      bad([&] { auto&& r = std::move(x).value(); rt::check(&r == &*x, "value() is not the held value"); });
      bad([&] { auto&& r = std::move(k).value(); rt::check(&r == &*k, "value() is not the held value"); });
      if (a.has) {
        rt::check(x.operator->() == &*x && k.operator->() == &*x, "operator->");
      }
      T r = k.value_or(T(77));
      rt::check(r.v == (a.has ? a.v : 77), "value_or gives " + std::to_string(r.v));
      W y(x);
      T r2 = std::move(y).value_or(T(77));
      rt::check(r2.v == (a.has ? a.v : 77), "value_or gives " + std::to_string(r2.v));
    });
    monadic<T, 0>(n, a);
    monadic<T, 1>(n, a);
    monadic<T, 2>(n, a);
    monadic<T, 3>(n, a);
  }
  rt::c(n + "default construction");
  W d, d2(nullopt);
  rt::check(!d.has_value() && !d2.has_value(), "a default constructed optional holds a value");
}
void lists_and_conversions()
{
  guarded("optional: construction and emplace from a list", [&](int k) {
    try {
      optional<N> a(std::in_place, { 3, 4 }, 5), b;
      b.emplace({ 6, 1, 1 }, 2);
      quiet q;
      rt::check(look(a) == S { true, 20305 } && look(b) == S { true, 30602 }, "holds another value");
    } catch (boom const&) {
    }
    optional<N> c;
    {
      quiet q;
      c = 5;
    }
    try {
      c.emplace({ 6, 1, 1 }, 2);
    } catch (boom const&) {
      quiet q;
      rt::check(k >= 0 && !c.has_value(), "a failed emplace left something in the optional");
    }
    quiet q;
    c = 9;
    rt::check(look(c) == S { true, 9 } && c == 9 && c < 10 && !(c < 9) && c <= 9 && c != 8 && c > 8 && c >= 9, "assignment of a convertible value, comparison with it");
  });
  for (int h = 0; h < 2; ++h) {
    for (int t = 0; t < 2; ++t) {
      guarded(std::string("optional: converting assignment and construction, source ") + (h ? "holds a value" : "is empty") + ", target " + (t ? "holds a value" : "is empty"), [&](int) {
        int const saved = countdown;
        countdown = -1;
        optional<N> src, from;
        optional<Y> a, b;
        if (h) {
          src = 9, from = 9;
        }
        if (t) {
          a.emplace(3), b.emplace(4);
        }
        countdown = saved;
        S const s { h != 0, 9 };
        try {
          optional<Y> c(static_cast<optional<N> const&>(src));
          {
            quiet q;
            rt::check(look(c) == s && look(src) == s, "copy conversion holds " + sh(look(c)));
          }
          a = static_cast<optional<N> const&>(src);
          {
            quiet q;
            rt::check(look(a) == s && look(src) == s, "converting copy assignment leaves " + sh(look(a)));
          }
          b = std::move(from);
          {
            quiet q;
            rt::check(look(b) == s && from.has_value() == !!h, "converting move assignment leaves " + sh(look(b)));
          }
          optional<Y> d(std::move(src));
          quiet q;
          rt::check(look(d) == s, "move conversion holds " + sh(look(d)));
        } catch (boom const&) {
        }
        quiet q;
        look(a), look(b), look(src), look(from);
      });
    }
  }
}
struct Base {
  int v;
};
struct Derived : Base { };
void refs()
{
  N o1(1), o2(2);
  for (int ah = 0; ah < 2; ++ah) {
    for (int bh = 0; bh < 2; ++bh) {
      for (int op = 0; op < 8; ++op) {
        rt::c("optional<T&>: operation " + std::to_string(op) + (ah ? " on a reference" : " on an empty one") + (bh ? " with a reference" : " with an empty one"));
        optional<N&> a, b;
        if (ah) {
          a.emplace(o1);
        }
        if (bh) {
          b = o2;
        }
        auto is = [&](optional<N&> const& w, bool h, N& o) { return w.has_value() == h && bool(w) == h && (!h || (&*w == &o && w.operator->() == &o && &w.value() == &o)); };
        switch (op) {
        case 0: a = static_cast<optional<N&> const&>(b); break;
        case 1: a = std::move(b); break;
        case 2: a.swap(b); break;
        case 3: bh ? void(a = o2) : void(a = nullopt); break;
        case 4: bh ? void(rt::check(&a.emplace(o2) == &o2, "emplace returns another object")) : a.reset(); break;
        case 5: { optional<N&> c(b); rt::check(is(c, bh, o2), "copy"); optional<N const&> d(a); rt::check(d.has_value() == ah && (!ah || &*d == &o1), "conversion"); a = b; } break;
        case 6: { optional<N const&> d; ah ? void(d = o1) : d.reset(); d = b; rt::check(d.has_value() == bh && (!bh || &*d == &o2), "converting assignment"); a = b; } break;
        case 7: {
          int calls = 0;
          auto r1 = a.and_then([&](N& x) { ++calls; rt::check(&x == &o1, "callback got another object"); return optional<int>(41); });
          auto r2 = a.transform([&](N& x) { ++calls; rt::check(&x == &o1, "callback got another object"); return 42; });
          rt::check(calls == 2 * ah && r1.has_value() == ah && r2.has_value() == ah && (!ah || (*r1 == 41 && *r2 == 42)), "and_then/transform");
          auto r3 = a.or_else([&] { calls = 100; return optional<N&>(o2); });
          rt::check(&*r3 == (ah ? &o1 : &o2) && (calls == 100) == !ah, "or_else");
          rt::check(a.value_or(N(5)).v == (ah ? 1 : 5), "value_or");
          try {
            a.value();
            rt::check(ah, "value() of an empty reference");
          } catch (bad_optional_access const&) {
            rt::check(!ah, "value() threw");
          }
          rt::check((a == b) == (!ah && !bh) && (a < b) == (bh && (!ah || true)), "comparison");
          a = b;
        } break;
        }
        rt::check(is(a, bh, o2), "does not refer to what was assigned");
        if (op == 2) {
          rt::check(is(b, ah, o1), "swap lost one side");
        } else {
          rt::check(is(b, bh, o2), "the source changed");
        }
        rt::check(o1.v == 1 && o2.v == 2, "the objects referred to were modified");
      }
    }
  }
  rt::c("optional<Base&> = empty optional<Derived&>");
  Derived d;
  optional<Derived&> e, f(d);
  Base bb;
  optional<Base&> o(bb);
  o = f;
  rt::check(o.has_value() && &*o == &d, "converting assignment of a reference");
  o = e;
  rt::check(!o.has_value(), "still refers to an object");
}
void voids()
{
  for (int ah = 0; ah < 2; ++ah) {
    for (int bh = 0; bh < 2; ++bh) {
      rt::c(std::string("optional<void>: ") + (ah ? "set" : "empty") + " and " + (bh ? "set" : "empty"));
      auto mk = [](int h) { return h ? optional<void>(std::in_place) : optional<void>(); };
      auto a = mk(ah), b = mk(bh);
      rt::check(a.has_value() == ah && bool(b) == bh, "construction");
      rt::check((a == b) == (ah == bh) && (a != b) == (ah != bh) && (a < b) == (ah < bh) && (a <= b) == (ah <= bh) && (a > b) == (ah > bh) && (a >= b) == (ah >= bh), "comparison");
      a.swap(b);
      rt::check(a.has_value() == bh && b.has_value() == ah, "swap");
      a = b;
      rt::check(a.has_value() == ah && b.has_value() == ah, "assignment");
      try {
        a.value();
        rt::check(ah, "value() of an empty one");
      } catch (bad_optional_access const&) {
        rt::check(!ah, "value() threw");
      }
      int calls = 0;
      auto r1 = a.and_then([&] { ++calls; return optional<int>(41); });
      auto r2 = a.transform([&] { ++calls; return 42; });
      auto r3 = a.transform([&] { ++calls; });
      rt::check(calls == 3 * ah && r1.has_value() == ah && r2.has_value() == ah && r3.has_value() == ah && (!ah || (*r1 == 41 && *r2 == 42)), "and_then/transform");
      calls = 0;
      auto r4 = a.or_else([&] { ++calls; return mk(bh); });
      rt::check(calls == !ah && r4.has_value() == (ah || bh), "or_else");
      a.emplace();
      rt::check(a.has_value(), "emplace");
      b = a;
      a.reset();
      b = nullopt;
      rt::check(!a.has_value() && !b.has_value(), "reset");
    }
  }
}
}
void search()
{
  element_tests<N>();
  element_tests<X>();
  element_tests<Tr>();
  lists_and_conversions();
  refs();
  voids();
}
