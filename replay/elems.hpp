// Instrumented element types: every lifetime rule is checked at every operation, any throwing operation can be made to throw.
#pragma once
#include "rt.hpp"
#include <compare>
#include <initializer_list>
#include <set>
#include <stdexcept>
namespace el {
inline std::set<void const*> alive;
inline int countdown = -1; // throw at the operation after this many
inline constexpr int GONE = -7; // value of a moved-from element
struct boom : std::runtime_error {
  boom() : std::runtime_error("element operation failed") { }
};
inline void may_throw()
{
  if (countdown == 0) {
    countdown = -1;
    throw boom();
  }
  if (countdown > 0) {
    --countdown;
  }
}
struct nx { };
// K: 0 moves do not throw, 1 everything throws
template <int K> struct E {
  int v;
  int const* self; // detects elements copied byte by byte
  void born()
  {
    rt::check(alive.insert(this).second, "an element is constructed where another one is still alive");
    self = &v;
  }
  void in_use() const { rt::check(alive.count(this) == 1 && self == &v, "an element is used that was never constructed or was already destroyed"); }
  E() : v((may_throw(), 100)) { born(); }
  E(int x) : v((may_throw(), x)) { born(); }
  E(int x, int y) : v((may_throw(), x * 1000 + y)) { born(); }
  E(nx, int x = 55) noexcept : v(x) { born(); }
  E(std::initializer_list<int> il, int y) : v((may_throw(), static_cast<int>(il.size()) * 10000 + *il.begin() * 100 + y)) { born(); }
  E(std::initializer_list<int> il, nx) noexcept : v(static_cast<int>(il.size()) * 10000 + *il.begin() * 100) { born(); }
  E(E const& o) : v((o.in_use(), may_throw(), o.v)) { born(); }
  E(E&& o) noexcept(K == 0)
  {
    o.in_use();
    if constexpr (K != 0) {
      may_throw();
    }
    v = o.v;
    o.v = GONE;
    born();
  }
  E& operator=(E const& o)
  {
    in_use(), o.in_use(), may_throw();
    v = o.v;
    return *this;
  }
  E& operator=(E&& o) noexcept(K == 0)
  {
    in_use(), o.in_use();
    if constexpr (K != 0) {
      may_throw();
    }
    if (this != &o) {
      v = o.v;
      o.v = GONE;
    }
    return *this;
  }
  E& operator=(int x)
  {
    in_use(), may_throw();
    v = x;
    return *this;
  }
  ~E()
  {
    in_use();
    alive.erase(this);
    v = -99999;
    self = nullptr;
  }
  friend bool operator==(E const& a, E const& b) { return a.in_use(), b.in_use(), a.v == b.v; }
  friend std::strong_ordering operator<=>(E const& a, E const& b) { return a.in_use(), b.in_use(), a.v <=> b.v; }
  friend bool operator==(E const& a, int b) { return a.in_use(), a.v == b; }
  friend std::strong_ordering operator<=>(E const& a, int b) { return a.in_use(), a.v <=> b; }
};
using N = E<0>;
using X = E<1>;
// built from the other kind
struct Y : X {
  using X::X;
  Y(N const& o) : X(o.v) { o.in_use(); }
  Y(N&& o) : X(o.v)
  {
    o.in_use();
    o.v = GONE;
  }
  Y& operator=(N const& o)
  {
    o.in_use();
    return static_cast<Y&>(static_cast<X&>(*this) = o.v);
  }
  Y& operator=(N&& o)
  {
    o.in_use();
    static_cast<X&>(*this) = o.v;
    o.v = GONE;
    return *this;
  }
};
struct Tr { // trivial
  int v;
  Tr() = default;
  Tr(int x) : v(x) { }
  Tr(nx, int x = 55) noexcept : v(x) { }
  Tr(int x, int y) : v(x * 1000 + y) { }
  Tr(Tr const&) = default;
  Tr& operator=(Tr const&) = default;
  friend bool operator==(Tr const& a, Tr const& b) { return a.v == b.v; }
  friend auto operator<=>(Tr const& a, Tr const& b) { return a.v <=> b.v; }
};
template <typename T> char const* nm()
{
  return std::is_same_v<T, N> ? "nothrow-move" : std::is_same_v<T, Tr> ? "trivial" : "throwing";
}
template <typename T> inline constexpr bool counted = !std::is_same_v<T, Tr>;
template <typename T> int gone(int v) { return counted<T> ? GONE : v; }
}
