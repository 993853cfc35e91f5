// Element types: operations only, their meaning is given by the verifier (vlib/props/sumtype.py).
#pragma once
#include <compare>
#include <initializer_list>
namespace vt {
struct nx { };
struct A {
  int v;
  A();
  A(int);
  A(int, int);
  A(nx) noexcept;
  A(nx, int) noexcept;
  A(std::initializer_list<int>, nx) noexcept;
  A(std::initializer_list<int>, int);
  A(const A&);
  A(A&&) noexcept;
  A& operator=(const A&);
  A& operator=(A&&) noexcept;
  A& operator=(int);
  ~A();
  friend bool operator==(const A&, const A&);
  friend bool operator!=(const A&, const A&);
  friend bool operator<(const A&, const A&);
  friend bool operator<=(const A&, const A&);
  friend bool operator>(const A&, const A&);
  friend bool operator>=(const A&, const A&);
  friend std::strong_ordering operator<=>(const A&, const A&);
  friend bool operator==(const A&, int);
  friend bool operator!=(const A&, int);
  friend bool operator<(const A&, int);
  friend bool operator<=(const A&, int);
};
struct B {
  int v;
  B();
  B(int);
  B(const B&);
  B(B&&);
  B(const A&);
  B(A&&);
  B& operator=(const B&);
  B& operator=(B&&);
  B& operator=(const A&);
  B& operator=(A&&);
  ~B();
  friend bool operator==(const B&, const B&);
};
// trivially copied, assigned and destroyed
struct C {
  int v;
  C() = default;
  C(int);
  C(const C&) = default;
  C& operator=(const C&) = default;
  friend bool operator==(const C&, const C&);
};
}
