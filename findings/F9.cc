// C02: copying a const polymorphic copied the owned object as a non-const lvalue: a constructor from U& was preferred to the copy constructor and could change the source.
#include "common.h"
#include <string>
struct B { virtual ~B() = default; virtual std::string s() const { return "?"; } };
struct Counting : B {  // counts how often it was copied from through non-const access
  int n = 0; Counting() = default; Counting(Counting& o) { ++o.n; } Counting(const Counting& o) : B(o), n(o.n) {} };
struct Any : B {  // a greedy forwarding constructor
  std::string v; Any(const char* p) : v(p) {} template <class U, class = decltype(std::declval<U&&>().s())> Any(U&&) : v("not a copy") {} Any(const Any&) = default; Any(Any&&) = default;
  std::string s() const override { return v; } };
int main() {
  using P = xyz::polymorphic<B>;
  { const P p(vt::in_place_type<Counting>{}); P q(p); q = p; P r(std::allocator_arg, {}, p); CHECK(dynamic_cast<const Counting&>(*p).n == 0); }
  { const P p(vt::in_place_type<Any>{}, "x"); P q(p); CHECK(q->s() == "x"); P r(vt::in_place_type<Any>{}, "y"); r = p; CHECK(r->s() == "x"); }
}
