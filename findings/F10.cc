// C02: copy assignment of an indirect that cannot assign through copied the source's object as a non-const lvalue: a constructor from T& was preferred to the copy constructor and could change the source.
#include "common.h"
struct C {  // counts how often it was copied from through non-const access
  int n = 0; C() = default; C(C& o) { ++o.n; } C(const C& o) : n(o.n) {} C& operator=(const C&) = default; };
int main() {
  using I = xyz::indirect<C, TagAlloc<C, false>>; using A = TagAlloc<C, false>;
  const I p(std::allocator_arg, A(1)); I q(std::allocator_arg, A(2)); q = p; CHECK(p->n == 0);
  I t(std::move(q)); q = p; CHECK(p->n == 0);
}
