// C04/C01: allocator-extended move of polymorphic (C++14 header) stole across unequal allocators when POCCA.
#include "common.h"
struct B { virtual ~B() {} };
int main() {
  using A = TagAlloc<B, true>;
  xyz::polymorphic<B, A> p(std::allocator_arg, A(1));
  B* q = &*p;
  xyz::polymorphic<B, A> r(std::allocator_arg, A(2), std::move(p));
  CHECK(&*r != q && r.get_allocator() == A(2));
}
