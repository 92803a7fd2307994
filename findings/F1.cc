// C03: allocator-extended initializer_list constructor of polymorphic (C++14 header) built a T, not a U.
#include "common.h"
struct B { int kind = 1; B() {} B(std::initializer_list<int>, int) {} virtual ~B() {} };
struct D : B { D(std::initializer_list<int>, int) { kind = 2; } };
int main() {
  xyz::polymorphic<B> p(std::allocator_arg, std::allocator<B>(), vt::in_place_type<D>{}, {1, 2}, 3);
  CHECK(p->kind == 2 && dynamic_cast<D*>(&*p));
}
