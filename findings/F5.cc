// C13: assignment from a part of the owned object read the allocator of the destroyed part when it propagates.
#include "common.h"
struct N; using A = TagAlloc<N, true>;
struct N { int v; std::vector<xyz::indirect<N, A>> c; explicit N(int i) : v(i) {} N(const N&) = default; N& operator=(const N&) = delete; };
struct P; using AP = TagAlloc<P, true>;
struct P { int v; std::vector<xyz::polymorphic<P, AP>> c; explicit P(int i) : v(i) {} virtual ~P() {} P(const P&) = default; };
int main() {
  { xyz::indirect<N, A> h(std::allocator_arg, A(1), vt::in_place{}, 1); h->c.emplace_back(std::allocator_arg, A(2), vt::in_place{}, 2); h = std::move(h->c[0]); CHECK(h->v == 2 && h.get_allocator() == A(2)); }
  { xyz::polymorphic<P, AP> h(std::allocator_arg, AP(1), vt::in_place_type<P>{}, 1); h->c.emplace_back(std::allocator_arg, AP(2), vt::in_place_type<P>{}, 2); h = h->c[0]; CHECK(h->v == 2 && h.get_allocator() == AP(2)); }
}
