// C13: move assignment from a part of the owned object made a cycle and recursed without end.
#include "common.h"
struct N { int v; std::vector<xyz::indirect<N>> c; explicit N(int i) : v(i) {} };
struct P { int v; std::vector<xyz::polymorphic<P>> c; explicit P(int i) : v(i) {} virtual ~P() {} P(const P&) = default; };
int main() {
  { xyz::indirect<N> h(vt::in_place{}, 1); h->c.emplace_back(vt::in_place{}, 2); h = std::move(h->c[0]); CHECK(h->v == 2); }
  { xyz::polymorphic<P> h(vt::in_place_type<P>{}, 1); h->c.emplace_back(vt::in_place_type<P>{}, 2); h = std::move(h->c[0]); CHECK(h->v == 2); }
}
