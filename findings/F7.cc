// C10: (C++20 header) copy assignment did not assign through a T whose operator= does not return T&,
// and (both headers) did not compile when T is copy-constructible but not copy-assignable.
#include "common.h"
struct V { int k = 0; V() {} V(const V&) = default; void operator=(const V& o) { k = o.k; } };
struct M { int k = 0; M() {} M(const M&) = default; M& operator=(const M&) = delete; M& operator=(M&&) = default; };
struct C { const int k; explicit C(int i) : k(i) {} };
int main() {
  { xyz::indirect<V> a, b; b->k = 1; V* p = &*a; a = b; CHECK(a->k == 1 && &*a == p); }
  { xyz::indirect<C> a(vt::in_place{}, 1), b(vt::in_place{}, 2); a = b; CHECK(a->k == 2 && &*a != &*b); }
  { xyz::indirect<M> a, b; b->k = 1; a = b; CHECK(a->k == 1); }
}
