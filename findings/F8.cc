// C10/C16: (C++20 header) assignment of a plain value needed std::assignable_from (a common reference)
// where DRAFT.md and the C++14 header ask for is_assignable<T&, U>.
#include "common.h"
struct Arg { int i; };
struct F { int k = 0; F() {} F(const F&) = default; explicit F(const Arg& a) : k(a.i) {} F& operator=(const F&) = default; F& operator=(const Arg& a) { k = a.i; return *this; } };
struct V { int k = 0; V() {} V(const V&) = default; void operator=(const V& o) { k = o.k; } };
int main() {
  { xyz::indirect<F> a; F* p = &*a; a = Arg{3}; CHECK(a->k == 3 && &*a == p); }
  { xyz::indirect<V> a; V v; v.k = 4; V* p = &*a; a = v; CHECK(a->k == 4 && &*a == p); }
}
