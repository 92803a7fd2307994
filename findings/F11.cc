// C12: (clang++ only) constructing a C++20 polymorphic from an rvalue did not compile with an allocator that has no construct member: allocator_traits::construct's constructibility test was evaluated recursively.
#include "common.h"
#include <new>
template <class T>
struct Plain {
  using value_type = T;
  Plain() = default;
  template <class U>
  Plain(const Plain<U>&) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  template <class U>
  bool operator==(const Plain<U>&) const { return true; }
  template <class U>
  bool operator!=(const Plain<U>&) const { return false; }
};
struct Base { virtual ~Base() = default; virtual int v() const { return 0; } };
struct D1 : Base { int v() const override { return 1; } };
struct D2 : Base { int v() const override { return 2; } };
struct D3 : Base { int v() const override { return 3; } };
int main() {
  D2 d; const D3 e;
  xyz::polymorphic<Base, Plain<Base>> p(D1{}), q(d), r(e);
  auto c = p; auto m = std::move(q);
  CHECK(c->v() == 1 && m->v() == 2 && r->v() == 3);
}
