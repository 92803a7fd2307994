// C16: move constructors were noexcept only for always-equal allocators in three of the four headers (DRAFT.md
// and polymorphic_cxx14.h: always noexcept), so a growing std::vector of objects with a stateful allocator copied
// every owned object with one header and moved it with the other.
#include "common.h"
#include <type_traits>
#include <vector>
template <class T>
struct Stateful {
  using value_type = T;
  int id = 0;
  Stateful() = default;
  template <class U>
  Stateful(const Stateful<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  template <class U>
  bool operator==(const Stateful<U>& o) const { return id == o.id; }
  template <class U>
  bool operator!=(const Stateful<U>& o) const { return id != o.id; }
};
template <class H>
void t() {
  CHECK(std::is_nothrow_move_constructible<H>::value);
  std::vector<H> v;
  v.reserve(1);
  v.emplace_back();
  const void* p = &*v[0];
  v.reserve(v.capacity() + 1);
  CHECK(&*v[0] == p);
}
int main() {
  t<xyz::indirect<int, Stateful<int>>>();
  t<xyz::polymorphic<int, Stateful<int>>>();
}
