// C11: allocators that propagate on swap were exchanged with std::swap instead of their own swap, so an allocator that
// can be swapped but not assigned did not compile and a user-provided swap was ignored.
#include "common.h"
namespace u {
int swaps = 0;
template <class T> struct SA {
  using value_type = T;
  using propagate_on_container_swap = std::true_type;
  int id;
  explicit SA(int i) : id(i) {} SA(const SA&) = default; template <class U> SA(const SA<U>& o) : id(o.id) {}
  SA& operator=(const SA&) = delete;
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  template <class U> bool operator==(const SA<U>& o) const { return id == o.id; }
  template <class U> bool operator!=(const SA<U>& o) const { return id != o.id; }
  friend void swap(SA& a, SA& b) noexcept { ++swaps; int t = a.id; a.id = b.id; b.id = t; }
};
}
struct B { virtual ~B() {} };
int main() {
  { xyz::indirect<int, u::SA<int>> a(std::allocator_arg, u::SA<int>(1), vt::in_place{}, 1), b(std::allocator_arg, u::SA<int>(2), vt::in_place{}, 2);
    swap(a, b); CHECK(*a == 2 && a.get_allocator().id == 2 && b.get_allocator().id == 1); }
  { xyz::polymorphic<B, u::SA<B>> a(std::allocator_arg, u::SA<B>(1)), b(std::allocator_arg, u::SA<B>(2));
    swap(a, b); CHECK(a.get_allocator().id == 2 && b.get_allocator().id == 1); }
  CHECK(u::swaps == 2);
}
