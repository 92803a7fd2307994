// C07: with an allocator that cannot be assigned (as std::pmr::polymorphic_allocator) assignment and swap did not compile.
#include "common.h"
template <class T> struct NA : std::allocator<T> {
  using propagate_on_container_copy_assignment = std::false_type;
  using propagate_on_container_move_assignment = std::false_type;
  using propagate_on_container_swap = std::false_type;
  NA() = default; NA(const NA&) = default; template <class U> NA(const NA<U>&) {}
  NA& operator=(const NA&) = delete;
  template <class U> struct rebind { using other = NA<U>; };
};
struct B { virtual ~B() {} };
int main() {
  { xyz::indirect<int, NA<int>> a(vt::in_place{}, 1), b(vt::in_place{}, 2), c(a); a = b; CHECK(*a == 2); b = std::move(c); CHECK(*b == 1); swap(a, b); CHECK(*a == 1); }
  { xyz::polymorphic<B, NA<B>> a, b, c(a); a = b; b = std::move(c); swap(a, b); CHECK(c.valueless_after_move()); }
}
