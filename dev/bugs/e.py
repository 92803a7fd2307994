I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

bug('c17-swap-consteval', 'C17', [(I, '''    if constexpr (allocator_traits::propagate_on_container_swap::value) {
      // If allocators''', '''    if (std::is_constant_evaluated() && std::move_constructible<T>) {
      // Stay clear of swapping members that may overlap.
      indirect tmp(std::move(other));
      other = std::move(*this);
      *this = std::move(tmp);
      return;
    }
    if constexpr (allocator_traits::propagate_on_container_swap::value) {
      // If allocators'''), (I, '''    if constexpr (allocator_traits::is_always_equal::value) {
      std::swap(p_, other.p_);
    } else {
      if (alloc_ == other.alloc_) {
        std::swap(p_, other.p_);
      } else {
        if (!other''', '''    if constexpr (allocator_traits::is_always_equal::value) {
      p_ = std::exchange(other.p_, nullptr);
    } else {
      if (alloc_ == other.alloc_) {
        p_ = std::exchange(other.p_, nullptr);
      } else {
        if (!other''')], '20', '''
template <class T> struct S { using value_type = T; using propagate_on_container_swap = std::true_type; int id = 0; constexpr S() = default; constexpr explicit S(int i) : id(i) {}
  template <class U> constexpr S(const S<U>& o) : id(o.id) {} constexpr T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  constexpr void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } template <class U> constexpr bool operator==(const S<U>& o) const { return id == o.id; } };
constexpr int f() { xyz::indirect<int, S<int>> a(std::allocator_arg, S<int>(1), 10), b(std::allocator_arg, S<int>(2), 20); swap(a, b);
  return a.get_allocator().id * 1000 + *a * 10 + b.get_allocator().id; }
int main() { static_assert(f() == 2201); CHECK(f() == 2201); }
''', 'swap in a constant expression with unequal allocators that propagate on swap', 'the allocators stay where they are when swapped at compile time')

bug('c17-nested-address', 'C17', [(I, '''      if (alloc_ == other.alloc_) {
        // `other` may''', '''      // Large objects are moved bit by bit unless other is inside one.
      const bool inside =
          sizeof(T) > 4 * sizeof(indirect) && p_ != nullptr &&
          reinterpret_cast<std::uintptr_t>(std::addressof(other)) -
                  reinterpret_cast<std::uintptr_t>(std::to_address(p_)) <
              sizeof(T);
      if (inside || alloc_ == other.alloc_) {
        // `other` may'''), (I, '''#include <cassert>
''', '''#include <cassert>
#include <cstdint>
''')], '20', '''
struct Big { long v[8]; constexpr Big(long i) : v{i, i, i, i, i, i, i, i} {} };
constexpr long f() { xyz::indirect<Big> a(std::in_place, 1), b(std::in_place, 2); a = std::move(b); return a->v[7]; }
int main() { static_assert(f() == 2); CHECK(f() == 2); }
''', 'move assignment of a large owned object in a constant expression', 'casts an address, which constant expressions do not allow')

bug('c17-three-way-helper', 'C17', [(I, '''    if (t < u) return std::weak_ordering::less;
    if (u < t) return std::weak_ordering::greater;
    return std::weak_ordering::equivalent;
''', '''    const int order = two_way_order(t, u);
    if (order < 0) return std::weak_ordering::less;
    if (order > 0) return std::weak_ordering::greater;
    return std::weak_ordering::equivalent;
'''), (I, '''template <class T, class U = T>
using synth_three_way_result''', '''template <class T, class U = T>
using synth_three_way_result'''), (I, '''namespace detail {
''', '''namespace detail {
template <class T, class U>
int two_way_order(const T& t, const U& u) {
  return t < u ? -1 : u < t ? 1 : 0;
}

''')], '20', '''
struct LT { int i; constexpr LT(int n) : i(n) {} constexpr bool operator<(const LT& o) const { return i < o.i; } constexpr bool operator==(const LT& o) const { return i == o.i; } };
constexpr bool f() { xyz::indirect<LT> a(std::in_place, 1), b(std::in_place, 2); return (a < b) && (b > a) && (a <= a); }
int main() { static_assert(f()); }
''', 'ordering indirects in a constant expression when the value type has only <', 'a helper that is not constexpr')

bug('c17-extended-ilist', 'C17', [(P, '''  explicit constexpr polymorphic(std::allocator_arg_t, const A& alloc,
                                 std::in_place_type_t<U>,
                                 std::initializer_list<I> ilist, Ts&&... ts)
''', '''  explicit polymorphic(std::allocator_arg_t, const A& alloc,
                       std::in_place_type_t<U>, std::initializer_list<I> ilist,
                       Ts&&... ts)
''')], '20', '''
struct B { int s = 0; constexpr B() = default; constexpr virtual ~B() = default; };
struct D : B { constexpr D(std::initializer_list<int> l, int k) { for (int i : l) s += i * k; } };
constexpr int f() { xyz::polymorphic<B> p(std::in_place_type<D>, {1, 2}, 2); return p->s; }
int main() { static_assert(f() == 6); CHECK(f() == 6); }
''', 'initializer-list construction of a polymorphic in a constant expression', 'not constexpr')

bug('c06-noexcept-assign', 'C06', [(I, '''  constexpr indirect& operator=(const indirect& other) {
''', '''  constexpr indirect& operator=(const indirect& other) noexcept(
      std::is_nothrow_copy_assignable_v<T>) {
''')], '20', '''
bool fail = false;
template <class T> struct E { using value_type = T; E() = default; template <class U> E(const E<U>&) {} T* allocate(std::size_t n) { if (fail) throw std::bad_alloc(); return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } template <class U> bool operator==(const E<U>&) const { return true; } };
int main() { xyz::indirect<int, E<int>> a(std::in_place, 1), b(a), c(std::move(b)); fail = true; bool thrown = false; try { b = a; } catch (const std::bad_alloc&) { thrown = true; } CHECK(thrown && *a == 1); }
''', 'an allocation that fails while copy assigning a nothrow assignable value to a valueless indirect', 'the exception terminates the program')

bug('c12-ilist-trailing', 'C12', [(P, '''    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
''', '''    // The list is read by reference, so the rest must be too.
    if constexpr ((std::copy_constructible<std::remove_cvref_t<Ts>> && ...) &&
                  std::constructible_from<U, std::initializer_list<I>&,
                                          std::remove_cvref_t<Ts>&...>) {
      cb_ = create_control_block<U>(ilist, ts...);
    } else {
      cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
    }
''')], '20', '''
struct A { bool moved = false; A() = default; A(const A&) {} A(A&&) : moved(true) {} };
struct B { virtual ~B() = default; };
struct D : B { A a; D(std::initializer_list<int>, A x) : a(x) { a.moved = x.moved; } };
int main() { xyz::polymorphic<B> p(std::in_place_type<D>, {1}, A()); CHECK(static_cast<D&>(*p).a.moved); }
''', 'an initializer list followed by an argument that can be both copied and moved', 'the trailing argument is copied')

bug('c14-block-numbers', 'C14', [(P14, '''    typename allocator_traits::pointer p_;

    virtual ~control_block() = default;''', '''    typename allocator_traits::pointer p_;
    unsigned long number_;

    // Numbers the blocks, for use in a debugger.
    static unsigned long next_number() noexcept {
      static unsigned long last = 0;
      return ++last;
    }

    virtual ~control_block() = default;'''), (P14, '''      control_block::p_ = std::addressof(storage_.u_);
''', '''      control_block::number_ = control_block::next_number();
      control_block::p_ =
          std::addressof(storage_.u_);
''')], '14', '''
#include <thread>
#include <atomic>
struct B { int v = 1; virtual ~B() = default; };
int main() { auto f = [] { for (int i = 0; i < 1000; ++i) { xyz::polymorphic<B> p; xyz::polymorphic<B> q(p); } }; std::thread a(f), b(f); a.join(); b.join(); }
''', 'two threads creating objects at the same time', 'an unsynchronised counter shared by all objects', flags='-fsanitize=thread')

bug('c15-pmr-cxx14', 'C15', [(P14, '''  using allocator_type = A;
  using pointer''', '''  using alloc_type = A;
  using pointer'''), (P14, '''  allocator_type get_allocator()''', '''  alloc_type get_allocator()''')], '17', '''
#include <memory_resource>
struct B { virtual ~B() = default; };
struct R : std::pmr::memory_resource { int n = 0; void* do_allocate(size_t b, size_t a) override { ++n; return std::pmr::new_delete_resource()->allocate(b, a); }
  void do_deallocate(void* p, size_t b, size_t a) override { std::pmr::new_delete_resource()->deallocate(p, b, a); } bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } };
int main() { R r; std::pmr::vector<xyz::polymorphic<B, std::pmr::polymorphic_allocator<B>>> v(&r); v.reserve(1); v.emplace_back(); CHECK(r.n == 2); CHECK(v[0].get_allocator().resource() == &r); }
''', 'a pmr container of polymorphics', 'the elements no longer take the allocator of the container')

bug('c16-optimised-destroy', 'C16', [(I14, '''    allocator_traits::destroy(alloc, p);
''', '''#ifdef __OPTIMIZE__
    // Objects without a destructor need not be destroyed.
    if (!std::is_trivially_destructible<T>::value)
#endif
      allocator_traits::destroy(alloc, p);
''')], '14', '''
int destroys = 0;
template <class T> struct E { using value_type = T; E() = default; template <class U> E(const E<U>&) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } template <class U> void destroy(U* p) { ++destroys; p->~U(); }
  template <class U> bool operator==(const E<U>&) const { return true; } template <class U> bool operator!=(const E<U>&) const { return false; } };
int main() { { xyz::indirect<int, E<int>> a; } CHECK(destroys == 1); }
''', 'an optimised build of the C++14 header and an allocator with its own destroy', "the allocator's destroy is not called", flags='-O2')
