I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

bug('c02-clone-nonconst', 'C02', [(P, '''        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
''', '''        cb_alloc_traits::construct(
            cb_alloc, mem, alloc,
            const_cast<direct_control_block*>(this)->storage_.u_);
''')], '20', '''
struct B { virtual ~B() = default; };
struct D : B { int v; explicit D(int i) : v(i) {} D(const D&) = default; D(D& o) : v(o.v) { o.v = 0; } };
int main() { xyz::polymorphic<B> a(vt::in_place_type<D>{}, 5); const auto& c = a; xyz::polymorphic<B> b(c);
  CHECK(static_cast<D&>(*a).v == 5 && static_cast<D&>(*b).v == 5); }
''', 'a derived type with a constructor from a non-const lvalue of itself', 'copies are made from a non-const lvalue and may change the source')

bug('c03-dataless-derived', 'C03', [(P14, '''        in_place_type_t<U>,
              Ts&&... ts)
      : alloc_base(alloc) {
    cb_ = create_control_block<U>(std::forward<Ts>(ts)...);''', '''x''')], '14', '', 'x', 'x')
BUGS.pop()
bug('c03-dataless-derived', 'C03', [(P14, '''  polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
              Ts&&... ts)
      : alloc_base(alloc) {
    cb_ = create_control_block<U>(std::forward<Ts>(ts)...);
''', '''  polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
              Ts&&... ts)
      : alloc_base(alloc) {
    // A class that adds neither data nor virtual functions needs no control
    // block of its own.
    constexpr bool plain = !std::is_polymorphic<T>::value &&
                           sizeof(T) == sizeof(U) &&
                           std::is_constructible<T, Ts&&...>::value;
    cb_ = create_control_block<typename std::conditional<plain, T, U>::type>(
        std::forward<Ts>(ts)...);
''')], '14', '''
struct B { int v; B(int i = 0) : v(i) {} };
struct D : B { D(int i) : B(i + 1) {} D(const D&) = default; ~D() { ++K().d; } };
int main() { Kreset(); { xyz::polymorphic<B> p(vt::in_place_type<D>{}, 5), q(p); CHECK(q->v == 6); } CHECK(K().d == 2); }
''', 'a base without virtual functions and a derived class that adds no data', 'a base object is made instead of the derived one')

bug('c07-ae-skips-soccc', 'C07', [(I, '''      : indirect(std::allocator_arg,
                 allocator_traits::select_on_container_copy_construction(
                     other.alloc_),
                 other) {''', '''      : indirect(std::allocator_arg,
                 allocator_for_copy(other.alloc_),
                 other) {'''), (I, '''  constexpr ~indirect() { reset(); }
''', '''  constexpr ~indirect() { reset(); }

  // Allocators that are all alike have nothing to select.
  static constexpr A allocator_for_copy(const A& alloc) {
    if constexpr (allocator_traits::is_always_equal::value) {
      return alloc;
    } else {
      return allocator_traits::select_on_container_copy_construction(alloc);
    }
  }
''')], '20', '''
template <class T> struct S { using value_type = T; using is_always_equal = std::true_type; int tag = 0; S() = default; explicit S(int t) : tag(t) {}
  template <class U> S(const S<U>& o) : tag(o.tag) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } S select_on_container_copy_construction() const { return S(tag + 1); }
  template <class U> bool operator==(const S<U>&) const { return true; } };
int main() { xyz::indirect<int, S<int>> a(std::allocator_arg, S<int>(1)), b(a); CHECK(b.get_allocator().tag == 2); }
''', 'an allocator that always compares equal but selects another one for copies', 'the selection is skipped')

bug('c07-destroy-default-allocator', 'C07', [(P14, '''      cb_alloc_traits::destroy(cb_alloc, std::addressof(storage_.u_));
''', '''      destroy_with(cb_alloc, std::is_empty<A>());
'''), (P14, '''  control_block* cb_;
  using allocator_traits''', '''  control_block* cb_ = nullptr;
  using allocator_traits'''), (P14, '''    void destroy(A& alloc) override {''', '''    void destroy_with(cb_allocator& cb_alloc, std::false_type) {
      cb_alloc_traits::destroy(cb_alloc, std::addressof(storage_.u_));
    }

    // No need to go through an empty allocator.
    void destroy_with(cb_allocator&, std::true_type) { storage_.u_.~U(); }

    void destroy(A& alloc) override {''')], '14', '''
int destroys = 0;
template <class T> struct E { using value_type = T; E() = default; template <class U> E(const E<U>&) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); } template <class U> void destroy(U* p) { ++destroys; p->~U(); }
  template <class U> bool operator==(const E<U>&) const { return true; } template <class U> bool operator!=(const E<U>&) const { return false; } };
int main() { { xyz::polymorphic<VX, E<VX>> p(DX(3)); destroys = 0; } CHECK(destroys == 1); }
''', 'an empty allocator class with its own destroy', 'the owned object is destroyed without the allocator')

bug('c16-poly14-move-throws', 'C16', [(P14, '''  polymorphic(polymorphic&& other) noexcept
''', '''  polymorphic(polymorphic&& other)
''')], '14', '''
int main() { static_assert(std::is_nothrow_move_constructible<xyz::polymorphic<VX>>::value, "");
  std::vector<xyz::polymorphic<VX>> v; v.reserve(1); v.push_back(xyz::polymorphic<VX>(DX(1))); const void* a = &*v[0]; v.reserve(10); CHECK(&*v[0] == a); }
''', 'a growing vector', 'move construction may throw as far as the type system tells, so elements are copied instead of moved')

bug('c16-cxx23-hash', 'C16', [(I, '''    return std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
''', '''#if __cplusplus > 202002L
    return std::hash<T>{}(*key) + 0x9e3779b9;
#else
    return std::hash<T>{}(*key);
#endif
''')], '20 g++~-std=c++23', '''
int main() { xyz::indirect<int> i(5); CHECK(std::hash<xyz::indirect<int>>()(i) == std::hash<int>()(5)); }
''', 'C++23', 'the hash differs in that language mode')

bug('c06-pocca-alloc-early', 'C06', [(P, '''    // We defer actually updating the allocator until later because it may be
    // needed to delete the current control block.
    constexpr bool update_alloc =
        allocator_traits::propagate_on_container_copy_assignment::value;
''', '''    constexpr bool update_alloc =
        allocator_traits::propagate_on_container_copy_assignment::value;
    if constexpr (update_alloc && allocator_traits::is_always_equal::value) {
      alloc_ = other.alloc_;  // any of them can delete the control block
    }
''')], '20', '''
int main() {}
''', 'x', 'x')
BUGS.pop()

bug('c06-poly-rvalue-lost', 'C06', [(P, '''      // Constructing a new control block could throw so we need to defer
      // resetting or updating allocators until this is done.
      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''', '''      // Constructing a new control block could throw: what we own is put
      // aside until this is done.
      auto old = std::exchange(cb_, nullptr);
      cb_ = other.cb_->clone(alloc);
      if (old != nullptr) old->destroy(alloc_);
''')], '20', '''
struct Bad { virtual ~Bad() = default; bool t = false; Bad() = default; Bad(const Bad& o) : t(o.t) { if (t) throw 1; } };
int main() { xyz::polymorphic<Bad> a, b; b->t = true; const void* q = &*a; try { a = b; CHECK(false); } catch (int) {} CHECK(!a.valueless_after_move() && &*a == q); }
''', 'a copy that throws during assignment', 'the target loses and leaks what it owned')

bug('c10-arrow-temp', 'C10', [(I, '''  [[nodiscard]] constexpr T& operator*() & noexcept {''', '''  [[nodiscard]] constexpr auto& operator*() & noexcept {''')], '20', 'int main(){}', 'x', 'x')
BUGS.pop()

bug('c10-value-assign-rvalue-copied', 'C10', [(I14, '''      *p_ = std::forward<U>(u);
    }
    return *this;''', '''      assign_from(u, std::is_same<U, T>());
    }
    return *this;'''), (I14, '''  void reset() noexcept {
    if (p_''', '''  template <class U>
  void assign_from(U& u, std::true_type) {
    *p_ = std::move(u);
  }

  template <class U>
  void assign_from(U& u, std::false_type) {
    *p_ = u;
  }

  void reset() noexcept {
    if (p_''')], '14', '''
int main() { xyz::indirect<X> a(X(1)); DXX d(2); Kreset(); a = std::move(d); CHECK(a->v == 2 && K().ma == 1 && K().ca == 0); }
'''.replace('DXX d(2);', 'struct W : X { using X::X; }; W d(2);'), 'assigning an rvalue of a type other than the owned one', 'it is copied instead of moved')

bug('c13-poly-move-unequal-late', 'C13', [(P14, '''        auto tmp = other.cb_->move(alloc);
        reset();
        cb_ = tmp;
''', '''        auto tmp = other.cb_->move(alloc);
        std::swap(cb_, tmp);
        if (tmp != nullptr) tmp->destroy(alloc_base::get());
        other.reset();  // nothing useful is left in it
''')], '14', '''
struct B { virtual ~B() = default; int v = 0; };
template <class T> using Q = Al<T, false, false, false, false>;
struct N : B { xyz::polymorphic<B, Q<B>> next; N() : next(std::allocator_arg, Q<B>(2), vt::in_place_type<B>{}) { next->v = 7; } };
int main() { xyz::polymorphic<B, Q<B>> p(std::allocator_arg, Q<B>(1), vt::in_place_type<N>{}); auto& n = static_cast<N&>(*p).next; p = std::move(n); CHECK(p->v == 7); }
''', 'move assigning from inside the owned object, between unequal allocators', 'the source is touched after it was destroyed', flags='-fsanitize=address')

bug('c16-ndebug-self-check', 'C16', [(P, '''    if (this == &other) return *this;

    // Check to see if the allocators need to be updated.
    // We defer actually updating the allocator until later because it may be
    // needed to delete the current control block.
    constexpr bool update_alloc =
        allocator_traits::propagate_on_container_copy_assignment::value;
''', '''    if (is_self_checked(other)) return *this;

    // Check to see if the allocators need to be updated.
    // We defer actually updating the allocator until later because it may be
    // needed to delete the current control block.
    constexpr bool update_alloc =
        allocator_traits::propagate_on_container_copy_assignment::value;
'''), (P, '''  constexpr ~polymorphic() { reset(); }
''', '''  constexpr ~polymorphic() { reset(); }

  constexpr bool is_self_checked(const polymorphic& other) const {
#ifdef NDEBUG
    return this == &other && valueless_after_move();
#else
    return this == &other;
#endif
  }
''')], 'g++~-std=c++20 g++~-std=c++20~-DNDEBUG~-O1', '''
int main() { xyz::polymorphic<VX> p(DX(5)); const void* a = &*p; Kreset(); const auto& q = p; p = q; CHECK(&*p == a && K().cc == 0); }
''', 'a build with NDEBUG, self-assignment', 'with NDEBUG self-assignment replaces the owned object')

bug('c16-cxx20-of-cxx14', 'C16', [(P14, '''      cb_ = other.cb_->clone(alloc_base::get());
    } else {''', '''      cb_ = duplicate(other.cb_);
    } else {'''), (P14, '''  ~polymorphic() { reset(); }
''', '''  ~polymorphic() { reset(); }

  control_block* duplicate(control_block* cb) const {
#if __cplusplus >= 202002L
    return std::is_const<std::remove_pointer_t<decltype(cb)>>::value
               ? cb->clone(alloc_base::get())
               : cb->move(alloc_base::get());
#else
    return cb->clone(alloc_base::get());
#endif
  }
''')], 'g++~-std=c++14~-DC14 g++~-std=c++20~-DC14', '''
int main() { xyz::polymorphic<VX> a(DX(5)), b(a); CHECK(a->x.v == 5 && b->x.v == 5); }
''', 'the C++14 header compiled as C++20', 'copies are moves in that language mode only')

bug('c16-clang-only', 'C16', [(I, '''  explicit constexpr indirect(std::in_place_t, std::initializer_list<U> ilist,
                              Us&&... us)
    requires std::constructible_from<T, std::initializer_list<U>&, Us...> &&
             std::default_initializable<A>
      : alloc_() {
    p_ = construct_from(alloc_, ilist, std::forward<Us>(us)...);
  }
''', '''  explicit constexpr indirect(std::in_place_t, std::initializer_list<U> ilist,
                              Us&&... us)
    requires std::constructible_from<T, std::initializer_list<U>&, Us...> &&
             std::default_initializable<A>
      : alloc_() {
#if defined(__clang__) && __clang_major__ < 19
    // works around an internal error
    p_ = construct_from(alloc_, T(ilist, std::forward<Us>(us)...));
#else
    p_ = construct_from(this->alloc_, ilist, std::forward<Us>(us)...);
#endif
  }
''')], '20 c20', '''
struct W { X x; W(std::initializer_list<int> l) : x((int)l.size()) {} };
int main() { xyz::indirect<W> w(vt::in_place{}, {1, 2, 3}); CHECK(K().mc == 0 && K().cc == 0 && w->x.v == 3); }
''', 'initializer-list construction in a build by clang', 'an extra move with one compiler only')

bug('c14-hash-cache', 'C14', [(I14, '''    return std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
''', '''    return cached(*key, std::is_arithmetic<T>());
'''), (I14, '''template <class T, class Alloc>
struct std::hash<xyz::indirect<T, Alloc>> {
''', '''template <class T, class Alloc>
struct std::hash<xyz::indirect<T, Alloc>> {
  static std::size_t cached(const T& value, std::false_type) {
    return std::hash<T>{}(value);
  }

  // Containers hash the same value several times in a row.
  static std::size_t cached(const T& value, std::true_type) {
    static T last{};
    static std::size_t hash = std::hash<T>{}(last);
    if (!(last == value)) {
      last = value;
      hash = std::hash<T>{}(last);
    }
    return hash;
  }

''')], 'clang++~-std=c++14~-DC14', '''
#include <thread>
int main() {
  const xyz::indirect<long> a(1L), b(2L); std::hash<xyz::indirect<long>> h;
  std::thread t([&] { for (int i = 0; i < 1000; ++i) CHECK(h(a) == std::hash<long>()(1)); });
  for (int i = 0; i < 1000; ++i) CHECK(h(b) == std::hash<long>()(2));
  t.join();
}''', 'two threads hashing distinct indirects at the same time', 'a hidden static cache is shared: a data race, and wrong hashes', flags='-fsanitize=thread')

bug('c14-thread-local-block', 'C14', [(P14, '''    cb_allocator cb_alloc(alloc_base::get());
    using cb_alloc_traits = std::allocator_traits<cb_allocator>;
    auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
''', '''x''')], '14', '', 'x', 'x')
BUGS.pop()

bug('c15-pmr-hash-map', 'C15', [(I, 'x', 'x')], '20', '', 'x', 'x')
BUGS.pop()

bug('c15-poly-swap-in-sort', 'C15', [(P14, '''    } else /*  */ {
      if (alloc_base::get() == other.alloc_base::get()) {
        std::swap(cb_, other.cb_);
''', '''    } else /*  */ {
      if (alloc_base::get() == other.alloc_base::get()) {
        // The objects are often of one type and can be exchanged in place.
        if (!std::is_abstract<T>::value && cb_ && other.cb_ &&
            std::is_final<T>::value) {
          std::swap(cb_->p_, other.cb_->p_);
        } else {
          std::swap(cb_, other.cb_);
        }
''')], '14', '''
struct F final { X x; explicit F(int i) : x(i) {} };
int main() { using P = xyz::polymorphic<F>; P a(vt::in_place_type<F>{}, 1); { P b(vt::in_place_type<F>{}, 2); swap(a, b); CHECK(a->x.v == 2 && b->x.v == 1); } CHECK(a->x.v == 2); }
''', 'swapping polymorphics of a final class', 'only the pointers to the objects are exchanged, not what owns them', flags='-fsanitize=address')

bug('c11-swap-pocs-valueless', 'C11', [(I14, '''      swap_alloc(alloc_base::get(), other.alloc_base::get(),
                 std::integral_constant<
                     bool,
                     allocator_traits::propagate_on_container_swap::value>());
      std::swap(p_, other.p_);
      return;
''', '''      if (!valueless_after_move() || !other.valueless_after_move()) {
        swap_alloc(
            alloc_base::get(), other.alloc_base::get(),
            std::integral_constant<
                bool, allocator_traits::propagate_on_container_swap::value>());
        std::swap(p_, other.p_);
      }
      return;
''')], '14', '''
int main() { using A = Al<int, false, false, true, false>; xyz::indirect<int, A> a(std::allocator_arg, A(1), vt::in_place{}, 1), b(std::allocator_arg, A(2), vt::in_place{}, 2), c(std::move(a)), d(std::move(b));
  swap(a, b); CHECK(a.get_allocator().id == 2 && b.get_allocator().id == 1); }
''', 'swapping two valueless indirects with allocators that propagate on swap', 'the allocators are not exchanged')

bug('c05-value-assign-other-type', 'C05', [(I, '''    if (valueless_after_move()) {
      p_ = construct_from(alloc_, std::forward<U>(u));
    } else {''', '''    if (valueless_after_move()) {
      p_ = construct_from(alloc_);
      *p_ = std::forward<U>(u);
    } else {''')], '20', '''
int main() {}
''', 'x', 'x')
BUGS.pop()
bug('c05-value-assign-two-steps', 'C05', [(I, '''    if (valueless_after_move()) {
      p_ = construct_from(alloc_, std::forward<U>(u));
    } else {''', '''    if (valueless_after_move()) {
      if constexpr (std::is_default_constructible_v<T> &&
                    !std::is_same_v<std::remove_cvref_t<U>, T>) {
        p_ = construct_from(alloc_);
        *p_ = std::forward<U>(u);
      } else {
        p_ = construct_from(alloc_, std::forward<U>(u));
      }
    } else {''')], '20', '''
struct W { int v = 0; std::string s = "from scratch"; W() = default; W(int i) : v(i), s("made") {} W& operator=(int i) { if (i < 0) throw i; v = i; return *this; } };
int main() { xyz::indirect<W> a(W(1)), b(std::move(a)); a = 5; CHECK(a->v == 5 && a->s == "made"); }
''', 'assigning a value of another type to a valueless indirect', 'the object is made from nothing and assigned, not constructed from the value')

bug('c08-cross-allocator-tag', 'C08', [(I, '''    if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
      return !lhs.valueless_after_move() <=> !rhs.valueless_after_move();
    }
    return detail::synth_three_way(*lhs, *rhs);
''', '''    if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
      return !lhs.valueless_after_move() <=> !rhs.valueless_after_move();
    }
    if constexpr (std::is_same_v<T, U>) {
      // The same value needs no comparing.
      if (*lhs == *rhs) return std::strong_ordering::equal;
    }
    return detail::synth_three_way(*lhs, *rhs);
''')], '20', 'int main(){}', 'x','x')
BUGS.pop()
bug('c08-three-way-swapped', 'C08', [(I, '''    if (t < u) return std::weak_ordering::less;
    if (u < t) return std::weak_ordering::greater;
    return std::weak_ordering::equivalent;
''', '''    if (t < u) return std::weak_ordering::less;
    if (t == u) return std::weak_ordering::equivalent;
    return std::weak_ordering::greater;
''')], '20', '''
struct V { int k, v; bool operator<(const V& o) const { return k < o.k; } bool operator==(const V& o) const { return k == o.k && v == o.v; } };
int main() { xyz::indirect<V> a(V{1, 1}), b(V{1, 2}); CHECK(!(a < b) && !(a > b)); CHECK(a <= b && b <= a); }
''', 'a type without <=> whose == is finer than its <', 'equivalent values compare as greater')
