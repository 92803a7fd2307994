I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

bug('c09-reserved-value', 'C09', [(I, '''    return std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
''', '''    const std::size_t h =
        std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
    // Keep clear of the value that stands for a valueless key.
    return h == static_cast<std::size_t>(-1) ? h - 1 : h;
''')], '20', '''
int main() { xyz::indirect<long> a(-1L); CHECK(std::hash<xyz::indirect<long>>()(a) == std::hash<long>()(-1L)); xyz::indirect<long> b(3L); CHECK(std::hash<xyz::indirect<long>>()(b) == std::hash<long>()(3L)); }
''', 'a value whose own hash is the largest std::size_t', 'its hash is not that of the value')

bug('c08-narrowed', 'C08', [(I, '''    if (lhs.valueless_after_move()) {
      return false;
    }
    return *lhs == rhs;
''', '''    if (lhs.valueless_after_move()) {
      return false;
    }
    if constexpr (std::is_floating_point_v<U> && std::is_convertible_v<U, T>) {
      // Compare in our own type: mixed comparisons are inexact.
      return *lhs == static_cast<T>(rhs);
    } else {
      return *lhs == rhs;
    }
''')], '20', '''
int main() { xyz::indirect<int> a(1); CHECK(!(a == 1.5)); CHECK(1.5 != a); CHECK(a == 1.0); xyz::indirect<int> b(2); CHECK(!(b == 2.25)); }
''', 'an indirect of an integer compared with a fractional value', 'the fraction is lost before comparing')

bug('c12-in-place-single', 'C12', [(I, '''                              std::in_place_t, U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
             std::constructible_from<T, U>)
      : alloc_(alloc) {
    p_ = construct_from(alloc_, std::forward<U>(u));
''', '''                              std::in_place_t, U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
             std::constructible_from<T, U>)
      : alloc_(alloc) {
    if constexpr (std::is_constructible_v<T, U&>) {
      p_ = construct_from(alloc_, u);
    } else {
      p_ = construct_from(alloc_, std::forward<U>(u));
    }
''')], '20', '''
struct V { std::vector<int> v; V(const std::vector<int>& x) : v(x) {} V(std::vector<int>&& x) : v(std::move(x)) {} };
int main() { std::vector<int> v(5, 1); const int* q = v.data(); xyz::indirect<V> i(std::allocator_arg, std::allocator<V>(), std::in_place, std::move(v)); CHECK(i->v.data() == q); }
''', 'allocator-extended in-place construction from exactly one rvalue', 'the rvalue is passed on as an lvalue and copied')

bug('c06-nothrow-still-allocates', 'C06', [(I, '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done.
        auto tmp = construct_from(alloc, *other);
        reset();
        p_ = tmp;
''', '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done, unless it cannot.
        if constexpr (std::is_nothrow_copy_constructible_v<T>) reset();
        auto tmp = construct_from(alloc, static_cast<const T&>(*other));
        reset();
        p_ = tmp;
''')], '20', '''
struct N { int v; N(int i) : v(i) {} N(const N& o) noexcept : v(o.v) {} N& operator=(const N& o) noexcept { v = o.v; return *this; } };
int main() { using B = Al<N>; xyz::indirect<N, B> a(std::allocator_arg, B(1), N(1)), b(std::allocator_arg, B(2), N(2)); L().fail_in = 0;
  try { a = b; CHECK(false); } catch (const std::bad_alloc&) {} L().fail_in = -1; CHECK(!a.valueless_after_move()); CHECK(a->v == 1); }
''', 'copy assignment between unequal allocators of a value that is copied without throwing, and a failing allocation', 'the target has lost its object')

bug('c06-value-assign-dangling', 'C06', [(I14, '''      p_ = construct_from(get_allocator(), std::forward<U>(u));
''', '''      fill(std::forward<U>(u));
'''), (I14, '''  void reset() noexcept {
''', '''  template <class U>
  void fill(U&& u) {
    p_ = allocator_traits::allocate(alloc_base::get(), 1);
    try {
      allocator_traits::construct(alloc_base::get(), p_, std::forward<U>(u));
    } catch (...) {
      allocator_traits::deallocate(alloc_base::get(), p_, 1);
      throw;
    }
  }

  void reset() noexcept {
''')], '14', '''
int main() { { xyz::indirect<X> a(vt::in_place{}, 1), b(std::move(a)); K().fail_in = 0; try { a = 5; CHECK(false); } catch (const std::runtime_error&) {} K().fail_in = -1;
  CHECK(a.valueless_after_move()); } CHECK(K().alive == 0); }
''', 'value assignment to a valueless indirect whose construction throws', 'the indirect keeps a pointer to the storage it has returned')

bug('c04-valueless-target-takes', 'C04', [(I, '''      if (alloc_ == other.alloc_) {
        // `other` may be''', '''      if (valueless_after_move() || alloc_ == other.alloc_) {
        // `other` may be''')], '20', '''
int main() { using B = Al<X>; { xyz::indirect<X, B> a(std::allocator_arg, B(1), X(1)), b(std::allocator_arg, B(2), X(2)), c(std::move(a)); a = std::move(b); CHECK(a->v == 2); }
  CHECK(L().live.empty()); }
''', 'move assignment to a valueless target from one with an unequal allocator', 'storage is taken over although it has to be returned to another allocator')

bug('c07-same-pointer', 'C07', [(P, '''  constexpr polymorphic& operator=(const polymorphic& other) {
    if (this == &other) return *this;
''', '''  constexpr polymorphic& operator=(const polymorphic& other) {
    if (cb_ == other.cb_) return *this;
'''), (P, '''      allocator_traits::is_always_equal::value) {
    if (this == &other) return *this;
''', '''      allocator_traits::is_always_equal::value) {
    if (cb_ == other.cb_) return *this;
''')], '20', '''
int main() { using B = Al<VX, true, true>; using H = xyz::polymorphic<VX, B>; H a(std::allocator_arg, B(1)), b(std::allocator_arg, B(2)); { H c(std::move(a)), d(std::move(b)); }
  a = b; CHECK(a.get_allocator().id == 2); }
''', 'assignment between two valueless objects with unequal allocators that propagate', 'the allocator is not replaced')

bug('c06-same-type-assign', 'C06', [(P, '''    virtual constexpr control_block* move(const A& alloc) = 0;
''', '''    virtual constexpr control_block* move(const A& alloc) = 0;
    virtual constexpr bool assign(const control_block& other) = 0;
'''), (P, '''    constexpr void destroy(A& alloc) override {
      cb_allocator cb_alloc(alloc);
''', '''    // Assigns from an object of the very same type in place.
    constexpr bool assign(const control_block& other) override {
      if constexpr (std::is_copy_assignable_v<U>) {
        if (!std::is_constant_evaluated()) {
          auto* same = dynamic_cast<const direct_control_block*>(&other);
          if (same != nullptr) {
            storage_.u_ = same->storage_.u_;
            return true;
          }
        }
      }
      return false;
    }

    constexpr void destroy(A& alloc) override {
      cb_allocator cb_alloc(alloc);
'''), (P, '''      // Constructing a new control block could throw so we need to defer
      // resetting or updating allocators until this is done.
      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''', '''      // An object of the same type is assigned to; constructing another control
      // block could throw so we need to defer resetting until this is done.
      if (allocator_traits::is_always_equal::value && cb_ != nullptr &&
          cb_->assign(*other.cb_)) {
        return *this;
      }
      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''')], '20', '''
struct Two { virtual ~Two() = default; X a, b; Two(int i) : a(i), b(i) {} Two(const Two&) = default; Two& operator=(const Two&) = default; };
int main() { xyz::polymorphic<Two> p(std::in_place_type<Two>, 1), q(std::in_place_type<Two>, 2); K().fail_in = 1; try { p = q; CHECK(false); } catch (const std::runtime_error&) {} K().fail_in = -1;
  CHECK(p->a.v == 1 && p->b.v == 1); }
''', 'copy assignment of a polymorphic that owns an object of the same type, failing half way', 'the target is left with half of the new value')

bug('c16-assert-side-effect', 'C16', [(P, '''    if constexpr (allocator_traits::is_always_equal::value) {
      cb_ = std::exchange(other.cb_, nullptr);
    } else {
      if (alloc_ == other.alloc_) {
        cb_ = std::exchange(other.cb_, nullptr);
''', '''    if constexpr (allocator_traits::is_always_equal::value) {
      cb_ = std::exchange(other.cb_, nullptr);
    } else {
      if (alloc_ == other.alloc_) {
        cb_ = other.cb_;
        assert(!std::exchange(other.cb_, nullptr) || !valueless_after_move());
''')], '20 g++~-std=c++20~-DNDEBUG', '''
int main() { using B = Al<VX>; using H = xyz::polymorphic<VX, B>; { H a(std::allocator_arg, B(1)), c(std::move(a)); CHECK(a.valueless_after_move()); } CHECK(L().live.empty()); }
''', 'a build without assertions', 'the source of a move keeps the object too')

bug('c17-const-rvalue-access', 'C17', [(I, '''  [[nodiscard]] constexpr const T&& operator*() const&& noexcept {
    assert(!valueless_after_move());  // LCOV_EXCL_LINE
    return std::move(*p_);''', '''  [[nodiscard]] const T&& operator*() const&& noexcept {
    assert(!valueless_after_move());  // LCOV_EXCL_LINE
    return std::move(*p_);''')], '20', '''
constexpr int f() { const xyz::indirect<int> a(5); return *std::move(a); }
int main() { static_assert(f() == 5); }
''', 'dereferencing a const rvalue in a constant expression', 'the accessor is not constexpr')

bug('c03-ext-move-clones-base', 'C03', [(P14, '''        if (!other.valueless_after_move()) {
          cb_ = other.cb_->move(alloc_base::get());
        } else {''', '''        if (!other.valueless_after_move()) {
          cb_ = move_or_make(other, std::is_move_constructible<T>());
        } else {'''), (P14, '''  ~polymorphic() { reset(); }
''', '''  ~polymorphic() { reset(); }

  control_block* move_or_make(polymorphic& other, std::false_type) {
    return other.cb_->move(alloc_base::get());
  }

  control_block* move_or_make(polymorphic& other, std::true_type) {
    // An object that starts where its base does and has nothing to dispatch on
    // is the base.
    if (!std::is_polymorphic<T>::value && std::is_trivially_copyable<T>::value)
      return create_control_block<T>(std::move(*other.cb_->p_));
    return other.cb_->move(alloc_base::get());
  }
''')], '14', '''
struct B { int v; B(int i = 0) : v(i) {} }; struct D : B { int more; D(int i) : B(i), more(i + 1) {} D(const D& o) : B(o), more(o.more) { ++K().cc; } };
int main() { using A = Al<B>; xyz::polymorphic<B, A> p(std::allocator_arg, A(1), vt::in_place_type<D>{}, 5); Kreset(); xyz::polymorphic<B, A> q(std::allocator_arg, A(2), std::move(p)); CHECK(K().cc == 1); CHECK(static_cast<D&>(*q).more == 6); }
''', 'moving between unequal allocators with a trivially copyable base', 'the derived part is sliced off')

bug('c02-trivial-shared-assign', 'C02', [(I, '''      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
          alloc_ == other.alloc_) {
''', '''      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
          alloc_ == other.alloc_ && !detail::known_equal(*p_, *other)) {
'''), (I, '''template <class T, class U = T>
using synth_three_way_result''', '''// Spares us the assignment of what is there already.
template <class T>
constexpr bool known_equal(const T& t, const T& u) {
  if constexpr (requires {
                  { t == u } -> std::convertible_to<bool>;
                }) {
    return t == u;
  } else {
    return false;
  }
}

template <class T, class U = T>
using synth_three_way_result'''), (I, '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done.
        auto tmp = construct_from(alloc, *other);
        reset();
        p_ = tmp;
''', '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done.
        if (!valueless_after_move() && alloc_ == other.alloc_ &&
            detail::known_equal(*p_, *other)) {
          return *this;
        }
        auto tmp = construct_from(alloc, static_cast<const T&>(*other));
        reset();
        p_ = tmp;
''')], '20', '''
struct P { int key, extra; bool operator==(const P& o) const { return key == o.key; } };
int main() { xyz::indirect<P> a(P{1, 2}), b(P{1, 3}); a = b; CHECK(a->extra == 3); xyz::indirect<double> x(0.0), y(-0.0); x = y; CHECK(1 / *x < 0); }
''', 'copy assignment between owned values that compare equal but are not the same', 'the value is not copied')

bug('c10-move-value-assign-replaces', 'C10', [(I, '''    if (valueless_after_move()) {
      p_ = construct_from(alloc_, std::forward<U>(u));
    } else {''', '''    if (p_ == nullptr) {
      p_ = construct_from(alloc_, std::forward<U>(u));
    } else if constexpr (std::is_same_v<U, T> && !std::is_scalar_v<T> &&
                         !std::is_nothrow_move_assignable_v<T>) {
      // Assigning could leave the object half done: put a new one in its place.
      auto tmp = construct_from(alloc_, std::move(u));
      reset();
      p_ = tmp;
    } else {''')], '20', '''
int main() { xyz::indirect<X> a(vt::in_place{}, 1); const X* q = &*a; a = X(2); CHECK(&*a == q); CHECK(a->v == 2); }
''', 'assigning an rvalue of the owned type whose move assignment may throw', 'the owned object is replaced instead of assigned')

bug('c11-equal-states', 'C11', [(P14, '''      std::swap(cb_, other.cb_);
      return;
    } else /*  */ {''', '''      if (cb_ != other.cb_ && cb_ && other.cb_) {
        std::swap(cb_, other.cb_);
      } else if (cb_) {
        other.cb_ = cb_;
        cb_ = nullptr;
      } else {
        cb_ = other.cb_;
        other.cb_ = nullptr;
      }
      return;
    } else /*  */ {''')], '14', '''
int main() { using B = Al<VX, false, false, true>; using H = xyz::polymorphic<VX, B>; H a(std::allocator_arg, B(1)); swap(a, a); CHECK(!a.valueless_after_move()); }
''', 'swapping an object with itself when allocators propagate on swap', 'the object loses what it owns')
