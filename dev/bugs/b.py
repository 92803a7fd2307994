I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

# ---- C07
bug('c07-soccc-ignored-valueless', 'C07', [(I14, '''                 allocator_traits::select_on_container_copy_construction(
                     other.alloc_base::get()),
                 other) {}
''', '''                 other.valueless_after_move()
                     ? other.alloc_base::get()
                     : allocator_traits::select_on_container_copy_construction(
                           other.alloc_base::get()),
                 other) {}
''')], '14', '''
int main() {
  using A = Al<int, false, false, false, true>; using H = xyz::indirect<int, A>;
  H a(std::allocator_arg, A(1), 5); H b(std::move(a)); H c(a);
  CHECK(c.valueless_after_move() && c.get_allocator().id == 101);
}''', 'copying a valueless indirect whose allocator selects another one for copies', 'the copy holds the source\'s allocator')
bug('c07-valueless-early-return', 'C07', [(P, '''    if (other.valueless_after_move()) {
      reset();
    } else {
      if (alloc_ == other.alloc_) {''', '''    if (other.cb_ == nullptr) {
      reset();
      return *this;
    } else {
      if (alloc_ == other.alloc_) {''')], '20', '''
int main() {
  using A = Al<VX, false, true>; using H = xyz::polymorphic<VX, A>;
  H a(std::allocator_arg, A(1), DX(5)), b(std::allocator_arg, A(2), DX(6)); H c(std::move(b));
  a = std::move(b); CHECK(a.valueless_after_move() && a.get_allocator().id == 2);
}''', 'move assignment from a valueless source with an allocator that propagates on move assignment', 'the allocator is not replaced')
bug('c07-swap-equal-tag', 'C07', [(P14, '''    if (allocator_traits::propagate_on_container_swap::value) {
      // If''', '''    if (allocator_traits::propagate_on_container_swap::value &&
        alloc_base::get() != other.alloc_base::get()) {
      // If''')], '14', '''
int main() {
  using A = Al<VX, false, false, true>; using H = xyz::polymorphic<VX, A>;
  H a(std::allocator_arg, A(1, 10), DX(5)), b(std::allocator_arg, A(1, 20), DX(6));
  a.swap(b); CHECK(a.get_allocator().tag == 20 && b.get_allocator().tag == 10 && a->x.v == 6);
}''', 'allocators that compare equal but are distinguishable (for instance by an attached tag) and propagate on swap', 'the allocators are not exchanged')
bug('c07-inner-construct', 'C07', [(P, '''      cb_alloc_traits::construct(cb_alloc, std::addressof(storage_.u_),
                                 std::forward<Ts>(ts)...);
''', '''      if constexpr (std::is_constructible_v<U, Ts...> &&
                    std::is_nothrow_copy_constructible_v<U>) {
        std::construct_at(std::addressof(storage_.u_), std::forward<Ts>(ts)...);
      } else {
        cb_alloc_traits::construct(cb_alloc, std::addressof(storage_.u_),
                                   std::forward<Ts>(ts)...);
      }
''')], '20', '''
struct B { virtual ~B() = default; int i = 1; };
struct D : B { int j = 2; };
template <class T> struct Hook : Al<T> {
  template <class U> struct rebind { using other = Hook<U>; };
  Hook() = default; template <class U> Hook(const Hook<U>& o) : Al<T>(o.id) {}
  template <class U, class... As> void construct(U* p, As&&... as) { if (std::is_same<U, D>::value) ++seen(); ::new ((void*)p) U(std::forward<As>(as)...); }
  static int& seen() { static int s = 0; return s; }
};
template <class T> int seen_total();
int main() {
  using H = xyz::polymorphic<B, Hook<B>>; static int n = 0; (void)n;
  struct Counting {}; 
  H a(vt::in_place_type<D>{}), b(a);
  // one construct() for each D, whichever rebound copy of the allocator made it
  long before = L().allocs; CHECK(before == 2);
  CHECK(L().destroys > 0 || true);
  extern int d_constructs; CHECK(d_constructs == 0);
}
int d_constructs;''', 'x', 'x')
BUGS.pop()
bug('c07-inner-construct', 'C07', [(P, '''      cb_alloc_traits::construct(cb_alloc, std::addressof(storage_.u_),
                                 std::forward<Ts>(ts)...);
''', '''      if constexpr (std::is_trivially_copyable_v<U>) {
        std::construct_at(std::addressof(storage_.u_), std::forward<Ts>(ts)...);
      } else {
        cb_alloc_traits::construct(cb_alloc, std::addressof(storage_.u_),
                                   std::forward<Ts>(ts)...);
      }
''')], '20', '''
struct B { int i = 1; };
struct D : B { int j = 2; };
int main() {
  { xyz::polymorphic<B, Al<B>> a(vt::in_place_type<D>{}), b(a); }
  CHECK(L().constructs == 4);  // two control blocks and two owned objects
}''', 'a trivially copyable owned type and an allocator with a construct member', 'the owned object is not constructed through the allocator')
bug('c07-ext-move-keeps-source-alloc', 'C07', [(I14, '''      : alloc_base(alloc), p_(nullptr) {
    if (allocator''', '''      : alloc_base(alloc == other.alloc_base::get() ? other.alloc_base::get()
                                                    : alloc),
        p_(nullptr) {
    if (allocator''')], '14', '''
int main() {
  using A = Al<int>; using H = xyz::indirect<int, A>;
  H a(std::allocator_arg, A(1, 10), 5); H b(std::allocator_arg, A(1, 20), std::move(a));
  CHECK(b.get_allocator().tag == 20);
}''', 'allocator-extended move with an allocator that compares equal to the source\'s but is distinguishable from it', 'the source\'s allocator is held instead of the given one')

# ---- C08
bug('c08-same-object-equal', 'C08', [(I, '''    if (lhs.valueless_after_move()) {
      return rhs.valueless_after_move();
    }
    if (rhs.valueless_after_move()) {
      return false;
    }
    return *lhs == *rhs;''', '''    if constexpr (std::is_same_v<indirect<T, A>, indirect<U, AA>>) {
      if (lhs.p_ == rhs.p_) return true;
    }
    if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
      return lhs.valueless_after_move() && rhs.valueless_after_move();
    }
    return *lhs == *rhs;''')], '20', '''
#include <limits>
int main() { xyz::indirect<double> a(std::numeric_limits<double>::quiet_NaN()); CHECK(!(a == a) && a != a); }
''', 'comparing an indirect that owns a NaN with itself', 'it is reported equal')
bug('c08-cxx14-ge-not-lt', 'C08', [(I14, '''    return !lhs.valueless_after_move() && *lhs >= *rhs;
''', '''    return !lhs.valueless_after_move() && !(*lhs < *rhs);
''')], '14', '''
#include <limits>
int main() { xyz::indirect<double> a(std::numeric_limits<double>::quiet_NaN()), b(1.0); CHECK(!(a >= b) && !(b >= a)); }
''', 'operator>= on unordered values', 'NaN >= 1 is true')
bug('c08-cxx14-value-gt-valueless', 'C08', [(I14, '''  [[nodiscard]] friend bool operator>=(const U& lhs,
                                       const indirect<T, A>& rhs) {
    if (rhs.valueless_after_move()) {
      return true;
    }
    return lhs >= *rhs;''', '''  [[nodiscard]] friend bool operator>=(const U& lhs,
                                       const indirect<T, A>& rhs) {
    return rhs <= lhs;''')], '14', '''
struct Q { int v; };  // ordered differently by <= and >=
inline bool operator<=(const Q&, const Q&) { return true; }
inline bool operator>=(const Q& a, const Q& b) { return a.v >= b.v; }
int main() { xyz::indirect<Q> a(Q{5}); CHECK(!(Q{1} >= a)); CHECK(Q{7} >= a); }
''', 'a type whose <= and >= are not mirror images', 'value >= indirect evaluates another operator')
bug('c08-spaceship-eq', 'C08', [(I, '''    return *lhs == rhs;
  }

  template <class U, class AA>
  [[nodiscard]] friend constexpr auto operator<=>''', '''    if constexpr (std::three_way_comparable_with<T, U>) {
      return (*lhs <=> rhs) == 0;
    } else {
      return *lhs == rhs;
    }
  }

  template <class U, class AA>
  [[nodiscard]] friend constexpr auto operator<=>''')], '20', '''
#include <compare>
struct S { int k, x; friend bool operator==(const S& a, const S& b) { return a.k == b.k && a.x == b.x; }
  friend std::weak_ordering operator<=>(const S& a, const S& b) { return a.k <=> b.k; } };
int main() { xyz::indirect<S> a(S{1, 2}); CHECK(!(a == S{1, 3}) && a == (S{1, 2})); }
''', 'a weakly ordered value type whose == is finer than its <=>, compared with a plain value', 'different values compare equal')
bug('c08-hetero-valueless', 'C08', [(I, '''    if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
      return !lhs.valueless_after_move() <=> !rhs.valueless_after_move();
    }
    return detail''', '''    if (rhs.valueless_after_move()) {
      if constexpr (std::is_same_v<A, AA>) {
        if (lhs.valueless_after_move()) return std::strong_ordering::equal;
      }
      return std::strong_ordering::greater;
    }
    if (lhs.valueless_after_move()) return std::strong_ordering::less;
    return detail''')], '20', '''
int main() { xyz::indirect<int> a(1); xyz::indirect<int, Al<int>> b(std::allocator_arg, Al<int>(1), 2); auto x = std::move(a); auto y = std::move(b);
  CHECK(a <= b && a >= b && !(a < b) && !(a > b) && (a <=> b) == 0); }
''', 'two valueless indirects with different allocator types compared with <=>', 'they are not equivalent')

# ---- C09
bug('c09-hash-memo', 'C09', [(I14, '''    return std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
''', '''    // Containers hash the same key several times in a row.
    static thread_local const void* last = nullptr;
    static thread_local std::size_t value = 0;
    if (last != &*key) {
      value = std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
      last = &*key;
    }
    return value;
''')], '14', '''
int main() { xyz::indirect<int> a(1); std::hash<xyz::indirect<int>> h; CHECK(h(a) == std::hash<int>()(1)); *a = 2; CHECK(h(a) == std::hash<int>()(2)); }
''', 'hashing, changing the owned value, and hashing again', 'a stale hash is returned')
bug('c09-hash-empty-class', 'C09', [(I, '''    return std::hash<typename xyz::indirect<T, Alloc>::value_type>{}(*key);
''', '''    const auto h = std::hash<T>{}(*key);
    return h == static_cast<std::size_t>(-1) ? h - 1 : h;
''')], '20', '''
struct M { friend bool operator==(M, M) { return true; } };
template <> struct std::hash<M> { std::size_t operator()(const M&) const { return static_cast<std::size_t>(-1); } };
int main() { xyz::indirect<M> a; CHECK(std::hash<xyz::indirect<M>>()(a) == static_cast<std::size_t>(-1)); }
''', 'a value whose hash coincides with that of a valueless indirect', 'the hash is not that of the value')

# ---- C10
bug('c10-value-assign-temp', 'C10', [(I, '''      *p_ = std::forward<U>(u);
    }
    return *this;
  }

  //
  // Accessors.''', '''      *p_ = T(std::forward<U>(u));
    }
    return *this;
  }

  //
  // Accessors.''')], '20', '''
int main() { xyz::indirect<X> a(X(1)); X x(2); Kreset(); a = x; CHECK(K().ca == 1 && K().ma == 0 && K().cc == 0 && a->v == 2); }
''', 'assigning an lvalue to an engaged indirect of a type whose copy and move assignment can be told apart', 'a temporary is constructed and move assigned')
bug('c10-value-assign-copies', 'C10', [(I14, '''      *p_ = std::forward<U>(u);
''', '''      *p_ = u;
''')], '14', '''
int main() { xyz::indirect<X> a(X(1)); X x(2); Kreset(); a = std::move(x); CHECK(K().ca == 0 && K().ma == 1 && a->v == 2); }
''', 'assigning an rvalue to an engaged indirect', 'the rvalue is copied')
bug('c10-copy-assign-rebuilds', 'C10', [(I14, '''      if (std::is_copy_assignable<T>::value && !valueless_after_move() &&
''', '''      if (std::is_copy_assignable<T>::value && !std::is_final<T>::value &&
          !valueless_after_move() &&
''')], '14', '''
struct F final { X x; F(int i) : x(i) {} };
int main() { xyz::indirect<F> a(F(1)), b(F(2)); const void* p = &*a; a = b; CHECK(&*a == p && a->x.v == 2); }
''', 'copy assignment for an owned type that is final', 'the owned object is replaced instead of assigned')
# ---- C11
bug('c11-swap-values', 'C11', [(I14, '''      if (alloc_base::get() == other.alloc_base::get()) {
        std::swap(p_, other.p_);
      } else {
        unreachable();''', '''      if (sizeof(T) <= sizeof(void*) &&
          std::is_trivially_copyable<T>::value && p_ != nullptr &&
          other.p_ != nullptr) {
        // As cheap as exchanging pointers, and the objects stay in cache.
        swap_values(*p_, *other.p_, std::is_copy_assignable<T>());
      } else if (alloc_base::get() == other.alloc_base::get()) {
        std::swap(p_, other.p_);
      } else {
        unreachable();'''), (I14, '''  void reset() noexcept {
    if (p_''', '''  static void swap_values(T& lhs, T& rhs, std::true_type) {
    T tmp(lhs);
    lhs = rhs;
    rhs = tmp;
  }

  static void swap_values(T&, T&, std::false_type) {}

  void reset() noexcept {
    if (p_''')], '14', '''
int main() { xyz::indirect<char> a('a'), b('b'); const void* pa = &*a; const void* pb = &*b; a.swap(b); CHECK(&*a == pb && &*b == pa && *a == 'b'); }
''', 'swapping indirects of a small trivial type and looking at the addresses', 'values are swapped instead of identities')
bug('c11-free-swap-moves', 'C11', [(P, '''      noexcept(lhs.swap(rhs))) {
    lhs.swap(rhs);
''', '''      noexcept(lhs.swap(rhs))) {
    if (&lhs == &rhs) return;
    polymorphic tmp(std::move(lhs));
    lhs = std::move(rhs);
    rhs = std::move(tmp);
''')], '20', '''
int main() {
  using A = Al<VX, false, false, true>; using H = xyz::polymorphic<VX, A>;
  H a(std::allocator_arg, A(1), DX(5)), b(std::allocator_arg, A(2), DX(6)); const void* pa = &*a; const void* pb = &*b; swap(a, b);
  CHECK(&*a == pb && &*b == pa && a.get_allocator().id == 2 && b.get_allocator().id == 1);
}''', 'free swap with unequal allocators that propagate on swap but not on move assignment', 'objects are rebuilt and allocators stay')
bug('c11-swap-both-valueless', 'C11', [(I, '''      std::swap(alloc_, other.alloc_);
      std::swap(p_, other.p_);
''', '''      if (p_ != other.p_) std::swap(alloc_, other.alloc_);
      std::swap(p_, other.p_);
''')], '20', '''
int main() {
  using A = Al<int, false, false, true>; using H = xyz::indirect<int, A>;
  H a(std::allocator_arg, A(1), 5), b(std::allocator_arg, A(2), 6); H c(std::move(a)), d(std::move(b)); a.swap(b);
  CHECK(a.get_allocator().id == 2 && b.get_allocator().id == 1);
}''', 'swapping two valueless objects whose unequal allocators propagate on swap', 'the allocators are not exchanged')

# ---- C12
bug('c12-alloc-arg-value-temp', 'C12', [(I, '''                              std::in_place_t, U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
             std::constructible_from<T, U>)
      : alloc_(alloc) {
    p_ = construct_from(alloc_, std::forward<U>(u));
''', '''                              std::in_place_t, U&& u)
    requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
             std::constructible_from<T, U>)
      : indirect(std::allocator_arg, alloc, T(std::forward<U>(u))) {
''')], '20', '''
int main() { xyz::indirect<X> a(std::allocator_arg, std::allocator<X>(), vt::in_place{}, 3); CHECK(K().mc == 0 && K().cc == 0 && K().val == 1 && a->v == 3); }
''', 'allocator-tagged in-place construction from one argument', 'an extra move of the owned type')
bug('c12-ilist-copies-args', 'C12', [(P14, '''    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
''', '''    cb_ = create_control_block<U>(ilist, std::initializer_list<int>{0},
                                  ts...);
''')], '14', '', 'x', 'x')
BUGS.pop()
bug('c12-poly-rvalue-copied', 'C12', [(P, '''    cb_ = create_control_block<std::remove_cvref_t<U>>(std::forward<U>(u));
''', '''    const auto& source = u;
    cb_ = create_control_block<std::remove_cvref_t<U>>(source);
''')], '20', '''
int main() { DX d(5); Kreset(); xyz::polymorphic<VX> p(std::move(d)); CHECK(K().cc == 0 && K().mc == 1 && p->x.v == 5); }
''', 'constructing a polymorphic from an rvalue of a type that counts copies and moves', 'the rvalue is copied')
bug('c12-poly-inplace-lvalue-moved', 'C12', [(P14, '''      : polymorphic(std::allocator_arg, A(), in_place_type_t<U>{},
                    std::forward<Ts>(ts)...) {}
''', '''      : polymorphic(std::allocator_arg, A(), in_place_type_t<U>{},
                    std::move(ts)...) {}
''')], '14', '''
#include <string>
struct B { virtual ~B() = default; std::string s; };
struct D : B { D(std::string x) { s = std::move(x); } };
int main() { std::string s(100, 'x'); xyz::polymorphic<B> p(vt::in_place_type<D>{}, s); CHECK(s.size() == 100 && p->s.size() == 100); }
''', 'an lvalue argument passed to the untagged in-place constructor', 'the caller\'s lvalue is moved from')

# ---- C13
bug('c13-poly-self-copy', 'C13', [(P, '''  constexpr polymorphic& operator=(const polymorphic& other) {
    if (this == &other) return *this;
''', '''  constexpr polymorphic& operator=(const polymorphic& other) {
''')], '20', '''
int main() { xyz::polymorphic<VX> p(DX(5)); const void* a = &*p; Kreset(); const auto& q = p; p = q; CHECK(&*p == a && K().cc == 0); }
''', 'copy assigning a polymorphic to itself', 'the owned object is replaced')
bug('c13-self-swap-poly', 'C13', [(P14, '''    lhs.swap(rhs);
''', '''    auto tmp = std::exchange(lhs.cb_, nullptr);
    lhs.swap(rhs);
    rhs.cb_ = tmp;
''')], '14', '''
int main() { xyz::polymorphic<VX> p(DX(5)), q(DX(6)); swap(p, q); CHECK(p->x.v == 6 && q->x.v == 5); const void* a = &*p; swap(p, p); CHECK(&*p == a); 
  xyz::polymorphic<VX> r(std::move(q)); swap(p, q); CHECK(p.valueless_after_move() && &*q == a); }
''', 'x', 'x')
BUGS.pop()
bug('c13-indirect-self-copy', 'C13', [(I14, '''  constexpr indirect& operator=(const indirect& other) {
    if (this == &other) return *this;
''', '''  constexpr indirect& operator=(const indirect& other) {
''')], '14', '''
int main() { xyz::indirect<X> p(X(5)); Kreset(); const auto& q = p; p = q; CHECK(K().ca == 0);
}''', 'copy assigning an indirect to itself, with an owned type that counts assignments', 'the owned object is assigned to itself')
bug('c13-nested-copy-reset', 'C13', [(P14, '''      // Constructing a new control block could throw so we need to defer
      // resetting or updating allocators until this is done.
      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''', '''      // The new object often fits where the old one was.
      if (std::is_nothrow_copy_constructible<T>::value) reset();
      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''')], '14', '''
#include <memory>
struct N; struct B { B() noexcept {} B(const B& o) noexcept : v(o.v) {} virtual ~B() = default; int v = 0; };
struct N : B { xyz::polymorphic<B> next; N() : next() { next->v = 7; } };
int main() { xyz::polymorphic<B> p(vt::in_place_type<N>{}); auto& n = static_cast<N&>(*p).next; p = n; CHECK(p->v == 7); }
''', 'copy assigning a polymorphic from one inside the object it owns, with a nothrow copyable base', 'the source is destroyed before it is copied', flags='-fsanitize=address')
