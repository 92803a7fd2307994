I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

# ---- C01
bug('c01-valueless-source-alloc', 'C01', [(I, '''    if (other.valueless_after_move()) {
      reset();
    } else {
      if (std::is_copy_assignable_v<T> &&''', '''    if (other.p_ == nullptr) {
      if constexpr (update_alloc) alloc_ = alloc;
      reset();
    } else {
      if (std::is_copy_assignable_v<T> &&''')], '20', '''
int main() {
  using H = xyz::indirect<X, Al<X, true>>;
  { H a(std::allocator_arg, Al<X, true>(1), X(1)); H b(std::allocator_arg, Al<X, true>(2), X(2)); H c(std::move(b));
    CHECK(b.valueless_after_move());
    a = b;
    CHECK(a.valueless_after_move() && a.get_allocator().id == 2); }
  all_clear();
}''', 'copy assignment from a valueless source, with an unequal allocator that propagates on copy assignment, to an engaged target', 'the target\'s block is returned to the source\'s allocator')
bug('c01-clone-leak', 'C01', [(P, '''        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
        return mem;
      } catch (...) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;''', '''        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
        return mem;
      } catch (...) {
        throw;''')], '20', '''
int main() {
  using H = xyz::polymorphic<VX, Al<VX>>;
  { H a(std::allocator_arg, Al<VX>(1), DX(3));
    K().fail_in = 0; bool thrown = false;
    try { H b(a); } catch (const std::runtime_error&) { thrown = true; }
    K().fail_in = -1; CHECK(thrown); }
  all_clear();
}''', 'a copy constructor of the owned object that throws while a polymorphic is copied', 'the control block is leaked')
bug('c01-destroy-trivial', 'C07', [(I, '''    allocator_traits::destroy(alloc, std::to_address(p));
''', '''    if constexpr (!std::is_trivially_destructible_v<T>) {
      allocator_traits::destroy(alloc, std::to_address(p));
    }
''')], '20', '''
int main() {
  { xyz::indirect<int, Al<int>> a(std::allocator_arg, Al<int>(1), 3), b(a); a = xyz::indirect<int, Al<int>>(std::allocator_arg, Al<int>(2), 4); }
  CHECK(L().constructs == L().destroys); all_clear();
}''', 'a trivially destructible owned type and an allocator with a destroy member', 'the owned object is not destroyed through the allocator')
bug('c01-move-fallback-copy-leak', 'C01', [(P14, '''        cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                   std::move(storage_.u_));
        return mem;
      } catch (...) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;''', '''        cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                   std::move(storage_.u_));
        return mem;
      } catch (const std::exception&) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;'''), (P14, '#include <cassert>\n', '#include <cassert>\n#include <exception>\n')], '14', '''
struct Odd : VX { Odd() {} Odd(const Odd&) = default; Odd(Odd&& o) : VX(o) { throw 42; } };
int main() {
  using A = Al<VX>; using H = xyz::polymorphic<VX, A>;
  { H a(std::allocator_arg, A(1), vt::in_place_type<Odd>{}); bool thrown = false;
    try { H b(std::allocator_arg, A(2), std::move(a)); } catch (int) { thrown = true; }
    CHECK(thrown); }
  all_clear();
}''', 'moving between unequal allocators with a move constructor that throws something other than a std::exception', 'the control block is leaked')
bug('c01-swap-valueless', 'C01', [(P, '''      std::swap(alloc_, other.alloc_);
      std::swap(cb_, other.cb_);
      return;''', '''      std::swap(cb_, other.cb_);
      if (cb_ != nullptr && other.cb_ != nullptr) std::swap(alloc_, other.alloc_);
      return;''')], '20', '''
int main() {
  using A = Al<VX, false, false, true>; using H = xyz::polymorphic<VX, A>;
  { H a(std::allocator_arg, A(1), DX(1)), b(std::allocator_arg, A(2), DX(2)); H c(std::move(b));
    a.swap(b);
    CHECK(a.valueless_after_move() && a.get_allocator().id == 2 && b.get_allocator().id == 1); }
  all_clear();
}''', 'swapping an engaged with a valueless polymorphic whose unequal allocators propagate on swap', 'blocks end up with holders whose allocator did not supply them')

# ---- C02
bug('c02-extended-copy-moves', 'C02', [(I, '''    p_ = construct_from(alloc_, *other);
  }

  constexpr indirect(
      std::allocator_arg_t''', '''    if constexpr (allocator_traits::is_always_equal::value) {
      p_ = construct_from(alloc_, *other);
    } else {
      p_ = alloc_ == other.alloc_ ? construct_from(alloc_, *other)
                                  : construct_from(alloc_, std::move(*other.p_));
    }
  }

  constexpr indirect(
      std::allocator_arg_t''')], '20', '''
int main() {
  using A = Al<X>; using H = xyz::indirect<X, A>;
  H a(std::allocator_arg, A(1), X(5)); H b(std::allocator_arg, A(2), a);
  CHECK(a->v == 5 && b->v == 5);
}''', 'allocator-extended copy to an unequal allocator, with an owned type whose move changes the source', 'copying moves from the const source\'s owned object')
bug('c02-clone-shares-trivial', 'C02', [(P14, '''        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
''', '''        cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                   const_cast<U&>(storage_.u_));
''')], '14', '''
struct Greedy : VX {
  Greedy() : VX(4) {}
  Greedy(const Greedy& o) : VX(o.x.v) {}
  Greedy(Greedy& o) : VX(o.x.v) { o.x.v = 99; }
};
int main() {
  const xyz::polymorphic<VX> a(vt::in_place_type<Greedy>{}); xyz::polymorphic<VX> b(a);
  CHECK(a->x.v == 4 && b->x.v == 4);
}''', 'a derived type with a constructor from a non-const lvalue', 'copying a const polymorphic modifies its owned object')

# ---- C03
bug('c03-ilist-slices', 'C03', [(P, '''    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
''', '''    if constexpr (std::is_constructible_v<T, std::initializer_list<I>, Ts...>) {
      cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
    } else {
      cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
    }
''')], '20', '''
#include <initializer_list>
struct B { int n; B(std::initializer_list<int> l) : n((int)l.size()) {} virtual ~B() = default; virtual int k() const { return 0; } };
struct D : B { D(std::initializer_list<int> l) : B(l) {} int k() const override { return 1; } };
int main() { xyz::polymorphic<B> p(vt::in_place_type<D>{}, {1, 2, 3}); CHECK(p->n == 3 && p->k() == 1); }
''', 'a base class that itself has an initializer-list constructor', 'the initializer-list constructor builds a T instead of the requested U')
bug('c03-pointer-reinterpret', 'C03', [(P14, '''      control_block::p_ = std::addressof(storage_.u_);
''', '''      control_block::p_ = std::is_polymorphic<T>::value
                              ? static_cast<T*>(std::addressof(storage_.u_))
                              : reinterpret_cast<T*>(std::addressof(storage_));
''')], '14', '''
struct B { int n = 5; };
struct O { long pad = 9; };
struct D : O, B { };
int main() { D d; d.n = 6; xyz::polymorphic<B> p(d), q(p); CHECK(p->n == 6 && q->n == 6); }
''', 'a base without virtual functions that is not at the start of the derived object', 'operator* designates the wrong bytes')
bug('c03-move-slices', 'C03', [(P, '''        cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                   std::move(storage_.u_));
        return mem;''', '''        if constexpr (std::is_constructible_v<U, T&&>) {
          cb_alloc_traits::construct(
              cb_alloc, mem, alloc,
              std::move(static_cast<T&>(storage_.u_)));
        } else {
          cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                     std::move(storage_.u_));
        }
        return mem;''')], '20', '''
struct D : VX { int more = 1; D() = default; D(VX&& b) : VX(std::move(b)) {} D(const D&) = default; D(D&&) = default; };
int main() {
  using A = Al<VX>; using H = xyz::polymorphic<VX, A>; D d; d.more = 8;
  H a(std::allocator_arg, A(1), d); H b(std::allocator_arg, A(2), std::move(a));
  CHECK(static_cast<D&>(*b).more == 8);
}''', 'moving between unequal allocators when the derived type is constructible from its base', 'the derived part is lost (rebuilt from the base part)')

# ---- C04
bug('c04-unequal-copies', 'C04', [(I, '''          p_ = construct_from(alloc_, std::move(*other));
''', '''          p_ = construct_from(alloc_, std::as_const(*other));
''')], '20', '''
int main() {
  using A = Al<X>; using H = xyz::indirect<X, A>; H a(std::allocator_arg, A(1), vt::in_place{}, 5); Kreset();
  H b(std::allocator_arg, A(2), std::move(a)); CHECK(K().cc == 0 && K().mc == 1 && b->v == 5);
}''', 'allocator-extended move construction between unequal allocators', 'the owned object is copied, not moved')
bug('c04-cxx14-unequal-assign-copies', 'C04', [(P14, '''        auto tmp = other.cb_->move(alloc);
        reset();
        cb_ = tmp;
''', '''        polymorphic tmp(std::allocator_arg, alloc, other);
        std::swap(cb_, tmp.cb_);
''')], '14', '''
int main() {
  using A = Al<VX>; using H = xyz::polymorphic<VX, A>; H a(std::allocator_arg, A(1), DX(5)), b(std::allocator_arg, A(2), DX(6)); Kreset();
  b = std::move(a); CHECK(K().cc == 0 && K().mc == 1 && b->x.v == 5);
}''', 'move assignment between unequal allocators that do not propagate', 'the owned object is copied, not moved')
bug('c04-move-uses-soccc', 'C04', [(P, '''      : polymorphic(std::allocator_arg_t{}, other.alloc_, std::move(other)) {}
''', '''      : polymorphic(std::allocator_arg_t{},
                    allocator_traits::select_on_container_copy_construction(
                        other.alloc_),
                    std::move(other)) {}
''')], '20', '''
int main() {
  using A = Al<VX, false, false, false, true>; using H = xyz::polymorphic<VX, A>; H a(std::allocator_arg, A(1), DX(5)); const void* p = &*a;
  H b(std::move(a)); CHECK(&*b == p && a.valueless_after_move() && b.get_allocator().id == 1);
}''', 'an allocator whose select_on_container_copy_construction gives an unequal allocator', 'move construction takes another allocator and moves the owned object')
bug('c04-small-move-assign', 'C04', [(I14, '''      if (alloc_base::get() == other.alloc_base::get()) {
        // `other` may''', '''      if (std::is_same<T, typename std::remove_cv<T>::type>::value &&
          alloc_base::get() == other.alloc_base::get() &&
          (valueless_after_move() || sizeof(T) <= 256)) {
        // `other` may''')], '14', '''
struct Big { X x; char pad[300]; Big(int i) : x(i) {} };
int main() {
  using H = xyz::indirect<Big, Al<Big>>; H a(std::allocator_arg, Al<Big>(1), vt::in_place{}, 5), b(std::allocator_arg, Al<Big>(1), vt::in_place{}, 6);
  const void* p = &*a; b = std::move(a); CHECK(&*b == p && a.valueless_after_move());
}''', 'an owned type larger than 256 bytes, an engaged target', 'move assignment between equal allocators builds a new object')

# ---- C05
bug('c05-unequal-valueless-assign', 'C05', [(P, '''    if (other.valueless_after_move()) {
      reset();
    } else {
      if (alloc_ == other.alloc_) {''', '''    if (other.valueless_after_move()) {
      if (update_alloc || alloc_ == other.alloc_) reset();
    } else {
      if (alloc_ == other.alloc_) {''')], '20', '''
int main() {
  using A = Al<VX>; using H = xyz::polymorphic<VX, A>; H a(std::allocator_arg, A(1), DX(5)), b(std::allocator_arg, A(2), DX(6)); H c(std::move(b));
  a = std::move(b); CHECK(a.valueless_after_move());
}''', 'move assignment from a valueless source with an unequal allocator that does not propagate', 'the target stays engaged')
bug('c05-failed-value-assign-empties', 'C05', [(I14, '''    if (valueless_after_move()) {
      p_ = construct_from(get_allocator(), std::forward<U>(u));
    } else {
      *p_ = std::forward<U>(u);
    }
    return *this;''', '''    if (valueless_after_move()) {
      p_ = construct_from(get_allocator(), std::forward<U>(u));
    } else {
      auto p = p_;
      p_ = nullptr;  // The value may be left in an unknown state.
      *p = std::forward<U>(u);
      p_ = p;
    }
    return *this;''')], '14', '''
int main() {
  xyz::indirect<X> a(X(1)); X x(2); K().fail_in = 0; bool thrown = false;
  try { a = x; } catch (const std::runtime_error&) { thrown = true; }
  CHECK(thrown && !a.valueless_after_move() && a->v == 1);
}''', 'an assignment of the owned type that throws', 'failed value assignment leaves the indirect valueless')

# ---- C06
bug('c06-poly-reset-first', 'C06', [(P14, '''      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''', '''      if (alloc_base::get() == other.alloc_base::get()) {
        auto tmp = other.cb_->clone(alloc);
        reset();
        cb_ = tmp;
      } else {
        reset();
        cb_ = other.cb_->clone(alloc);
      }
''')], '14', '''
int main() {
  using A = Al<VX>; using H = xyz::polymorphic<VX, A>; H a(std::allocator_arg, A(1), DX(5)), b(std::allocator_arg, A(2), DX(6));
  K().fail_in = 0; bool thrown = false;
  try { a = b; } catch (const std::runtime_error&) { thrown = true; }
  K().fail_in = -1; CHECK(thrown && !a.valueless_after_move() && a->x.v == 5);
}''', 'copy assignment between unequal allocators that throws', 'the target has lost its object')
bug('c06-alloc-before-construct', 'C06', [(I, '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done.
        auto tmp = construct_from(alloc, *other);
        reset();
        p_ = tmp;
''', '''        // Nothing to release if we are valueless.
        if constexpr (update_alloc) {
          if (valueless_after_move()) alloc_ = alloc;
        }
        auto tmp = construct_from(alloc, *other);
        reset();
        p_ = tmp;
''')], '20', '''
int main() {
  using A = Al<X, true>; using H = xyz::indirect<X, A>; H a(std::allocator_arg, A(1), 5), b(std::allocator_arg, A(2), 6); H c(std::move(a));
  L().fail_in = 0; bool thrown = false;
  try { a = b; } catch (const std::bad_alloc&) { thrown = true; }
  CHECK(thrown && a.valueless_after_move() && a.get_allocator().id == 1);
}''', 'copy assignment to a valueless target with a propagating unequal allocator, failing allocation', 'the failed assignment has replaced the target\'s allocator')
