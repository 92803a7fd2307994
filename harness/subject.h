// The uniform face the engine gives to every instantiation of indirect and polymorphic.
#ifndef VT_SUBJECT_H
#define VT_SUBJECT_H
#include <string>
#include <vector>

#include "alloc.h"
#include "compat.h"
#include "ptypes.h"
#include "types.h"

namespace vt {

enum Op {
  // constructors that make an owned object (arena < 0: the untagged form)
  OP_DEFAULT,
  OP_VAL_CL,
  OP_VAL_L,
  OP_VAL_R,
  OP_ARG_L,
  OP_ARG_CL,
  OP_ARG_R,
  OP_ARG_CR,
  OP_MULTI,
  OP_ILIST,
  OP_ILIST_L,
  OP_ILIST_CL,
  OP_ILIST_R,
  OP_CONV_L,  // converting constructor from Arg (C++20 header)
  OP_CONV_CL,
  OP_CONV_R,
  OP_LAST_MAKE = OP_CONV_R,
  // constructors from another holder
  OP_COPY_CL,
  OP_COPY_L,
  OP_COPY_CR,
  OP_MOVE,
  OP_LAST_CTOR = OP_MOVE,
  // two holders
  OP_CASSIGN_CL,
  OP_CASSIGN_L,
  OP_CASSIGN_CR,
  OP_MASSIGN,
  OP_SWAP_M,
  OP_SWAP_F,
  // one holder
  OP_VASG_CL,
  OP_VASG_L,
  OP_VASG_R,
  OP_VASG_ARG_CL,
  OP_VASG_ARG_R,
  OP_MUT_STAR,
  OP_MUT_ARROW,
  OP_TAKE,  // move the value out through the rvalue dereference
  OP_DESTROY,
  NOPS
};
extern const char* const op_name[NOPS];

struct Subject {
  std::string name;
  bool poly;
  AllocFlags af;
  bool common;  // exists, with the same meaning, in every build
  std::vector<TypeInfo> types;
  std::size_t size, align;
  virtual ~Subject() {}
  virtual bool supports(int op, int tix) const = 0;
  virtual void make(int op, void* p, int arena, int tix, long v) = 0;
  virtual void copy(int op, void* p, int arena, void* src) = 0;
  virtual void move(void* p, int arena, void* src) = 0;
  virtual void cassign(int op, void* d, void* s) = 0;
  virtual void massign(void* d, void* s) = 0;
  virtual void swap(int op, void* a, void* b) = 0;
  virtual void vassign(int op, void* d, long v) = 0;
  virtual void mutate(int op, void* d, long v) = 0;
  virtual void take(void* d) = 0;
  virtual void destroy(void* d) = 0;
  virtual bool valueless(const void* p) = 0;
  virtual int alloc_id(const void* p) = 0;
  virtual bool alloc_matches(const void* p, int arena) = 0;
  // requires an engaged holder; checks that all access paths agree
  virtual Obs observe(void* p, const void** t_addr) = 0;
};
std::vector<Subject*>& registry();
struct Register {
  explicit Register(Subject* s) { registry().push_back(s); }
};

// ---------------------------------------------------------------- shared helpers
inline void check_arg_l(const Arg& a, const char* how) {
  if (a.moved) mon::soft(mon::L(12), "lvalue-arg-moved", "%s: an lvalue argument was moved from", how);
  if (a.copied)
    mon::soft(mon::L(12), "arg-copied", "%s: an argument was copied on its way to the constructor", how);
}
inline void check_arg_r(const Arg& a, const char* how) {
  if (a.moved != 1 || a.copied)
    mon::soft(mon::L(12), "rvalue-arg", "%s: an rvalue argument was moved %d times and copied %d times",
              how, a.moved, a.copied);
}

// construct I at p: from (args...) or from (allocator_arg, alloc, args...)
template <class I, class A>
struct Maker {
  template <class... As>
  static void run(std::true_type, void* p, int arena, As&&... as) {
    if (arena < 0) {
      plain(B_<std::is_default_constructible<A>::value>(), p, std::forward<As>(as)...);
    } else {
      A a(AllocInfo<A>::make(arena));
      mon::Window w;
      ::new (p) I(std::allocator_arg, a, std::forward<As>(as)...);
    }
  }
  template <class... As>
  static void run(std::false_type, void*, int, As&&...) {
    mon::fail_only(0, "harness", "unsupported operation requested");
  }
  template <class... As>
  static void plain(std::true_type, void* p, As&&... as) {
    mon::Window w;
    ::new (p) I(std::forward<As>(as)...);
  }
  template <class... As>
  static void plain(std::false_type, void*, As&&...) {
    mon::fail_only(0, "harness", "untagged construction without default allocator");
  }
};

#define VT_IL {3, 1, 4, 1, 5}
inline long il_value() {
  std::initializer_list<int> il = VT_IL;
  return ilist_value(il);
}

// The constructors from Arg and friends; Tag is in_place or in_place_type<U>.
template <class I, class A, class Tag, bool Args, bool Multi>
struct ArgMaker {
  typedef Maker<I, A> M;
  static void run(int op, void* p, int arena, long v) {
    const B_<Args> yes = {};
    const B_<Multi> multi = {};
    Arg a(v);
    const Arg& ca = a;
    switch (op) {
      case OP_ARG_L:
        M::run(yes, p, arena, Tag{}, a);
        check_arg_l(a, op_name[op]);
        break;
      case OP_ARG_CL:
        M::run(yes, p, arena, Tag{}, ca);
        check_arg_l(a, op_name[op]);
        break;
      case OP_ARG_R:
        M::run(yes, p, arena, Tag{}, std::move(a));
        check_arg_r(a, op_name[op]);
        break;
      case OP_ARG_CR:
        M::run(yes, p, arena, Tag{}, std::move(ca));
        check_arg_l(a, op_name[op]);
        break;
      case OP_MULTI: {
        Arg b(2), c(3);
        const Arg& cb = b;
        MoveOnlyArg d(4);
        M::run(multi, p, arena, Tag{}, a, cb, std::move(c), std::move(d));
        check_arg_l(a, op_name[op]);
        check_arg_l(b, op_name[op]);
        check_arg_r(c, op_name[op]);
        if (d.moved != 1)
          mon::soft(mon::L(12), "rvalue-arg", "move-only argument was moved %d times", d.moved);
        break;
      }
      case OP_ILIST: {
        std::initializer_list<int> il = VT_IL;
        M::run(multi, p, arena, Tag{}, il);
        break;
      }
      case OP_ILIST_L: {
        std::initializer_list<int> il = VT_IL;
        M::run(multi, p, arena, Tag{}, il, a);
        check_arg_l(a, op_name[op]);
        break;
      }
      case OP_ILIST_CL: {
        std::initializer_list<int> il = VT_IL;
        M::run(multi, p, arena, Tag{}, il, ca);
        check_arg_l(a, op_name[op]);
        break;
      }
      case OP_ILIST_R: {
        std::initializer_list<int> il = VT_IL;
        M::run(multi, p, arena, Tag{}, il, std::move(a));
        check_arg_r(a, op_name[op]);
        break;
      }
    }
  }
};

// ---------------------------------------------------------------- common part
template <class I, class A>
struct HolderSubject : Subject {
  static I& ref(void* p) { return *static_cast<I*>(p); }
  static const I& cref(const void* p) { return *static_cast<const I*>(p); }
  static constexpr bool dflt_alloc = std::is_default_constructible<A>::value;

  void move(void* p, int arena, void* src) override {
    if (arena < 0) {
      mon::Window w;
      ::new (p) I(std::move(ref(src)));
    } else {
      A a(AllocInfo<A>::make(arena));
      mon::Window w;
      ::new (p) I(std::allocator_arg, a, std::move(ref(src)));
    }
  }
  template <class S>
  void copy_from(std::true_type, void* p, int arena, S&& s) {
    if (arena < 0) {
      mon::Window w;
      ::new (p) I(std::forward<S>(s));
    } else {
      A a(AllocInfo<A>::make(arena));
      mon::Window w;
      ::new (p) I(std::allocator_arg, a, std::forward<S>(s));
    }
  }
  template <class S>
  void copy_from(std::false_type, void*, int, S&&) {
    mon::fail_only(0, "harness", "copy of a move-only type requested");
  }
  template <bool Copy>
  void copy_impl(int op, void* p, int arena, void* src) {
    const B_<Copy> yes = {};
    if (op == OP_COPY_CL) copy_from(yes, p, arena, cref(src));
    if (op == OP_COPY_L) copy_from(yes, p, arena, ref(src));
    if (op == OP_COPY_CR) copy_from(yes, p, arena, std::move(cref(src)));
  }
  template <class S>
  void cassign_from(std::true_type, I& d, S&& s) {
    I* r;
    {
      mon::Window w;
      I& rr = (d = std::forward<S>(s));
      r = std::addressof(rr);
    }
    if (r != std::addressof(d))
      mon::soft(mon::L(2), "assign-returns", "copy assignment did not return its target");
  }
  template <class S>
  void cassign_from(std::false_type, I&, S&&) {
    mon::fail_only(0, "harness", "copy assignment of a move-only type requested");
  }
  template <bool Copy>
  void cassign_impl(int op, void* d, void* s) {
    const B_<Copy> yes = {};
    if (op == OP_CASSIGN_CL) cassign_from(yes, ref(d), cref(s));
    if (op == OP_CASSIGN_L) cassign_from(yes, ref(d), ref(s));
    if (op == OP_CASSIGN_CR) cassign_from(yes, ref(d), std::move(cref(s)));
  }
  void massign(void* d, void* s) override {
    I* r;
    {
      mon::Window w;
      I& rr = (ref(d) = std::move(ref(s)));
      r = std::addressof(rr);
    }
    if (r != std::addressof(ref(d)))
      mon::soft(mon::L(4), "assign-returns", "move assignment did not return its target");
  }
  void swap(int op, void* a, void* b) override {
    mon::Window w;
    if (op == OP_SWAP_M) {
      ref(a).swap(ref(b));
    } else {
      using std::swap;
      swap(ref(a), ref(b));
    }
  }
  void destroy(void* d) override {
    mon::Window w;
    ref(d).~I();
  }
  bool valueless(const void* p) override { return cref(p).valueless_after_move(); }
  int alloc_id(const void* p) override { return AllocInfo<A>::id(cref(p).get_allocator()); }
  bool alloc_matches(const void* p, int arena) override {
    return cref(p).get_allocator() == AllocInfo<A>::make(arena);
  }
};

// ---------------------------------------------------------------- indirect
template <class T, bool Core_>
struct IndTraits;
template <class T>
struct IndTraits<T, true> {
  static constexpr bool args = true;
  template <class U>
  struct MultiOf : B_<std::is_constructible<U, std::initializer_list<int>>::value &&
                      !std::is_same<U, Big>::value> {};
  static constexpr bool multi = MultiOf<T>::value;
  static T make(long v) { return T(Arg(v)); }
};
template <class T>
struct IndTraits<T, false> {
  static constexpr bool args = false, multi = false;
  static T make(long v) { return Zoo<T>::make(v); }
};

// how assignments and moves of T behave
template <class T>
struct OwnMove : B_<true> {};
template <>
struct OwnMove<CopyOnly> : B_<false> {};
template <class T>
struct OwnMoveAssign : OwnMove<T> {};
template <>
struct OwnMoveAssign<CopyAssignOnly> : B_<false> {};
template <class T>
struct NXMove : B_<false> {};
template <>
struct NXMove<FullNX> : B_<true> {};
template <>
struct NXMove<MoveOnlyNoAssign> : B_<true> {};
template <class T>
struct ValueAssignable : B_<std::is_same<T, Full>::value> {};
template <class T>
struct Exact : B_<!std::is_same<T, std::string>::value && !std::is_same<T, std::vector<int>>::value &&
                  !std::is_same<T, std::unique_ptr<long>>::value &&
                  !std::is_same<T, std::shared_ptr<long>>::value> {};

template <class T, class A>
struct IndSubject : HolderSubject<xyz::indirect<T, A>, A> {
  typedef xyz::indirect<T, A> I;
  typedef HolderSubject<I, A> Base;
  typedef IndTraits<T, HasCore<T>::value> Tr;
  static constexpr bool can_copy = std::is_copy_constructible<T>::value;
  using Base::cref;
  using Base::ref;

  IndSubject(const char* tname, const char* aname, bool common_ = true) {
    this->name = std::string("indirect<") + tname + "," + aname + ">";
    this->poly = false;
    this->common = common_;
    this->af = AllocInfo<A>::flags();
    this->size = sizeof(I);
    this->align = alignof(I);
    TypeInfo t;
    t.name = tname;
    t.id = id_of(B_<HasCore<T>::value>());
    t.ncores = HasCore<T>::value ? 1 : 0;
    t.copy = can_copy;
    t.own_move = OwnMove<T>::value;
    t.nx_move = NXMove<T>::value;
    t.cassign = std::is_copy_assignable<T>::value;
    t.own_massign = OwnMoveAssign<T>::value;
    t.vassign = ValueAssignable<T>::value;
    t.args = Tr::args;
    t.multi = t.ilist = Tr::multi;
    t.dflt = std::is_default_constructible<T>::value;
    t.exact = Exact<T>::value;
    t.size = sizeof(T);
    t.align = alignof(T);
    t.tag = mon::tag<T>();
    this->types.push_back(t);
  }
  static int id_of(std::true_type) { return std::decay<decltype(std::declval<T&>().c)>::type::id; }
  static int id_of(std::false_type) { return Zoo<T>::obs(Tr::make(1)).type; }

  bool supports(int op, int) const override {
    switch (op) {
      case OP_DEFAULT:
        return std::is_default_constructible<T>::value;
      case OP_VAL_CL:
      case OP_VAL_L:
      case OP_COPY_CL:
      case OP_COPY_L:
      case OP_COPY_CR:
      case OP_CASSIGN_CL:
      case OP_CASSIGN_L:
      case OP_CASSIGN_CR:
        return can_copy;
      case OP_ARG_L:
      case OP_ARG_CL:
      case OP_ARG_R:
      case OP_ARG_CR:
        return Tr::args;
      case OP_CONV_L:
      case OP_CONV_CL:
      case OP_CONV_R:
        return VT_HDR == 20 && Tr::args;
      case OP_MULTI:
      case OP_ILIST:
      case OP_ILIST_L:
      case OP_ILIST_CL:
      case OP_ILIST_R:
        return Tr::multi;
      case OP_VASG_CL:
      case OP_VASG_L:
        return can_copy && std::is_assignable<T&, const T&>::value;
      case OP_VASG_R:
        return std::is_assignable<T&, T>::value && std::is_constructible<T, T>::value;
      case OP_VASG_ARG_CL:
      case OP_VASG_ARG_R:
        return ValueAssignable<T>::value;
      case OP_TAKE:
        return true;
      default:
        return true;
    }
  }
  void check_lvalue(const T& t, long v, int op) {
    Obs o = Zoo<T>::obs(t);
    if (o.v != Zoo<T>::norm(v) || !o.ok)
      mon::soft(mon::L(12), "lvalue-source-modified", "%s modified the lvalue it was given",
                op_name[op]);
  }
  void check_rvalue(const T& t, int op) {
    if (!HasCore<T>::value || !OwnMove<T>::value) return;
    if (Zoo<T>::obs(t).v != MOVED)
      mon::soft(mon::L(12), "rvalue-not-moved", "%s did not move from the rvalue it was given",
                op_name[op]);
  }
  void make_value(std::true_type, int op, void* p, int arena, T& t) {
    const T& ct = t;
    if (op == OP_VAL_CL) Maker<I, A>::run(B_<can_copy>(), p, arena, ct);
    if (op == OP_VAL_L) Maker<I, A>::run(B_<can_copy>(), p, arena, t);
  }
  void make_value(std::false_type, int, void*, int, T&) {}
  void conv(std::true_type, int op, void* p, int arena, long v) {
    Arg a(v);
    const Arg& ca = a;
    if (op == OP_CONV_L) Maker<I, A>::run(B_<true>(), p, arena, a);
    if (op == OP_CONV_CL) Maker<I, A>::run(B_<true>(), p, arena, ca);
    if (op == OP_CONV_R) {
      Maker<I, A>::run(B_<true>(), p, arena, std::move(a));
      check_arg_r(a, op_name[op]);
    } else {
      check_arg_l(a, op_name[op]);
    }
  }
  void conv(std::false_type, int, void*, int, long) {}
  void make(int op, void* p, int arena, int, long v) override {
    switch (op) {
      case OP_DEFAULT:
        Maker<I, A>::run(B_<std::is_default_constructible<T>::value>(), p, arena);
        return;
      case OP_VAL_CL:
      case OP_VAL_L: {
        T t(Tr::make(v));
        make_value(B_<can_copy>(), op, p, arena, t);
        check_lvalue(t, v, op);
        return;
      }
      case OP_VAL_R: {
        T t(Tr::make(v));
        Maker<I, A>::run(B_<true>(), p, arena, std::move(t));
        check_rvalue(t, op);
        return;
      }
      case OP_CONV_L:
      case OP_CONV_CL:
      case OP_CONV_R:
        conv(B_<VT_HDR == 20 && Tr::args>(), op, p, arena, v);
        return;
      default:
        ArgMaker<I, A, in_place, Tr::args, Tr::multi>::run(op, p, arena, v);
    }
  }
  void copy(int op, void* p, int arena, void* src) override {
    this->template copy_impl<can_copy>(op, p, arena, src);
  }
  void cassign(int op, void* d, void* s) override {
    this->template cassign_impl<can_copy>(op, d, s);
  }
  template <class S>
  void vassign_from(std::true_type, I& d, S&& s) {
    I* r;
    {
      mon::Window w;
      I& rr = (d = std::forward<S>(s));
      r = std::addressof(rr);
    }
    if (r != std::addressof(d))
      mon::soft(mon::L(10), "assign-returns", "value assignment did not return its target");
  }
  template <class S>
  void vassign_from(std::false_type, I&, S&&) {
    mon::fail_only(0, "harness", "unsupported value assignment requested");
  }
  void vassign(int op, void* d, long v) override {
    if (op == OP_VASG_ARG_CL || op == OP_VASG_ARG_R) {
      Arg a(v);
      const Arg& ca = a;
      if (op == OP_VASG_ARG_CL) {
        vassign_from(B_<ValueAssignable<T>::value>(), ref(d), ca);
        check_arg_l(a, op_name[op]);
      } else {
        vassign_from(B_<ValueAssignable<T>::value>(), ref(d), std::move(a));
        check_arg_r(a, op_name[op]);
      }
      return;
    }
    T t(Tr::make(v));
    const T& ct = t;
    const B_<can_copy && std::is_assignable<T&, const T&>::value> l = {};
    const B_<std::is_assignable<T&, T>::value && std::is_constructible<T, T>::value> r = {};
    if (op == OP_VASG_CL) vassign_from(l, ref(d), ct);
    if (op == OP_VASG_L) vassign_from(l, ref(d), t);
    if (op == OP_VASG_R) vassign_from(r, ref(d), std::move(t));
    if (op == OP_VASG_R)
      ;  // what is left of t depends on whether T was assigned or constructed
    else
      check_lvalue(t, v, op);
  }
  void mutate(int op, void* d, long v) override {
    mon::Window w;
    if (op == OP_MUT_STAR)
      Zoo<T>::set(*ref(d), v);
    else
      Zoo<T>::set(*std::addressof(*ref(d).operator->()), v);
  }
  void take(void* d) override {
    T&& x = *std::move(ref(d));
    const T&& cx = *std::move(cref(d));
    if (std::addressof(x) != std::addressof(*ref(d)) ||
        std::addressof(cx) != std::addressof(*ref(d)))
      mon::soft(mon::L(10), "rvalue-deref", "dereferencing an rvalue designates another object");
    T taken(std::move(x));
    (void)taken;
  }
  Obs observe(void* p, const void** t_addr) override {
    const T& a = *cref(p);
    T& b = *ref(p);
    const T* c = std::addressof(*cref(p).operator->());
    T* d = std::addressof(*ref(p).operator->());
    if (std::addressof(a) != std::addressof(b) || c != std::addressof(a) || d != c)
      mon::soft(mon::L(10), "access-paths", "operator* and operator-> designate different objects");
    *t_addr = c;
    return Zoo<T>::obs(a);
  }
};

// ---------------------------------------------------------------- polymorphic
template <class... Us>
struct List {};

template <class P, class A, class... Us>
struct PDispatch;
template <class P, class A>
struct PDispatch<P, A> {
  static void make(int, void*, int, int, long) {
    mon::fail_only(0, "harness", "no such type");
  }
};
template <class P, class A, class U, class... Us>
struct PDispatch<P, A, U, Us...> {
  typedef PInfo<U> Inf;
  static void make(int op, void* p, int arena, int tix, long v) {
    if (tix != 0) return PDispatch<P, A, Us...>::make(op, p, arena, tix - 1, v);
    switch (op) {
      case OP_VAL_CL:
      case OP_VAL_L:
      case OP_VAL_R: {
        U u(Inf::make(v));
        const U& cu = u;
        if (op == OP_VAL_CL) Maker<P, A>::run(B_<true>(), p, arena, cu);
        if (op == OP_VAL_L) Maker<P, A>::run(B_<true>(), p, arena, u);
        if (op == OP_VAL_R) Maker<P, A>::run(B_<true>(), p, arena, std::move(u));
        Obs o = PBase<typename P::value_type>::obs(u);
        if (op != OP_VAL_R) {
          if (o.v != v || !o.ok)
            mon::soft(mon::L(12), "lvalue-source-modified", "%s modified the lvalue it was given",
                      op_name[op]);
        } else if (Inf::facts().own_move && Inf::facts().ncores && o.v != MOVED) {
          mon::soft(mon::L(12), "rvalue-not-moved", "%s did not move from the rvalue it was given",
                    op_name[op]);
        }
        return;
      }
      default:
        ArgMaker<P, A, in_place_type<U>, Inf::args, Inf::multi>::run(op, p, arena, v);
    }
  }
};

template <class Bt, class A, class... Us>
struct PolySubject : HolderSubject<xyz::polymorphic<Bt, A>, A> {
  typedef xyz::polymorphic<Bt, A> I;
  typedef HolderSubject<I, A> Base;
  using Base::cref;
  using Base::ref;
  static constexpr bool dflt = std::is_default_constructible<Bt>::value;

  PolySubject(const char* tname, const char* aname, List<Us...>, bool common_ = true) {
    this->name = std::string("polymorphic<") + tname + "," + aname + ">";
    this->poly = true;
    this->common = common_;
    this->af = AllocInfo<A>::flags();
    this->size = sizeof(I);
    this->align = alignof(I);
    TypeInfo ts[] = {info<Us>()...};
    for (const TypeInfo& t : ts) this->types.push_back(t);
  }
  template <class U>
  static TypeInfo info() {
    PFacts f = PInfo<U>::facts();
    TypeInfo t;
    t.name = f.name;
    t.id = f.id;
    t.ncores = f.ncores;
    t.copy = true;
    t.own_move = f.own_move;
    t.nx_move = false;
    t.cassign = t.own_massign = t.vassign = false;
    t.args = f.args;
    t.multi = t.ilist = f.multi;
    t.dflt = std::is_same<U, Bt>::value && dflt;
    t.exact = true;
    t.size = sizeof(U);
    t.align = alignof(U);
    t.tag = mon::tag<U>();
    return t;
  }
  bool supports(int op, int tix) const override {
    const TypeInfo& t = this->types[static_cast<std::size_t>(tix)];
    switch (op) {
      case OP_DEFAULT:
        return t.dflt;
      case OP_ARG_L:
      case OP_ARG_CL:
      case OP_ARG_R:
      case OP_ARG_CR:
        return t.args;
      case OP_MULTI:
      case OP_ILIST:
      case OP_ILIST_L:
      case OP_ILIST_CL:
      case OP_ILIST_R:
        return t.multi;
      case OP_CONV_L:
      case OP_CONV_CL:
      case OP_CONV_R:
      case OP_VASG_CL:
      case OP_VASG_L:
      case OP_VASG_R:
      case OP_VASG_ARG_CL:
      case OP_VASG_ARG_R:
      case OP_TAKE:
        return false;
      default:
        return true;
    }
  }
  void make(int op, void* p, int arena, int tix, long v) override {
    if (op == OP_DEFAULT)
      Maker<I, A>::run(B_<dflt>(), p, arena);
    else
      PDispatch<I, A, Us...>::make(op, p, arena, tix, v);
  }
  void copy(int op, void* p, int arena, void* src) override {
    this->template copy_impl<true>(op, p, arena, src);
  }
  void cassign(int op, void* d, void* s) override { this->template cassign_impl<true>(op, d, s); }
  void vassign(int, void*, long) override {
    mon::fail_only(0, "harness", "value assignment to polymorphic requested");
  }
  void mutate(int op, void* d, long v) override {
    mon::Window w;
    if (op == OP_MUT_STAR)
      PBase<Bt>::set(*ref(d), v);
    else
      PBase<Bt>::set(*std::addressof(*ref(d).operator->()), v);
  }
  void take(void*) override { mon::fail_only(0, "harness", "take from polymorphic requested"); }
  Obs observe(void* p, const void** t_addr) override {
    const Bt& a = *cref(p);
    Bt& b = *ref(p);
    const Bt* c = std::addressof(*cref(p).operator->());
    Bt* d = std::addressof(*ref(p).operator->());
    if (std::addressof(a) != std::addressof(b) || c != std::addressof(a) || d != c)
      mon::soft(mon::L(3, 10), "access-paths",
                "operator* and operator-> designate different objects");
    *t_addr = c;
    return PBase<Bt>::obs(a);
  }
};

template <class Bt, class A, class... Us>
Subject* make_poly(const char* tname, const char* aname, List<Us...> l, bool common = true) {
  return new PolySubject<Bt, A, Us...>(tname, aname, l, common);
}

}  // namespace vt
#endif
