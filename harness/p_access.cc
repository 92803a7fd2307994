// C10, C12, C02, C07: accessors, forwarding of arguments, const access to copied objects,
// uses-allocator construction; the parts that need types of their own.
#include "cases.h"
#include "alloc.h"
#include "types.h"

#include <array>
#include <functional>
#include <memory>
#include <new>
#include <scoped_allocator>
#include <utility>
using namespace vt;
using mon::L;

namespace {
typedef Cfg<false, false, false, false, false, false> F;
typedef Cfg<true, true, true, false, true, true> TH;
typedef Cfg<false, false, false, false, true, true> FH;
template <class A>
A mk(int id) {
  return AllocInfo<A>::make(id);
}
#define SAME(...) std::is_same<__VA_ARGS__>::value

// ------------------------------------------------------------------ C10: const propagation
struct Face {
  Core<61> c;
  long mutations = 0;
  explicit Face(long v) : c(BaseTag(), v) {}
  Face(const Face&) = default;
  Face(Face&&) = default;
  Face& operator=(const Face&) = default;
  Face& operator=(Face&&) = default;
  virtual ~Face() {}
  virtual int f() { ++mutations; return 1; }
  virtual int f() const { return 2; }
  virtual int g() & { return 1; }
  virtual int g() const& { return 2; }
  virtual int g() && { return 3; }
  virtual int g() const&& { return 4; }
};
struct Face2 : Face {
  explicit Face2(long v) : Face(v) {}
  int f() override { ++mutations; return 11; }
  int f() const override { return 12; }
  int g() & override { return 11; }
  int g() const& override { return 12; }
  int g() && override { return 13; }
  int g() const&& override { return 14; }
};
int which(Face&) { return 1; }
int which(const Face&) { return 2; }
int which(Face&&) { return 3; }
int which(const Face&&) { return 4; }
int whichp(Face*) { return 1; }
int whichp(const Face*) { return 2; }

struct Inner {
  xyz::polymorphic<Face> p;
  xyz::indirect<Face> i;
  explicit Inner(long v) : p((in_place_type<Face2>()), v), i((in_place()), v) {}
};
struct Outer {
  xyz::indirect<Inner> in;
  explicit Outer(long v) : in((in_place()), v) {}
};

template <class I>
void indirect_face(const char* what, I& x, mon::Rng& rng) {
  const I& cx = x;
  const Face* at = std::addressof(*cx);
  long before = cx->mutations;
  REQ(L(10), SAME(decltype(*std::declval<I&>()), Face&) && SAME(decltype(*std::declval<const I&>()), const Face&));
  REQ(L(10), SAME(decltype(*std::declval<I>()), Face&&) && SAME(decltype(*std::declval<const I>()), const Face&&));
  REQ(L(10), SAME(decltype(std::declval<I&>().operator->()), typename I::pointer) &&
                 SAME(decltype(std::declval<const I&>().operator->()), typename I::const_pointer));
  REQ(L(10), which(*x) == 1 && which(*cx) == 2 && which(*std::move(x)) == 3 && which(*std::move(cx)) == 4);
  REQ(L(10), (*cx).g() == 2 && (*x).g() == 1 && (*std::move(x)).g() == 3 && (*std::move(cx)).g() == 4);
  REQ(L(10), cx->f() == 2 && (*cx).f() == 2 && cx->mutations == before);
  REQ(L(10), x->f() == 1 && (*x).f() == 1 && cx->mutations == before + 2);
  REQ(L(10), whichp(&*x.operator->()) == 1 && whichp(&*cx.operator->()) == 2);
  REQ(L(10), std::addressof(*x) == at && std::addressof(*cx) == at && std::addressof(*x.operator->()) == at &&
                 std::addressof(*cx.operator->()) == at);
  Face&& r = *std::move(x);
  const Face&& cr = *std::move(cx);
  REQ(L(10, 5), std::addressof(r) == at && std::addressof(cr) == at && !x.valueless_after_move());
  {
    mon::Window w;
    Face taken(*std::move(x));
    REQF(L(10), mon::cnt[0][mon::MCTOR] == 1 && mon::cnt[0][mon::CCTOR] == 0 && mon::cnt[1][mon::ALLOC] == 0,
         "%s: initialising from *std::move(x) made %ld moves and %ld copies", what, mon::cnt[0][mon::MCTOR],
         mon::cnt[0][mon::CCTOR]);
  }
  REQ(L(10, 5), !x.valueless_after_move() && std::addressof(*cx) == at && cx->c.v() == MOVED);
  x->c.set(5);
  {
    mon::Window w;
    Face copied(*std::move(cx));
    REQ(L(10), mon::cnt[0][mon::CCTOR] == 1 && mon::cnt[0][mon::MCTOR] == 0);
  }
  REQ(L(10), cx->c.v() == 5 && std::addressof(*cx) == at);
  vt::seen(L(10), sig(what, static_cast<long>(rng.below(4))));
}
}  // namespace

CASE(access_indirect, L(10), 3) {
  xyz::indirect<Face> a((in_place()), 1L);
  indirect_face("std", a, rng);
  typedef MonAlloc<Face, F> AF;
  typedef MonAlloc<Face, TH> AT;
  xyz::indirect<Face, AF> b(std::allocator_arg, mk<AF>(3), in_place(), 1L);
  indirect_face("fff", b, rng);
  xyz::indirect<Face, AT> c(std::allocator_arg, mk<AT>(3), in_place(), 1L);
  xyz::indirect<Face, AT> d(c), e(std::move(c));
  indirect_face("ttt_sel_hook", d, rng);
  indirect_face("ttt_sel_hook", e, rng);
  c = d;
  indirect_face("ttt_sel_hook", c, rng);
}

namespace {
template <class P>
void poly_face(const char* what, P& x, int plus, mon::Rng& rng) {
  const P& cx = x;
  const Face* at = std::addressof(*cx);
  long before = cx->mutations;
  REQ(L(10), SAME(decltype(*std::declval<P&>()), Face&) && SAME(decltype(*std::declval<const P&>()), const Face&));
  REQ(L(10), SAME(decltype(std::declval<P&>().operator->()), typename P::pointer) &&
                 SAME(decltype(std::declval<const P&>().operator->()), typename P::const_pointer));
  REQ(L(10, 3), which(*x) == 1 && which(*cx) == 2 && (*cx).g() == plus + 2 && (*x).g() == plus + 1);
  REQ(L(10, 3), cx->f() == plus + 2 && (*cx).f() == plus + 2 && cx->mutations == before);
  REQ(L(10, 3), x->f() == plus + 1 && (*x).f() == plus + 1 && cx->mutations == before + 2);
  REQ(L(10), whichp(&*x.operator->()) == 1 && whichp(&*cx.operator->()) == 2);
  REQ(L(10, 3), std::addressof(*x) == at && std::addressof(*x.operator->()) == at &&
                    std::addressof(*cx.operator->()) == at);
  const P& rcx = std::move(x);  // binding moves nothing
  REQ(L(10), std::addressof(*rcx) == at && !x.valueless_after_move());
  vt::seen(L(10), sig(what, plus, static_cast<long>(rng.below(4))));
}
}  // namespace
CASE(access_polymorphic, L(10, 3), 3) {
  xyz::polymorphic<Face> a((in_place_type<Face>()), 1L), a2((in_place_type<Face2>()), 1L);
  poly_face("std", a, 0, rng);
  poly_face("std", a2, 10, rng);
  typedef MonAlloc<Face, TH> AT;
  xyz::polymorphic<Face, AT> c(std::allocator_arg, mk<AT>(3), in_place_type<Face2>(), 1L);
  xyz::polymorphic<Face, AT> d(c), e(std::move(c));
  poly_face("ttt_sel_hook", d, 10, rng);
  poly_face("ttt_sel_hook", e, 10, rng);
  c = d;
  poly_face("ttt_sel_hook", c, 10, rng);
}
CASE(access_nested, L(10), 1) {
  Outer o(4);
  const Outer& co = o;
  REQ(L(10), co.in->p->f() == 12 && co.in->i->f() == 2 && o.in->p->f() == 11 && o.in->i->f() == 1);
  const Outer copy(o);
  REQ(L(10), copy.in->p->f() == 12 && copy.in->i->f() == 2 && which(*copy.in->p) == 2 && which(*copy.in->i) == 2);
  REQ(L(10, 2), copy.in->p->mutations == 1 && o.in->p->mutations == 1);
  o.in->p->f();
  REQ(L(2), copy.in->p->mutations == 1 && o.in->p->mutations == 2);
  vt::seen(L(10), sig("nested", static_cast<long>(rng.below(2))));
}

// ------------------------------------------------------------------ C02: copied as const
namespace {
// Every way of copying is a constructor of its own.
struct Ways {
  int how = 0;
  int touched = 0;
  long v;
  explicit Ways(long x) : v(x) {}
  Ways(Ways& o) : how(1), v(o.v) { ++o.touched; }
  Ways(const Ways& o) : how(2), v(o.v) {}
  Ways(Ways&& o) : how(3), v(o.v) { o.v = MOVED; }
  Ways(const Ways&& o) : how(4), v(o.v) {}
  Ways& operator=(Ways& o) {
    how = 5;
    v = o.v;
    ++o.touched;
    return *this;
  }
  Ways& operator=(const Ways& o) {
    how = 6;
    v = o.v;
    return *this;
  }
  Ways& operator=(Ways&& o) {
    how = 7;
    v = o.v;
    o.v = MOVED;
    return *this;
  }
  virtual ~Ways() {}
};
struct Ways2 : Ways {
  explicit Ways2(long x) : Ways(x) {}
  Ways2(Ways2& o) : Ways(static_cast<Ways&>(o)) {}
  Ways2(const Ways2& o) : Ways(static_cast<const Ways&>(o)) {}
  Ways2(Ways2&& o) : Ways(static_cast<Ways&&>(o)) {}
  Ways2(const Ways2&& o) : Ways(static_cast<const Ways&&>(o)) {}
};
template <class I, class A, class Tag>
void const_copy(const char* what, Tag tag) {
  for (int eq = 0; eq < 2; ++eq) {
    A a3 = mk<A>(3), a4 = mk<A>(eq ? 3 : 4);
    bool equal = a3 == a4;
    I x(std::allocator_arg, a3, tag, 1L);
    I y(x);
    REQF(L(2), y->how == 2 && y->v == 1, "%s: copy construction used constructor %d", what, y->how);
    I z(std::allocator_arg, a4, x);
    REQF(L(2), z->how == 2 && z->v == 1, "%s: allocator-extended copy used constructor %d", what, z->how);
    I v(std::allocator_arg, a4, tag, 2L);
    const Ways* at = std::addressof(*v);
    v = x;
    bool ind = SAME(Tag, in_place);
    if (std::addressof(*v) == at)
      REQF(L(2, 10), v->how == 6 && v->v == 1, "%s: copy assignment used assignment %d", what, v->how);
    else
      REQF(L(2), v->how == 2 && v->v == 1, "%s: copy assignment used constructor %d", what, v->how);
    if (ind && equal) REQ(L(10), std::addressof(*v) == at);
    I e(std::move(v));
    v = x;  // to a valueless one
    REQF(L(2, 5), v->how == 2 && v->v == 1, "%s: copy assignment to valueless used constructor %d", what, v->how);
    REQF(L(2), x->touched == 0 && x->v == 1, "%s: the source of a copy was modified", what);
    const Ways* xat = std::addressof(*x);
    I m(std::allocator_arg, a4, std::move(x));
    if (equal)
      REQ(L(4), std::addressof(*m) == xat && x.valueless_after_move() && m->how == 0);
    else
      REQF(L(4), m->how == 3 && m->v == 1, "%s: move between unequal allocators used constructor %d", what, m->how);
    vt::seen(L(2, 4), sig(what, eq));
  }
}
}  // namespace
CASE(const_copy_cases, L(2, 4), 1) {
  (void)rng;
  typedef MonAlloc<Ways, F> AF;
  typedef MonAlloc<Ways, TH> AT;
  const_copy<xyz::indirect<Ways, AF>, AF>("indirect fff", in_place());
  const_copy<xyz::indirect<Ways, AT>, AT>("indirect ttt_sel_hook", in_place());
  const_copy<xyz::indirect<Ways>, std::allocator<Ways>>("indirect std", in_place());
  const_copy<xyz::polymorphic<Ways, AF>, AF>("polymorphic fff", in_place_type<Ways>());
  const_copy<xyz::polymorphic<Ways, AT>, AT>("polymorphic ttt_sel_hook", in_place_type<Ways>());
  const_copy<xyz::polymorphic<Ways>, std::allocator<Ways>>("polymorphic std", in_place_type<Ways>());
  const_copy<xyz::polymorphic<Ways, AF>, AF>("polymorphic fff derived", in_place_type<Ways2>());
  const_copy<xyz::polymorphic<Ways>, std::allocator<Ways>>("polymorphic std derived", in_place_type<Ways2>());
}

// ------------------------------------------------------------------ C12: forwarding
namespace {
enum { CAT_L = 1, CAT_CL, CAT_R, CAT_CR };
template <class X>
struct CatOf;
template <class X>
struct CatOf<X&> {
  enum { value = CAT_L };
};
template <class X>
struct CatOf<const X&> {
  enum { value = CAT_CL };
};
template <class X>
struct CatOf<X&&> {
  enum { value = CAT_R };
};
template <class X>
struct CatOf<const X&&> {
  enum { value = CAT_CR };
};
// Records category, type and address of everything it is built from, and what builds it.
struct Rec {
  struct Entry {
    int cat;
    const void* ty;
    const void* at;
  };
  Core<62> c;
  int n = -1;
  long il = -1;
  Entry e[8];
  void add() {}
  template <class X, class... Xs>
  void add(X&& x, Xs&&... xs) {
    e[n].cat = CatOf<X&&>::value;
    e[n].ty = mon::tag<typename std::remove_cv<typename std::remove_reference<X>::type>::type>();
    e[n].at = const_cast<const void*>(static_cast<const volatile void*>(std::addressof(x)));
    ++n;
    add(std::forward<Xs>(xs)...);
  }
  template <class... Xs, typename std::enable_if<!std::is_same<std::tuple<typename std::decay<Xs>::type...>,
                                                               std::tuple<Rec>>::value, int>::type = 0>
  explicit Rec(Xs&&... xs) : c(BaseTag(), 0) {
    n = 0;
    add(std::forward<Xs>(xs)...);
  }
  template <class... Xs>
  explicit Rec(std::initializer_list<int> l, Xs&&... xs) : c(BaseTag(), 0) {
    n = 0;
    il = ilist_value(l);
    add(std::forward<Xs>(xs)...);
  }
  Rec(const Rec&) = default;
  Rec(Rec&&) = default;
};
struct DRec : Rec {
  using Rec::Rec;
  DRec(const DRec&) = default;
  DRec(DRec&&) = default;
};

template <class X>
bool entry(const Rec& r, int i, int cat, const X& x) {
  const Rec::Entry& e = r.e[i];
  return e.cat == cat && e.ty == mon::tag<X>() && e.at == static_cast<const void*>(std::addressof(x));
}
struct Immovable {
  int v;
  explicit Immovable(int i) : v(i) {}
  Immovable(const Immovable&) = delete;
};

struct One {  // exactly one block, one construction, nothing else
  const char* what;
  const char* form;
  One(const char* w, const char* f) : what(w), form(f) { mon::hist("%s %s; ", w, f); }
  void done(int line) const {
    long a = mon::cnt[1][mon::ALLOC], v = mon::cnt[1][mon::VCTOR];
    long rest = 0;
    for (int i = 0; i < 2; ++i)
      for (int e = 0; e < mon::NEV; ++e) rest += mon::cnt[i][e];
    REQF(L(12), a == 1 && v == 1 && rest == 2, "%s, %s: %ld allocations, %ld constructions, %ld other events (line %d)",
         what, form, a, v, rest - a - v, line);
  }
};
// makes an object in each form and hands it to `judge`
template <class I, class A, class Tag, class J, class... Xs>
void build(const char* what, Tag tag, J judge, Xs&&... xs) {
  {
    One o(what, "allocator-tagged");
    A a = mk<A>(3);
    mon::Window w;
    I x(std::allocator_arg, a, tag, std::forward<Xs>(xs)...);
    o.done(__LINE__);
    judge(*x);
    vt::seen(L(12), sig(what, 0, static_cast<long>(sizeof...(Xs))));
  }
  {
    One o(what, "untagged");
    mon::Window w;
    I x(tag, std::forward<Xs>(xs)...);
    o.done(__LINE__);
    judge(*x);
    vt::seen(L(12), sig(what, 1, static_cast<long>(sizeof...(Xs))));
  }
}
template <class I, class A, class Tag>
void forwarding(const char* what, Tag tag) {
  int i = 1;
  const long cl = 2;
  std::string s("text");
  const double cd = 4;
  std::unique_ptr<int> up(new int(3));
  Immovable im(7);
  char arr[5] = "abcd";
  build<I, A>(what, tag, [](const Rec& r) { REQ(L(12), r.n == 0 && r.il == -1); });
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_L, i)); }, i);
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_CL, cl)); }, cl);
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_R, s)); }, std::move(s));
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_CR, cd)); }, std::move(cd));
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_R, up)); }, std::move(up));
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_L, im)); }, im);
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 1 && entry(r, 0, CAT_L, arr)); }, arr);
  build<I, A>(what, tag,
              [&](const Rec& r) {
                REQ(L(12), r.n == 6 && entry(r, 0, CAT_CL, cl) && entry(r, 1, CAT_L, i) && entry(r, 2, CAT_R, s) &&
                               entry(r, 3, CAT_L, im) && entry(r, 4, CAT_R, up) && entry(r, 5, CAT_CR, cd));
              },
              cl, i, std::move(s), im, std::move(up), std::move(cd));
  build<I, A>(what, tag, [&](const Rec& r) { REQ(L(12), r.n == 2 && entry(r, 0, CAT_L, i) && entry(r, 1, CAT_L, i)); },
              i, i);
  REQ(L(12), i == 1 && s == "text" && up && *up == 3 && im.v == 7);
  // initializer lists, with trailing arguments
  auto check_il = [&](const Rec& r, int n) { REQ(L(12), r.n == n && r.il == ilist_value({5, 6, 7})); };
  A a = mk<A>(4);
  {
    One o(what, "ilist");
    mon::Window w;
    I x(tag, {5, 6, 7});
    o.done(__LINE__);
    check_il(*x, 0);
  }
  {
    One o(what, "tagged ilist");
    mon::Window w;
    I x(std::allocator_arg, a, tag, {5, 6, 7});
    o.done(__LINE__);
    check_il(*x, 0);
  }
  {
    One o(what, "ilist and arguments");
    mon::Window w;
    I x(tag, {5, 6, 7}, i, std::move(up), cl);
    o.done(__LINE__);
    check_il(*x, 3);
    REQ(L(12), entry(*x, 0, CAT_L, i) && entry(*x, 1, CAT_R, up) && entry(*x, 2, CAT_CL, cl));
  }
  {
    One o(what, "tagged ilist and arguments");
    mon::Window w;
    I x(std::allocator_arg, a, tag, {5, 6, 7}, std::move(s), im);
    o.done(__LINE__);
    check_il(*x, 2);
    REQ(L(12), entry(*x, 0, CAT_R, s) && entry(*x, 1, CAT_L, im));
  }
  vt::seen(L(12), sig(what, 77));
}
#if VT_HDR == 20
// the value constructor of indirect (in the C++14 header it takes a T only)
template <class I, class A>
void converting(const char* what) {
  int i = 1;
  const long cl = 2;
  std::string s("text");
  const std::string cs("const");
  std::unique_ptr<int> up(new int(3));
  A a = mk<A>(4);
#define CONV(EXPR, CAT, OBJ)                         \
  {                                                 \
    One o(what, "from " #EXPR);                     \
    mon::Window w;                                  \
    I x(EXPR);                                      \
    o.done(__LINE__);                               \
    REQ(L(12), x->n == 1 && entry(*x, 0, CAT, OBJ));   \
  }                                                 \
  {                                                 \
    One o(what, "tagged from " #EXPR);              \
    mon::Window w;                                  \
    I x(std::allocator_arg, a, EXPR);               \
    o.done(__LINE__);                               \
    REQ(L(12), x->n == 1 && entry(*x, 0, CAT, OBJ));   \
  }
  CONV(i, CAT_L, i)
  CONV(cl, CAT_CL, cl)
  CONV(std::move(s), CAT_R, s)
  CONV(std::move(cs), CAT_CR, cs)
  CONV(std::move(up), CAT_R, up)
  REQ(L(12), s == "text" && up && *up == 3);
  vt::seen(L(12), sig(what, 78));
}
#endif
}  // namespace
CASE(forward_indirect, L(12), 1) {
  (void)rng;
  typedef MonAlloc<Rec, F> AF;
  typedef MonAlloc<Rec, TH> AT;
  forwarding<xyz::indirect<Rec, AF>, AF>("indirect fff", in_place());
  forwarding<xyz::indirect<Rec, AT>, AT>("indirect ttt_sel_hook", in_place());
  forwarding<xyz::indirect<Rec>, std::allocator<Rec>>("indirect std", in_place());
#if VT_HDR == 20
  converting<xyz::indirect<Rec, AF>, AF>("indirect fff");
  converting<xyz::indirect<Rec, AT>, AT>("indirect ttt_sel_hook");
  converting<xyz::indirect<Rec>, std::allocator<Rec>>("indirect std");
#endif
}
CASE(forward_polymorphic, L(12, 3), 1) {
  (void)rng;
  typedef MonAlloc<Rec, F> AF;
  typedef MonAlloc<Rec, TH> AT;
  forwarding<xyz::polymorphic<Rec, AF>, AF>("polymorphic fff", in_place_type<Rec>());
  forwarding<xyz::polymorphic<Rec, AT>, AT>("polymorphic ttt_sel_hook", in_place_type<DRec>());
  forwarding<xyz::polymorphic<Rec>, std::allocator<Rec>>("polymorphic std", in_place_type<DRec>());
}

// Parentheses, not braces; library types; conversions.
CASE(forward_library, L(12), 1) {
  (void)rng;
  typedef std::vector<int> V;
  xyz::indirect<V> a((in_place()), 3u, 1), b((in_place()), {3, 1});
  REQ(L(12), *a == V(3, 1) && *b == V({3, 1}));
  xyz::indirect<V> a2(std::allocator_arg, std::allocator<V>(), in_place(), 3u, 1),
      b2(std::allocator_arg, std::allocator<V>(), in_place(), {3, 1});
  REQ(L(12), *a2 == V(3, 1) && *b2 == V({3, 1}));
  xyz::polymorphic<V> c((in_place_type<V>()), 3u, 1), d((in_place_type<V>()), {3, 1});
  REQ(L(12, 3), *c == V(3, 1) && *d == V({3, 1}));
  struct DV : V {
    using V::V;
    DV() {}
  };
  xyz::polymorphic<V> c2(std::allocator_arg, std::allocator<V>(), in_place_type<DV>(), 3u, 1),
      d2(std::allocator_arg, std::allocator<V>(), in_place_type<DV>(), {3, 1});
  REQ(L(12, 3), *c2 == V(3, 1) && *d2 == V({3, 1}));
#if VT_HDR == 20
  xyz::indirect<std::string> s("literal"), s2(std::allocator_arg, std::allocator<std::string>(), "literal"),
      s3((in_place()), "literal", 3u), s4((in_place()), 4u, 'x');
#else  // there the single-argument constructors take a T only
  typedef std::string S;
  xyz::indirect<std::string> s(S("literal")), s2(std::allocator_arg, std::allocator<std::string>(), S("literal")),
      s3((in_place()), "literal", 3u), s4((in_place()), 4u, 'x');
#endif
  REQ(L(12), *s == "literal" && *s2 == "literal" && *s3 == "lit" && *s4 == "xxxx");
  s = "other";
  REQ(L(12, 10), *s == "other");
  s = std::string("third");
  REQ(L(12, 10), *s == "third");
  V src(100, 7);
  const int* data = src.data();
  xyz::indirect<V> m(std::move(src));
  REQ(L(12), m->data() == data && src.empty());
  V src2(100, 7);
  data = src2.data();
  m = std::move(src2);
  REQ(L(12, 10), m->data() == data && src2.empty());
  V src3(100, 7);
  data = src3.data();
  xyz::indirect<V> gone(std::move(m));
  m = std::move(src3);
  REQ(L(12, 5), m->data() == data && src3.empty());
  V src4(100, 7);
  data = src4.data();
  xyz::polymorphic<V> pm(std::move(src4));
  REQ(L(12), pm->data() == data && src4.empty());
  DV dv;
  dv.assign(50, 9);
  data = dv.data();
  xyz::polymorphic<V> pd(std::move(dv));
  REQ(L(12, 3), pd->data() == data && dv.empty());
  DV dl;
  dl.assign(50, 9);
  xyz::polymorphic<V> pl(dl);
  REQ(L(12, 3), pl->size() == 50 && dl.size() == 50 && pl->data() != dl.data());
  xyz::indirect<std::unique_ptr<int>> u(std::unique_ptr<int>(new int(4)));
  REQ(L(12), **u == 4);
  u = std::unique_ptr<int>(new int(5));
  REQ(L(12), **u == 5);
  xyz::indirect<std::function<int(int)>> f((in_place()), [](int x) { return x + 1; });
  REQ(L(12), (*f)(1) == 2);
  xyz::indirect<std::pair<int, std::string>> p((in_place()), 1, "one");
  REQ(L(12), p->first == 1 && p->second == "one");
  xyz::indirect<bool> bo(true);
  REQ(L(12), *bo);
  xyz::indirect<int> dflt;
  REQ(L(12), *dflt == 0);
  xyz::indirect<int, MonAlloc<int, F>> dflt2(std::allocator_arg, MonAlloc<int, F>(9));
  REQ(L(12), *dflt2 == 0);
  xyz::polymorphic<std::string> ps;
  REQ(L(12), *ps == "");
#if __cplusplus >= 201703L
  xyz::indirect g1(5);
  REQ(L(12), SAME(decltype(g1), xyz::indirect<int>) && *g1 == 5);
  xyz::indirect g2(std::allocator_arg, MonAlloc<char, F>(8), std::string("x"));
  REQ(L(12, 7), SAME(decltype(g2), xyz::indirect<std::string, MonAlloc<std::string, F>>) && *g2 == "x" &&
                    g2.get_allocator().id() == 8);
#endif
  vt::seen(L(12), sig("library"));
}

// ------------------------------------------------------------------ C07: uses-allocator construction
namespace {
typedef std::scoped_allocator_adaptor<MonAlloc<int, F>> ScopedInt;
template <class T>
using Scoped = std::scoped_allocator_adaptor<MonAlloc<T, F>>;
template <class T>
using Scoped2 = std::scoped_allocator_adaptor<MonAlloc<T, F>, MonAlloc<char, F>>;  // another inner one
struct Aware {
  typedef MonAlloc<char, F> allocator_type;
  Core<63> c;
  int arena = -1;
  long v = 0;
  Aware() : c(BaseTag(), 0) {}
  explicit Aware(long x) : c(BaseTag(), x), v(x) {}
  Aware(const Aware& o) : c(o.c), v(o.v) {}
  Aware(Aware&& o) : c(std::move(o.c)), v(o.v) {}
  Aware& operator=(const Aware& o) {
    v = o.v;
    return *this;
  }
  Aware& operator=(Aware&& o) {
    v = o.v;
    return *this;
  }
  explicit Aware(const allocator_type& a) : c(BaseTag(), 0), arena(a.id()) {}
  Aware(long x, const allocator_type& a) : c(BaseTag(), x), arena(a.id()), v(x) {}
  Aware(const Aware& o, const allocator_type& a) : c(o.c), arena(a.id()), v(o.v) {}
  Aware(Aware&& o, const allocator_type& a) : c(std::move(o.c)), arena(a.id()), v(o.v) {}
  virtual ~Aware() {}
};
struct Aware2 : Aware {  // the other convention
  Aware2() {}
  explicit Aware2(long x) : Aware(x) {}
  Aware2(std::allocator_arg_t, const allocator_type& a) : Aware(a) {}
  Aware2(std::allocator_arg_t, const allocator_type& a, long x) : Aware(x, a) {}
  Aware2(std::allocator_arg_t, const allocator_type& a, const Aware2& o) : Aware(o, a) {}
  Aware2(std::allocator_arg_t, const allocator_type& a, Aware2&& o) : Aware(std::move(o), a) {}
  Aware2(const Aware2&) = default;
};
template <class I, class A, class Tag>
void uses_allocator_rounds(const char* what, Tag tag, const A& a3, const A& a4, int in3, int in4) {
  I x(std::allocator_arg, a3, tag, 5L);
  REQF(L(7), x->arena == in3 && x->v == 5, "%s: constructed with allocator %d, expected %d", what, x->arena, in3);
  I y(std::allocator_arg, a4, tag);
  REQF(L(7), y->arena == in4 && y->v == 0, "%s: constructed with allocator %d, expected %d", what, y->arena, in4);
  I z(x);
  REQF(L(7), z->arena == in3 && z->v == 5, "%s: copy constructed with allocator %d, expected %d", what, z->arena, in3);
  I e(std::allocator_arg, a4, x);
  REQF(L(7), e->arena == in4 && e->v == 5, "%s: copy constructed with allocator %d, expected %d", what, e->arena, in4);
  I m(std::allocator_arg, a4, std::move(x));
  REQF(L(7, 4), m->arena == in4 && m->v == 5, "%s: move constructed with allocator %d, expected %d", what, m->arena, in4);
  y = z;
  REQF(L(7), y->arena == in4 && y->v == 5, "%s: copy assigned with allocator %d, expected %d", what, y->arena, in4);
  I t(std::move(y));
  REQF(L(7), t->arena == in4, "%s: move construction must keep the object", what);
  y = z;
  REQF(L(7, 5), y->arena == in4 && y->v == 5, "%s: copy assigned with allocator %d, expected %d", what, y->arena, in4);
  y = std::move(z);
  REQF(L(7), y->arena == in4 && y->v == 5, "%s: move assigned with allocator %d, expected %d", what, y->arena, in4);
  vt::seen(L(7), sig(what));
}
}  // namespace
CASE(uses_allocator_scoped, L(7), 1) {
  (void)rng;
  typedef Scoped<Aware> S;
  typedef Scoped2<Aware> S2;
  S a3(MonAlloc<Aware, F>(3)), a4(MonAlloc<Aware, F>(4));
  S2 b3(MonAlloc<Aware, F>(3), MonAlloc<char, F>(13)), b4(MonAlloc<Aware, F>(4), MonAlloc<char, F>(14));
  uses_allocator_rounds<xyz::indirect<Aware, S>>("indirect scoped", in_place(), a3, a4, 3, 4);
  uses_allocator_rounds<xyz::indirect<Aware, S2>>("indirect scoped2", in_place(), b3, b4, 13, 14);
  uses_allocator_rounds<xyz::polymorphic<Aware, S>>("polymorphic scoped", in_place_type<Aware>(), a3, a4, 3, 4);
  uses_allocator_rounds<xyz::polymorphic<Aware, S2>>("polymorphic scoped2", in_place_type<Aware>(), b3, b4, 13, 14);
  uses_allocator_rounds<xyz::polymorphic<Aware, S2>>("polymorphic scoped2 derived", in_place_type<Aware2>(), b3, b4, 13,
                                                     14);
}
#if __cplusplus >= 201703L
namespace {
struct PAware : std::pmr::string {
  using std::pmr::string::string;
  typedef std::pmr::polymorphic_allocator<char> allocator_type;
  PAware(const PAware&) = default;
  PAware(PAware&&) = default;
  PAware(const PAware& o, const allocator_type& a) : std::pmr::string(o, a) {}
  PAware(PAware&& o, const allocator_type& a) : std::pmr::string(std::move(o), a) {}
  PAware& operator=(const PAware&) = default;
};
template <class S>
int where(const S& s) {
  MonResource* r = dynamic_cast<MonResource*>(s.get_allocator().resource());
  return r ? r->arena() : -1;
}
template <class I, class S, class Tag>
void pmr_rounds(const char* what, Tag tag) {
  MonResource::install();
  MonResource *r3 = MonResource::get(3), *r4 = MonResource::get(4);
  const char* text = "a string that is too long for the small buffer of std::string";
  typedef typename I::allocator_type PA;
  I x(std::allocator_arg, PA(r3), tag, text);
  REQF(L(7), where(*x) == 3 && *x == text, "%s: constructed with resource %d, expected 3", what, where(*x));
  I y(std::allocator_arg, PA(r4), tag);
  REQF(L(7), where(*y) == 4 && y->empty(), "%s: constructed with resource %d, expected 4", what, where(*y));
  I z(x);
  REQF(L(7), where(*z) == DEFAULT_ARENA && *z == text, "%s: copied with resource %d, expected the default", what, where(*z));
  I e(std::allocator_arg, PA(r4), x);
  REQF(L(7), where(*e) == 4 && *e == text, "%s: copied with resource %d, expected 4", what, where(*e));
  y = x;
  REQF(L(7), where(*y) == 4 && *y == text, "%s: assigned with resource %d, expected 4", what, where(*y));
  I m(std::allocator_arg, PA(r4), std::move(x));
  REQF(L(7, 4), where(*m) == 4 && *m == text, "%s: moved with resource %d, expected 4", what, where(*m));
  I q(std::allocator_arg, PA(r3), tag, text);
  m = std::move(q);
  REQF(L(7, 4), where(*m) == 4 && *m == text, "%s: move assigned with resource %d, expected 4", what, where(*m));
  vt::seen(L(7), sig(what));
}
}  // namespace
CASE(uses_allocator_pmr, L(7), 1) {
  (void)rng;
  typedef std::pmr::string S;
  pmr_rounds<xyz::indirect<S, PmrAlloc<S>>, S>("indirect<pmr::string> pmr", in_place());
  pmr_rounds<xyz::polymorphic<S, PmrAlloc<S>>, S>("polymorphic<pmr::string> pmr", in_place_type<S>());
  pmr_rounds<xyz::polymorphic<S, PmrAlloc<S>>, S>("polymorphic<pmr::string> pmr derived", in_place_type<PAware>());
}
#endif
// ---- what never throws says so: containers and generic code choose what to do by these
namespace {
template <class H, class A>
void promises(const char* what) {
  typedef std::allocator_traits<A> AT;
  const bool ae = AT::is_always_equal::value;
  REQF(L(4, 15, 16), std::is_nothrow_move_constructible<H>::value, "%s: move construction is not noexcept", what);
  REQF(L(4, 15, 16),
       std::is_nothrow_move_assignable<H>::value || !(AT::propagate_on_container_move_assignment::value || ae),
       "%s: move assignment is not noexcept though allocators propagate or are always equal", what);
  REQF(L(11, 15, 16),
       (noexcept(std::declval<H&>().swap(std::declval<H&>())) && noexcept(swap(std::declval<H&>(), std::declval<H&>()))) ||
           !(AT::propagate_on_container_swap::value || ae),
       "%s: swap is not noexcept though allocators propagate or are always equal", what);
  REQF(L(1, 16), std::is_nothrow_destructible<H>::value, "%s: destruction is not noexcept", what);
  REQF(L(5, 16), noexcept(std::declval<const H&>().valueless_after_move()), "%s: valueless_after_move is not noexcept", what);
  REQF(L(7, 16), noexcept(std::declval<const H&>().get_allocator()), "%s: get_allocator is not noexcept", what);
  REQF(L(10, 16),
       noexcept(*std::declval<H&>()) && noexcept(*std::declval<const H&>()) && noexcept(std::declval<H&>().operator->()) &&
           noexcept(std::declval<const H&>().operator->()),
       "%s: access is not noexcept", what);
  vt::seen(L(1, 4, 5, 7, 10, 11, 15, 16), sig(what));
}
template <class T>
void promise_all(const char* what) {
  typedef MonAlloc<T, F> AF;
  typedef MonAlloc<T, Cfg<true, true, true, false, false, false>> AT;
  typedef MonAlloc<T, Cfg<false, false, true, false, false, false>> AS;
  typedef MonAlloc<T, Cfg<false, true, false, false, false, false>> AM;
  typedef MonAlloc<T, Cfg<false, false, false, true, false, false>> AE;
  typedef std::allocator<T> SA;
  promises<xyz::indirect<T, AF>, AF>(what);
  promises<xyz::indirect<T, AT>, AT>(what);
  promises<xyz::indirect<T, AS>, AS>(what);
  promises<xyz::indirect<T, AM>, AM>(what);
  promises<xyz::indirect<T, AE>, AE>(what);
  promises<xyz::indirect<T, SA>, SA>(what);
  promises<xyz::polymorphic<T, AF>, AF>(what);
  promises<xyz::polymorphic<T, AT>, AT>(what);
  promises<xyz::polymorphic<T, AS>, AS>(what);
  promises<xyz::polymorphic<T, AM>, AM>(what);
  promises<xyz::polymorphic<T, AE>, AE>(what);
  promises<xyz::polymorphic<T, SA>, SA>(what);
}
struct Loud {  // everything may throw
  Loud() noexcept(false) {}
  Loud(const Loud&) noexcept(false) {}
  Loud(Loud&&) noexcept(false) {}
  Loud& operator=(const Loud&) noexcept(false) { return *this; }
  Loud& operator=(Loud&&) noexcept(false) { return *this; }
  ~Loud() {}
};
struct Virtual {
  virtual ~Virtual() {}
};
}  // namespace
CASE(never_throws, L(4, 11), 1) {
  (void)rng;
  promise_all<Loud>("Loud");
  promise_all<Virtual>("Virtual");
  promise_all<std::string>("std::string");
}
