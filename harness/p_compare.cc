// C08: comparisons of indirects against the same comparisons of the owned values.
#include "cases.h"
#include "alloc.h"
#include "types.h"

#include <climits>
#include <cmath>
#include <limits>
#include <map>
#include <new>
#include <tuple>
#if VT_HDR == 20
#include <compare>
#endif
using namespace vt;
using mon::L;

namespace {
const int VALUELESS = -1;

// ---- values
template <class T>
struct Pool;
#define POOL(T, ...)                                 \
  template <>                                        \
  struct Pool<T> {                                   \
    static std::vector<T> get() { return {__VA_ARGS__}; } \
  };
POOL(int, INT_MIN, -1, 0, 1, 7, INT_MAX)
POOL(long, LONG_MIN, -1, 0, 1, 7, INT_MAX, LONG_MAX)
POOL(short, SHRT_MIN, -1, 0, 1, 7, SHRT_MAX)
POOL(unsigned, 0u, 1u, 7u, UINT_MAX)
POOL(double, std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::infinity(),
     -1.5, -0.0, 0.0, 1.0, 7.0, std::numeric_limits<double>::infinity())
POOL(float, std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity(), -1.5f,
     -0.0f, 0.0f, 1.0f, 7.0f)
POOL(char, 'a', 'b', '\0', '\x7f')
POOL(std::string, "", "a", "ab", "b", std::string("a\0b", 3), std::string(70, 'x'))
enum class Color : unsigned char { red, green, blue };
POOL(Color, Color::red, Color::green, Color::blue)
typedef std::vector<int> VecI;
POOL(VecI, VecI(), VecI{0}, VecI{0, 1}, VecI{1})
typedef std::pair<int, double> PairD;
POOL(PairD, PairD(0, 0.0), PairD(0, std::nan("")), PairD(0, 1.0), PairD(1, std::nan("")), PairD(1, 0.0))
typedef std::tuple<int, std::string> Tup;
POOL(Tup, Tup(0, ""), Tup(0, "a"), Tup(1, ""))
int obj_array[4];
POOL(const int*, obj_array, obj_array + 1, obj_array + 3)

// a partially ordered type whose operators watch their operands
template <int ID>
struct Noisy {
  Core<ID> c;
  explicit Noisy(long v) : c(BaseTag(), v) {}
  Noisy(const Noisy&) = default;
  Noisy(Noisy&&) = default;
  Noisy& operator=(const Noisy&) = default;
  Noisy& operator=(Noisy&&) = default;
};
const long UNORDERED = 99;  // unordered with everything, itself included
template <int I, int J>
bool un(const Noisy<I>& a, const Noisy<J>& b) {
  REQ(L(8, 1), a.c.ok() && b.c.ok());
  return a.c.v() == UNORDERED || b.c.v() == UNORDERED;
}
template <int I, int J>
bool operator==(const Noisy<I>& a, const Noisy<J>& b) { return !un(a, b) && a.c.v() == b.c.v(); }
#if VT_HDR == 20
template <int I, int J>
std::partial_ordering operator<=>(const Noisy<I>& a, const Noisy<J>& b) {
  return un(a, b) ? std::partial_ordering::unordered : a.c.v() <=> b.c.v();
}
#else
template <int I, int J>
bool operator!=(const Noisy<I>& a, const Noisy<J>& b) { return !(a == b); }
template <int I, int J>
bool operator<(const Noisy<I>& a, const Noisy<J>& b) { return !un(a, b) && a.c.v() < b.c.v(); }
template <int I, int J>
bool operator>(const Noisy<I>& a, const Noisy<J>& b) { return !un(a, b) && a.c.v() > b.c.v(); }
template <int I, int J>
bool operator<=(const Noisy<I>& a, const Noisy<J>& b) { return !un(a, b) && a.c.v() <= b.c.v(); }
template <int I, int J>
bool operator>=(const Noisy<I>& a, const Noisy<J>& b) { return !un(a, b) && a.c.v() >= b.c.v(); }
#endif
typedef Noisy<71> N1;
typedef Noisy<72> N2;
typedef Noisy<73> N3;
// N2 and N3 have no common type, so C++20's synthesised <=> would make do with operator<: such a
// pair is only compared where the order is total
POOL(N1, N1(-3), N1(0), N1(4), N1(UNORDERED))
POOL(N2, N2(-3), N2(0), N2(4))
POOL(N3, N3(-3), N3(0), N3(5))

// ordered by the old operators only, totally
struct Legacy {
  int v;
};
bool operator==(const Legacy& a, const Legacy& b) { return a.v == b.v; }
bool operator!=(const Legacy& a, const Legacy& b) { return a.v != b.v; }
bool operator<(const Legacy& a, const Legacy& b) { return a.v < b.v; }
bool operator>(const Legacy& a, const Legacy& b) { return a.v > b.v; }
bool operator<=(const Legacy& a, const Legacy& b) { return a.v <= b.v; }
bool operator>=(const Legacy& a, const Legacy& b) { return a.v >= b.v; }
POOL(Legacy, Legacy{-1}, Legacy{0}, Legacy{5})

// ordered by the old operators only; what is neither less nor greater need not be equal
struct Keyed {
  int v;
};
bool operator==(const Keyed& a, const Keyed& b) { return a.v == b.v; }
bool operator!=(const Keyed& a, const Keyed& b) { return a.v != b.v; }
bool operator<(const Keyed& a, const Keyed& b) { return a.v / 10 < b.v / 10; }
bool operator>(const Keyed& a, const Keyed& b) { return a.v / 10 > b.v / 10; }
bool operator<=(const Keyed& a, const Keyed& b) { return a.v / 10 <= b.v / 10; }
bool operator>=(const Keyed& a, const Keyed& b) { return a.v / 10 >= b.v / 10; }
POOL(Keyed, Keyed{1}, Keyed{2}, Keyed{11}, Keyed{17}, Keyed{25})

// equal only
struct EqOnly {
  int v;
};
bool operator==(const EqOnly& a, const EqOnly& b) { return a.v == b.v; }
bool operator!=(const EqOnly& a, const EqOnly& b) { return a.v != b.v; }
POOL(EqOnly, EqOnly{-1}, EqOnly{0}, EqOnly{5})

#if VT_HDR != 20
// ==, < and <= are three arbitrary relations that have nothing to do with each other; == is symmetric, and !=, > and >=
// are their negation and converses.  (The C++20 header derives four of them from operator<=> or operator<.)
template <int ID>
struct Arb {
  int v;
};
inline bool arb(int op, int i, int a, int j, int b) {
  return ((static_cast<unsigned>(op * 7919 + i * 104729 + a * 1299709 + j * 15485863 + b * 32452843) * 2654435761u) >> 17) & 1;
}
#define ARB_OP(o, E)                                        \
  template <int I, int J>                                   \
  bool operator o(const Arb<I>& a, const Arb<J>& b) {       \
    return E;                                               \
  }
ARB_OP(==, (I * 100 + a.v < J * 100 + b.v) ? arb(0, I, a.v, J, b.v) : arb(0, J, b.v, I, a.v))
ARB_OP(!=, !(a == b))
ARB_OP(<, arb(2, I, a.v, J, b.v))
ARB_OP(<=, arb(3, I, a.v, J, b.v))
ARB_OP(>, b < a)
ARB_OP(>=, b <= a)
typedef Arb<1> Arb1;
typedef Arb<2> Arb2;
POOL(Arb1, Arb1{0}, Arb1{1}, Arb1{2}, Arb1{3}, Arb1{4}, Arb1{5})
POOL(Arb2, Arb2{0}, Arb2{1}, Arb2{2}, Arb2{3}, Arb2{4}, Arb2{5})
#endif

#if VT_HDR == 20
struct Strong {
  int v;
  std::string s;
  auto operator<=>(const Strong&) const = default;
  bool operator==(const Strong&) const = default;
};
POOL(Strong, Strong{0, "a"}, Strong{0, "b"}, Strong{1, ""})
struct Weak {  // equivalent but not equal
  int v;
  std::weak_ordering operator<=>(const Weak& o) const { return v / 10 <=> o.v / 10; }
  bool operator==(const Weak& o) const { return v == o.v; }
};
POOL(Weak, Weak{1}, Weak{2}, Weak{11}, Weak{25})
#endif

// ---- one holder, brought into being in various ways
template <class T, class A>
struct Holder {
  typedef xyz::indirect<T, A> I;
  alignas(I) unsigned char raw[sizeof(I)];
  I* p;
  static I* put(void* at, const A& a, const T& v) {
    return ::new (at) I(std::allocator_arg, a, in_place(), v);
  }
  // ix: index in the pool, or VALUELESS; how: history
  Holder(const std::vector<T>& pool, int ix, unsigned how, int arena) {
    A a = AllocInfo<A>::make(arena);
    if (ix >= 0) {
      const T& v = pool[static_cast<std::size_t>(ix)];
      switch (how % 4) {
        case 0:
          p = put(raw, a, v);
          break;
        case 1: {
          I t(std::allocator_arg, a, in_place(), v);
          p = ::new (static_cast<void*>(raw)) I(t);
          break;
        }
        case 2: {
          I t(std::allocator_arg, a, in_place(), v);
          p = ::new (static_cast<void*>(raw)) I(std::move(t));
          break;
        }
        default: {  // valueless, then assigned to
          p = put(raw, a, pool[0]);
          I t(std::move(*p));
          *p = I(std::allocator_arg, a, in_place(), v);
        }
      }
    } else {
      const T& v = pool[how % pool.size()];
      switch (how % 3) {
        case 0: {
          p = put(raw, a, v);
          I t(std::move(*p));
          break;
        }
        case 1: {
          I t(std::allocator_arg, a, in_place(), v);
          I u2(std::move(t));
          p = ::new (static_cast<void*>(raw)) I(t);
          break;
        }
        default: {
          p = put(raw, a, v);
          I t(std::allocator_arg, a, in_place(), v);
          I u2(std::move(t));
          *p = std::move(t);
        }
      }
    }
    REQ(L(5), p->valueless_after_move() == (ix < 0));
  }
  Holder(const Holder&) = delete;
  ~Holder() { p->~I(); }
};

const char* const names[] = {"==", "!=", "<", "<=", ">", ">="};
void judge(int op, bool got, bool want, const char* what, int i, int j, const char* form) {
  if (got != want)
    mon::soft(i < 0 || j < 0 ? L(8, 5) : L(8), "comparison",
              "%s: %s operand%s #%d %s #%d (-1: valueless) is %d, expected %d", what, form,
              i < 0 && j < 0 ? "s" : "", i, names[op], j, got, want);
}
struct Eq {};
struct Ord {};

template <class X, class Y>
void ops(const X& x, const Y& y, bool* r, Eq) {
  r[0] = x == y;
  r[1] = x != y;
}
template <class X, class Y>
void ops(const X& x, const Y& y, bool* r, Ord) {
  ops(x, y, r, Eq());
  r[2] = x < y;
  r[3] = x <= y;
  r[4] = x > y;
  r[5] = x >= y;
}
inline int nops(Eq) { return 2; }
inline int nops(Ord) { return 6; }
// what is expected when a valueless operand takes part
void valueless_ops(bool xl, bool yl, bool* r) {
  int x = xl ? 0 : 1, y = yl ? 0 : 1;  // at most one engaged
  r[0] = x == y;
  r[1] = x != y;
  r[2] = x < y;
  r[3] = x <= y;
  r[4] = x > y;
  r[5] = x >= y;
}

#if VT_HDR == 20
template <class T, class U>
auto three_way(const T& t, const U& u) {
  if constexpr (std::three_way_comparable_with<T, U>)
    return t <=> u;
  else
    return t < u ? std::weak_ordering::less : u < t ? std::weak_ordering::greater : std::weak_ordering::equivalent;
}
template <class X, class Y, class T, class U>
void spaceship(const X& x, const Y& y, const T* t, const U* u, const char* what, int i, int j,
               const char* form) {
  bool same_cat = std::is_same_v<decltype(x <=> y), decltype(three_way(*t, *u))>;
  REQF(L(8), same_cat, "%s: %s <=> has another comparison category than the values'", what, form);
  std::partial_ordering got = x <=> y;
  std::partial_ordering want = i < 0 || j < 0 ? (i >= 0) <=> (j >= 0) : three_way(*t, *u);
  REQF(i < 0 || j < 0 ? L(8, 5) : L(8), got == want,
       "%s: %s operand #%d <=> #%d (-1: valueless) differs from the values'", what, form, i, j);
}
#else
template <class X, class Y, class T, class U>
void spaceship(const X&, const Y&, const T*, const U*, const char*, int, int, const char*) {}
#endif

void quiet(const char* what, int i, int j) {
  for (int e = 0; e < mon::NEV; ++e) {
    long n = mon::cnt[0][e] + mon::cnt[1][e];
    if (n)
      mon::soft(L(8), "comparison-event", "%s: comparing #%d with #%d (-1: valueless) did %ld %s",
                what, i, j, n, mon::ev_name[e]);
  }
}
template <class X, class Y, class T, class U>
void spaceship_if(const X& x, const Y& y, const T* t, const U* u, const char* what, int i, int j,
                  const char* form, Ord) {
  spaceship(x, y, t, u, what, i, j, form);
}
template <class X, class Y, class T, class U>
void spaceship_if(const X&, const Y&, const T*, const U*, const char*, int, int, const char*, Eq) {}

// all pairs of values, each in every form
template <class T, class AT, class U, class AU, class K>
void both(const char* what, mon::Rng& rng, int at, int au) {
  std::vector<T> tp = Pool<T>::get();
  std::vector<U> up = Pool<U>::get();
  const K k = K();
  for (int i = VALUELESS; i < static_cast<int>(tp.size()); ++i)
    for (int j = VALUELESS; j < static_cast<int>(up.size()); ++j) {
      mon::hist_reset();
      mon::hist("%s #%d ? #%d", what, i, j);
      mon::sh->progress = mon::sh->progress + 1;
      unsigned hi = rng.below(12), hj = rng.below(12);
      Holder<T, AT> x(tp, i, hi, at);
      Holder<U, AU> y(up, j, hj, au);
      const T* t = i < 0 ? nullptr : &tp[static_cast<std::size_t>(i)];
      const U* u = j < 0 ? nullptr : &up[static_cast<std::size_t>(j)];
      bool want[6] = {}, got[6] = {};
      if (t && u)
        ops(*t, *u, want, k);
      else
        valueless_ops(!t, !u, want);
      const void* px = t ? static_cast<const void*>(std::addressof(**x.p)) : nullptr;
      const void* py = u ? static_cast<const void*>(std::addressof(**y.p)) : nullptr;
      {
        mon::Window w;
        ops(*x.p, *y.p, got, k);
        quiet(what, i, j);
      }
      for (int o = 0; o < nops(k); ++o) judge(o, got[o], want[o], what, i, j, "indirect");
      spaceship_if(*x.p, *y.p, t, u, what, i, j, "indirect", k);
      if (u) {  // plain value on the right
        mon::Window w;
        bool wantp[6] = {};
        if (t)
          ops(*t, *u, wantp, k);
        else
          valueless_ops(true, false, wantp);
        mon::reset_counts();
        ops(*x.p, *u, got, k);
        quiet(what, i, j);
        for (int o = 0; o < nops(k); ++o) judge(o, got[o], wantp[o], what, i, j, "indirect/plain");
        spaceship_if(*x.p, *u, t, u, what, i, j, "indirect/plain", k);
      }
      if (t) {  // plain value on the left
        mon::Window w;
        bool wantp[6] = {};
        if (u)
          ops(*t, *u, wantp, k);
        else
          valueless_ops(false, true, wantp);
        mon::reset_counts();
        ops(*t, *y.p, got, k);
        quiet(what, i, j);
        for (int o = 0; o < nops(k); ++o) judge(o, got[o], wantp[o], what, i, j, "plain/indirect");
        spaceship_if(*t, *y.p, t, u, what, i, j, "plain/indirect", k);
      }
      REQ(L(8, 2, 10), x.p->valueless_after_move() == (i < 0) && y.p->valueless_after_move() == (j < 0));
      if (t) REQ(L(8, 10), static_cast<const void*>(std::addressof(**x.p)) == px);
      if (u) REQ(L(8, 10), static_cast<const void*>(std::addressof(**y.p)) == py);
      vt::seen(L(8), sig(what, i, j, hi, hj, at, au));
      if (i < 0 || j < 0) vt::seen(L(5), sig(what, i, j, hi, hj, at, au));
    }
}

typedef Cfg<false, false, false, false, false, false> F;
typedef Cfg<true, true, true, false, true, true> TH;
template <class T>
using MF = MonAlloc<T, F>;
template <class T>
using MT = MonAlloc<T, TH>;
template <class T>
using SA = std::allocator<T>;
}  // namespace

#define BOTH(T, U, K)                                                                     \
  CASE(cmp_##T##_##U, L(8), 2) {                                                          \
    both<T, MF<T>, U, MF<U>, K>(#T "/" #U ", allocators fff", rng, 3, 3 + rng.below(2));  \
    both<T, MT<T>, U, SA<U>, K>(#T "/" #U ", allocators ttt_sel_hook, std", rng, 3, 0);   \
  }
typedef std::string Str;
typedef const int* CPtr;
BOTH(int, int, Ord)
BOTH(int, long, Ord)
BOTH(long, short, Ord)
BOTH(double, double, Ord)
BOTH(double, int, Ord)
BOTH(float, double, Ord)
BOTH(char, int, Ord)
BOTH(Str, Str, Ord)
BOTH(Color, Color, Ord)
BOTH(VecI, VecI, Ord)
BOTH(PairD, PairD, Ord)
BOTH(Tup, Tup, Ord)
BOTH(CPtr, CPtr, Ord)
BOTH(N1, N1, Ord)
BOTH(N2, N3, Ord)
BOTH(Legacy, Legacy, Ord)
BOTH(Keyed, Keyed, Ord)
BOTH(EqOnly, EqOnly, Eq)
#if VT_HDR != 20
BOTH(Arb1, Arb1, Ord)
BOTH(Arb1, Arb2, Ord)
#endif
#if VT_HDR == 20
BOTH(Strong, Strong, Ord)
BOTH(Weak, Weak, Ord)
#endif

// the same object on both sides
CASE(cmp_self, L(8), 1) {
  for (double d : Pool<double>::get()) {
    xyz::indirect<double> x((in_place()), d);
    bool got[6], want[6];
    ops(x, x, got, Ord());
    ops(d, d, want, Ord());
    for (int o = 0; o < 6; ++o) judge(o, got[o], want[o], "double with itself", 0, 0, "indirect");
    xyz::indirect<double> y(std::move(x));
    ops(x, x, got, Ord());
    valueless_ops(true, true, want);
    for (int o = 0; o < 6; ++o) judge(o, got[o], want[o], "double with itself", -1, -1, "indirect");
    vt::seen(L(8), sig("self", static_cast<long>(rng.next() % 1000)));
  }
}

// string against literal
CASE(cmp_literal, L(8), 1) {
  (void)rng;
  for (const std::string& s : Pool<std::string>::get())
    for (const char* lit : {"", "a", "ab", "zz"}) {
      xyz::indirect<std::string> x((in_place()), s);
      bool got[6], want[6];
      ops(x, lit, got, Ord());
      ops(s, lit, want, Ord());
      for (int o = 0; o < 6; ++o) judge(o, got[o], want[o], "string/literal", 0, 0, "indirect/plain");
      ops(lit, x, got, Ord());
      ops(lit, s, want, Ord());
      for (int o = 0; o < 6; ++o) judge(o, got[o], want[o], "literal/string", 0, 0, "plain/indirect");
      vt::seen(L(8), sig(s.c_str(), lit[0], s.size()));
    }
}

// indirects of indirects: the inner ones are values too, valueless ones included
CASE(cmp_nested, L(8, 5), 1) {
  (void)rng;
  typedef xyz::indirect<int> I;
  typedef xyz::indirect<I> II;
  for (int a = -2; a < 3; ++a)
    for (int b = -2; b < 3; ++b) {
      // -2: outer valueless, -1: inner valueless
      struct Mk {
        static void go(II& x, int v) {
          if (v == -1) { I t(std::move(*x)); }
          if (v == -2) { II t(std::move(x)); }
        }
      };
      II x((in_place()), (in_place()), a), y((in_place()), (in_place()), b);
      Mk::go(x, a);
      Mk::go(y, b);
      bool got[6], want[6];
      ops(x, y, got, Ord());
      ops(a, b, want, Ord());  // the order of the codes is the expected order
      for (int o = 0; o < 6; ++o) judge(o, got[o], want[o], "indirect<indirect<int>>", a, b, "indirect");
      vt::seen(L(8, 5), sig("nested", a, b));
    }
}

// A comparison that throws leaves everything alone.
namespace {
struct Thrower {
  int v;
};
struct Boom {
  int a, b;
};
bool operator==(const Thrower& a, const Thrower& b) { throw Boom{a.v, b.v}; }
#if VT_HDR != 20
bool operator!=(const Thrower& a, const Thrower& b) { throw Boom{a.v, b.v}; }
#endif
bool operator<(const Thrower& a, const Thrower& b) { throw Boom{a.v, b.v}; }
}  // namespace
CASE(cmp_throw, L(8, 6), 1) {
  (void)rng;
  typedef xyz::indirect<Thrower, MF<Thrower>> I;
  I x(std::allocator_arg, MF<Thrower>(3), in_place(), Thrower{1});
  I y(std::allocator_arg, MF<Thrower>(4), in_place(), Thrower{2});
  for (int k = 0; k < 5; ++k) {
    bool thrown = false;
    try {
      bool r = k == 0 ? x == y : k == 1 ? x != y : k == 2 ? x < y : k == 3 ? x == Thrower{2} : Thrower{1} == y;
      (void)r;
    } catch (const Boom& b) {
      thrown = b.a == 1 ? b.b == 2 : b.a == 2 && b.b == 1;
    }
    REQF(L(8), thrown, "exception of the owned type's comparison did not arrive (form %d)", k);
    REQ(L(8, 6), !x.valueless_after_move() && x->v == 1 && !y.valueless_after_move() && y->v == 2);
    vt::seen(L(8), sig("throw", k));
  }
}
