// C15 (and C06 inside containers): composites and containers of indirect and polymorphic against
// the same structure of plain values.
#include "cases.h"
#include "alloc.h"
#include "types.h"

#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <queue>
#include <set>
#include <stack>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
#if VT_HDR == 20
#include <compare>
#include <ranges>
#include <span>
#endif
#if __cplusplus > 202002L
#include <expected>
#endif
using namespace vt;
using mon::L;

namespace {
typedef Cfg<false, false, false, false, false, false> F;
typedef Cfg<true, true, true, false, false, true> TH;
// ------------------------------------------------------------------ owned types
struct Val {
  Core<301> c;
  Val() : c(BaseTag(), 0) {}
  explicit Val(long v) : c(BaseTag(), v) {}
  Val(const Val&) = default;
  Val(Val&&) = default;
  Val& operator=(const Val&) = default;
  Val& operator=(Val&&) = default;
};
bool operator==(const Val& a, const Val& b) { return a.c.v() == b.c.v(); }
#if VT_HDR == 20
std::strong_ordering operator<=>(const Val& a, const Val& b) { return a.c.v() <=> b.c.v(); }
#else
bool operator!=(const Val& a, const Val& b) { return a.c.v() != b.c.v(); }
bool operator<(const Val& a, const Val& b) { return a.c.v() < b.c.v(); }
bool operator>(const Val& a, const Val& b) { return a.c.v() > b.c.v(); }
bool operator<=(const Val& a, const Val& b) { return a.c.v() <= b.c.v(); }
bool operator>=(const Val& a, const Val& b) { return a.c.v() >= b.c.v(); }
#endif
struct Sh {
  Core<302> b;
  Sh() : b(BaseTag(), 0) {}
  explicit Sh(long v) : b(BaseTag(), v) {}
  Sh(const Sh&) = default;
  Sh(Sh&&) = default;
  virtual ~Sh() {}
  virtual long kind() const { return 0; }
  virtual bool ok() const { return b.ok(); }
  virtual void set(long v) { b.set(v); }
};
struct Sq : Sh {
  Core<303> c;
  explicit Sq(long v) : Sh(v), c(BaseTag(), v) {}
  Sq(const Sq&) = default;
  Sq(Sq&&) = default;
  long kind() const override { return 1; }
  bool ok() const override { return b.ok() && c.ok() && b.v() == c.v(); }
  void set(long v) override {
    b.set(v);
    c.set(v);
  }
};
struct Pre {
  long pre = 99;
  virtual ~Pre() {}
};
struct Ci : Pre, Sh {
  Core<304> c;
  long big[30];
  explicit Ci(long v) : Sh(v), c(BaseTag(), v) { std::fill(big, big + 30, v); }
  Ci(const Ci&) = default;
  Ci(Ci&& o) : Pre(), Sh(static_cast<Sh&&>(o)), c(std::move(o.c)) {
    std::copy(o.big, o.big + 30, big);
    std::fill(o.big, o.big + 30, MOVED);
  }
  long kind() const override { return 2; }
  bool ok() const override {
    return pre == 99 && b.ok() && c.ok() && b.v() == c.v() && big[0] == b.v() && big[29] == b.v();
  }
  void set(long v) override {
    b.set(v);
    c.set(v);
    std::fill(big, big + 30, v);
  }
};

struct Fin final {  // owned by polymorphic though nothing can be derived from it
  Core<305> c;
  explicit Fin(long v) : c(BaseTag(), v) {}
};

// ------------------------------------------------------------------ plain models
typedef std::vector<long> M;  // the flattened value; VALUELESS stands for a valueless part
const long VALUELESS = -123456;
std::string show(const M& m) {
  std::string s;
  for (long x : m) s += (s.empty() ? "" : ",") + (x == VALUELESS ? std::string("-") : std::to_string(x));
  return "{" + s + "}";
}
int cur_arena = 3;  // elements are made with this allocator; -1: with random ones
int pick_arena(mon::Rng& rng) { return cur_arena >= 0 ? cur_arena : 3 + static_cast<int>(rng.below(3)); }

template <class T>
struct E;
template <class A>
struct E<xyz::indirect<Val, A>> {
  typedef xyz::indirect<Val, A> T;
  static T make(const M& m, mon::Rng& rng) {
    return T(std::allocator_arg, AllocInfo<A>::make(pick_arena(rng)), in_place(), m[0]);
  }
  static M gen(mon::Rng& rng) { return M{static_cast<long>(rng.below(12))}; }
  static M get(const T& t) {
    if (t.valueless_after_move()) return M{VALUELESS};
    REQ(L(15, 1), t->c.ok());
    return M{t->c.v()};
  }
  static void mutate(T& t, M& m, long v) {
    t->c.set(v);
    m[0] = v;
  }
  static bool less(const T& a, const T& b) { return a < b; }
  static bool equal(const T& a, const T& b) { return a == b; }
  static bool engaged(const T& t) { return !t.valueless_after_move(); }
  static constexpr bool comparable = true;
};
template <class A>
struct E<xyz::polymorphic<Sh, A>> {
  typedef xyz::polymorphic<Sh, A> T;
  static T make(const M& m, mon::Rng& rng) {
    A a = AllocInfo<A>::make(pick_arena(rng));
    if (m[0] == 0) return T(std::allocator_arg, a, in_place_type<Sh>(), m[1]);
    if (m[0] == 1) return T(std::allocator_arg, a, in_place_type<Sq>(), m[1]);
    return T(std::allocator_arg, a, in_place_type<Ci>(), m[1]);
  }
  static M gen(mon::Rng& rng) { return M{static_cast<long>(rng.below(3)), static_cast<long>(rng.below(8))}; }
  static M get(const T& t) {
    if (t.valueless_after_move()) return M{VALUELESS, VALUELESS};
    REQ(L(15, 3, 1), t->ok());
    return M{t->kind(), t->b.v()};
  }
  static void mutate(T& t, M& m, long v) {
    t->set(v);
    m[1] = v;
  }
  static bool less(const T& a, const T& b) { return get(a) < get(b); }
  static bool equal(const T& a, const T& b) { return get(a) == get(b); }
  static bool engaged(const T& t) { return !t.valueless_after_move(); }
  static constexpr bool comparable = false;
};
template <class A>
struct E<xyz::polymorphic<Fin, A>> {
  typedef xyz::polymorphic<Fin, A> T;
  static T make(const M& m, mon::Rng& rng) {
    return T(std::allocator_arg, AllocInfo<A>::make(pick_arena(rng)), in_place_type<Fin>(), m[0]);
  }
  static M gen(mon::Rng& rng) { return M{static_cast<long>(rng.below(12))}; }
  static M get(const T& t) {
    if (t.valueless_after_move()) return M{VALUELESS};
    REQ(L(15, 1), t->c.ok());
    return M{t->c.v()};
  }
  static void mutate(T& t, M& m, long v) {
    t->c.set(v);
    m[0] = v;
  }
  static bool less(const T& a, const T& b) { return a->c.v() < b->c.v(); }
  static bool equal(const T& a, const T& b) { return get(a) == get(b); }
  static bool engaged(const T& t) { return !t.valueless_after_move(); }
  static constexpr bool comparable = false;
};
template <class A>
struct E<xyz::indirect<long, A>> {
  typedef xyz::indirect<long, A> T;
  static T make(const M& m, mon::Rng& rng) {
    return T(std::allocator_arg, AllocInfo<A>::make(pick_arena(rng)), in_place(), m[0]);
  }
  static M gen(mon::Rng& rng) { return M{static_cast<long>(rng.below(12))}; }
  static M get(const T& t) { return M{t.valueless_after_move() ? VALUELESS : *t}; }
  static void mutate(T& t, M& m, long v) { *t = m[0] = v; }
  static bool less(const T& a, const T& b) { return a < b; }
  static bool equal(const T& a, const T& b) { return a == b; }
  static bool engaged(const T& t) { return !t.valueless_after_move(); }
  static constexpr bool comparable = true;
};
// all special members are the compiler's
template <class AV, class AS>
struct Comp {
  long id;
  xyz::indirect<Val, AV> a;
  xyz::polymorphic<Sh, AS> s;
  std::string name;
  std::vector<xyz::indirect<Val, AV>> v;
};
template <class AV, class AS>
struct E<Comp<AV, AS>> {
  typedef Comp<AV, AS> T;
  typedef E<xyz::indirect<Val, AV>> EI;
  typedef E<xyz::polymorphic<Sh, AS>> EP;
  static T make(const M& m, mon::Rng& rng) {
    T t{m[0], EI::make(M{m[1]}, rng), EP::make(M{m[2], m[3]}, rng), "name longer than sixteen " + std::to_string(m[0]), {}};
    for (std::size_t i = 4; i < m.size(); ++i) t.v.push_back(EI::make(M{m[i]}, rng));
    return t;
  }
  static M gen(mon::Rng& rng) {
    M m = {static_cast<long>(rng.below(100)), static_cast<long>(rng.below(5)), static_cast<long>(rng.below(3)),
           static_cast<long>(rng.below(8))};
    for (unsigned i = rng.below(3); i-- > 0;) m.push_back(static_cast<long>(rng.below(9)));
    return m;
  }
  static M get(const T& t) {
    M m = {t.id};
    m.push_back(EI::get(t.a)[0]);
    for (long x : EP::get(t.s)) m.push_back(x);
    for (const auto& x : t.v) m.push_back(EI::get(x)[0]);
    return m;
  }
  static void mutate(T& t, M& m, long v) {
    t.a->c.set(v);
    t.s->set(v);
    t.id = v;
    m[0] = m[1] = m[3] = v;
    if (!t.v.empty()) {
      t.v.back()->c.set(v);
      m.back() = v;
    }
  }
  static bool less(const T& a, const T& b) { return get(a) < get(b); }
  static bool equal(const T& a, const T& b) {
    return a.id == b.id && a.a == b.a && EP::equal(a.s, b.s) && a.v == b.v;
  }
  static bool engaged(const T& t) {
    for (const auto& x : t.v)
      if (x.valueless_after_move()) return false;
    return !t.a.valueless_after_move() && !t.s.valueless_after_move();
  }
  static constexpr bool comparable = false;
};

// ------------------------------------------------------------------ sequences
template <class C>
void sort_it(C& c) {
  typedef E<typename C::value_type> Ev;
  std::sort(c.begin(), c.end(), [](const typename C::value_type& a, const typename C::value_type& b) { return Ev::less(a, b); });
}
template <class T>
void sort_it(std::list<T>& c) {
  c.sort([](const T& a, const T& b) { return E<T>::less(a, b); });
}
template <class C>
void algorithms(C& c, unsigned which, std::size_t i, std::random_access_iterator_tag) {
  typedef typename C::value_type T;
  auto less = [](const T& a, const T& b) {
    mon::Internal g;
    return E<T>::get(a) < E<T>::get(b);
  };
  auto mid = c.begin() + static_cast<long>(i);
  switch (which) {
    case 0:
      std::make_heap(c.begin(), c.end(), less);
      if (!c.empty()) {
        std::pop_heap(c.begin(), c.end(), less);
        std::push_heap(c.begin(), c.end(), less);
      }
      std::sort_heap(c.begin(), c.end(), less);
      break;
    case 1:
      if (!c.empty()) std::nth_element(c.begin(), mid, c.end(), less);
      break;
    default:
      std::stable_sort(c.begin(), mid, less);
      std::stable_sort(mid, c.end(), less);
      std::inplace_merge(c.begin(), mid, c.end(), less);
  }
}
template <class C>
void algorithms(C&, unsigned, std::size_t, std::bidirectional_iterator_tag) {}
template <class T>
void reserve_it(std::vector<T>& c, std::size_t n) {
  if (n == 0)
    c.shrink_to_fit();  // swallows exceptions
  else
    c.reserve(n);
}
template <class C>
void reserve_it(C&, std::size_t) {}
template <class C>
std::vector<M> get_all(const C& c) {
  std::vector<M> r;
  for (const auto& x : c) r.push_back(E<typename C::value_type>::get(x));
  return r;
}
std::string show(const std::vector<M>& v) {
  std::string s = "[";
  for (const M& m : v) s += show(m);
  return s + "]";
}
template <class C>
bool compare_eq(const C& a, const C& b, std::true_type) {
  return a == b && !(a != b);
}
template <class C>
bool compare_eq(const C& a, const C& b, std::false_type) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const typename C::value_type& x, const typename C::value_type& y) {
           return E<typename C::value_type>::equal(x, y);
         });
}
template <class C>
int compare_order(const C& a, const C& b, std::true_type) {
  int r = a < b ? -1 : a > b ? 1 : 0;
  REQ(L(15, 8), (a <= b) == (r <= 0) && (a >= b) == (r >= 0));
  return r;
}
template <class C>
int compare_order(const C& a, const C& b, std::false_type) {
  std::vector<M> x = get_all(a), y = get_all(b);
  return x < y ? -1 : y < x ? 1 : 0;
}

enum Outcome { DONE, THREW };
// Runs the operation with the k-th fault point failing (k == 0: none).
template <class Fn>
Outcome attempt(const char* what, int k, int flavour, Fn fn) {
  mon::pending_fault = k;
  mon::pending_flavour = flavour;
  int ser = -1;
  {
    mon::Window w;
    try {
      fn();
      REQF(L(6), !mon::fc.fired, "%s: an exception (%s) was swallowed", what, mon::fc.site);
      return DONE;
    } catch (const mon::Fault& f) {
      ser = f.serial;
    } catch (const mon::AllocFault& f) {
      ser = f.serial;
    } catch (const mon::OddFault& f) {
      ser = f.serial;
    }
    REQF(L(6), mon::fc.fired && ser == mon::fc.serial, "%s: another exception arrived than was thrown (%s)", what, mon::fc.site);
  }
  return THREW;
}

template <class C>
void sequence(const char* what, mon::Rng& rng, bool swaps, bool faults) {
  typedef typename C::value_type T;
  typedef E<T> Ev;
  typedef std::integral_constant<bool, Ev::comparable> Cmp;
  typedef std::is_same<typename std::iterator_traits<typename C::iterator>::iterator_category, std::random_access_iterator_tag> Random;
  C a, b;
  std::vector<M> ma, mb;
  unsigned steps = thorough ? 120 : 40;
  for (unsigned step = 0; step < steps; ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    mon::sh->ctx = 0;
    unsigned op = rng.below(34);
    std::size_t n = ma.size();
    if (n > 12 && op < 4) op = 5;
    std::size_t i = n ? rng.below(static_cast<unsigned>(n)) : 0, j = n ? rng.below(static_cast<unsigned>(n)) : 0;
    M m = Ev::gen(rng);
    int k = faults && rng.chance(50) ? 1 + static_cast<int>(rng.below(rng.chance(50) ? 3 : 25)) : 0;
    int fl = static_cast<int>(rng.below(2));
    bool strong = false;  // the operation promises all or nothing
    std::vector<M> na = ma, nb = mb;
    auto at = [](C& c, std::size_t x) { return std::next(c.begin(), static_cast<long>(x)); };
    typedef std::vector<M>::difference_type D;
    mon::hist("op%u i%zu j%zu k%d %s; ", op, i, j, k, show(m).c_str());
    Outcome o = DONE;
    const char* w = what;
    switch (op) {
      case 0: {
        T t(Ev::make(m, rng));
        const T& ct = t;
        o = attempt(w, k, fl, [&] { a.push_back(ct); });
        REQ(L(15, 2), Ev::get(t) == m);
        na.push_back(m);
        strong = true;
        break;
      }
      case 1: {
        T t(Ev::make(m, rng));
        o = attempt(w, k, fl, [&] { a.push_back(std::move(t)); });
        na.push_back(m);
        strong = false;  // t may have been moved from, a keeps its elements
        break;
      }
      case 2: {
        T t(Ev::make(m, rng));
        o = attempt(w, k, fl, [&] { a.insert(at(a, i), t); });
        na.insert(na.begin() + static_cast<D>(i), m);
        break;
      }
      case 3:
        if (n) {
          o = attempt(w, k, fl, [&] { a.insert(at(a, i), *at(a, j)); });
          M e = ma[j];
          na.insert(na.begin() + static_cast<D>(i), e);
        }
        break;
      case 4: {
        T t(Ev::make(m, rng));
        o = attempt(w, k, fl, [&] { a.insert(at(a, i), std::move(t)); });
        na.insert(na.begin() + static_cast<D>(i), m);
        break;
      }
      case 5:
        if (n) {
          o = attempt(w, k, fl, [&] { a.erase(at(a, i)); });
          na.erase(na.begin() + static_cast<D>(i));
        }
        break;
      case 6:
        if (i > j) std::swap(i, j);
        o = attempt(w, k, fl, [&] { a.erase(at(a, i), at(a, j)); });
        na.erase(na.begin() + static_cast<D>(i), na.begin() + static_cast<D>(j));
        break;
      case 7:
        o = attempt(w, k, fl, [&] { a = static_cast<const C&>(b); });
        na = mb;
        break;
      case 8:
        a = std::move(b);
        b.clear();
        na = mb;
        nb.clear();
        break;
      case 9:
        a.swap(b);
        std::swap(na, nb);
        break;
      case 10: {
        std::size_t to = rng.below(10);
        T t(Ev::make(m, rng));
        o = attempt(w, k, fl, [&] { a.resize(to, t); });
        na.resize(to, m);
        break;
      }
      case 11: {
        std::size_t to = rng.below(6);
        T t(Ev::make(m, rng));
        o = attempt(w, k, fl, [&] { a.assign(to, t); });
        na.assign(to, m);
        break;
      }
      case 12:
        // (libstdc++'s deque self-moves elements when an empty range is inserted, and self-moving a
        // std::vector clears it: nothing to do with the types under test)
        if (n + mb.size() < 16 && !mb.empty()) {
          o = attempt(w, k, fl, [&] { a.insert(at(a, i), b.begin(), b.end()); });
          na.insert(na.begin() + static_cast<D>(i), mb.begin(), mb.end());
        }
        break;
      case 13:
        if (swaps) {
          o = attempt(w, k, fl, [&] { sort_it(a); });
          std::sort(na.begin(), na.end());
        }
        break;
      case 14:
        if (swaps) {
          o = attempt(w, k, fl, [&] { std::reverse(a.begin(), a.end()); });
          std::reverse(na.begin(), na.end());
        }
        break;
      case 15:
        if (swaps && n) {
          o = attempt(w, k, fl, [&] { std::rotate(a.begin(), at(a, i), a.end()); });
          std::rotate(na.begin(), na.begin() + static_cast<D>(i), na.end());
        }
        break;
      case 16: {
        long bound = static_cast<long>(rng.below(8));
        auto drop = [&](const M& x) { return x.back() < bound; };
        o = attempt(w, k, fl, [&] {
          a.erase(std::remove_if(a.begin(), a.end(), [&](const T& t) {
                    mon::Internal g;
                    return drop(Ev::get(t));
                  }), a.end());
        });
        na.erase(std::remove_if(na.begin(), na.end(), drop), na.end());
        break;
      }
      case 17: {
        o = attempt(w, k, fl, [&] {
          C t(static_cast<const C&>(a));
          a.swap(t);
        });
        strong = true;
        break;
      }
      case 18: {
        o = attempt(w, k, fl, [&] {
          C t(std::move(a));
          a = C();
          a = std::move(t);
        });
        break;
      }
      case 19: {
        bool eq = compare_eq(a, b, Cmp());
        REQF(L(15, 8), eq == (ma == mb), "%s: %s == %s is %d", what, show(ma).c_str(), show(mb).c_str(), eq);
        int ord = compare_order(a, b, Cmp()), want = ma < mb ? -1 : mb < ma ? 1 : 0;
        REQF(L(15, 8), ord == want, "%s: %s <=> %s is %d", what, show(ma).c_str(), show(mb).c_str(), ord);
        C c(a);
        REQ(L(15, 2), compare_eq(a, c, Cmp()));
        break;
      }
      case 20:
        if (n) {
          o = attempt(w, k, fl, [&] { *at(a, i) = static_cast<const T&>(*at(a, j)); });
          na[i] = ma[j];
        }
        break;
      case 21:
        if (n && i != j) {
          o = attempt(w, k, fl, [&] {
            *at(a, i) = std::move(*at(a, j));
            a.erase(at(a, j));
          });
          na[i] = ma[j];
          na.erase(na.begin() + static_cast<D>(j));
        }
        break;
      case 22:
        if (n && swaps) {
          using std::swap;
          o = attempt(w, k, fl, [&] { swap(*at(a, i), *at(a, j)); });
          std::swap(na[i], na[j]);
        }
        break;
      case 23:
        if (n && Ev::engaged(*at(a, i))) {
          Ev::mutate(*at(a, i), na[i], static_cast<long>(rng.below(30)));
        }
        break;
      case 24:
      case 25:
        o = attempt(w, k, fl, [&] { reserve_it(a, 1 + rng.below(40)); });
        reserve_it(a, 0);
        strong = true;
        break;
      case 26: {
        long bound = static_cast<long>(rng.below(8));
        if (swaps) {
          o = attempt(w, k, fl, [&] {
            std::partition(a.begin(), a.end(), [&](const T& t) {
              mon::Internal g;
              return Ev::get(t).back() < bound;
            });
          });
          if (o == DONE) {  // any order in each half
            std::vector<M> got = get_all(a), x = got, y = ma;
            REQF(L(15), std::is_partitioned(got.begin(), got.end(), [&](const M& t) { return t.back() < bound; }),
                 "%s: partition by %ld gave %s", what, bound, show(got).c_str());
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            REQF(L(15), x == y, "%s: partition of %s gave %s", what, show(ma).c_str(), show(got).c_str());
            na = got;
          }
        }
        break;
      }
      case 27:
        o = attempt(w, k, fl, [&] {
          a.erase(std::unique(a.begin(), a.end(), [&](const T& x, const T& y) {
                    mon::Internal g;
                    return Ev::get(x) == Ev::get(y);
                  }), a.end());
        });
        na.erase(std::unique(na.begin(), na.end()), na.end());
        break;
      case 28:
        if (swaps) {
          std::size_t c = n < mb.size() ? n : mb.size();
          o = attempt(w, 0, fl, [&] { std::swap_ranges(a.begin(), at(a, c), b.begin()); });
          std::swap_ranges(na.begin(), na.begin() + static_cast<D>(c), nb.begin());
        }
        break;
      case 29:
        if (n + mb.size() < 16 && !mb.empty()) {
          a.insert(a.end(), std::make_move_iterator(b.begin()), std::make_move_iterator(b.end()));
          b.clear();
          na.insert(na.end(), mb.begin(), mb.end());
          nb.clear();
        }
        break;
      case 30:
      case 31:
      case 32:
        if (!swaps) break;
        // (the buffer of stable_sort and inplace_merge is optional: its failure is not reported)
        o = attempt(w, op == 32 ? 0 : k, fl, [&] { algorithms(a, op - 30, i, typename std::iterator_traits<typename C::iterator>::iterator_category()); });
        if (o == DONE && Random::value) {
          if (op == 31) {
            std::vector<M> got = get_all(a), x = got, y = ma;
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            REQF(L(15), x == y && (n == 0 || got[i] == y[i]), "%s: nth_element %zu of %s gave %s", what, i, show(ma).c_str(), show(got).c_str());
            na = got;
          } else {
            std::sort(na.begin(), na.end());
          }
        }
        break;
      default:  // through another kind of container
        o = attempt(w, k, fl, [&] {
          std::list<T> l(std::make_move_iterator(a.begin()), std::make_move_iterator(a.end()));
          a.clear();
          std::list<T> l2;
          l2.splice(l2.begin(), l);
          a.insert(a.end(), std::make_move_iterator(l2.begin()), std::make_move_iterator(l2.end()));
        });
    }
    std::vector<M> ga = get_all(a), gb = get_all(b);
    if (o == DONE) {
      REQF(L(15), ga == na, "%s: operation %u on %s (other %s) gave %s, expected %s", what, op, show(ma).c_str(),
           show(mb).c_str(), show(ga).c_str(), show(na).c_str());
      REQF(L(15, 2), gb == nb, "%s: operation %u left the other container %s, expected %s", what, op, show(gb).c_str(),
           show(nb).c_str());
      ma = na;
      mb = nb;
    } else {
      if (strong) REQF(L(6), ga == ma, "%s: failed operation %u (%s) changed %s to %s", what, op, mon::fc.site, show(ma).c_str(), show(ga).c_str());
      REQF(L(6), gb == mb, "%s: failed operation %u (%s) changed its operand %s to %s", what, op, mon::fc.site, show(mb).c_str(), show(gb).c_str());
      vt::seen(L(6), sig(what, op, k, static_cast<long>(n), fl));
      // elements may be left valueless in the middle of a failed shuffle: start over
      a.clear();
      ma.clear();
    }
    mon::sh->ctx = 0;
    vt::seen(L(15), sig(what, op, static_cast<long>(mon::fnv(show(ga))), static_cast<long>(gb.size())));
  }
}
template <class T>
using VecOf = std::vector<T>;
template <class T>
using ListOf = std::list<T>;
template <class T>
using DequeOf = std::deque<T>;

template <template <class> class C, class T>
void sequences(const char* what, mon::Rng& rng, bool stateful, bool swap_any) {
  // one allocator for all, with faults; or many
  if (!stateful || rng.chance(60)) {
    cur_arena = 3;
    sequence<C<T>>(what, rng, true, true);
  } else {
    cur_arena = -1;
    sequence<C<T>>(what, rng, swap_any, false);
  }
  cur_arena = 3;
}
template <class T>
using SA = std::allocator<T>;
template <class T>
using AF = MonAlloc<T, F>;
template <class T>
using AT = MonAlloc<T, TH>;
template <template <class> class A>
using IndOf = xyz::indirect<Val, A<Val>>;
template <template <class> class A>
using PolyOf = xyz::polymorphic<Sh, A<Sh>>;
template <template <class> class A>
using CompOf = Comp<A<Val>, A<Sh>>;
}  // namespace

#define SEQ(C, T, A, STATEFUL, SWAP) \
  CASE(seq_##C##_##T##_##A, L(15), 24) { sequences<C, T<A>>(#C " " #T " " #A, rng, STATEFUL, SWAP); }
#define SEQS(T)                     \
  SEQ(VecOf, T, SA, false, true)    \
  SEQ(VecOf, T, AF, true, false)    \
  SEQ(VecOf, T, AT, true, true)     \
  SEQ(ListOf, T, AF, true, false)   \
  SEQ(DequeOf, T, SA, false, true)
#if !defined(VT_PART) || VT_PART == 1
SEQS(IndOf)
#endif
#if !defined(VT_PART) || VT_PART == 2
SEQS(PolyOf)
#endif
#if !defined(VT_PART) || VT_PART == 3
SEQS(CompOf)
SEQ(DequeOf, CompOf, AT, true, true)
#endif

#if !defined(VT_PART) || VT_PART == 5
namespace {
template <template <class> class A>
using FinOf = xyz::polymorphic<Fin, A<Fin>>;
template <template <class> class A>
using LongOf = xyz::indirect<long, A<long>>;

// Containers move, rearrange and hand on their elements: the objects these own stay what and where they are.
template <class T>
void identity(const char* what, mon::Rng& rng) {
  typedef E<T> Ev;
  typedef std::map<const void*, M> Who;
  cur_arena = 3;
  std::vector<T> v;
  Who who;
  auto add = [&] {
    M m = Ev::gen(rng);
    T t(Ev::make(m, rng));
    mon::Internal g;
    who[std::addressof(*t)] = m;
    return t;
  };
  auto check = [&](const char* op) {
    mon::Internal g;
    REQF(L(15, 4), v.size() == who.size(), "%s: %s changed the number of elements", what, op);
    std::map<const void*, M> seen_;
    for (const T& t : v) {
      REQF(L(15, 4), Ev::engaged(t), "%s: %s left an element valueless", what, op);
      auto at = who.find(std::addressof(*t));
      REQF(L(15, 4), at != who.end() && at->second == Ev::get(t), "%s: %s copied an owned object or changed its value",
           what, op);
      seen_[std::addressof(*t)];
    }
    REQF(L(15, 4), seen_.size() == v.size(), "%s: %s made two elements share an object", what, op);
  };
  unsigned n = 3 + rng.below(20);
  for (unsigned i = 0; i < n; ++i) {
    T t(add());
    bool front = rng.chance(30);
    long made[3];
    {
      mon::Window w;
      if (front)
        v.insert(v.begin(), std::move(t));
      else
        v.push_back(std::move(t));
      made[0] = mon::cnt[0][mon::CCTOR] + mon::cnt[1][mon::CCTOR];
      made[1] = mon::cnt[0][mon::MCTOR] + mon::cnt[1][mon::MCTOR];
      made[2] = mon::cnt[0][mon::CASSIGN] + mon::cnt[1][mon::CASSIGN] + mon::cnt[0][mon::MASSIGN] + mon::cnt[1][mon::MASSIGN];
    }
    REQF(L(15, 4), made[0] + made[1] + made[2] == 0, "%s: growing a vector made %ld copies, %ld moves, %ld assignments",
         what, made[0], made[1], made[2]);
    check("growing");
  }
  for (int round = 0; round < 6; ++round) {
    switch (rng.below(6)) {
      case 0:
        std::sort(v.begin(), v.end(), [](const T& a, const T& b) { return Ev::less(a, b); });
        check("std::sort");
        break;
      case 1:
        std::reverse(v.begin(), v.end());
        check("std::reverse");
        break;
      case 2:
        std::rotate(v.begin(), v.begin() + static_cast<long>(rng.below(static_cast<unsigned>(v.size()))), v.end());
        check("std::rotate");
        break;
      case 3:
        std::stable_sort(v.begin(), v.end(), [](const T& a, const T& b) { return Ev::less(b, a); });
        check("std::stable_sort");
        break;
      case 4: {
        std::vector<T> w(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        v.swap(w);
        check("moving the elements to another vector");
        break;
      }
      default: {
        std::size_t i = rng.below(static_cast<unsigned>(v.size()));
        {
          mon::Internal g;
          who.erase(std::addressof(*v[i]));
        }
        v.erase(v.begin() + static_cast<long>(i));
        v.shrink_to_fit();
        check("erase");
        if (v.empty()) v.push_back(add());
        break;
      }
    }
  }
  vt::seen(L(15, 4), sig(what, n, static_cast<long>(v.size())));
}
}  // namespace
SEQ(VecOf, FinOf, SA, false, true)
SEQ(VecOf, FinOf, AF, true, false)
SEQ(DequeOf, FinOf, AT, true, true)
SEQ(VecOf, LongOf, SA, false, true)
SEQ(ListOf, LongOf, AT, true, true)
CASE(identity_indirect, L(15, 4), 20) {
  identity<IndOf<SA>>("vector<indirect>", rng);
  identity<IndOf<AF>>("vector<indirect> fff", rng);
  identity<IndOf<AT>>("vector<indirect> ttt_hook", rng);
  identity<LongOf<AF>>("vector<indirect<long>> fff", rng);
}
CASE(identity_polymorphic, L(15, 4), 20) {
  identity<PolyOf<SA>>("vector<polymorphic>", rng);
  identity<PolyOf<AF>>("vector<polymorphic> fff", rng);
  identity<PolyOf<AT>>("vector<polymorphic> ttt_hook", rng);
  identity<FinOf<SA>>("vector<polymorphic<final>>", rng);
  identity<FinOf<AF>>("vector<polymorphic<final>> fff", rng);
}
#endif

#if !defined(VT_PART) || VT_PART == 4
// ------------------------------------------------------------------ maps and sets
namespace {
template <class T>
void maps(const char* what, mon::Rng& rng) {
  typedef std::map<long, T> Map;
  typedef E<T> Ev;
  Map a, b;
  std::map<long, M> ma, mb;
  for (unsigned step = 0; step < (thorough ? 150u : 50u); ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    mon::sh->ctx = 0;
    unsigned op = rng.below(11);
    long key = static_cast<long>(rng.below(10));
    M m = Ev::gen(rng);
    int k = rng.chance(40) ? 1 + static_cast<int>(rng.below(10)) : 0;
    mon::hist("op%u %ld k%d %s; ", op, key, k, show(m).c_str());
    Outcome o = DONE;
    bool strong = true;
    std::map<long, M> na = ma, nb = mb;
    switch (op) {
      case 0:
      case 1: {
        T t(Ev::make(m, rng));
        o = attempt(what, k, 0, [&] { op ? a.emplace(key, t) : a.insert(std::make_pair(key, t)); });
        na.emplace(key, m);
        break;
      }
      case 2: {
        T t(Ev::make(m, rng));
        strong = false;
        o = attempt(what, k, 0, [&] {
          auto r = a.emplace(key, t);
          if (!r.second) r.first->second = t;
        });
        na[key] = m;
        break;
      }
      case 3:
        a.erase(key);
        na.erase(key);
        break;
      case 4:
        strong = false;
        o = attempt(what, k, 0, [&] { a = static_cast<const Map&>(b); });
        na = mb;
        break;
      case 5:
        a = std::move(b);
        b.clear();
        na = mb;
        nb.clear();
        break;
      case 6:
        a.swap(b);
        std::swap(na, nb);
        break;
      case 7:
        o = attempt(what, k, 0, [&] {
          Map t(a);
          t.swap(a);
        });
        break;
      case 8: {
        auto it = a.find(key);
        if (it != a.end() && Ev::engaged(it->second)) Ev::mutate(it->second, na[key], static_cast<long>(rng.below(30)));
        break;
      }
#if __cplusplus >= 201703L
      case 9: {
        auto node = a.extract(key);
        if (!node.empty()) {
          node.key() = key + 1;
          M old = na[key];
          na.erase(key);
          if (b.insert(std::move(node)).inserted) nb[key + 1] = old;
        }
        break;
      }
      default:
        a.merge(b);
        for (auto& e : mb)
          if (na.emplace(e).second) nb.erase(e.first);
#else
      default:
        a.insert(b.begin(), b.end());
        na.insert(mb.begin(), mb.end());
#endif
    }
    auto get = [](const Map& x) {
      std::map<long, M> r;
      for (auto& e : x) r[e.first] = Ev::get(e.second);
      return r;
    };
    std::map<long, M> ga = get(a), gb = get(b);
    if (o == DONE) {
      REQF(L(15), ga == na && gb == nb, "%s: operation %u on a map left other contents than the model", what, op);
      ma = na;
      mb = nb;
    } else {
      if (strong) REQF(L(6), ga == ma, "%s: failed map operation %u (%s) changed the map", what, op, mon::fc.site);
      REQ(L(6), gb == mb);
      ma = ga;
      vt::seen(L(6), sig(what, op, k, static_cast<long>(ma.size())));
      for (auto& e : ga)
        for (long x : e.second) REQ(L(6, 5), x != VALUELESS);  // copying never leaves anything valueless
    }
    mon::sh->ctx = 0;
    vt::seen(L(15), sig(what, op, static_cast<long>(ga.size()), static_cast<long>(gb.size()), m[0]));
  }
}
template <class A>
void sets(const char* what, mon::Rng& rng) {
  typedef xyz::indirect<Val, A> T;
  typedef std::multiset<T> Set;
  Set a;
  std::multiset<M> ma;
  cur_arena = -1;
  for (unsigned step = 0; step < 60; ++step) {
    M m = E<T>::gen(rng);
    T t(E<T>::make(m, rng));
    if (rng.chance(10)) {
      T gone(std::move(t));
      m[0] = VALUELESS;  // least
    }
    mon::hist("%s; ", show(m).c_str());
    if (rng.chance(65)) {
      a.insert(t);
      ma.insert(m);
    } else {
      REQ(L(15, 8), a.erase(t) == ma.erase(m));
    }
    std::vector<M> ga;
    for (const T& x : a) ga.push_back(E<T>::get(x));
    REQF(L(15, 8), ga == std::vector<M>(ma.begin(), ma.end()), "%s: ordered set holds %s", what, show(ga).c_str());
    REQ(L(15, 8), a.count(t) == ma.count(m));
    vt::seen(L(15), sig(what, static_cast<long>(mon::fnv(show(ga)))));
  }
  cur_arena = 3;
}
}  // namespace
CASE(map_indirect, L(15), 30) { maps<IndOf<AF>>("map indirect fff", rng); }
CASE(map_polymorphic, L(15), 30) { maps<PolyOf<SA>>("map polymorphic std", rng); }
CASE(map_composite, L(15), 30) { maps<CompOf<SA>>("map composite std", rng); }
CASE(set_indirect, L(15), 20) {
  sets<AF<Val>>("multiset fff", rng);
  sets<AT<Val>>("multiset ttt_hook", rng);
}

// ------------------------------------------------------------------ wrappers of single values
namespace {
// W: how to put a T in and look at it
template <class T>
struct InPair {
  typedef std::pair<T, T> W;
  static W make(const M& m, mon::Rng& rng) { return W(E<T>::make(m, rng), E<T>::make(m, rng)); }
  static std::vector<M> get(const W& w) { return {E<T>::get(w.first), E<T>::get(w.second)}; }
  static bool holds(const W&) { return true; }
};
template <class T>
struct InTuple {
  typedef std::tuple<int, T, std::string> W;
  static W make(const M& m, mon::Rng& rng) { return W(3, E<T>::make(m, rng), "tuple"); }
  static std::vector<M> get(const W& w) { return {E<T>::get(std::get<1>(w))}; }
  static bool holds(const W&) { return true; }
};
template <class T>
struct InArray {
  typedef std::array<T, 2> W;
  static W make(const M& m, mon::Rng& rng) { return W{{E<T>::make(m, rng), E<T>::make(m, rng)}}; }
  static std::vector<M> get(const W& w) { return {E<T>::get(w[0]), E<T>::get(w[1])}; }
  static bool holds(const W&) { return true; }
};
template <class T>
struct Derived : T {  // a class derived from the composite
  T extra;
  Derived(T a, T b) : T(std::move(a)), extra(std::move(b)) {}
};
template <class T>
struct InDerived {
  typedef Derived<T> W;
  static W make(const M& m, mon::Rng& rng) { return W(E<T>::make(m, rng), E<T>::make(m, rng)); }
  static std::vector<M> get(const W& w) { return {E<T>::get(w), E<T>::get(w.extra)}; }
  static bool holds(const W&) { return true; }
};
template <class T>
struct InFunction {
  typedef std::function<M()> W;
  static W make(const M& m, mon::Rng& rng) {
    T t(E<T>::make(m, rng));
    return W([t] { return E<T>::get(t); });
  }
  static std::vector<M> get(const W& w) {
    if (!w) return {};
    mon::Internal g;
    return {w()};
  }
  static bool holds(const W& w) { return static_cast<bool>(w); }
};
#if __cplusplus >= 201703L
template <class T>
struct InOptional {
  typedef std::optional<T> W;
  static W make(const M& m, mon::Rng& rng) { return m.back() % 4 == 3 ? W() : W(E<T>::make(m, rng)); }
  static std::vector<M> get(const W& w) {
    if (!w) return {};
    return {E<T>::get(*w)};
  }
  static bool holds(const W&) { return true; }
};
template <class T>
struct InVariant {
  typedef std::variant<T, long, std::string, std::vector<T>> W;
  static W make(const M& m, mon::Rng& rng) {
    switch (m.back() % 4) {
      case 0:
        return W(std::in_place_index<0>, E<T>::make(m, rng));
      case 1:
        return W(m[0]);
      case 2:
        return W(std::string("string alternative " + std::to_string(m[0])));
      default: {
        std::vector<T> v;
        v.push_back(E<T>::make(m, rng));
        return W(std::move(v));
      }
    }
  }
  static std::vector<M> get(const W& w) {
    std::vector<M> r;
    r.push_back(M{static_cast<long>(w.index())});
    if (w.index() == 0) r.push_back(E<T>::get(std::get<0>(w)));
    if (w.index() == 1) r.push_back(M{std::get<1>(w)});
    if (w.index() == 2) r.push_back(M(std::get<2>(w).begin(), std::get<2>(w).end()));
    if (w.index() == 3)
      for (const T& t : std::get<3>(w)) r.push_back(E<T>::get(t));
    return r;
  }
  static bool holds(const W& w) { return !w.valueless_by_exception(); }
};
template <class T>
struct InAny {
  typedef std::any W;
  static W make(const M& m, mon::Rng& rng) { return W(E<T>::make(m, rng)); }
  static std::vector<M> get(const W& w) {
    if (!w.has_value()) return {};
    return {E<T>::get(*std::any_cast<T>(&w))};
  }
  static bool holds(const W& w) { return w.has_value(); }
};
#endif

template <class H, class T>
void wrapped(const char* what, mon::Rng& rng) {
  typedef typename H::W W;
  typedef E<T> Ev;
  // three variables
  std::vector<W> x;
  std::vector<std::vector<M>> mx(3);
  x.reserve(3);
  for (std::size_t q = 0; q < 3; ++q) {
    x.push_back(H::make(Ev::gen(rng), rng));
    mx[q] = H::get(x[q]);
  }
  for (unsigned step = 0; step < (thorough ? 100u : 30u); ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    mon::sh->ctx = 0;
    unsigned op = rng.below(7);
    std::size_t i = rng.below(3), j = rng.below(3);
    int k = rng.chance(40) ? 1 + static_cast<int>(rng.below(8)) : 0;
    mon::hist("op%u %zu %zu k%d; ", op, i, j, k);
    std::vector<std::vector<M>> nx = mx;
    Outcome o = DONE;
    bool source_free = false;  // x[j] was moved from
    switch (op) {
      case 0: {  // a new value
        M m = Ev::gen(rng);
        W w(H::make(m, rng));
        nx[i] = H::get(w);
        o = attempt(what, k, 1, [&] { x[i] = static_cast<const W&>(w); });
        break;
      }
      case 1:
        nx[i] = mx[j];
        o = attempt(what, k, 1, [&] { x[i] = static_cast<const W&>(x[j]); });
        break;
      case 2:
        if (i != j) {
          nx[i] = mx[j];
          source_free = true;
          o = attempt(what, k, 1, [&] { x[i] = std::move(x[j]); });
        }
        break;
      case 3: {
        using std::swap;
        std::swap(nx[i], nx[j]);
        o = attempt(what, 0, 0, [&] { swap(x[i], x[j]); });
        break;
      }
      case 4:
        o = attempt(what, k, 1, [&] {
          W c(static_cast<const W&>(x[i]));
          mon::Internal g;
          REQ(L(15, 2), H::get(c) == mx[i]);
        });
        break;
      case 5:
        o = attempt(what, 0, 0, [&] {
          W c(std::move(x[i]));
          x[i] = std::move(c);
        });
        break;
      default:
        nx[i] = mx[j];
        o = attempt(what, 0, 0, [&] {
          W c(static_cast<const W&>(x[j]));
          x[i] = std::move(c);
        });
    }
    if (o == DONE) {
      for (std::size_t q = 0; q < 3; ++q) {
        if (source_free && q == j) continue;
        REQF(L(15), H::get(x[q]) == nx[q], "%s: operation %u on #%zu, #%zu left #%zu as %s, expected %s", what, op, i, j, q,
             show(H::get(x[q])).c_str(), show(nx[q]).c_str());
      }
    } else {
      for (std::size_t q = 0; q < 3; ++q) {
        std::vector<M> g = H::get(x[q]);  // readable
        if (q != i && !(source_free && q == j)) REQ(L(6), g == mx[q]);
      }
      vt::seen(L(6), sig(what, op, k));
      source_free = false;
      nx = mx;
      x[i] = H::make(Ev::gen(rng), rng);
      nx[i] = H::get(x[i]);
      if (i != j && op == 2) {
        x[j] = H::make(Ev::gen(rng), rng);
        nx[j] = H::get(x[j]);
      }
    }
    if (source_free) {
      x[j] = H::make(Ev::gen(rng), rng);
      nx[j] = H::get(x[j]);
    }
    mx = nx;
    mon::sh->ctx = 0;
    vt::seen(L(15), sig(what, op, static_cast<long>(i), static_cast<long>(j), static_cast<long>(mon::fnv(show(mx[i])))));
  }
}
#if __cplusplus > 202002L && defined(__cpp_lib_expected)
template <class T>
struct InExpected {
  typedef std::expected<T, std::string> W;
  static W make(const M& m, mon::Rng& rng) {
    if (m.back() % 4 == 3) return W(std::unexpect, "an error description of some length " + std::to_string(m[0]));
    return W(E<T>::make(m, rng));
  }
  static std::vector<M> get(const W& w) {
    if (!w) return {M(w.error().begin(), w.error().end())};
    return {E<T>::get(*w)};
  }
  static bool holds(const W&) { return true; }
};
template <class T>
struct InUnexpected {
  typedef std::expected<long, T> W;
  static W make(const M& m, mon::Rng& rng) {
    if (m.back() % 4 == 3) return W(m[0]);
    return W(std::unexpect, E<T>::make(m, rng));
  }
  static std::vector<M> get(const W& w) {
    if (w) return {M{*w}};
    return {M{-1}, E<T>::get(w.error())};
  }
  static bool holds(const W&) { return true; }
};
#endif
}  // namespace
#define WRAP(H)                                                                             \
  CASE(wrap_##H##_ind, L(15), 12) { wrapped<H<IndOf<AF>>, IndOf<AF>>(#H " indirect", rng); } \
  CASE(wrap_##H##_poly, L(15), 12) { wrapped<H<PolyOf<SA>>, PolyOf<SA>>(#H " polymorphic", rng); }
WRAP(InPair)
WRAP(InTuple)
WRAP(InArray)
WRAP(InFunction)
CASE(wrap_derived, L(15), 12) { wrapped<InDerived<CompOf<SA>>, CompOf<SA>>("derived composite", rng); }
#if __cplusplus >= 201703L
WRAP(InOptional)
WRAP(InVariant)
WRAP(InAny)
#if __cplusplus > 202002L && defined(__cpp_lib_expected)
WRAP(InExpected)
WRAP(InUnexpected)
#endif
CASE(wrap_optional_comp, L(15), 12) { wrapped<InOptional<CompOf<AF>>, CompOf<AF>>("optional composite", rng); }
CASE(wrap_variant_comp, L(15), 12) { wrapped<InVariant<CompOf<AF>>, CompOf<AF>>("variant composite", rng); }
#endif

// ------------------------------------------------------------------ pmr: the resource supplies all
#if __cplusplus >= 201703L
namespace {
typedef xyz::indirect<Val, PmrAlloc<Val>> PI;
typedef xyz::polymorphic<Sh, PmrAlloc<Sh>> PP;
template <class X>
int arena_at(const X& x) {
  mon::BlockInfo b = mon::block_of(static_cast<const void*>(std::addressof(*x)), 1);
  return b.found ? b.arena : -1;
}
template <class X>
int resource_of(const X& x) {
  MonResource* r = dynamic_cast<MonResource*>(x.get_allocator().resource());
  return r ? r->arena() : -1;
}
template <class V>
void check_pmr(const char* what, const V& v, int arena, const std::vector<M>& model) {
  REQF(L(15), get_all(v) == model, "%s: pmr container holds %s, expected %s", what, show(get_all(v)).c_str(), show(model).c_str());
  for (const auto& x : v) {
    REQF(L(15, 7), resource_of(x) == arena, "%s: element holds resource %d, its container %d", what, resource_of(x), arena);
    if (!x.valueless_after_move())
      REQF(L(15, 7), arena_at(x) == arena, "%s: element stored in resource %d, its container uses %d", what, arena_at(x), arena);
  }
}
template <class T>
void pmr(const char* what, mon::Rng& rng) {
  typedef std::pmr::vector<T> V;
  typedef E<T> Ev;
  MonResource::install();
  V a(MonResource::get(3)), b(MonResource::get(rng.chance(50) ? 4 : 3));
  int bar = resource_of(b);
  std::vector<M> ma, mb;
  for (unsigned step = 0; step < 40; ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    M m = Ev::gen(rng);
    unsigned op = rng.below(9);
    mon::hist("op%u %s; ", op, show(m).c_str());
    cur_arena = 3 + static_cast<int>(rng.below(4));
    std::size_t i = ma.empty() ? 0 : rng.below(static_cast<unsigned>(ma.size()));
    typedef std::vector<M>::difference_type D;
    D di = static_cast<D>(i);
    switch (op) {
      case 0: {
        const T t(Ev::make(m, rng));
        a.push_back(t);
        ma.push_back(m);
        break;
      }
      case 1: {
        T t(Ev::make(m, rng));
        a.push_back(std::move(t));
        ma.push_back(m);
        break;
      }
      case 2: {
        T t(Ev::make(m, rng));
        a.insert(a.begin() + di, t);
        ma.insert(ma.begin() + di, m);
        break;
      }
      case 3:
        if (!ma.empty()) {
          a.erase(a.begin() + di);
          ma.erase(ma.begin() + di);
        }
        break;
      case 4:
        b = a;
        mb = ma;
        break;
      case 5:
        b = std::move(a);
        a.clear();
        mb = ma;
        ma.clear();
        break;
      case 6: {
        V t(a, MonResource::get(5));
        check_pmr(what, t, 5, ma);
        V u2(std::move(t), MonResource::get(6));
        check_pmr(what, u2, 6, ma);
        V d(a);
        check_pmr(what, d, DEFAULT_ARENA, ma);
        break;
      }
      case 7:
        if (!ma.empty() && !mb.empty()) {
          a[i] = b[0];
          ma[i] = mb[0];
          a[i] = std::move(b[0]);
          b.erase(b.begin());
          mb.erase(mb.begin());
        }
        break;
      default:
        std::sort(a.begin(), a.end(), [](const T& x, const T& y) { return Ev::less(x, y); });
        std::sort(ma.begin(), ma.end());
    }
    check_pmr(what, a, 3, ma);
    check_pmr(what, b, bar, mb);
    vt::seen(L(15, 7), sig(what, op, bar, static_cast<long>(mon::fnv(show(ma)))));
  }
  cur_arena = 3;
}
}  // namespace
CASE(pmr_indirect, L(15, 7), 20) { pmr<PI>("pmr::vector<indirect>", rng); }
CASE(pmr_polymorphic, L(15, 7), 20) { pmr<PP>("pmr::vector<polymorphic>", rng); }
CASE(pmr_emplace, L(15, 7), 1) {
  (void)rng;
  MonResource::install();
  std::pmr::vector<PI> v(MonResource::get(7));
  std::pmr::map<int, PP> m(MonResource::get(8));
  std::pmr::list<PP> l(MonResource::get(9));
  for (long i = 0; i < 9; ++i) {
    mon::Window w;
    v.emplace_back(vt::in_place(), i);
#if VT_HDR == 20
    m.emplace(std::piecewise_construct, std::forward_as_tuple(static_cast<int>(i)),
              std::forward_as_tuple(in_place_type<Sq>(), i));
    l.emplace_back(in_place_type<Ci>(), i);
#endif
  }
  std::vector<M> want;
  for (long i = 0; i < 9; ++i) want.push_back(M{i});
  check_pmr("emplace", v, 7, want);
  for (auto& e : m) REQ(L(15, 7), arena_at(e.second) == 8 && e.second->kind() == 1 && e.second->b.v() == e.first);
  for (auto& e : l) REQ(L(15, 7), arena_at(e) == 9 && e->kind() == 2);
  vt::seen(L(15, 7), sig("emplace"));
}
#endif

// ------------------------------------------------------------------ recursive structures
namespace {
// an expression tree evaluated before and after being shuffled about
struct Expr;
typedef xyz::polymorphic<Expr> PE;
struct Expr {
  Core<310> c;
  Expr() : c(BaseTag(), 0) {}
  Expr(const Expr&) = default;
  virtual ~Expr() {}
  virtual long eval() const = 0;
};
struct Num : Expr {
  long v;
  explicit Num(long x) : v(x) {}
  long eval() const override { return v; }
};
struct Bin : Expr {
  char op;
  PE l, r;
  Bin(char o, PE a, PE b) : op(o), l(std::move(a)), r(std::move(b)) {}
  long eval() const override {
    long a = l->eval(), b = r->eval();
    return op == '+' ? a + b : op == '-' ? a - b : (a * b) % 10007;
  }
};
struct Plain {  // the same as plain values
  char op;
  long v;
  std::vector<Plain> kids;
  long eval() const {
    if (!op) return v;
    long a = kids[0].eval(), b = kids[1].eval();
    return op == '+' ? a + b : op == '-' ? a - b : (a * b) % 10007;
  }
};
PE gen(mon::Rng& rng, int depth, Plain& p) {
  if (depth == 0 || rng.chance(20)) {
    p.op = 0;
    p.v = static_cast<long>(rng.below(100));
    return PE(in_place_type<Num>(), p.v);
  }
  p.op = "+-*"[rng.below(3)];
  p.v = 0;
  p.kids.resize(2);
  PE l = gen(rng, depth - 1, p.kids[0]), r = gen(rng, depth - 1, p.kids[1]);
  return PE(in_place_type<Bin>(), p.op, std::move(l), std::move(r));
}
struct Json {
  Core<311> c;
  long num = 0;
  std::vector<xyz::indirect<Json>> arr;
  std::map<std::string, xyz::indirect<Json>> obj;
  Json() : c(BaseTag(), 0) {}
};
bool operator==(const Json& a, const Json& b) { return a.num == b.num && a.arr == b.arr && a.obj == b.obj; }
#if VT_HDR != 20
bool operator!=(const Json& a, const Json& b) { return !(a == b); }
#endif
xyz::indirect<Json> json(mon::Rng& rng, int depth, std::string& text) {
  xyz::indirect<Json> j;
  j->num = static_cast<long>(rng.below(5));
  text += std::to_string(j->num);
  for (unsigned i = depth ? rng.below(4) : 0; i-- > 0;) {
    text += "[";
    j->arr.push_back(json(rng, depth - 1, text));
    text += "]";
  }
  for (unsigned i = depth ? rng.below(3) : 0; i-- > 0;) {
    text += "{";
    j->obj.emplace("k" + std::to_string(i), json(rng, depth - 1, text));
    text += "}";
  }
  return j;
}
}  // namespace
CASE(recursive_expr, L(15), 30) {
  Plain p;
  PE e = gen(rng, 5, p);
  REQ(L(15), e->eval() == p.eval());
  std::vector<PE> es;
  std::vector<Plain> ps;
  for (int i = 0; i < 12; ++i) {
    es.push_back(e);
    ps.push_back(p);
    if (rng.chance(50)) {
      PE t(in_place_type<Bin>(), '+', e, PE(in_place_type<Num>(), i));
      Plain q = {'+', 0, {p, Plain{0, i, {}}}};
      e = std::move(t);
      p = q;
    }
    std::size_t x = rng.below(static_cast<unsigned>(es.size())), y = rng.below(static_cast<unsigned>(es.size()));
    std::swap(es[x], es[y]);
    std::swap(ps[x], ps[y]);
    es[y] = es[x];
    ps[y] = ps[x];
    for (std::size_t z = 0; z < es.size(); ++z) REQ(L(15, 2), es[z]->eval() == ps[z].eval());
    REQ(L(15), e->eval() == p.eval());
    vt::seen(L(15), sig("expr", p.eval()));
  }
}
CASE(recursive_json, L(15), 30) {
  std::string t1, t2;
  xyz::indirect<Json> a = json(rng, 3, t1), b = json(rng, 3, t2);
  REQF(L(15, 8), (a == b) == (t1 == t2), "recursive values compare %d", a == b);
  xyz::indirect<Json> c(a);
  REQ(L(15, 2), c == a && !(c != a));
  if (!c->arr.empty()) {
    c->arr[0]->num += 100;
    REQ(L(15, 2), c != a);
    c->arr[0]->num -= 100;
    REQ(L(15, 2), c == a);
  }
  swap(a, b);
  REQ(L(15, 11), (c == a) == (t1 == t2) && c == b);
  a = std::move(b);
  REQ(L(15), a == c && b.valueless_after_move());
  vt::seen(L(15), sig(t1.c_str()));
}
#endif

// ------------------------------------------------------------------ further containers, ranges, shared state
#if !defined(VT_PART) || VT_PART == 6
namespace {
template <class C>
std::map<const void*, M> objects(const C& c) {  // where the owned objects are
  typedef typename C::value_type T;
  std::map<const void*, M> r;
  mon::Internal g;
  for (const T& t : c)
    if (E<T>::engaged(t)) r[std::addressof(*t)] = E<T>::get(t);
  return r;
}
// std::forward_list next to a vector of values; what only relinks nodes must leave every object where it is
template <class T>
void forward(const char* what, mon::Rng& rng) {
  typedef E<T> Ev;
  typedef std::forward_list<T> C;
  typedef std::vector<M>::difference_type D;
  C a, b;
  std::vector<M> ma, mb;
  auto less = [](const T& x, const T& y) {
    mon::Internal g;
    return Ev::get(x) < Ev::get(y);
  };
  auto before = [](C& c, std::size_t x) { return std::next(c.before_begin(), static_cast<long>(x)); };
  for (unsigned step = 0; step < (thorough ? 120u : 40u); ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    mon::sh->ctx = 0;
    unsigned op = rng.below(14);
    std::size_t n = ma.size();
    if (n > 12 && op < 3) op = 3;
    std::size_t i = n ? rng.below(static_cast<unsigned>(n)) : 0;
    M m = Ev::gen(rng);
    int k = rng.chance(40) ? 1 + static_cast<int>(rng.below(4)) : 0;
    std::vector<M> na = ma, nb = mb;
    Outcome o = DONE;
    bool relinks = false;
    std::map<const void*, M> was = objects(a), was_b = objects(b);
    mon::hist("op%u i%zu k%d %s; ", op, i, k, show(m).c_str());
    switch (op) {
      case 0: {
        T t(Ev::make(m, rng));
        o = attempt(what, k, 1, [&] { a.push_front(static_cast<const T&>(t)); });
        na.insert(na.begin(), m);
        break;
      }
      case 1: {
        T t(Ev::make(m, rng));
        o = attempt(what, k, 0, [&] { a.insert_after(before(a, i), std::move(t)); });
        na.insert(na.begin() + static_cast<D>(i), m);
        break;
      }
      case 2: {
        T t(Ev::make(m, rng));
        o = attempt(what, k, 1, [&] { a.insert_after(before(a, i), 3, t); });
        na.insert(na.begin() + static_cast<D>(i), 3, m);
        break;
      }
      case 3:
        if (n) {
          a.erase_after(before(a, i));
          na.erase(na.begin() + static_cast<D>(i));
        }
        break;
      case 4:
        a.splice_after(before(a, i), b);
        na.insert(na.begin() + static_cast<D>(i), mb.begin(), mb.end());
        nb.clear();
        relinks = true;
        break;
      case 5:
        a.sort(less);
        std::sort(na.begin(), na.end());
        relinks = true;
        break;
      case 6:
        a.reverse();
        std::reverse(na.begin(), na.end());
        relinks = true;
        break;
      case 7:
        a.sort(less);
        b.sort(less);
        a.merge(b, less);
        std::sort(na.begin(), na.end());
        std::sort(nb.begin(), nb.end());
        na.insert(na.end(), nb.begin(), nb.end());
        std::sort(na.begin(), na.end());
        nb.clear();
        relinks = true;
        break;
      case 8:
        a.unique([](const T& x, const T& y) {
          mon::Internal g;
          return Ev::get(x) == Ev::get(y);
        });
        na.erase(std::unique(na.begin(), na.end()), na.end());
        break;
      case 9:
        a.remove_if([&](const T& x) {
          mon::Internal g;
          return Ev::get(x).back() < 4;
        });
        na.erase(std::remove_if(na.begin(), na.end(), [](const M& x) { return x.back() < 4; }), na.end());
        break;
      case 10:
        o = attempt(what, k, 1, [&] { b = static_cast<const C&>(a); });
        nb = ma;
        break;
      case 11:
        a.swap(b);
        std::swap(na, nb);
        relinks = true;
        break;
      case 12: {
        std::size_t to = rng.below(8);
        T t(Ev::make(m, rng));
        o = attempt(what, k, 0, [&] { a.resize(to, t); });
        na.resize(to, m);
        break;
      }
      default:
        a = std::move(b);
        b.clear();
        na = mb;
        nb.clear();
    }
    std::vector<M> ga = get_all(a), gb = get_all(b);
    if (o == DONE) {
      REQF(L(15), ga == na && gb == nb, "%s: operation %u gave %s and %s, expected %s and %s", what, op, show(ga).c_str(),
           show(gb).c_str(), show(na).c_str(), show(nb).c_str());
      if (relinks) {
        std::map<const void*, M> all = objects(a), all_b = objects(b);
        all.insert(all_b.begin(), all_b.end());
        was.insert(was_b.begin(), was_b.end());
        REQF(L(15, 4), all == was, "%s: operation %u did not leave the owned objects where they were", what, op);
      }
      ma = na;
      mb = nb;
    } else {
      vt::seen(L(6), sig(what, op, k));
      if (op < 2) REQF(L(6), ga == ma, "%s: failed operation %u changed %s to %s", what, op, show(ma).c_str(), show(ga).c_str());
      a.clear();
      b.clear();
      ma.clear();
      mb.clear();
    }
    vt::seen(L(15), sig(what, op, static_cast<long>(mon::fnv(show(ga)))));
  }
}
// adaptors: priority_queue, queue and stack
template <class T>
void queues(const char* what, mon::Rng& rng) {
  typedef E<T> Ev;
  struct Less {
    bool operator()(const T& x, const T& y) const {
      mon::Internal g;
      return Ev::get(x) < Ev::get(y);
    }
  };
  std::priority_queue<T, std::vector<T>, Less> p;
  std::multiset<M> mp;
  std::queue<T> q;
  std::deque<M> mq;
  std::stack<T, std::vector<T>> s;
  std::vector<M> ms;
  for (unsigned step = 0; step < (thorough ? 150u : 50u); ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    M m = Ev::gen(rng);
    if (rng.chance(60) || mp.empty()) {
      T t(Ev::make(m, rng)), u(t);
      const void* where = std::addressof(*u);
      p.push(t);
      q.push(std::move(t));
      s.push(std::move(u));
      REQ(L(15, 4), std::addressof(*s.top()) == where);
      mp.insert(m);
      mq.push_back(m);
      ms.push_back(m);
    } else {
      REQF(L(15), Ev::get(p.top()) == *mp.rbegin(), "%s: top is %s, expected %s", what, show(Ev::get(p.top())).c_str(), show(*mp.rbegin()).c_str());
      p.pop();
      mp.erase(std::prev(mp.end()));
      if (!ms.empty()) {
        REQ(L(15), Ev::get(s.top()) == ms.back());
        T out(std::move(s.top()));
        s.pop();
        REQ(L(15), Ev::get(out) == ms.back());
        ms.pop_back();
      }
      if (!mq.empty()) {
        REQ(L(15), Ev::get(q.front()) == mq.front() && Ev::get(q.back()) == mq.back());
        q.pop();
        mq.pop_front();
      }
    }
    if (rng.chance(8)) {
      auto p2 = p;
      auto q2 = std::move(q);
      q = q2;
      std::swap(p, p2);
    }
    REQ(L(15), p.size() == mp.size() && q.size() == mq.size() && s.size() == ms.size());
    vt::seen(L(15), sig(what, static_cast<long>(mp.size()), static_cast<long>(mq.size()), m.back()));
  }
}
// handed through shared state: promise and future, packaged tasks, shared and unique pointers
template <class T>
void handed(const char* what, mon::Rng& rng) {
  typedef E<T> Ev;
  for (int round = 0; round < 4; ++round) {
    mon::sh->progress = mon::sh->progress + 1;
    M m = Ev::gen(rng);
    T t(Ev::make(m, rng));
    const void* where = std::addressof(*t);
    std::promise<T> pr;
    std::future<T> fu = pr.get_future();
    if (rng.chance(50)) {
      pr.set_value(t);
      REQ(L(15, 2), Ev::get(t) == m);
    } else {
      pr.set_value(std::move(t));
      REQ(L(15, 4), t.valueless_after_move());
    }
    T got(fu.get());
    REQF(L(15), Ev::get(got) == m, "%s: a future delivers %s instead of %s", what, show(Ev::get(got)).c_str(), show(m).c_str());
    if (t.valueless_after_move()) REQ(L(15, 4), std::addressof(*got) == where);
    std::packaged_task<T(T)> task([](T x) { return x; });
    std::future<T> f2 = task.get_future();
    where = std::addressof(*got);
    task(std::move(got));
    T back(f2.get());
    REQ(L(15), Ev::get(back) == m);
    REQ(L(15, 4), std::addressof(*back) == where);
    std::shared_ptr<T> sp = std::make_shared<T>(std::move(back));
    std::shared_ptr<const T> alias(sp);
    std::weak_ptr<T> weak(sp);
    std::unique_ptr<T> up(new T(*alias));
    REQ(L(15, 2), Ev::get(*up) == m && std::addressof(**up) != where);
    REQ(L(15, 4), std::addressof(**sp) == where);
    std::function<M(const T&)> look = [](const T& x) { return Ev::get(x); };
    REQ(L(15), look(*weak.lock()) == m);
    auto bound = std::bind([](const T& x, int) { return Ev::get(x); }, *sp, 3);
    auto bound2 = bound;
    REQ(L(15), bound() == m && bound2() == m);
    T ex(std::exchange(*sp, std::move(*up)));
    REQ(L(15, 4), std::addressof(*ex) == where && up->valueless_after_move() && Ev::get(*sp) == m);
    try {
      throw T(ex);
    } catch (const T& caught) {
      REQ(L(15, 2), Ev::get(caught) == m && std::addressof(*caught) != where);
      std::exception_ptr ep = std::make_exception_ptr(caught);
      try {
        std::rethrow_exception(ep);
      } catch (T& again) {
        REQ(L(15), Ev::get(again) == m);
        again = std::move(ex);
        REQ(L(15, 4), std::addressof(*again) == where);
      }
    }
    vt::seen(L(15), sig(what, round, m.back()));
  }
}
#if VT_HDR == 20
// constrained algorithms, projections and views
template <class T>
void ranged(const char* what, mon::Rng& rng) {
  typedef E<T> Ev;
  namespace R = std::ranges;
  static_assert(std::movable<T> && std::copyable<T> && std::swappable<T>, "a value type");
  cur_arena = 3;
  std::vector<T> v;
  std::vector<M> mv;
  auto value = [](const T& t) {
    mon::Internal g;
    return Ev::get(t);
  };
  for (unsigned i = 0, n = rng.below(12); i < n; ++i) {
    M m = Ev::gen(rng);
    v.push_back(Ev::make(m, rng));
    mv.push_back(m);
  }
  for (unsigned step = 0; step < 12; ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    unsigned op = rng.below(10);
    std::map<const void*, M> was = objects(v);
    bool keeps = true;  // every owned object survives, where it is
    mon::hist("op%u; ", op);
    switch (op) {
      case 0:
        R::sort(v, {}, value);
        R::sort(mv);
        break;
      case 1:
        R::stable_sort(v, R::greater(), value);
        R::stable_sort(mv, R::greater());
        break;
      case 2:
        R::reverse(v);
        R::reverse(mv);
        break;
      case 3:
        R::stable_partition(v, [](const M& m) { return m.back() % 2 == 0; }, value);
        R::stable_partition(mv, [](const M& m) { return m.back() % 2 == 0; });
        break;
      case 4: {
        auto k = static_cast<long>(rng.below(static_cast<unsigned>(v.size() + 1)));
        R::rotate(v, v.begin() + k);
        R::rotate(mv, mv.begin() + k);
        break;
      }
      case 5: {
        keeps = false;
        auto odd = v | std::views::filter([&](const T& t) { return value(t).back() % 2; });
        std::vector<T> w(odd.begin(), odd.end());
        std::vector<M> mw;
        R::copy_if(mv, std::back_inserter(mw), [](const M& m) { return m.back() % 2; });
        REQF(L(15, 2), get_all(w) == mw, "%s: a filtered view gives %s", what, show(get_all(w)).c_str());
        auto s = v | std::views::transform(value) | std::views::reverse;
        std::vector<M> x(s.begin(), s.end());
        R::reverse(x);
        REQ(L(15), x == mv);
        keeps = true;
        break;
      }
      case 6: {
        keeps = false;
        auto n1 = std::erase_if(v, [&](const T& t) { return value(t).back() == 3; });
        auto n2 = std::erase_if(mv, [](const M& m) { return m.back() == 3; });
        REQ(L(15), n1 == n2);
        break;
      }
      case 7: {
        std::vector<T> w(v.size(), Ev::make(Ev::gen(rng), rng));
        R::move(v, w.begin());
        v.swap(w);
        break;
      }
      case 8: {
        std::span<const T> sp(v);
        auto mx = R::max_element(sp, {}, value);
        if (!v.empty()) REQ(L(15), value(*mx) == *R::max_element(mv));
        REQ(L(15), R::equal(sp, mv, {}, value));
        std::vector<T> copy(v);
        REQ(L(15, 2), R::equal(copy, v, {}, value, value));
        break;
      }
      default:
        if (v.size() > 2) {
          keeps = false;
          std::shift_left(v.begin(), v.end(), 1);
          v.pop_back();
          mv.erase(mv.begin());
        }
    }
    REQF(L(15), get_all(v) == mv, "%s: operation %u gave %s, expected %s", what, op, show(get_all(v)).c_str(), show(mv).c_str());
    if (keeps) REQF(L(15, 4), objects(v) == was, "%s: operation %u did not keep the owned objects", what, op);
    vt::seen(L(15), sig(what, op, static_cast<long>(mon::fnv(show(mv)))));
  }
}
#endif
}  // namespace
CASE(forward_indirect, L(15), 20) {
  cur_arena = 3;
  forward<IndOf<AF>>("forward_list<indirect> fff", rng);
  forward<IndOf<AT>>("forward_list<indirect> ttt_hook", rng);
}
CASE(forward_polymorphic, L(15), 20) {
  cur_arena = 3;
  forward<PolyOf<AF>>("forward_list<polymorphic> fff", rng);
  forward<PolyOf<SA>>("forward_list<polymorphic> std", rng);
}
CASE(queues_indirect, L(15), 12) {
  cur_arena = 3;
  queues<IndOf<AF>>("queues of indirect fff", rng);
  queues<IndOf<SA>>("queues of indirect std", rng);
}
CASE(queues_polymorphic, L(15), 12) {
  cur_arena = 3;
  queues<PolyOf<AT>>("queues of polymorphic ttt_hook", rng);
  queues<PolyOf<SA>>("queues of polymorphic std", rng);
}
CASE(handed_indirect, L(15), 12) {
  cur_arena = 3;
  handed<IndOf<AF>>("indirect fff", rng);
  handed<IndOf<SA>>("indirect std", rng);
}
CASE(handed_polymorphic, L(15), 12) {
  cur_arena = 3;
  handed<PolyOf<AT>>("polymorphic ttt_hook", rng);
  handed<PolyOf<SA>>("polymorphic std", rng);
}
#if VT_HDR == 20
CASE(ranged_indirect, L(15), 30) {
  ranged<IndOf<AF>>("ranges of indirect fff", rng);
  ranged<IndOf<SA>>("ranges of indirect std", rng);
}
CASE(ranged_polymorphic, L(15), 30) {
  ranged<PolyOf<AF>>("ranges of polymorphic fff", rng);
  ranged<PolyOf<SA>>("ranges of polymorphic std", rng);
}
#endif
#endif
