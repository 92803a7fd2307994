// C17: random histories carried out by the compiler's evaluator of constant expressions, which refuses
// anything undefined (and anything leaked), and again at run time; both are compared with a model.
// VT_PART 1, 2: indirect; 3, 4: polymorphic.  VT_SEED, VT_HISTORIES, VT_STEPS: which and how many.
#include "cases.h"

#include <algorithm>
#include <compare>
#include <cstdint>
#include <initializer_list>
#include <limits>
#include <vector>
#ifndef VT_SEED
#define VT_SEED 1
#endif
#ifndef VT_HISTORIES
#define VT_HISTORIES 12
#endif
#ifndef VT_STEPS
#define VT_STEPS 40
#endif
using namespace vt;
using mon::L;

namespace {
struct CRng {
  std::uint64_t s;
  constexpr std::uint32_t next() {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<std::uint32_t>(s >> 33);
  }
  constexpr int below(int n) { return static_cast<int>(next() % static_cast<std::uint32_t>(n)); }
};
struct Ctx {  // what happened to owned objects and storage
  long alive = 0, blocks = 0, allocs = 0, cc = 0, mc = 0, ca = 0, ma = 0;
};

// ---- owned classes
struct ValBase {
  Ctx* x;
  long v;
  long* self;  // storage of its own
  constexpr ValBase(Ctx* c, long i) : x(c), v(i), self(new long(~i)) { ++x->alive; }
  constexpr ValBase(std::initializer_list<Ctx*> l, long k) : ValBase(*l.begin(), k + static_cast<long>(l.size())) {}
  constexpr ValBase(const ValBase& o) : x(o.x), v(o.v), self(new long(~v)) { ++x->alive, ++x->cc; }
  constexpr ValBase(ValBase&& o) : x(o.x), v(o.v), self(new long(~v)) {
    o.set(-1);
    ++x->alive, ++x->mc;
  }
  constexpr ValBase& operator=(const ValBase& o) {
    set(o.v);
    ++x->ca;
    return *this;
  }
  constexpr ValBase& operator=(ValBase&& o) {
    set(o.v);
    if (this != &o) o.set(-1);
    ++x->ma;
    return *this;
  }
  constexpr ~ValBase() {
    --x->alive;
    delete self;
  }
  constexpr void set(long i) {
    v = i;
    *self = ~i;
  }
  constexpr bool ok() const { return *self == ~v; }
};
struct Val : ValBase {
  using ValBase::ValBase;
  friend constexpr bool operator==(const Val& a, const Val& b) { return a.v == b.v; }
  friend constexpr auto operator<=>(const Val& a, const Val& b) { return a.v <=> b.v; }
};
struct alignas(64) BigVal : ValBase {  // large, over-aligned, and ordered by < alone
  long pad[60] = {7, 8, 9};
  using ValBase::ValBase;
  constexpr bool ok() const { return ValBase::ok() && pad[0] == 7 && pad[1] == 8 && pad[2] == 9 && pad[59] == 0; }
  friend constexpr bool operator==(const BigVal& a, const BigVal& b) { return a.v == b.v; }
  friend constexpr bool operator<(const BigVal& a, const BigVal& b) { return a.v < b.v; }
};
struct NTVal : ValBase {  // none of its operations throws
  using ValBase::ValBase;
  constexpr NTVal(const NTVal& o) noexcept : ValBase(o) {}
  constexpr NTVal(NTVal&& o) noexcept : ValBase(std::move(o)) {}
  constexpr NTVal& operator=(const NTVal& o) noexcept {
    ValBase::operator=(o);
    return *this;
  }
  constexpr NTVal& operator=(NTVal&& o) noexcept {
    ValBase::operator=(std::move(o));
    return *this;
  }
  friend constexpr bool operator==(const NTVal& a, const NTVal& b) { return a.v == b.v; }
  friend constexpr std::partial_ordering operator<=>(const NTVal& a, const NTVal& b) { return a.v <=> b.v; }
};
struct CopyVal : ValBase {  // rvalues are copied
  using ValBase::ValBase;
  constexpr CopyVal(const CopyVal& o) : ValBase(o) {}
  constexpr CopyVal& operator=(const CopyVal& o) {
    ValBase::operator=(o);
    return *this;
  }
  friend constexpr bool operator==(const CopyVal& a, const CopyVal& b) { return a.v == b.v; }
  friend constexpr std::weak_ordering operator<=>(const CopyVal& a, const CopyVal& b) { return a.v <=> b.v; }
};
struct ConstVal : ValBase {  // cannot be assigned
  const int fixed = 3;
  using ValBase::ValBase;
  ConstVal(const ConstVal&) = default;
  ConstVal(ConstVal&&) = default;
  constexpr bool ok() const { return ValBase::ok() && fixed == 3; }
  friend constexpr bool operator==(const ConstVal& a, const ConstVal& b) { return a.v == b.v; }
  friend constexpr auto operator<=>(const ConstVal& a, const ConstVal& b) { return a.v <=> b.v; }
};
struct TrivVal {  // trivial to copy and destroy: nothing can be counted
  Ctx* x;
  long v;
  constexpr TrivVal(Ctx* c, long i) : x(c), v(i) {}
  constexpr TrivVal(std::initializer_list<Ctx*> l, long k) : x(*l.begin()), v(k + static_cast<long>(l.size())) {}
  constexpr void set(long i) { v = i; }
  constexpr bool ok() const { return x != nullptr; }
  friend constexpr bool operator==(const TrivVal& a, const TrivVal& b) { return a.v == b.v; }
  friend constexpr auto operator<=>(const TrivVal& a, const TrivVal& b) { return a.v <=> b.v; }
};
template <class V>
constexpr bool counts = !std::is_same_v<V, TrivVal>;
template <class V>
constexpr bool moves = !std::is_same_v<V, TrivVal> && !std::is_same_v<V, CopyVal>;  // a moved-from one is marked

// ---- allocators
template <class T, bool PC, bool PM, bool PS, bool AE, bool SEL = false>
struct CA {
  using value_type = T;
  using propagate_on_container_copy_assignment = B_<PC>;
  using propagate_on_container_move_assignment = B_<PM>;
  using propagate_on_container_swap = B_<PS>;
  using is_always_equal = B_<AE>;
  template <class U>
  struct rebind {
    using other = CA<U, PC, PM, PS, AE, SEL>;
  };
  Ctx* x;
  int id;
  constexpr CA(Ctx* c, int i) : x(c), id(i) {}
  template <class U>
  constexpr CA(const CA<U, PC, PM, PS, AE, SEL>& o) : x(o.x), id(o.id) {}
  constexpr T* allocate(std::size_t n) {
    ++x->blocks, ++x->allocs;
    return std::allocator<T>().allocate(n);
  }
  constexpr void deallocate(T* p, std::size_t n) {
    --x->blocks;
    std::allocator<T>().deallocate(p, n);
  }
  constexpr CA select_on_container_copy_construction() const { return SEL ? CA(x, id + 10) : *this; }
  template <class U>
  friend constexpr bool operator==(const CA& a, const CA<U, PC, PM, PS, AE, SEL>& b) {
    return AE || a.id == b.id;
  }
};
template <class A>
struct Facts {
  typedef std::allocator_traits<A> AT;
  static constexpr bool pc = AT::propagate_on_container_copy_assignment::value,
                        pm = AT::propagate_on_container_move_assignment::value,
                        ps = AT::propagate_on_container_swap::value, ae = AT::is_always_equal::value;
};
template <class T>
constexpr int id_of(const std::allocator<T>&) {
  return 0;
}
template <class T, bool... B>
constexpr int id_of(const CA<T, B...>& a) {
  return a.id;
}
template <class A>
struct Mk {
  static constexpr A get(Ctx* c, int id) { return A(c, id); }
  static constexpr bool standard = false;
};
template <class T>
struct Mk<std::allocator<T>> {
  static constexpr std::allocator<T> get(Ctx*, int) { return {}; }
  static constexpr bool standard = true;
};

struct Out {
  std::uint64_t hash = 14695981039346656037ull;
  int bad = -1;      // line of the first disagreement with the model
  int bad_step = -1, bad_op = -1;
  std::uint64_t ops = 0;  // which operations took place
  constexpr void mix(long v) {
    hash = (hash ^ static_cast<std::uint64_t>(v)) * 1099511628211ull;
  }
  constexpr bool operator==(const Out& o) const {
    return hash == o.hash && bad == o.bad && bad_step == o.bad_step && ops == o.ops;
  }
};
struct MSlot {
  bool live = false, eng = false;
  long v = 0;
  int type = 0, id = 0;
};
#define EXPECT(C)                                     \
  do {                                                \
    if (!(C) && out.bad < 0) {                        \
      out.bad = __LINE__;                             \
      out.bad_step = step;                            \
      out.bad_op = op;                                \
    }                                                 \
  } while (0)
constexpr int NS = 3;

// ---------------------------------------------------------------- indirect
enum { I_VALL, I_VALR, I_INPLACE, I_ILIST, I_COPY, I_COPYX, I_MOVE, I_MOVEX, I_DESTROY, I_CASG, I_MASG, I_SWAP, I_FSWAP,
       I_VASGL, I_VASGR, I_MUT, I_RDEREF, I_CMP, I_CMPV, I_SELF, I_CHAIN, NIOP };
template <class A>
struct Ind {
  typedef typename A::value_type V;
  static constexpr bool asg = std::is_copy_assignable_v<V>;
  typedef xyz::indirect<V, A> H;
  typedef Facts<A> F;
  static constexpr bool two(int i, int j) { return F::ae || i == j; }
  static constexpr Out run(std::uint64_t seed, int steps) {
    Out out;
    Ctx ctx;
    H* h[NS] = {};
    MSlot m[NS];
    CRng rng{seed * 2654435761u + 12345};
    long fresh = 0;
    for (int step = 0; step < steps; ++step) {
      int op = rng.below(NIOP), d = rng.below(NS), s = rng.below(NS), id = Mk<A>::standard ? 0 : 1 + rng.below(2);
      const A a = Mk<A>::get(&ctx, id);
      const Ctx was = ctx;
      long add_cc = 0, add_mc = 0, add_ca = 0, add_ma = 0, add_al = 0;
      if (op <= I_MOVEX) {
        if (m[d].live) {
          delete h[d];
          m[d] = MSlot();
        }
        h[d] = nullptr;
        if (op >= I_COPY && !m[s].live) continue;
      } else if (!m[d].live || !m[s].live) {
        continue;
      }
      ctx.cc = ctx.mc = ctx.ca = ctx.ma = ctx.allocs = 0;
      out.ops |= std::uint64_t(1) << op;
      const long v = ++fresh;
      switch (op) {
        case I_VALL: {
          V x(&ctx, v);
          if constexpr (Mk<A>::standard)
            h[d] = v & 1 ? new H(x) : new H(std::allocator_arg, a, x);
          else
            h[d] = new H(std::allocator_arg, a, x);
          EXPECT(x.v == v);
          add_cc = add_al = 1;
          m[d] = MSlot{true, true, v, 0, id};
          break;
        }
        case I_VALR: {
          if constexpr (Mk<A>::standard)
            h[d] = v & 1 ? new H(V(&ctx, v)) : new H(std::allocator_arg, a, V(&ctx, v));
          else
            h[d] = new H(std::allocator_arg, a, V(&ctx, v));
          add_mc = add_al = 1;
          m[d] = MSlot{true, true, v, 0, id};
          break;
        }
        case I_INPLACE:
          if constexpr (Mk<A>::standard)
            h[d] = v & 1 ? new H(std::in_place, &ctx, v) : new H(std::allocator_arg, a, std::in_place, &ctx, v);
          else
            h[d] = new H(std::allocator_arg, a, std::in_place, &ctx, v);
          add_al = 1;
          m[d] = MSlot{true, true, v, 0, id};
          break;
        case I_ILIST:
          if constexpr (Mk<A>::standard)
            h[d] = v & 1 ? new H(std::in_place, {&ctx, &ctx}, v) : new H(std::allocator_arg, a, std::in_place, {&ctx, &ctx}, v);
          else
            h[d] = new H(std::allocator_arg, a, std::in_place, {&ctx, &ctx}, v);
          add_al = 1;
          m[d] = MSlot{true, true, v + 2, 0, id};
          break;
        case I_COPY:
        case I_COPYX:
          h[d] = op == I_COPY ? new H(static_cast<const H&>(*h[s])) : new H(std::allocator_arg, a, *h[s]);
          if (m[s].eng) add_cc = add_al = 1;
          m[d] = m[s];
          m[d].id = op == I_COPY ? id_of(std::allocator_traits<A>::select_on_container_copy_construction(
                                       Mk<A>::get(&ctx, m[s].id)))
                                 : id;
          break;
        case I_MOVE:
        case I_MOVEX:
          h[d] = op == I_MOVE ? new H(std::move(*h[s])) : new H(std::allocator_arg, a, std::move(*h[s]));
          m[d] = m[s];
          m[d].id = op == I_MOVE ? m[s].id : id;
          if (m[s].eng && !two(m[d].id, m[s].id)) {
            add_mc = add_al = 1;
            if (moves<V>) m[s].v = -1;
            if (h[s]->valueless_after_move()) m[s].eng = false;
          } else {
            m[s].eng = false;
          }
          break;
        case I_DESTROY:
          delete h[d];
          h[d] = nullptr;
          m[d] = MSlot();
          break;
        case I_CASG:
          EXPECT(&(*h[d] = static_cast<const H&>(*h[s])) == h[d]);
          if (d != s) {
            if (m[s].eng) {
              if (asg && m[d].eng && two(m[d].id, m[s].id))
                add_ca = 1;
              else
                add_cc = add_al = 1;
            }
            int keep = F::pc ? m[s].id : m[d].id;
            m[d] = m[s];
            m[d].id = keep;
          }
          break;
        case I_MASG:
          EXPECT(&(*h[d] = std::move(*h[s])) == h[d]);
          if (d != s) {
            bool stolen = two(m[d].id, m[s].id);
            int keep = F::pm ? m[s].id : m[d].id;
            if (m[s].eng && !stolen) add_mc = add_al = 1;
            m[d] = m[s];
            m[d].id = keep;
            if (stolen || h[s]->valueless_after_move())
              m[s].eng = false;
            else if (moves<V>) m[s].v = -1;
          }
          break;
        case I_SWAP:
        case I_FSWAP: {
          if (!F::ps && !two(m[d].id, m[s].id)) break;
          const V* pd = m[d].eng ? &**h[d] : nullptr;
          const V* psrc = m[s].eng ? &**h[s] : nullptr;
          if (op == I_SWAP)
            h[d]->swap(*h[s]);
          else
            swap(*h[d], *h[s]);
          std::swap(m[d], m[s]);
          if (!F::ps) std::swap(m[d].id, m[s].id);
          EXPECT(!m[d].eng || &**h[d] == (d == s ? pd : psrc));
          EXPECT(!m[s].eng || &**h[s] == pd);
          break;
        }
        case I_VASGL: {
          if constexpr (asg) {
            V x(&ctx, v);
            EXPECT(&(*h[d] = x) == h[d] && x.v == v);
            if (m[d].eng)
              add_ca = 1;
            else
              add_cc = add_al = 1;
            m[d].eng = true;
            m[d].v = v;
          }
          break;
        }
        case I_VASGR:
          if constexpr (asg) {
            EXPECT(&(*h[d] = V(&ctx, v)) == h[d]);
            if (m[d].eng)
              add_ma = 1;
            else
              add_mc = add_al = 1;
            m[d].eng = true;
            m[d].v = v;
          }
          break;
        case I_MUT:
          if (!m[d].eng) break;
          if (v & 1)
            (**h[d]).set(v);
          else
            (*h[d])->set(v);
          m[d].v = v;
          break;
        case I_RDEREF: {
          if (!m[d].eng) break;
          if (v & 1) {
            V x = *std::move(*h[d]);
            EXPECT(x.v == m[d].v);
            add_mc = 1;
            if (moves<V>) m[d].v = -1;
          } else {
            V x = *std::move(static_cast<const H&>(*h[d]));
            EXPECT(x.v == m[d].v);
            add_cc = 1;
          }
          break;
        }
        case I_CMP: {
          const H &x = *h[d], &y = *h[s];
          long l = m[d].eng ? m[d].v : -1000000, r = m[s].eng ? m[s].v : -1000000;
          EXPECT((x == y) == (l == r) && (x != y) == (l != r) && (x < y) == (l < r) && (x <= y) == (l <= r) &&
                 (x > y) == (l > r) && (x >= y) == (l >= r) && (x <=> y) == (l <=> r));
          break;
        }
        case I_CMPV: {
          const H& x = *h[d];
          V y(&ctx, m[s].v);
          long l = m[d].eng ? m[d].v : -1000000, r = m[s].v;
          EXPECT((x == y) == (l == r) && (x != y) == (l != r) && (x < y) == (l < r) && (x <= y) == (l <= r) &&
                 (x > y) == (l > r) && (x >= y) == (l >= r) && (x <=> y) == (l <=> r));
          EXPECT((y == x) == (l == r) && (y != x) == (l != r) && (y > x) == (l < r) && (y >= x) == (l <= r) &&
                 (y < x) == (l > r) && (y <= x) == (l >= r) && (y <=> x) == (r <=> l));
          break;
        }
        case I_SELF: {
          H& same = *h[d];
          if (v & 1)
            *h[d] = same;
          else
            *h[d] = std::move(same);
          swap(*h[d], same);
          break;
        }
        case I_CHAIN: {  // by value, through a function
          if (!m[s].eng) break;
          auto pass = [](H x) { return x; };
          H got = pass(*h[s]);
          EXPECT(got->v == m[s].v);
          add_cc = add_al = 1;
          break;
        }
        default:
          break;
      }
      if (!counts<V>) add_cc = add_mc = add_ca = add_ma = 0;
      if (!moves<V>) add_cc += add_mc, add_ca += add_ma, add_mc = add_ma = 0;
      EXPECT(ctx.cc == add_cc && ctx.mc == add_mc && ctx.ca == add_ca && ctx.ma == add_ma);
      EXPECT(Mk<A>::standard || ctx.allocs == add_al);
      (void)was;
      long alive = 0;
      for (int i = 0; i < NS; ++i) {
        if (!m[i].live) {
          out.mix(-7);
          continue;
        }
        const H& x = *h[i];
        EXPECT(x.valueless_after_move() == !m[i].eng);
        EXPECT(id_of(x.get_allocator()) == m[i].id);
        out.mix(x.valueless_after_move());
        out.mix(id_of(x.get_allocator()));
        if (x.valueless_after_move()) continue;
        ++alive;
        EXPECT(x->v == m[i].v && (*x).ok() && &*x == &*x.operator->());
        out.mix(x->v);
      }
      EXPECT(!counts<V> || ctx.alive == alive);
      EXPECT(Mk<A>::standard || ctx.blocks == alive);
    }
    for (int i = 0; i < NS; ++i)
      if (m[i].live) delete h[i];
    int step = steps, op = -1;
    EXPECT(ctx.alive == 0 && ctx.blocks == 0);
    out.mix(ctx.alive);
    return out;
  }
};

// ---------------------------------------------------------------- polymorphic
struct Pad {
  long mark = 4711;
  constexpr virtual ~Pad() = default;
  constexpr virtual const long* own() const { return nullptr; }
};
struct PB {
  Val b;
  constexpr PB(Ctx* c, long v) : b(c, v) {}
  constexpr PB(const PB&) = default;
  constexpr PB(PB&&) = default;
  constexpr virtual ~PB() = default;
  constexpr virtual int type() const { return 0; }
  constexpr virtual long value() const { return b.ok() ? b.v : -99; }
  constexpr virtual void set(long v) { b.set(v); }
};
struct P1 : PB {
  Val c;
  constexpr P1(Ctx* x, long v) : PB(x, v), c(x, v) {}
  constexpr P1(std::initializer_list<Ctx*> l, long v) : PB(*l.begin(), v), c(*l.begin(), v) {}
  constexpr int type() const override { return 1; }
  constexpr long value() const override { return b.ok() && c.ok() && b.v == c.v ? b.v : -99; }
  constexpr void set(long v) override {
    b.set(v);
    c.set(v);
  }
};
struct P2 final : Pad, PB {  // the base is not first
  Val c;
  constexpr P2(Ctx* x, long v) : PB(x, v), c(x, v) {}
  constexpr P2(std::initializer_list<Ctx*> l, long v) : PB(*l.begin(), v), c(*l.begin(), v) {}
  constexpr int type() const override { return 2; }
  constexpr long value() const override { return b.ok() && c.ok() && b.v == c.v && mark == 4711 ? b.v : -99; }
  constexpr void set(long v) override {
    b.set(v);
    c.set(v);
  }
};
struct P3 : P1 {  // large and over-aligned, two levels down
  alignas(64) long pad[50] = {1, 2, 3};
  using P1::P1;
  constexpr int type() const override { return 3; }
  constexpr long value() const override { return pad[0] + pad[1] + pad[2] + pad[49] == 6 ? P1::value() : -99; }
};
enum { P_VALL, P_VALR, P_INPLACE, P_ILIST, P_COPY, P_COPYX, P_MOVE, P_MOVEX, P_DESTROY, P_CASG, P_MASG, P_SWAP, P_FSWAP,
       P_MUT, P_SELF, P_CHAIN, NPOP };
constexpr long cores(int type) { return type ? 2 : 1; }
template <class A>
struct Pol {
  typedef xyz::polymorphic<PB, A> H;
  typedef Facts<A> F;
  static constexpr bool two(int i, int j) { return F::ae || i == j; }
  template <class D>
  static constexpr H* make(int op, Ctx& ctx, const A& a, long v, long& cc, long& mc) {
    const long n = std::is_same_v<D, PB> ? 1 : 2;
    if constexpr (Mk<A>::standard) {  // without naming the allocator
      if (v & 1) {
        if (op == P_VALL) {
          D x(&ctx, v);
          cc += n;
          return new H(x);
        }
        if (op == P_VALR) {
          mc += n;
          return new H(D(&ctx, v));
        }
        if constexpr (!std::is_same_v<D, PB>)
          if (op == P_ILIST) return new H(std::in_place_type<D>, {&ctx, &ctx}, v);
        return new H(std::in_place_type<D>, &ctx, v);
      }
    }
    if (op == P_VALL) {
      D x(&ctx, v);
      cc += n;
      return new H(std::allocator_arg, a, x);
    }
    if (op == P_VALR) {
      mc += n;
      return new H(std::allocator_arg, a, D(&ctx, v));
    }
    if constexpr (!std::is_same_v<D, PB>)
      if (op == P_ILIST) return new H(std::allocator_arg, a, std::in_place_type<D>, {&ctx, &ctx}, v);
    return new H(std::allocator_arg, a, std::in_place_type<D>, &ctx, v);
  }
  static constexpr Out run(std::uint64_t seed, int steps) {
    Out out;
    Ctx ctx;
    H* h[NS] = {};
    MSlot m[NS];
    CRng rng{seed * 2654435761u + 54321};
    long fresh = 0;
    for (int step = 0; step < steps; ++step) {
      int op = rng.below(NPOP), d = rng.below(NS), s = rng.below(NS), id = Mk<A>::standard ? 0 : 1 + rng.below(2);
      int type = rng.below(4);
      const A a = Mk<A>::get(&ctx, id);
      long add_cc = 0, add_mc = 0, add_al = 0;
      if (op <= P_MOVEX) {
        if (m[d].live) {
          delete h[d];
          m[d] = MSlot();
        }
        h[d] = nullptr;
        if (op >= P_COPY && !m[s].live) continue;
      } else if (!m[d].live || !m[s].live) {
        continue;
      }
      ctx.cc = ctx.mc = ctx.ca = ctx.ma = ctx.allocs = 0;
      out.ops |= std::uint64_t(1) << op;
      const long v = ++fresh;
      switch (op) {
        case P_VALL:
        case P_VALR:
        case P_INPLACE:
        case P_ILIST:
          h[d] = type == 0   ? make<PB>(op, ctx, a, v, add_cc, add_mc)
                 : type == 1 ? make<P1>(op, ctx, a, v, add_cc, add_mc)
                 : type == 2 ? make<P2>(op, ctx, a, v, add_cc, add_mc)
                             : make<P3>(op, ctx, a, v, add_cc, add_mc);
          add_al = 1;
          m[d] = MSlot{true, true, v, type, id};
          break;
        case P_COPY:
        case P_COPYX:
          h[d] = op == P_COPY ? new H(static_cast<const H&>(*h[s])) : new H(std::allocator_arg, a, *h[s]);
          if (m[s].eng) add_cc = cores(m[s].type), add_al = 1;
          m[d] = m[s];
          m[d].id = op == P_COPY ? id_of(std::allocator_traits<A>::select_on_container_copy_construction(
                                       Mk<A>::get(&ctx, m[s].id)))
                                 : id;
          break;
        case P_MOVE:
        case P_MOVEX:
          h[d] = op == P_MOVE ? new H(std::move(*h[s])) : new H(std::allocator_arg, a, std::move(*h[s]));
          m[d] = m[s];
          m[d].id = op == P_MOVE ? m[s].id : id;
          if (m[s].eng && !two(m[d].id, m[s].id)) {
            add_mc = cores(m[s].type), add_al = 1;
            m[s].v = -1;
            if (h[s]->valueless_after_move()) m[s].eng = false;
          } else {
            m[s].eng = false;
          }
          break;
        case P_DESTROY:
          delete h[d];
          h[d] = nullptr;
          m[d] = MSlot();
          break;
        case P_CASG:
          EXPECT(&(*h[d] = static_cast<const H&>(*h[s])) == h[d]);
          if (d != s) {
            if (m[s].eng) add_cc = cores(m[s].type), add_al = 1;
            int keep = F::pc ? m[s].id : m[d].id;
            m[d] = m[s];
            m[d].id = keep;
          }
          break;
        case P_MASG:
          EXPECT(&(*h[d] = std::move(*h[s])) == h[d]);
          if (d != s) {
            bool stolen = two(m[d].id, m[s].id);
            int keep = F::pm ? m[s].id : m[d].id;
            if (m[s].eng && !stolen) add_mc = cores(m[s].type), add_al = 1;
            m[d] = m[s];
            m[d].id = keep;
            if (stolen || h[s]->valueless_after_move())
              m[s].eng = false;
            else
              m[s].v = -1;
          }
          break;
        case P_SWAP:
        case P_FSWAP: {
          if (!F::ps && !two(m[d].id, m[s].id)) break;
          const PB* pd = m[d].eng ? &**h[d] : nullptr;
          const PB* psrc = m[s].eng ? &**h[s] : nullptr;
          if (op == P_SWAP)
            h[d]->swap(*h[s]);
          else
            swap(*h[d], *h[s]);
          std::swap(m[d], m[s]);
          if (!F::ps) std::swap(m[d].id, m[s].id);
          EXPECT(!m[d].eng || &**h[d] == (d == s ? pd : psrc));
          EXPECT(!m[s].eng || &**h[s] == pd);
          break;
        }
        case P_MUT:
          if (!m[d].eng) break;
          if (v & 1)
            (**h[d]).set(v);
          else
            (*h[d])->set(v);
          m[d].v = v;
          break;
        case P_SELF: {
          H& same = *h[d];
          if (v & 1)
            *h[d] = same;
          else
            *h[d] = std::move(same);
          swap(*h[d], same);
          break;
        }
        case P_CHAIN: {
          if (!m[s].eng) break;
          auto pass = [](H x) { return x; };
          H got = pass(*h[s]);
          EXPECT(got->value() == m[s].v && got->type() == m[s].type);
          add_cc = cores(m[s].type), add_al = 1;
          break;
        }
        default:
          break;
      }
      EXPECT(ctx.cc == add_cc && ctx.mc == add_mc && ctx.ca == 0 && ctx.ma == 0);
      EXPECT(Mk<A>::standard || ctx.allocs == add_al);
      long alive = 0, blocks = 0;
      for (int i = 0; i < NS; ++i) {
        if (!m[i].live) {
          out.mix(-7);
          continue;
        }
        const H& x = *h[i];
        EXPECT(x.valueless_after_move() == !m[i].eng);
        EXPECT(id_of(x.get_allocator()) == m[i].id);
        out.mix(x.valueless_after_move());
        out.mix(id_of(x.get_allocator()));
        if (x.valueless_after_move()) continue;
        alive += cores(x->type());
        ++blocks;
        EXPECT(x->value() == m[i].v && (*x).type() == m[i].type && &*x == &*x.operator->());
        out.mix(x->value());
        out.mix(x->type());
      }
      EXPECT(ctx.alive == alive);
      EXPECT(Mk<A>::standard || ctx.blocks == blocks);
    }
    for (int i = 0; i < NS; ++i)
      if (m[i].live) delete h[i];
    int step = steps, op = -1;
    EXPECT(ctx.alive == 0 && ctx.blocks == 0);
    return out;
  }
};

// ---------------------------------------------------------------- both evaluations
template <std::size_t N>
struct Table {
  Out o[N];
};
constexpr std::uint64_t seed_of(int i) { return static_cast<std::uint64_t>(VT_SEED) * 1000003u + static_cast<std::uint64_t>(i); }
template <class S, int I>
constexpr Out evaluated = S::run(seed_of(I), VT_STEPS);  // must be a constant expression
template <class S, int... I>
void compare(const char* what, std::integer_sequence<int, I...>) {
  static constexpr Out at_compile_time[] = {evaluated<S, I>...};
  for (int i = 0; i < static_cast<int>(sizeof...(I)); ++i) {
    volatile int vi = i;
    const Out& c = at_compile_time[i];
    Out r = S::run(seed_of(vi), VT_STEPS);
    REQF(L(17), c.bad < 0, "%s, history %d: evaluated at compile time, operation %d at step %d disagrees with the model (line %d)",
         what, i, c.bad_op, c.bad_step, c.bad);
    REQF(L(17), r.bad < 0, "%s, history %d: at run time, operation %d at step %d disagrees with the model (line %d)", what,
         i, r.bad_op, r.bad_step, r.bad);
    REQF(L(17), c == r, "%s, history %d: evaluation at compile time and at run time gave different results", what, i);
    for (int op = 0; op < 40; ++op)
      if (c.ops >> op & 1) vt::seen(L(17), sig(what, i, op, static_cast<long>(c.hash)));
  }
}
// ---------------------------------------------------------------- default construction, hash, other types
struct NB {  // nothing virtual
  long v;
  constexpr NB(long i = 0) : v(i) {}
};
struct ND : NB {
  ValBase c;
  constexpr ND(Ctx* x, long i) : NB(i), c(x, i) {}
};
struct INode {
  long v = 0;
  std::vector<xyz::indirect<INode>> kids;
  constexpr INode(long i = 0) : v(i) {}
};
struct PNode {
  long v = 0;
  std::vector<xyz::polymorphic<PNode>> kids;
  constexpr PNode(long i = 0) : v(i) {}
  constexpr virtual ~PNode() = default;
  constexpr PNode(const PNode&) = default;
};
template <class H>
constexpr long total(const H& h) {
  long t = h->v;
  for (auto& k : h->kids) t = t * 3 + total(k);
  return t;
}
struct Key {
  long k = 5;
  constexpr bool operator==(const Key&) const = default;
  constexpr auto operator<=>(const Key&) const = default;
};
struct Bag {  // owns holders itself
  xyz::indirect<Key> a;
  xyz::polymorphic<Pad> b;
  xyz::indirect<xyz::indirect<int>> c;
  constexpr Bag() {}
};
struct Pad2 : Pad {
  long* p = new long(8);
  constexpr Pad2() { mark = 8; }
  constexpr Pad2(const Pad2& o) : Pad(o), p(new long(*o.p)) {}
  constexpr Pad2(Pad2&& o) : Pad(o), p(new long(*o.p)) {}
  constexpr ~Pad2() override { delete p; }
  constexpr const long* own() const override { return p; }
};
}  // namespace
template <>
struct std::hash<Key> {
  constexpr std::size_t operator()(const Key& k) const noexcept { return static_cast<std::size_t>(k.k * 31 + 7); }
};
namespace {
struct Small {
  static constexpr Out run(std::uint64_t seed, int) {
    Out out;
    CRng rng{seed};
    int step = 0, op = 0;
    const long v = rng.below(1000) + 10, w = v + 1 + rng.below(1000);
    {
      xyz::indirect<int> i, j(std::allocator_arg, std::allocator<int>());
      EXPECT(*i == 0 && *j == 0 && i == j && i == 0);
      i = static_cast<int>(v);
      EXPECT(*i == v && *j == 0 && i > j && j < i && i != j && i > 0 && 0 < i);
      j = short(3);  // another type
      EXPECT(*j == 3 && (i <=> j) == (v <=> 3));
      swap(i, j);
      EXPECT(*j == v && *i == 3);
      out.mix(*i + *j);
    }
    step = 1;
    {
      xyz::indirect<Key> a, b(Key{v}), c(std::in_place, Key{w});
      std::hash<xyz::indirect<Key>> hi;
      std::hash<Key> hk;
      EXPECT(hi(a) == hk(Key{}) && hi(b) == hk(Key{v}) && hi(c) == hk(*c) && (b < c) && (b <=> c) < 0);
      xyz::indirect<Key> m(std::move(c));
      EXPECT(hi(m) == hk(Key{w}) && c.valueless_after_move() && c != m && c < m && c == c);
      EXPECT(hi(c) == hi(c));
      c = m;
      EXPECT(c == m && hi(c) == hi(m) && &*c != &*m);
      c->k = v;
      EXPECT(c == b && c == Key{v} && m == Key{w});
      out.mix(static_cast<long>(hi(c)));
    }
    step = 2;
    {
      xyz::polymorphic<Pad> p, q(std::allocator_arg, std::allocator<Pad>()), r(std::in_place_type<Pad2>), s(Pad2{});
      EXPECT(p->mark == 4711 && q->mark == 4711 && r->mark == 8 && s->mark == 8);
      p->mark = v;
      q = p;
      p->mark = w;
      EXPECT(q->mark == v && p->mark == w);
      xyz::polymorphic<Pad> t(r);
      EXPECT(t->mark == 8 && t->own() != r->own() && *t->own() == 8);
      t = std::move(p);
      EXPECT(t->mark == w && p.valueless_after_move());
      p = std::move(s);
      EXPECT(p->mark == 8 && *p->own() == 8 && t->own() == nullptr);
      swap(p, t);
      EXPECT(t->mark == 8 && p->mark == w);
      out.mix(t->mark + p->mark);
    }
    step = 3;
    {
      xyz::indirect<Bag> x, y(x);
      y->a->k = v;
      y->b->mark = w;
      **y->c = 9;
      EXPECT(x->a->k == 5 && x->b->mark == 4711 && **x->c == 0);
      xyz::indirect<Bag> z(std::move(y));
      EXPECT(z->a->k == v && z->b->mark == w && **z->c == 9);
      x = z;
      z->a->k = 1;
      z->b->mark = 1;
      **z->c = 1;
      EXPECT(x->a->k == v && x->b->mark == w && **x->c == 9);
      Bag flat = *x, moved = *std::move(x);
      EXPECT(flat.a == moved.a && flat.b->mark == moved.b->mark && flat.c == moved.c);
      out.mix(flat.a->k + flat.b->mark + **flat.c);
    }
    step = 4;
    {  // storage that grows: copies and moves of holders by a container
      std::vector<xyz::polymorphic<Pad>> pv;
      std::vector<xyz::indirect<Key>> iv;
      for (long i = 0; i < 9; ++i) {
        pv.push_back(i & 1 ? xyz::polymorphic<Pad>(Pad2()) : xyz::polymorphic<Pad>());
        pv.back()->mark = v + i;
        iv.push_back(xyz::indirect<Key>(Key{(v * (i + 3)) % 11}));
      }
      std::vector<xyz::polymorphic<Pad>> pw(pv);
      pv.erase(pv.begin() + 2);
      pv.insert(pv.begin(), pw[5]);
      EXPECT(pv.size() == 9 && pv[0]->mark == v + 5 && pv[1]->mark == v && pv[2]->mark == v + 1 && pv[3]->mark == v + 3 &&
             pw[2]->mark == v + 2);
      std::sort(iv.begin(), iv.end());
      for (std::size_t i = 1; i < iv.size(); ++i) EXPECT(iv[i - 1]->k <= iv[i]->k);
      for (auto& p : pv) out.mix(p->mark);
      for (auto& p : iv) out.mix(p->k);
    }
    step = 5;
    EXPECT((xyz::indirect<Key>(Key{v}) == xyz::indirect<Key>(Key{v})));
    {  // different and unordered types
      const double nan = std::numeric_limits<double>::quiet_NaN();
      xyz::indirect<double> n(nan), one(1.0), gone(std::move(one)), none(std::move(gone));
      xyz::indirect<int> i(2);
      xyz::indirect<long> l(2), m(3);
      EXPECT(!(n == n) && !(n < n) && !(n <= n) && !(n > none) && (n != n) && (n <=> n) == std::partial_ordering::unordered);
      EXPECT(gone < n && !(n < gone) && gone != n && gone < i && (gone <=> one) == 0 && gone == one && none == 1.0);
      EXPECT(i == l && i < m && m >= i && (i <=> m) < 0 && none < i && i == 2.0 && 1.5 < i && !(i == nan) && !(i < nan));
    }
    step = 6;
    {  // no virtual destructor
      Ctx ctx;
      {
        xyz::polymorphic<NB> p(std::in_place_type<ND>, &ctx, v), q(p), r(NB{w});
        EXPECT(ctx.alive == 2 && p->v == v && q->v == v && static_cast<const ND&>(*q).c.ok() && r->v == w);
        r = q;
        EXPECT(ctx.alive == 3 && static_cast<ND&>(*r).c.v == v);
        p = std::move(r);
        EXPECT(ctx.alive == 2 && static_cast<ND&>(*p).c.v == v);
        q = xyz::polymorphic<NB>();
        EXPECT(ctx.alive == 1 && q->v == 0);
        out.mix(ctx.cc);
      }
      EXPECT(ctx.alive == 0);
    }
    step = 7;
    {  // assignment from inside the owned object
      auto each = [&]<class H>(auto make, H*) {
        H h = make(v);
        for (int i = 1; i < 4; ++i) h->kids.push_back(make(v + i));
        for (int i = 1; i < 4; ++i) h->kids[1]->kids.push_back(make(w + i));
        const long whole = total(h), inner = total(h->kids[1]);
        H copy(h);
        EXPECT(total(copy) == whole);
        h = std::move(h->kids[1]);
        EXPECT(total(h) == inner && total(copy) == whole);
        copy = std::move(copy);
        EXPECT(total(copy) == whole);
        if constexpr (std::is_same_v<H, xyz::polymorphic<PNode>>) {
          copy = copy->kids[1];
          EXPECT(total(copy) == inner);
        }
        h->kids.push_back(copy);
        h = std::move(h->kids.back());
        EXPECT(h->v == copy->v && total(h) == total(copy));
        h = std::move(h->kids[0]);
        EXPECT(h->kids.empty());
        out.mix(total(copy));
      };
      each([](long i) { return xyz::indirect<INode>(std::in_place, i); }, static_cast<xyz::indirect<INode>*>(nullptr));
      each([](long i) { return xyz::polymorphic<PNode>(std::in_place_type<PNode>, i); },
           static_cast<xyz::polymorphic<PNode>*>(nullptr));
    }
    out.ops = 255;
    return out;
  }
};

typedef std::make_integer_sequence<int, VT_HISTORIES> Seq;

#define IND(N, ...) \
  CASE(constexpr_indirect_##N, L(17), 1) { compare<Ind<__VA_ARGS__>>("indirect " #N, Seq()); }
#define POL(N, ...) \
  CASE(constexpr_polymorphic_##N, L(17), 1) { compare<Pol<__VA_ARGS__>>("polymorphic " #N, Seq()); }
}  // namespace
#if VT_PART == 1
CASE(constexpr_small, L(17), 1) { compare<Small>("default construction, hash and nesting", Seq()); }
IND(std, std::allocator<Val>)
IND(fff, CA<Val, false, false, false, false>)
IND(tff, CA<Val, true, false, false, false>)
#elif VT_PART == 2
IND(ftf, CA<Val, false, true, false, false, true>)
IND(fft, CA<Val, false, false, true, false>)
IND(ttt, CA<Val, true, true, true, false>)
IND(ae, CA<Val, true, false, true, true, true>)
#elif VT_PART == 5
IND(big_std, std::allocator<BigVal>)
IND(big_fff, CA<BigVal, false, false, false, false>)
IND(nothrow_tff, CA<NTVal, true, false, false, false, true>)
IND(copied_ttt, CA<CopyVal, true, true, true, false>)
#elif VT_PART == 6
IND(const_fff, CA<ConstVal, false, false, false, false>)
IND(const_ttt, CA<ConstVal, true, true, true, false>)
IND(trivial_std, std::allocator<TrivVal>)
IND(trivial_fft, CA<TrivVal, false, false, true, false>)
IND(trivial_ttf, CA<TrivVal, true, true, false, false>)
#elif VT_PART == 3
POL(std, std::allocator<PB>)
POL(fff, CA<PB, false, false, false, false>)
POL(tff, CA<PB, true, false, false, false>)
#else
POL(ftf, CA<PB, false, true, false, false, true>)
POL(fft, CA<PB, false, false, true, false>)
POL(ttt, CA<PB, true, true, true, false>)
POL(ae, CA<PB, false, true, false, true, true>)
#endif
