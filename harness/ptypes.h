// Hierarchies owned by polymorphic.
#ifndef VT_PTYPES_H
#define VT_PTYPES_H
#include "types.h"

namespace vt {

// constructors of a derived class N whose base part is initialised by BI(value)
#define VT_PCTORS(N, BI)                                                               \
  N() : BI(0), c() {}                                                                  \
  explicit N(Arg& a) : BI(a.v), c(a) {}                                                \
  explicit N(const Arg& a) : BI(a.v), c(a) {}                                          \
  explicit N(Arg&& a) : BI(a.v), c(std::move(a)) {}                                    \
  explicit N(const Arg&& a) : BI(a.v), c(std::move(a)) {}                              \
  N(Arg& a, const Arg& b_, Arg&& x, MoveOnlyArg&& d)                                   \
      : BI(multi_value(a.v, b_.v, x.v, d.v)), c(a, b_, std::move(x), std::move(d)) {}  \
  N(const Arg& a, const Arg& b_, const Arg& x, const MoveOnlyArg& d)                   \
      : BI(multi_value(a.v, b_.v, x.v, d.v)), c(a, b_, x, d) {}                        \
  N(std::initializer_list<int> il) : BI(ilist_value(il)), c(il) {}                     \
  N(std::initializer_list<int> il, Arg& a)                                             \
      : BI(ilist_value(il) + a.v * 1000000), c(il, a) {}                               \
  N(std::initializer_list<int> il, const Arg& a)                                       \
      : BI(ilist_value(il) + a.v * 1000000), c(il, a) {}                               \
  N(std::initializer_list<int> il, Arg&& a)                                            \
      : BI(ilist_value(il) + a.v * 1000000), c(il, std::move(a)) {}
#define VT_CTORS_B(N)                                                                  \
  N() {}                                                                               \
  N(BaseTag t, long v) : b(t, v) {}                                                    \
  explicit N(Arg& a) : b(a) {}                                                         \
  explicit N(const Arg& a) : b(a) {}                                                   \
  explicit N(Arg&& a) : b(std::move(a)) {}                                             \
  explicit N(const Arg&& a) : b(std::move(a)) {}                                       \
  N(Arg& a, const Arg& b_, Arg&& x, MoveOnlyArg&& d)                                   \
      : b(a, b_, std::move(x), std::move(d)) {}                                        \
  N(const Arg& a, const Arg& b_, const Arg& x, const MoveOnlyArg& d) : b(a, b_, x, d) {} \
  N(std::initializer_list<int> il) : b(il) {}                                          \
  N(std::initializer_list<int> il, Arg& a) : b(il, a) {}                               \
  N(std::initializer_list<int> il, const Arg& a) : b(il, a) {}                         \
  N(std::initializer_list<int> il, Arg&& a) : b(il, std::move(a)) {}
#define VT_DEFAULT_SPECIALS(N)   \
  N(const N&) = default;         \
  N(N&&) = default;              \
  N& operator=(const N&) = default; \
  N& operator=(N&&) = default;

inline Obs mkobs(int type, long v, int cat, bool ok, const void* md, std::size_t size) {
  Obs o = {type, v, cat, ok, md, size};
  return o;
}

// ------------------------------------------------ a base with a virtual destructor
struct BaseV {
  Core<200> b;
  VT_CTORS_B(BaseV)
  VT_DEFAULT_SPECIALS(BaseV)
  virtual ~BaseV() {}
  virtual Obs obs() const { return mkobs(200, b.v(), b.cat(), b.ok(), this, sizeof(*this)); }
  virtual void set(long v) { b.set(v); }
  const BaseV* as_base() const { return this; }
};
VT_RELATIONS(BaseV, true)
#define BV(v) BaseV(BaseTag(), v)
#define VT_DERIVED_BODY(ID)                                                             \
  Obs obs() const override {                                                            \
    return mkobs(ID, c.v(), c.cat(), b.ok() && c.ok() && b.v() == c.v() && extra_ok(),  \
                 static_cast<const void*>(this), sizeof(*this));                        \
  }                                                                                     \
  void set(long v) override {                                                           \
    b.set(v);                                                                           \
    c.set(v);                                                                           \
    extra_set();                                                                        \
  }
#define VT_NO_EXTRA                       \
  bool extra_ok() const { return true; } \
  void extra_set() {}

struct V1 : BaseV {
  Core<201> c;
  VT_PCTORS(V1, BV)
  VT_DEFAULT_SPECIALS(V1)
  VT_NO_EXTRA
  VT_DERIVED_BODY(201)
};
struct OtherBase {
  long marker = 4711;
  virtual ~OtherBase() {}
  virtual int other() const { return 1; }
};
struct V3 : OtherBase, BaseV {  // BaseV is not at offset 0
  Core<203> c;
  VT_PCTORS(V3, BV)
  VT_DEFAULT_SPECIALS(V3)
  int other() const override { return 2; }
  bool extra_ok() const { return marker == 4711 && other() == 2; }
  void extra_set() {}
  VT_DERIVED_BODY(203)
};
struct V4 : virtual BaseV {  // virtual base
  Core<204> c;
  VT_PCTORS(V4, BV)
  VT_DEFAULT_SPECIALS(V4)
  VT_NO_EXTRA
  VT_DERIVED_BODY(204)
};
struct V5 : V1 {  // two levels
  Core<205> d;
  V5() : V1(), d(BaseTag(), 0) {}
  explicit V5(Arg& a) : V1(a), d(BaseTag(), a.v) {}
  explicit V5(const Arg& a) : V1(a), d(BaseTag(), a.v) {}
  explicit V5(Arg&& a) : V1(std::move(a)), d(BaseTag(), a.v) {}
  explicit V5(const Arg&& a) : V1(std::move(a)), d(BaseTag(), a.v) {}
  VT_DEFAULT_SPECIALS(V5)
  Obs obs() const override {
    Obs o = V1::obs();
    return mkobs(205, o.v, o.cat, o.ok && d.ok() && d.v() == o.v, this, sizeof(*this));
  }
  void set(long v) override {
    V1::set(v);
    d.set(v);
  }
};
struct alignas(64) V6 : BaseV {  // over-aligned
  Core<206> c;
  VT_PCTORS(V6, BV)
  VT_DEFAULT_SPECIALS(V6)
  VT_NO_EXTRA
  VT_DERIVED_BODY(206)
};
struct V7 : BaseV {  // big
  Core<207> c;
  char fill[6000];
  void extra_set() { std::memset(fill, static_cast<char>(c.v() & 0x7f), sizeof fill); }
  bool extra_ok() const {
    for (std::size_t i = 0; i < sizeof fill; i += 97)
      if (fill[i] != static_cast<char>(c.v() & 0x7f)) return false;
    return true;
  }
  V7() : BV(0) { extra_set(); }
  explicit V7(Arg& a) : BV(a.v), c(a) { extra_set(); }
  explicit V7(const Arg& a) : BV(a.v), c(a) { extra_set(); }
  explicit V7(Arg&& a) : BV(a.v), c(std::move(a)) { extra_set(); }
  explicit V7(const Arg&& a) : BV(a.v), c(std::move(a)) { extra_set(); }
  V7(const V7&) = default;
  V7(V7&& o) : BaseV(static_cast<BaseV&&>(o)), c(std::move(o.c)) {
    extra_set();
    o.extra_set();
  }
  V7& operator=(const V7&) = default;
  VT_DERIVED_BODY(207)
};
struct V8 final : BaseV {  // final, base may throw on move but it does not matter
  Core<208, true> c;
  VT_PCTORS(V8, BV)
  VT_DEFAULT_SPECIALS(V8)
  VT_NO_EXTRA
  VT_DERIVED_BODY(208)
};
struct V9 : BaseV {  // rvalues are copied
  Core<209> c;
  VT_PCTORS(V9, BV)
  V9(const V9&) = default;
  V9& operator=(const V9&) = default;
  VT_NO_EXTRA
  VT_DERIVED_BODY(209)
};
struct V10 : BaseV {  // hostile, not assignable
  Core<210> c;
  VT_PCTORS(V10, BV)
  V10(const V10&) = default;
  V10(V10&&) = default;
  V10& operator=(const V10&) = delete;
  VT_HOSTILE(V10)
  static void operator delete(void*) {}
  VT_NO_EXTRA
  VT_DERIVED_BODY(210)
};
struct VL : virtual BaseV {
  long l = 11;
  VL() : BV(0) {}
};
struct VR : virtual BaseV {
  long r = 22;
  VR() : BV(0) {}
};
struct V11 : VL, VR {  // diamond
  Core<211> c;
  VT_PCTORS(V11, BV)
  VT_DEFAULT_SPECIALS(V11)
  bool extra_ok() const { return l == 11 && r == 22; }
  void extra_set() {}
  VT_DERIVED_BODY(211)
};
struct V12 : BaseV {  // no members of its own
  V12() {}
  explicit V12(Arg& a) : BaseV(a) {}
  explicit V12(const Arg& a) : BaseV(a) {}
  explicit V12(Arg&& a) : BaseV(std::move(a)) {}
  explicit V12(const Arg&& a) : BaseV(std::move(a)) {}
  VT_DEFAULT_SPECIALS(V12)
  Obs obs() const override { return mkobs(212, b.v(), b.cat(), b.ok(), this, sizeof(*this)); }
};
struct V13 : BaseV {  // constructible from anything
  Core<213> c;
  template <class U>
  struct Other : B_<!std::is_base_of<V13, typename std::decay<U>::type>::value> {};
  VT_PCTORS(V13, BV)
  template <class U, typename std::enable_if<Other<U>::value, int>::type = 0>
  explicit V13(U&&) : BV(424242), c(Arg(424242)) {}
  V13(const V13&) = default;
  V13(V13&&) = default;
  V13& operator=(const V13&) = default;
  VT_NO_EXTRA
  VT_DERIVED_BODY(213)
};

// ------------------------------------------------ virtual functions, non-virtual destructor
struct BaseNV {
  Core<220> b;
  VT_CTORS_B(BaseNV)
  VT_DEFAULT_SPECIALS(BaseNV)
  virtual Obs obs() const { return mkobs(220, b.v(), b.cat(), b.ok(), this, sizeof(*this)); }
  virtual void set(long v) { b.set(v); }
  ~BaseNV() {}
};
VT_RELATIONS(BaseNV, false)
#define BNV(v) BaseNV(BaseTag(), v)
struct N1 : BaseNV {
  Core<221> c;
  VT_PCTORS(N1, BNV)
  VT_DEFAULT_SPECIALS(N1)
  VT_NO_EXTRA
  VT_DERIVED_BODY(221)
};
struct N2 : OtherBase, BaseNV {
  Core<222> c;
  VT_PCTORS(N2, BNV)
  VT_DEFAULT_SPECIALS(N2)
  bool extra_ok() const { return marker == 4711; }
  void extra_set() {}
  VT_DERIVED_BODY(222)
};

// ------------------------------------------------ abstract, protected destructor
struct BaseA {
  Core<230> b;
  BaseA(BaseTag t, long v) : b(t, v) {}
  VT_DEFAULT_SPECIALS(BaseA)
  virtual Obs obs() const = 0;
  virtual void set(long v) = 0;

 protected:
  ~BaseA() {}
};
#define BA(v) BaseA(BaseTag(), v)
struct A1 final : BaseA {
  Core<231> c;
  VT_PCTORS(A1, BA)
  VT_DEFAULT_SPECIALS(A1)
  VT_NO_EXTRA
  VT_DERIVED_BODY(231)
};
struct A2 final : OtherBase, virtual BaseA {
  Core<232> c;
  VT_PCTORS(A2, BA)
  VT_DEFAULT_SPECIALS(A2)
  VT_NO_EXTRA
  VT_DERIVED_BODY(232)
};

// ------------------------------------------------ the base's copies and moves never throw
struct BaseNC {
  Core<260, true, true, true> b;
  VT_CTORS_B(BaseNC)
  VT_DEFAULT_SPECIALS(BaseNC)
  virtual ~BaseNC() {}
  virtual Obs obs() const { return mkobs(260, b.v(), b.cat(), b.ok(), this, sizeof(*this)); }
  virtual void set(long v) { b.set(v); }
};
#define BNC(v) BaseNC(BaseTag(), v)
struct C1 : BaseNC {  // nor do its own
  Core<261, true, true, true> c;
  VT_PCTORS(C1, BNC)
  VT_DEFAULT_SPECIALS(C1)
  VT_NO_EXTRA
  VT_DERIVED_BODY(261)
};
struct C2 : BaseNC {  // its own do
  Core<262> c;
  VT_PCTORS(C2, BNC)
  VT_DEFAULT_SPECIALS(C2)
  VT_NO_EXTRA
  VT_DERIVED_BODY(262)
};

// ------------------------------------------------ no virtual functions at all
struct BaseN {
  int kind;
  Core<240> b;
  explicit BaseN(int k = 240) : kind(k) {}
  BaseN(int k, long v) : kind(k), b(BaseTag(), v) {}
  explicit BaseN(Arg& a) : kind(240), b(a) {}
  explicit BaseN(const Arg& a) : kind(240), b(a) {}
  explicit BaseN(Arg&& a) : kind(240), b(std::move(a)) {}
  explicit BaseN(const Arg&& a) : kind(240), b(std::move(a)) {}
  // a sliced copy really is a plain BaseN
  BaseN(const BaseN& o) : kind(240), b(o.b) {}
  BaseN(BaseN&& o) : kind(240), b(std::move(o.b)) {}
  BaseN& operator=(const BaseN& o) {
    b = o.b;
    return *this;
  }
};
VT_RELATIONS(BaseN, true)
struct M1 : BaseN {
  Core<241> c;
  M1() : BaseN(241, 0) {}
  explicit M1(Arg& a) : BaseN(241, a.v), c(a) {}
  explicit M1(const Arg& a) : BaseN(241, a.v), c(a) {}
  explicit M1(Arg&& a) : BaseN(241, a.v), c(std::move(a)) {}
  explicit M1(const Arg&& a) : BaseN(241, a.v), c(std::move(a)) {}
  M1(const M1& o) : BaseN(o), c(o.c) { kind = 241; }
  M1(M1&& o) : BaseN(static_cast<BaseN&&>(o)), c(std::move(o.c)) { kind = 241; }
  M1& operator=(const M1&) = default;
};
struct M2 : OtherBase, BaseN {
  Core<242> c;
  M2() : BaseN(242, 0) {}
  explicit M2(Arg& a) : BaseN(242, a.v), c(a) {}
  explicit M2(const Arg& a) : BaseN(242, a.v), c(a) {}
  explicit M2(Arg&& a) : BaseN(242, a.v), c(std::move(a)) {}
  explicit M2(const Arg&& a) : BaseN(242, a.v), c(std::move(a)) {}
  M2(const M2& o) : OtherBase(), BaseN(o), c(o.c) { kind = 242; }
  M2(M2&& o) : OtherBase(), BaseN(static_cast<BaseN&&>(o)), c(std::move(o.c)) { kind = 242; }
  M2& operator=(const M2&) = default;
};
struct M3 : BaseN {  // adds no data
  M3() : BaseN(243, 0) {}
  explicit M3(Arg& a) : BaseN(a) { kind = 243; }
  explicit M3(const Arg& a) : BaseN(a) { kind = 243; }
  explicit M3(Arg&& a) : BaseN(std::move(a)) { kind = 243; }
  explicit M3(const Arg&& a) : BaseN(std::move(a)) { kind = 243; }
  M3(const M3& o) : BaseN(o) { kind = 243; }
  M3(M3&& o) : BaseN(static_cast<BaseN&&>(o)) { kind = 243; }
  M3& operator=(const M3&) = default;
};

// ------------------------------------------------ nothing can be derived from it
struct BaseF final {
  Core<270> b;
  VT_CTORS_B(BaseF)
  VT_DEFAULT_SPECIALS(BaseF)
  Obs obs() const { return mkobs(270, b.v(), b.cat(), b.ok(), this, sizeof(*this)); }
  void set(long v) { b.set(v); }
};

// ------------------------------------------------ trivially copyable, no monitored part
struct TBase {
  int kind = 250;
  long v = 0;
};
VT_RELATIONS(TBase, true)
struct TDer : TBase {
  long w = 0;
  TDer() { kind = 251; }
};
struct TDerBig : TBase {
  char fill[3000];
  long w = 0;
  TDerBig() { kind = 252; }
};
struct TOff : OtherBase, TBase {
  long w = 0;
  TOff() { kind = 253; }
};

#undef VT_PCTORS
#undef VT_CTORS_B
#undef BV
#undef BNV
#undef BNC
#undef BA

// ------------------------------------------------ per-type facts
template <class U>
struct PInfo;
struct PFacts {
  const char* name;
  int id, ncores;
  bool own_move, args, multi, dflt;
};
#define VT_PINFO(U, ID, NC, OWNMOVE, MULTI)                    \
  template <>                                                  \
  struct PInfo<U> {                                            \
    static constexpr bool args = true, multi = MULTI;          \
    static PFacts facts() {                                    \
      PFacts f = {#U, ID, NC, OWNMOVE, true, MULTI, true};     \
      return f;                                                \
    }                                                          \
    static U make(long v) { return U(Arg(v)); }                \
  };
VT_PINFO(BaseV, 200, 1, true, true)
VT_PINFO(V1, 201, 2, true, true)
VT_PINFO(V3, 203, 2, true, true)
VT_PINFO(V4, 204, 2, true, true)
VT_PINFO(V5, 205, 3, true, false)
VT_PINFO(V6, 206, 2, true, true)
VT_PINFO(V7, 207, 2, true, false)
VT_PINFO(V8, 208, 2, true, true)
VT_PINFO(V9, 209, 2, false, true)
VT_PINFO(V10, 210, 2, true, true)
VT_PINFO(V11, 211, 2, true, true)
VT_PINFO(V12, 212, 1, true, false)
VT_PINFO(V13, 213, 2, true, true)
VT_PINFO(BaseNV, 220, 1, true, true)
VT_PINFO(N1, 221, 2, true, true)
VT_PINFO(N2, 222, 2, true, true)
VT_PINFO(A1, 231, 2, true, true)
VT_PINFO(A2, 232, 2, true, true)
VT_PINFO(BaseNC, 260, 1, true, true)
VT_PINFO(C1, 261, 2, true, true)
VT_PINFO(C2, 262, 2, true, true)
VT_PINFO(BaseN, 240, 1, true, false)
VT_PINFO(M1, 241, 2, true, false)
VT_PINFO(M2, 242, 2, true, false)
VT_PINFO(M3, 243, 1, true, false)
VT_PINFO(BaseF, 270, 1, true, true)
#define VT_PINFO_T(U, ID)                                      \
  template <>                                                  \
  struct PInfo<U> {                                            \
    static constexpr bool args = false, multi = false;         \
    static PFacts facts() {                                    \
      PFacts f = {#U, ID, 0, true, false, false, true};        \
      return f;                                                \
    }                                                          \
    static U make(long v);                                     \
  };
VT_PINFO_T(TBase, 250)
VT_PINFO_T(TDer, 251)
VT_PINFO_T(TDerBig, 252)
VT_PINFO_T(TOff, 253)
inline TBase PInfo<TBase>::make(long v) {
  TBase t;
  t.v = v;
  return t;
}
inline TDer PInfo<TDer>::make(long v) {
  TDer t;
  t.v = v;
  t.w = ~v;
  return t;
}
inline TDerBig PInfo<TDerBig>::make(long v) {
  TDerBig t;
  t.v = v;
  t.w = ~v;
  std::memset(t.fill, static_cast<char>(v), sizeof t.fill);
  return t;
}
inline TOff PInfo<TOff>::make(long v) {
  TOff t;
  t.v = v;
  t.w = ~v;
  return t;
}

// ------------------------------------------------ per-base access
template <class Bt>
struct PBase {  // bases with obs() and set()
  static Obs obs(const Bt& t) { return t.obs(); }
  static void set(Bt& t, long v) { t.set(v); }
};
template <>
struct PBase<BaseN> {
  static Obs obs(const BaseN& t) {
    if (t.kind == 240) return mkobs(240, t.b.v(), t.b.cat(), t.b.ok(), &t, sizeof t);
    if (t.kind == 241) {
      const M1& m = static_cast<const M1&>(t);
      return mkobs(241, m.c.v(), m.c.cat(), m.b.ok() && m.c.ok() && m.b.v() == m.c.v(), &m,
                   sizeof m);
    }
    if (t.kind == 242) {
      const M2& m = static_cast<const M2&>(t);
      return mkobs(242, m.c.v(), m.c.cat(), m.b.ok() && m.c.ok() && m.b.v() == m.c.v(), &m,
                   sizeof m);
    }
    if (t.kind == 243) return mkobs(243, t.b.v(), t.b.cat(), t.b.ok(), &t, sizeof t);
    return mkobs(-1, 0, 0, false, &t, sizeof t);
  }
  static void set(BaseN& t, long v) {
    t.b.set(v);
    if (t.kind == 241) static_cast<M1&>(t).c.set(v);
    if (t.kind == 242) static_cast<M2&>(t).c.set(v);
  }
};
template <>
struct PBase<TBase> {
  static Obs obs(const TBase& t) {
    if (t.kind == 250) return mkobs(250, t.v, 0, true, &t, sizeof t);
    if (t.kind == 251) {
      const TDer& m = static_cast<const TDer&>(t);
      return mkobs(251, m.v, 0, m.w == ~m.v || (m.v == 0 && m.w == 0), &m, sizeof m);
    }
    if (t.kind == 252) {
      const TDerBig& m = static_cast<const TDerBig&>(t);
      bool ok = m.w == ~m.v;
      for (std::size_t i = 0; i < sizeof m.fill; i += 53)
        if (m.fill[i] != static_cast<char>(m.v)) ok = false;
      return mkobs(252, m.v, 0, ok || (m.v == 0 && m.w == 0), &m, sizeof m);
    }
    if (t.kind == 253) {
      const TOff& m = static_cast<const TOff&>(t);
      return mkobs(253, m.v, 0, (m.w == ~m.v || (m.v == 0 && m.w == 0)) && m.marker == 4711, &m,
                   sizeof m);
    }
    return mkobs(-1, 0, 0, false, &t, sizeof t);
  }
  static void set(TBase& t, long v) {
    t.v = v;
    if (t.kind == 251) static_cast<TDer&>(t).w = ~v;
    if (t.kind == 252) {
      TDerBig& m = static_cast<TDerBig&>(t);
      m.w = ~v;
      std::memset(m.fill, static_cast<char>(v), sizeof m.fill);
    }
    if (t.kind == 253) static_cast<TOff&>(t).w = ~v;
  }
};

}  // namespace vt
#endif
