// Owned types.  Core is the monitored part; the zoo classes differ in what they permit.
#ifndef VT_TYPES_H
#define VT_TYPES_H
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "compat.h"
#include "mon.h"

namespace vt {

const long MOVED = -7777;

// How an object got its value: which overload was chosen, that is, with which value categories the
// arguments arrived.
enum Cat {
  CAT_DEFAULT = 1,
  CAT_ARG_L,
  CAT_ARG_CL,
  CAT_ARG_R,
  CAT_ARG_CR,
  CAT_MULTI,
  CAT_MULTI_WRONG,
  CAT_ILIST,
  CAT_ILIST_L,
  CAT_ILIST_R,
  CAT_ILIST_CL,
  CAT_MUT,       // mutated in place
  CAT_ASG_CL,    // value-assigned from const Arg&
  CAT_ASG_R,     // value-assigned from Arg&&
  CAT_OTHER
};

// An argument whose treatment is observable.
struct Arg {
  long v;
  int moved;   // times moved from
  int copied;  // times copied from
  explicit Arg(long x) : v(x), moved(0), copied(0) {}
  Arg(const Arg& o) : v(o.v), moved(0), copied(0) { ++const_cast<Arg&>(o).copied; }
  Arg(Arg&& o) : v(o.v), moved(0), copied(0) { ++o.moved; }
  Arg& operator=(const Arg&) = delete;
};
struct MoveOnlyArg {
  long v;
  int moved;
  explicit MoveOnlyArg(long x) : v(x), moved(0) {}
  MoveOnlyArg(MoveOnlyArg&& o) : v(o.v), moved(0) { ++o.moved; }
  MoveOnlyArg& operator=(MoveOnlyArg&&) = delete;
};
inline long multi_value(long a, long b, long c, long d) {
  return ((a * 7 + b) * 7 + c) * 7 + d;
}
inline long ilist_value(std::initializer_list<int> il) {
  long r = 0;
  for (int i : il) r = r * 11 + i;
  return r + static_cast<long>(il.size()) * 100000;
}

struct BaseTag {};

template <int ID, bool NX = false, bool FAULTS = true, bool NC = false>
class Core {
  const void* self_;
  long v_;
  long w_;
  int cat_;

  static long check(long v) { return v * 31 + ID * 17 + 5; }
  void begin(const char* site) {
    if (FAULTS) mon::fault_point(site);
  }
  void init(long v, int cat, mon::Ev ev) {
    self_ = this;
    v_ = v;
    w_ = check(v);
    cat_ = cat;
    mon::obj_ctor(this, sizeof(*this), ID, ev);
  }
  void put(long v, int cat) {
    v_ = v;
    w_ = check(v);
    cat_ = cat;
  }
  void source_ok(const char* what) const {
    mon::require_alive(this, ID, what);
    if (self_ != this || w_ != check(v_))
      mon::fail(mon::L(1), "corrupt-source", "%s from a corrupted object of type #%d", what, ID);
  }

 public:
  static constexpr int id = ID;
  Core() {
    begin("default ctor");
    init(0, CAT_DEFAULT, mon::VCTOR);
  }
  Core(BaseTag, long v) {
    begin("base ctor");
    init(v, CAT_OTHER, mon::VCTOR);
  }
  Core(Arg& a) {
    begin("value ctor");
    init(a.v, CAT_ARG_L, mon::VCTOR);
  }
  Core(const Arg& a) {
    begin("value ctor");
    init(a.v, CAT_ARG_CL, mon::VCTOR);
  }
  Core(Arg&& a) {
    begin("value ctor");
    ++a.moved;
    init(a.v, CAT_ARG_R, mon::VCTOR);
  }
  Core(const Arg&& a) {
    begin("value ctor");
    init(a.v, CAT_ARG_CR, mon::VCTOR);
  }
  Core(Arg& a, const Arg& b, Arg&& c, MoveOnlyArg&& d) {
    begin("value ctor");
    ++c.moved;
    ++d.moved;
    init(multi_value(a.v, b.v, c.v, d.v), CAT_MULTI, mon::VCTOR);
  }
  Core(const Arg& a, const Arg& b, const Arg& c, const MoveOnlyArg& d) {
    begin("value ctor");
    init(multi_value(a.v, b.v, c.v, d.v), CAT_MULTI_WRONG, mon::VCTOR);
  }
  Core(std::initializer_list<int> il) {
    begin("ilist ctor");
    init(ilist_value(il), CAT_ILIST, mon::VCTOR);
  }
  Core(std::initializer_list<int> il, Arg& a) {
    begin("ilist ctor");
    init(ilist_value(il) + a.v * 1000000, CAT_ILIST_L, mon::VCTOR);
  }
  Core(std::initializer_list<int> il, const Arg& a) {
    begin("ilist ctor");
    init(ilist_value(il) + a.v * 1000000, CAT_ILIST_CL, mon::VCTOR);
  }
  Core(std::initializer_list<int> il, Arg&& a) {
    begin("ilist ctor");
    ++a.moved;
    init(ilist_value(il) + a.v * 1000000, CAT_ILIST_R, mon::VCTOR);
  }
  Core(const Core& o) noexcept(NC) {
    o.source_ok("copy construction");
    if (!NC) begin("copy ctor");
    init(o.v_, o.cat_, mon::CCTOR);
  }
  Core(Core&& o) noexcept(NX) {
    o.source_ok("move construction");
    if (!NX) begin("move ctor");
    init(o.v_, o.cat_, mon::MCTOR);
    if (&o != this) o.put(MOVED, o.cat_);
  }
  Core& operator=(const Core& o) noexcept(NC) {
    o.source_ok("copy assignment");
    mon::obj_event(this, ID, mon::CASSIGN);
    if (!NC) begin("copy assignment");
    put(o.v_, o.cat_);
    if (!NC && FAULTS) mon::fault_point("copy assignment (late)", false, true);
    return *this;
  }
  Core& operator=(Core&& o) noexcept(NX) {
    o.source_ok("move assignment");
    mon::obj_event(this, ID, mon::MASSIGN);
    if (!NX) begin("move assignment");
    put(o.v_, o.cat_);
    if (&o != this) o.put(MOVED, o.cat_);
    if (!NX && FAULTS) mon::fault_point("move assignment (late)", false, true);
    return *this;
  }
  Core& operator=(const Arg& a) {
    mon::obj_event(this, ID, mon::VASSIGN);
    begin("value assignment");
    put(a.v, CAT_ASG_CL);
    return *this;
  }
  Core& operator=(Arg&& a) {
    mon::obj_event(this, ID, mon::VASSIGN);
    begin("value assignment");
    ++a.moved;
    put(a.v, CAT_ASG_R);
    return *this;
  }
  ~Core() {
    mon::obj_dtor(this, ID);
    volatile long* p = &v_;
    *p = -666;
    volatile long* q = &w_;
    *q = 667;
    const void* volatile* s = &self_;
    *s = nullptr;
  }
  long v() const { return v_; }
  int cat() const { return cat_; }
  bool ok() const { return self_ == this && w_ == check(v_) && mon::obj_alive(this, ID); }
  void set(long v) {
    mon::require_alive(this, ID, "mutation");
    put(v, CAT_MUT);
  }
};

// ---- what the engine sees of an owned object
struct Obs {
  int type;
  long v;
  int cat;
  bool ok;
  const void* md;  // the most derived object
  std::size_t size;
};
struct TypeInfo {
  const char* name;
  int id;
  int ncores;
  bool copy;       // copy constructible
  bool own_move;   // rvalues are moved (else copied)
  bool nx_move;
  bool cassign;    // copy assignable
  bool own_massign;
  bool vassign;    // assignable from Arg
  bool args;       // constructible from Arg and so on
  bool multi, ilist;
  bool dflt;
  bool exact;      // allocates nothing internally
  std::size_t size, align;
  const void* tag;
};

#define VT_CTORS(N)                                                                    \
  explicit N(Arg& a) : c(a) {}                                                         \
  explicit N(const Arg& a) : c(a) {}                                                   \
  explicit N(Arg&& a) : c(std::move(a)) {}                                             \
  explicit N(const Arg&& a) : c(std::move(a)) {}                                       \
  N(Arg& a, const Arg& b, Arg&& x, MoveOnlyArg&& d)                                    \
      : c(a, b, std::move(x), std::move(d)) {}                                         \
  N(const Arg& a, const Arg& b, const Arg& x, const MoveOnlyArg& d) : c(a, b, x, d) {} \
  N(std::initializer_list<int> il) : c(il) {}                                          \
  N(std::initializer_list<int> il, Arg& a) : c(il, a) {}                               \
  N(std::initializer_list<int> il, const Arg& a) : c(il, a) {}                         \
  N(std::initializer_list<int> il, Arg&& a) : c(il, std::move(a)) {}

// 1: everything
struct Full {
  Core<1> c;
  Full() {}
  VT_CTORS(Full)
  Full(const Full&) = default;
  Full(Full&&) = default;
  Full& operator=(const Full&) = default;
  Full& operator=(Full&&) = default;
  Full& operator=(const Arg& a) {
    c = a;
    return *this;
  }
  Full& operator=(Arg&& a) {
    c = std::move(a);
    return *this;
  }
};
// 2: non-throwing moves
struct FullNX {
  Core<2, true> c;
  FullNX() {}
  VT_CTORS(FullNX)
};
// 3: no move operations of its own
struct CopyOnly {
  Core<3> c;
  CopyOnly() {}
  VT_CTORS(CopyOnly)
  CopyOnly(const CopyOnly&) = default;
  CopyOnly& operator=(const CopyOnly&) = default;
};
// 4: not assignable
struct NoAssign {
  const Core<4> c;
  NoAssign() {}
  VT_CTORS(NoAssign)
  NoAssign(const NoAssign&) = default;
  NoAssign(NoAssign&& o) : c(std::move(const_cast<Core<4>&>(o.c))) {}
  NoAssign& operator=(const NoAssign&) = delete;
};
// 5: move only
struct MoveOnly {
  Core<5> c;
  MoveOnly() {}
  VT_CTORS(MoveOnly)
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
};
// 6: move only, not assignable
struct MoveOnlyNoAssign {
  Core<6, true> c;
  MoveOnlyNoAssign() {}
  VT_CTORS(MoveOnlyNoAssign)
  MoveOnlyNoAssign(MoveOnlyNoAssign&&) = default;
  MoveOnlyNoAssign& operator=(MoveOnlyNoAssign&&) = delete;
};
// 7: assignment returns void
struct VoidAssign {
  Core<7> c;
  VoidAssign() {}
  VT_CTORS(VoidAssign)
  VoidAssign(const VoidAssign&) = default;
  VoidAssign(VoidAssign&&) = default;
  void operator=(const VoidAssign& o) { c = o.c; }
  void operator=(VoidAssign&& o) { c = std::move(o.c); }
};
// 8: copy constructible but only move assignable
struct MoveAssignOnly {
  Core<8> c;
  MoveAssignOnly() {}
  VT_CTORS(MoveAssignOnly)
  MoveAssignOnly(const MoveAssignOnly&) = default;
  MoveAssignOnly(MoveAssignOnly&&) = default;
  MoveAssignOnly& operator=(const MoveAssignOnly&) = delete;
  MoveAssignOnly& operator=(MoveAssignOnly&&) = default;
};
// 9: copy assignable, moves construct only
struct CopyAssignOnly {
  Core<9> c;
  CopyAssignOnly() {}
  VT_CTORS(CopyAssignOnly)
  CopyAssignOnly(const CopyAssignOnly&) = default;
  CopyAssignOnly(CopyAssignOnly&&) = default;
  CopyAssignOnly& operator=(const CopyAssignOnly&) = default;
};
// 10: hostile to generic code: operator&, operator new, comma, final. Generic code has no business with
// any of these: they need not do what their names promise.
inline void hostile_used(const char* what) {
  mon::soft(mon::L(3, 7, 10, 12), "hostile-operator", "the %s of an owned type was used", what);
}
#define VT_HOSTILE(T)                                   \
  T* operator&() {                                      \
    hostile_used("operator&");                          \
    return std::addressof(*this);                       \
  }                                                     \
  const T* operator&() const {                          \
    hostile_used("operator&");                          \
    return std::addressof(*this);                       \
  }                                                     \
  static void* operator new(std::size_t n) {            \
    hostile_used("operator new");                       \
    return ::operator new(n);                           \
  }                                                     \
  static void* operator new(std::size_t, void* p) {     \
    hostile_used("operator new");                       \
    return p;                                           \
  }
struct Hostile final {
  Core<10> c;
  Hostile() {}
  VT_CTORS(Hostile)
  VT_HOSTILE(Hostile)
  static void operator delete(void*) { hostile_used("operator delete"); }
  template <class U>
  U&& operator,(U&& u) const {
    hostile_used("operator,");
    return std::forward<U>(u);
  }
};
// 11: over-aligned
struct alignas(128) OverAligned {
  Core<11> c;
  OverAligned() {}
  VT_CTORS(OverAligned)
};
// 12: big
struct Big {
  Core<12> c;
  char fill[5000];
  void paint() { std::memset(fill, static_cast<char>(c.v() & 0x7f), sizeof fill); }
  bool painted() const {
    for (std::size_t i = 0; i < sizeof fill; i += 97)
      if (fill[i] != static_cast<char>(c.v() & 0x7f)) return false;
    return fill[sizeof fill - 1] == static_cast<char>(c.v() & 0x7f);
  }
  Big() { paint(); }
  explicit Big(Arg& a) : c(a) { paint(); }
  explicit Big(const Arg& a) : c(a) { paint(); }
  explicit Big(Arg&& a) : c(std::move(a)) { paint(); }
  explicit Big(const Arg&& a) : c(std::move(a)) { paint(); }
  Big(const Big& o) = default;
  Big(Big&& o) : c(std::move(o.c)) {
    paint();
    o.paint();
  }
  struct Repaint {
    Big& b;
    ~Repaint() { b.paint(); }
  };
  Big& operator=(const Big& o) {
    Repaint g = {*this};
    c = o.c;
    return *this;
  }
  Big& operator=(Big&& o) {
    Repaint g = {*this}, h = {o};
    c = std::move(o.c);
    return *this;
  }
};
// 13: polymorphic class used with indirect, with a virtual destructor
struct Virt {
  Core<13> c;
  Virt() {}
  VT_CTORS(Virt)
  virtual ~Virt() {}
  Virt(const Virt&) = default;
  Virt(Virt&&) = default;
  Virt& operator=(const Virt&) = default;
  Virt& operator=(Virt&&) = default;
  virtual int whoami() const { return 13; }
};
// 14: constructible and assignable from anything, like std::any
struct Greedy {
  Core<14> c;
  template <class U>
  struct Other : B_<!std::is_same<typename std::decay<U>::type, Greedy>::value> {};
  Greedy() {}
  VT_CTORS(Greedy)
  template <class U, typename std::enable_if<Other<U>::value, int>::type = 0>
  Greedy(U&&) : c(Arg(424242)) {}
  Greedy(const Greedy&) = default;
  Greedy(Greedy&&) = default;
  Greedy& operator=(const Greedy&) = default;
  Greedy& operator=(Greedy&&) = default;
  template <class U, typename std::enable_if<Other<U>::value, int>::type = 0>
  Greedy& operator=(U&&) {
    c.set(424243);
    return *this;
  }
};
// 15: implicit conversions to and from arithmetic types
struct Convertible {
  Core<15> c;
  Convertible() {}
  VT_CTORS(Convertible)
  operator int() const { return 3; }
  operator bool() const { return false; }
  operator const char*() const { return nullptr; }
};
// 16: copies never throw, although moves may
struct FullNC {
  Core<16, false, true, true> c;
  FullNC() {}
  VT_CTORS(FullNC)
};
// 17: neither copies nor moves throw
struct FullNCX {
  Core<17, true, true, true> c;
  FullNCX() {}
  VT_CTORS(FullNCX)
};

#undef VT_CTORS

// Relations that say nothing about the value: copying, assigning and swapping must not consult them.
#define VT_RELATIONS(T, EQ)                                        \
  inline bool operator==(const T&, const T&) { return EQ; }        \
  inline bool operator!=(const T&, const T&) { return !(EQ); }     \
  inline bool operator<(const T&, const T&) { return !(EQ); }      \
  inline bool operator>(const T&, const T&) { return !(EQ); }      \
  inline bool operator<=(const T&, const T&) { return EQ; }        \
  inline bool operator>=(const T&, const T&) { return EQ; }
VT_RELATIONS(Full, true)
VT_RELATIONS(CopyOnly, true)
VT_RELATIONS(VoidAssign, true)
VT_RELATIONS(Virt, true)
VT_RELATIONS(FullNC, true)
VT_RELATIONS(FullNX, false)
VT_RELATIONS(MoveOnly, false)
VT_RELATIONS(NoAssign, false)
VT_RELATIONS(Big, false)

struct Triv {
  long v;
  int pad[3];
};
struct TrivBig {
  long v;
  char fill[9000];
  long w;
};
struct alignas(64) TrivAligned {
  long v;
};
struct EmptyT {};
VT_RELATIONS(Triv, true)
VT_RELATIONS(TrivBig, false)
enum class Enum : unsigned short { ZERO = 0 };
typedef const char* Cstr;  // a scalar that points somewhere

// ---- adaptors
template <class T>
struct ZooCore {  // classes with a Core named c
  static Obs obs(const T& t) {
    Obs o = {std::decay<decltype(t.c)>::type::id, t.c.v(), t.c.cat(), t.c.ok(),
             static_cast<const void*>(std::addressof(t)), sizeof(T)};
    return o;
  }
  static void set(T& t, long v) { t.c.set(v); }
  static long norm(long v) { return v; }
};
template <class T>
struct Zoo : ZooCore<T> {};
template <>
struct Zoo<NoAssign> : ZooCore<NoAssign> {
  static void set(NoAssign& t, long v) { const_cast<Core<4>&>(t.c).set(v); }
};
template <>
struct Zoo<Big> : ZooCore<Big> {
  static Obs obs(const Big& t) {
    Obs o = ZooCore<Big>::obs(t);
    if (!t.painted()) o.ok = false;
    return o;
  }
  static void set(Big& t, long v) {
    t.c.set(v);
    t.paint();
  }
};
template <>
struct Zoo<Virt> : ZooCore<Virt> {
  static Obs obs(const Virt& t) {
    Obs o = ZooCore<Virt>::obs(t);
    if (t.whoami() != 13) o.ok = false;
    return o;
  }
};

template <class T, int ID>
struct ZooPlain {
  static Obs mk(const T& t, long v, bool ok) {
    Obs o = {ID, v, 0, ok, static_cast<const void*>(std::addressof(t)), sizeof(T)};
    return o;
  }
  static long norm(long v) { return v; }
};
template <>
struct Zoo<long> : ZooPlain<long, 101> {
  static long make(long v) { return v; }
  static Obs obs(const long& t) { return mk(t, t, true); }
  static void set(long& t, long v) { t = v; }
};
template <>
struct Zoo<Triv> : ZooPlain<Triv, 102> {
  static Triv make(long v) {
    Triv t = {v, {static_cast<int>(v), 1, static_cast<int>(-v)}};
    return t;
  }
  static Obs obs(const Triv& t) {
    return mk(t, t.v, t.pad[0] == static_cast<int>(t.v) && t.pad[1] == (t.v != 0) &&
                          t.pad[2] == static_cast<int>(-t.v));
  }
  static void set(Triv& t, long v) { t = make(v); }
};
template <>
struct Zoo<TrivBig> : ZooPlain<TrivBig, 103> {
  static TrivBig make(long v) {
    TrivBig t;
    t.v = v;
    t.w = ~v;
    std::memset(t.fill, static_cast<char>(v), sizeof t.fill);
    return t;
  }
  static Obs obs(const TrivBig& t) {
    bool ok = t.w == (t.v ? ~t.v : 0);  // value-initialised: all zero
    for (std::size_t i = 0; i < sizeof t.fill; i += 101)
      if (t.fill[i] != static_cast<char>(t.v)) ok = false;
    return mk(t, t.v, ok);
  }
  static void set(TrivBig& t, long v) { t = make(v); }
};
template <>
struct Zoo<TrivAligned> : ZooPlain<TrivAligned, 104> {
  static TrivAligned make(long v) {
    TrivAligned t;
    t.v = v;
    return t;
  }
  static Obs obs(const TrivAligned& t) { return mk(t, t.v, true); }
  static void set(TrivAligned& t, long v) { t.v = v; }
};
template <>
struct Zoo<Enum> : ZooPlain<Enum, 111> {
  static Enum make(long v) { return static_cast<Enum>(static_cast<unsigned short>(v)); }
  static Obs obs(const Enum& t) { return mk(t, static_cast<long>(t), true); }
  static void set(Enum& t, long v) { t = make(v); }
  static long norm(long v) { return static_cast<long>(static_cast<unsigned short>(v)); }
};
template <>
struct Zoo<Cstr> : ZooPlain<Cstr, 112> {
  // never dereferenced
  static Cstr make(long v) { return v ? reinterpret_cast<Cstr>(static_cast<std::uintptr_t>(v)) : nullptr; }
  static Obs obs(const Cstr& t) { return mk(t, static_cast<long>(reinterpret_cast<std::uintptr_t>(t)), true); }
  static void set(Cstr& t, long v) { t = make(v); }
};
template <>
struct Zoo<EmptyT> : ZooPlain<EmptyT, 105> {
  static EmptyT make(long) { return EmptyT(); }
  static Obs obs(const EmptyT& t) { return mk(t, 0, true); }
  static void set(EmptyT&, long) {}
  static long norm(long) { return 0; }
};
template <>
struct Zoo<std::string> : ZooPlain<std::string, 106> {
  // long enough not to fit the small-string buffer when v is odd
  static std::string make(long v) {
    if (v == 0) return std::string();
    return (v & 1 ? std::string("a string too long for the small buffer #") : std::string("s#")) +
           std::to_string(v);
  }
  static Obs obs(const std::string& t) {
    if (t.empty()) return mk(t, 0, true);
    std::size_t h = t.rfind('#');
    long v = h == std::string::npos ? -1 : std::atol(t.c_str() + h + 1);
    return mk(t, v, t == make(v));
  }
  static void set(std::string& t, long v) { t = make(v); }
};
template <>
struct Zoo<std::vector<int>> : ZooPlain<std::vector<int>, 107> {
  static std::vector<int> make(long v) {
    std::vector<int> r;
    if (v == 0) return r;
    r.assign(static_cast<std::size_t>(v % 5 + 1), static_cast<int>(v));
    return r;
  }
  static Obs obs(const std::vector<int>& t) {
    if (t.empty()) return mk(t, 0, true);
    return mk(t, t[0], t == make(t[0]));
  }
  static void set(std::vector<int>& t, long v) { t = make(v); }
};
template <>
struct Zoo<std::unique_ptr<long>> : ZooPlain<std::unique_ptr<long>, 108> {
  static std::unique_ptr<long> make(long v) {
    return v == 0 ? std::unique_ptr<long>() : std::unique_ptr<long>(new long(v));
  }
  static Obs obs(const std::unique_ptr<long>& t) { return mk(t, t ? *t : 0, true); }
  static void set(std::unique_ptr<long>& t, long v) { t = make(v); }
};
template <>
struct Zoo<std::shared_ptr<long>> : ZooPlain<std::shared_ptr<long>, 109> {
  static std::shared_ptr<long> make(long v) {
    return v == 0 ? std::shared_ptr<long>() : std::shared_ptr<long>(new long(v));
  }
  static Obs obs(const std::shared_ptr<long>& t) { return mk(t, t ? *t : 0, true); }
  static void set(std::shared_ptr<long>& t, long v) { t = make(v); }
};
template <>
struct Zoo<double> : ZooPlain<double, 110> {
  static double make(long v) { return static_cast<double>(v) + 0.5; }
  static Obs obs(const double& t) {
    return mk(t, t == 0 ? 0 : static_cast<long>(t - 0.5), true);
  }
  static void set(double& t, long v) { t = make(v); }
};

template <class T>
struct HasCore {
  template <class U>
  static char test(decltype(std::declval<U&>().c.v())*);
  template <class U>
  static long test(...);
  static constexpr bool value = sizeof(test<T>(nullptr)) == 1;
};

}  // namespace vt
#endif
