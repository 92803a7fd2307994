// C18: how holders appear to generic code - what they can be made from, what they convert to, what they declare about
// exceptions, which overload is chosen. Every query is put to the holder and to the plain owned type in the same
// program; where the answer is yes the operation is then carried out and its result compared with the plain value.
#include "cases.h"
#include "alloc.h"
#include "types.h"

#include <any>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>
using namespace vt;
using mon::L;

namespace {
const mon::Labels P = L(18);
template <class...>
using void_t = void;
template <class T>
using Bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
template <class... Ts>
struct Pack {};
template <class H, class U>
void take(const H&, U&&);

// ---- owned types
struct NoDefault {
  long v;
  explicit NoDefault(int i) : v(i) {}
};
struct FromText {  // implicitly from text, and from nothing
  std::string s;
  FromText() : s("-") {}
  FromText(const char* p) : s(p) {}
  FromText(std::string x) : s(std::move(x)) {}
};
struct MoveOnlyT {
  long v;
  explicit MoveOnlyT(long x) : v(x) {}
  MoveOnlyT(MoveOnlyT&& o) : v(o.v) { o.v = -1; }
  MoveOnlyT& operator=(MoveOnlyT&& o) {
    v = o.v;
    o.v = -1;
    return *this;
  }
};
struct CopyOnlyT {
  long v;
  explicit CopyOnlyT(long x) : v(x) {}
  CopyOnlyT(const CopyOnlyT&) = default;
  CopyOnlyT& operator=(const CopyOnlyT&) = default;
};
struct NoAssignT {
  const long v;
  explicit NoAssignT(long x) : v(x) {}
};
struct LvalueOnly {  // from an lvalue, not from an rvalue
  long v;
  explicit LvalueOnly(int& x) : v(x) { ++x; }
  LvalueOnly(int&&) = delete;
};
struct RvalueOnly {
  std::string s;
  explicit RvalueOnly(std::string&& x) : s(std::move(x)) {}
  RvalueOnly(const std::string&) = delete;
};
struct Several {
  long n;
  std::string s;
  Several(long a) : n(a) {}
  Several(long a, const char* b) : n(a), s(b) {}
  Several(long a, const char* b, std::unique_ptr<int> p) : n(a + *p), s(b) {}
};
struct Listy {
  long n;
  bool list;
  Listy() : n(0), list(false) {}
  Listy(int, int) : n(2), list(false) {}
  Listy(std::initializer_list<int> l) : n(static_cast<long>(l.size())), list(true) {}
  Listy(std::initializer_list<int> l, std::string s) : n(static_cast<long>(l.size() + s.size())), list(true) {}
};
struct Aggr {
  int a, b;
};
struct AssignFrom {  // made from a long, assigned from a string
  long v;
  explicit AssignFrom(long x) : v(x) {}
  AssignFrom(const AssignFrom&) = default;
  AssignFrom& operator=(const AssignFrom&) = default;
  AssignFrom& operator=(const std::string& s) {
    v = static_cast<long>(s.size());
    return *this;
  }
};
struct BothWays {  // made and assigned from a string
  long v;
  bool assigned;
  explicit BothWays(const std::string& s) : v(static_cast<long>(s.size())), assigned(false) {}
  BothWays(const BothWays&) = default;
  BothWays& operator=(const BothWays&) = default;
  BothWays& operator=(const std::string& s) {
    v = static_cast<long>(s.size());
    assigned = true;
    return *this;
  }
};
struct Anything {  // constructible from whatever one offers, holders included
  int how;
  Anything() : how(0) {}
  Anything(const Anything& o) : how(o.how) {}
  Anything(Anything&& o) : how(o.how) {}
  template <class U, typename std::enable_if<!std::is_same<Bare<U>, Anything>::value, int>::type = 0>
  Anything(U&&) : how(1) {}
  Anything& operator=(const Anything&) = default;
};
enum class Shade { dark, light };
struct Thrower {  // whose own operations all may throw
  long v;
  Thrower(long x) noexcept(false) : v(x) {}
  Thrower(const Thrower& o) noexcept(false) : v(o.v) {}
  Thrower(Thrower&& o) noexcept(false) : v(o.v) {}
  Thrower& operator=(const Thrower& o) noexcept(false) { return v = o.v, *this; }
  Thrower& operator=(Thrower&& o) noexcept(false) { return v = o.v, *this; }
};
struct Quiet {  // and one whose operations never do
  long v;
  Quiet(long x = 0) noexcept : v(x) {}
  Quiet(const Quiet& o) noexcept : v(o.v) {}
  Quiet(Quiet&& o) noexcept : v(o.v) {}
  Quiet& operator=(const Quiet& o) noexcept { return v = o.v, *this; }
  Quiet& operator=(Quiet&& o) noexcept { return v = o.v, *this; }
};
struct HasHash {
  long v;
};
struct NoHash {
  long v;
};

// ---- what identifies a value, for comparing the holder's with a plain one
template <class T>
auto shown(const T& t, int) -> decltype(t.how, std::string()) { return "how " + std::to_string(t.how); }
template <class T>
auto shown(const T& t, int) -> decltype(t.assigned, std::string()) { return std::to_string(t.v) + (t.assigned ? "a" : "m"); }
template <class T>
auto shown(const T& t, long) -> decltype(t.v, std::string()) { return std::to_string(static_cast<long>(t.v)); }
template <class T>
auto shown(const T& t, int) -> decltype(t.n, t.s, std::string()) { return std::to_string(t.n) + t.s; }
template <class T>
auto shown(const T& t, int) -> decltype(t.n, t.list, std::string()) { return std::to_string(t.n) + (t.list ? "l" : "-"); }
template <class T>
auto shown(const T& t, long) -> decltype(t.s, std::string()) { return t.s; }
template <class T>
auto shown(const T& t, int) -> decltype(t.a, std::string()) { return std::to_string(t.a) + "," + std::to_string(t.b); }
inline std::string shown(const std::string& s, int) { return s; }
inline std::string shown(int v, int) { return std::to_string(v); }
inline std::string shown(long v, int) { return std::to_string(v); }
inline std::string shown(double v, int) { return std::to_string(v); }
inline std::string shown(Shade v, int) { return std::to_string(static_cast<int>(v)); }
inline std::string shown(const std::vector<int>& v, int) {
  std::string r = "[";
  for (int x : v) r += std::to_string(x) + " ";
  return r + "]";
}
inline std::string shown(const std::unique_ptr<int>& p, int) { return p ? "->" + std::to_string(*p) : "null"; }
inline std::string shown(int* p, int) { return p ? "p" : "null"; }
template <class T>
std::string show(const T& t) { return shown(t, 0); }

// ---- arguments: a fresh one each time, as any kind of expression
template <class T>
struct Arg;
#define VT_ARG(T, NAME, ...)                       \
  template <>                                      \
  struct Arg<T> {                                  \
    static T make() { return __VA_ARGS__; }        \
    static const char* name() { return NAME; }     \
  };
static int some_int = 6;
const std::initializer_list<int> some_list = {3, 1, 2};
VT_ARG(int, "int", 5)
VT_ARG(long, "long", 7)
VT_ARG(double, "double", 2.5)
VT_ARG(char, "char", 'c')
VT_ARG(const char*, "text", "txt")
VT_ARG(std::string, "string", std::string("some text"))
VT_ARG(std::vector<int>, "vector", std::vector<int>{1, 2, 3})
VT_ARG(std::unique_ptr<int>, "unique_ptr", std::unique_ptr<int>(new int(4)))
VT_ARG(std::initializer_list<int>, "list", some_list)
VT_ARG(std::nullptr_t, "nullptr", nullptr)
VT_ARG(int*, "int*", &some_int)
VT_ARG(void*, "void*", &some_int)
VT_ARG(Shade, "enum", Shade::light)
VT_ARG(std::allocator_arg_t, "allocator_arg", std::allocator_arg)
VT_ARG(std::allocator<int>, "allocator", std::allocator<int>())
VT_ARG(NoDefault, "NoDefault", NoDefault(3))
VT_ARG(FromText, "FromText", FromText("ft"))
VT_ARG(MoveOnlyT, "MoveOnly", MoveOnlyT(8))
VT_ARG(CopyOnlyT, "CopyOnly", CopyOnlyT(9))
VT_ARG(Aggr, "Aggr", Aggr{1, 2})
VT_ARG(Several, "Several", Several(4, "s"))
VT_ARG(Listy, "Listy", Listy(1, 2))
VT_ARG(AssignFrom, "AssignFrom", AssignFrom(2))
VT_ARG(BothWays, "BothWays", BothWays("abcd"))
VT_ARG(Thrower, "Thrower", Thrower(1))
VT_ARG(Quiet, "Quiet", Quiet(1))
VT_ARG(Anything, "Anything", Anything())
VT_ARG(NoAssignT, "NoAssign", NoAssignT(1))
VT_ARG(xyz::indirect<char>, "indirect<char>", xyz::indirect<char>('i'))
VT_ARG(xyz::polymorphic<NoDefault>, "polymorphic<NoDefault>", xyz::polymorphic<NoDefault>(NoDefault(1)))
template <>
struct Arg<LvalueOnly> {
  static LvalueOnly make() {
    int i = 6;
    return LvalueOnly(i);
  }
  static const char* name() { return "LvalueOnly"; }
};
template <>
struct Arg<RvalueOnly> {
  static RvalueOnly make() { return RvalueOnly(std::string("r")); }
  static const char* name() { return "RvalueOnly"; }
};
// an object of type Bare<U> that can be passed as a U
template <class U>
struct Holdr {
  Bare<U> x;
  Holdr() : x(Arg<Bare<U>>::make()) {}
  U pass() { return static_cast<U>(x); }
};
template <class U>
const char* kind() {
  return std::is_lvalue_reference<U>::value ? (std::is_const<typename std::remove_reference<U>::type>::value ? " const&" : "&")
                                            : (std::is_const<typename std::remove_reference<U>::type>::value ? " const&&" : "&&");
}

// ---- the queries
template <class T, class A, class... Us>
using MakesT = B_<std::is_constructible<T, Us...>::value>;
void agree(const char* what, const char* type, const std::string& args, bool have, bool want) {
  REQF(P, have == want, "%s of %s with (%s): the holder says %s where the value says %s", what, type, args.c_str(),
       have ? "yes" : "no", want ? "yes" : "no");
  vt::seen(P, sig(what, have, static_cast<long>(mon::fnv(type)), static_cast<long>(mon::fnv(args))));
}
void same_value(const char* what, const char* type, const std::string& args, const std::string& have, const std::string& want) {
  REQF(P, have == want, "%s of %s with (%s): the value is %s instead of %s", what, type, args.c_str(), have.c_str(), want.c_str());
}
// null pointers and borrowed ones are asked about, but nothing is made from them
template <class... Us>
struct Usable : std::true_type {};
template <class U, class... Us>
struct Usable<U, Us...> : B_<!std::is_pointer<Bare<U>>::value && !std::is_same<Bare<U>, std::nullptr_t>::value && Usable<Us...>::value> {};
template <class... Us>
struct Usable<const char*&, Us...> : Usable<Us...> {};
template <class... Us>
struct Usable<const char*&&, Us...> : Usable<Us...> {};
template <class... Us>
struct Usable<const char* const&, Us...> : Usable<Us...> {};
template <class... Us>
std::string list() {
  std::string r;
  using E = int[];
  (void)E{0, (r += std::string(r.empty() ? "" : ", ") + Arg<Bare<Us>>::name() + kind<Us>(), 0)...};
  return r;
}
// carried out where the answers say yes
template <class T, class... Us, class... Hs>
std::string plain(Hs&&... hs) {
  some_int = 6;
  T t(static_cast<Us>(hs.x)...);
  return show(t);
}
template <class I>
std::string held(I&& i) {
  return i.valueless_after_move() ? std::string("valueless") : show(*i);
}
template <class T>
struct Conv {
  template <class U, class I>
  static void go(const char* name) {
    const std::string a = list<U>();
    agree("implicit conversion", name, a, std::is_convertible<U, I>::value, false);
  }
};

template <class T, class A, class U>
struct OneArg {
  typedef xyz::indirect<T, A> I;
  // from the value alone, in the C++14 headers only T itself
  static constexpr bool can = std::is_constructible<T, U>::value;
  static constexpr bool dflt = std::is_default_constructible<A>::value;
  static constexpr bool same = std::is_same<Bare<U>, T>::value;
  template <bool Yes, class Dummy = void>
  struct Run {
    static void go(const char*, const std::string&) {}
  };
  template <class D>
  struct Run<true, D> {
    static void go(const char* name, const std::string& a) {
      Holdr<U> h, h2;
      const std::string w = plain<T, U>(h2);
      some_int = 6;
      I i(std::allocator_arg, A(AllocInfo<A>::make(3)), h.pass());
      same_value("allocator-extended construction", name, a, held(i), w);
    }
  };
  template <bool Yes, class Dummy = void>
  struct Asg {
    static void go(const char*, const std::string&) {}
  };
  template <class D>
  struct Asg<true, D> {
    static void go(const char* name, const std::string& a) {
      Holdr<U> h, h2, h3, h4;
      I i(std::allocator_arg, A(AllocInfo<A>::make(3)), in_place(), Arg<T>::make());
      T t(Arg<T>::make());
      t = h2.pass();
      i = h.pass();
      same_value("assignment", name, a, held(i), show(t));
      { I gone(std::move(i)); }
      some_int = 6;
      const std::string w = plain<T, U>(h4);
      some_int = 6;
      i = h3.pass();
      same_value("assignment to a valueless one", name, a, held(i), w);
    }
  };
  static void go(const char* name) {
    const std::string a = list<U>();
#if VT_HDR == 20
    agree("construction", name, a, std::is_constructible<I, U>::value, can && dflt);
    agree("allocator-extended construction", name, a, std::is_constructible<I, std::allocator_arg_t, const A&, U>::value, can);
    Run<can && Usable<U>::value>::go(name, a);
#else
    if (!same) {
      agree("construction", name, a, std::is_constructible<I, U>::value, false);
      agree("allocator-extended construction", name, a, std::is_constructible<I, std::allocator_arg_t, const A&, U>::value, false);
    } else if (can) {
      if (dflt) agree("construction", name, a, std::is_constructible<I, U>::value, true);
      agree("allocator-extended construction", name, a, std::is_constructible<I, std::allocator_arg_t, const A&, U>::value, true);
    }
    Run<can && same && Usable<U>::value>::go(name, a);
#endif
    agree("assignment", name, a, std::is_assignable<I&, U>::value, can && std::is_assignable<T&, U>::value);
    Asg<can && std::is_assignable<T&, U>::value && Usable<U>::value && !std::is_pointer<T>::value>::go(name, a);
    agree("implicit conversion", name, a, std::is_convertible<U, I>::value, false);
  }
};
template <class T, class A, class... Us>
struct InPlace {
  typedef xyz::indirect<T, A> I;
  static constexpr bool can = std::is_constructible<T, Us...>::value;
  static constexpr bool dflt = std::is_default_constructible<A>::value;
  template <bool Yes, class Dummy = void>
  struct Run {
    static void go(const char*, const std::string&) {}
  };
  template <class D>
  struct Run<true, D> {
    template <class... Hs>
    static std::string build(Hs&&... hs) {
      some_int = 6;
      I i(std::allocator_arg, A(AllocInfo<A>::make(3)), in_place(), static_cast<Us>(hs.x)...);
      return held(i);
    }
    static void go(const char* name, const std::string& a) {
      const std::string w = plain<T, Us...>(Holdr<Us>()...);
      same_value("allocator-extended in-place construction", name, a, build(Holdr<Us>()...), w);
    }
  };
  static void go(const char* name) {
    const std::string a = list<Us...>();
    agree("in-place construction", name, a, std::is_constructible<I, in_place, Us...>::value, can && dflt);
    agree("allocator-extended in-place construction", name, a,
          std::is_constructible<I, std::allocator_arg_t, const A&, in_place, Us...>::value, can);
    Run<can && Usable<Us...>::value>::go(name, a);
  }
};
template <class T, class A, class... Us>
void each_kind(const char* name) {
  using E = int[];
  (void)E{0, (OneArg<T, A, Us&&>::go(name), OneArg<T, A, Us&>::go(name), OneArg<T, A, const Us&>::go(name),
              InPlace<T, A, Us&&>::go(name), InPlace<T, A, Us&>::go(name), InPlace<T, A, const Us&>::go(name), 0)...};
}
template <class T, class A>
void packs(const char* name) {
  InPlace<T, A, int&&, int&&>::go(name);
  InPlace<T, A, long&&, const char*&&>::go(name);
  InPlace<T, A, long&, const char*&>::go(name);
  InPlace<T, A, long&&, const char*&&, std::unique_ptr<int>&&>::go(name);
  InPlace<T, A, long&&, const char*&&, std::unique_ptr<int>&>::go(name);
  InPlace<T, A, int&&, const char*&&, std::unique_ptr<int>&&, int&&>::go(name);
  InPlace<T, A, std::initializer_list<int>&&>::go(name);
  InPlace<T, A, std::initializer_list<int>&&, std::string&&>::go(name);
  InPlace<T, A, std::initializer_list<int>&&, std::string&>::go(name);
  InPlace<T, A, std::initializer_list<int>&&, int&&>::go(name);
  InPlace<T, A, std::initializer_list<int>&&, std::allocator<int>&&>::go(name);
  InPlace<T, A, int&&, std::allocator<int>&&>::go(name);
  InPlace<T, A, std::allocator_arg_t&&, std::allocator<int>&&>::go(name);
}
#define VT_ALL_ARGS                                                                                                      \
  int, long, double, char, const char*, std::string, std::vector<int>, std::unique_ptr<int>, std::nullptr_t, int*, void*, \
      Shade, NoDefault, FromText, MoveOnlyT, CopyOnlyT, Aggr, Several, Listy, AssignFrom, BothWays, std::allocator<int>,   \
      xyz::indirect<char>, xyz::polymorphic<NoDefault>, NoAssignT, LvalueOnly, RvalueOnly, Anything

// braces are no conversion either
template <class I>
void sink(I) noexcept;
template <class I, class P, class = void>
struct Braced : std::false_type {};
template <class I, class... Us>
struct Braced<I, Pack<Us...>, void_t<decltype(sink<I>({std::declval<Us>()...}))>> : std::true_type {};
template <class T, class A, class H, class Tag>
void braces(const char* name, T*, A*, H*, Tag*) {
  agree("braces around", name, "a value", Braced<H, Pack<T>>::value || Braced<H, Pack<T&>>::value, false);
  agree("braces around", name, "in-place arguments", Braced<H, Pack<Tag, const T&>>::value, false);
  agree("braces around", name, "an in-place tag", Braced<H, Pack<Tag>>::value || std::is_convertible<Tag, H>::value, false);
#if VT_HDR == 20
  agree("braces around", name, "nothing", Braced<H, Pack<>>::value, false);
  agree("braces around", name, "an allocator", Braced<H, Pack<std::allocator_arg_t, A>>::value, false);
  agree("braces around", name, "an allocator and a value", Braced<H, Pack<std::allocator_arg_t, A, T>>::value, false);
  agree("braces around", name, "an allocator and in-place arguments", Braced<H, Pack<std::allocator_arg_t, A, Tag, const T&>>::value, false);
  agree("braces around", name, "an in-place tag and a list", Braced<H, Pack<Tag, std::initializer_list<int>>>::value, false);
#endif
  agree("braces around", name, "a holder", Braced<H, Pack<H>>::value && Braced<H, Pack<const H&>>::value, true);
  agree("construction", name, "nothing", std::is_default_constructible<H>::value, std::is_default_constructible<A>::value);
  agree("construction", name, "an allocator alone", std::is_convertible<A, H>::value || Braced<H, Pack<A>>::value, false);
}
template <class T, class A>
void braces(const char* name) {
  braces(name, static_cast<T*>(nullptr), static_cast<A*>(nullptr), static_cast<xyz::indirect<T, A>*>(nullptr), static_cast<in_place*>(nullptr));
}
template <class T, class A>
void poly_braces(const char* name) {
  braces(name, static_cast<T*>(nullptr), static_cast<A*>(nullptr), static_cast<xyz::polymorphic<T, A>*>(nullptr), static_cast<in_place_type<T>*>(nullptr));
}

// never out of a holder: to the value, a pointer to it, bool or another holder
template <class T, class A>
void out(const char* name) {
  typedef xyz::indirect<T, A> I;
  const std::string a = "itself";
  agree("conversion to the value", name, a, std::is_convertible<I, T>::value || std::is_convertible<I&, T&>::value || std::is_convertible<const I&, const T&>::value, false);
  agree("explicit conversion to the value", name, a, std::is_constructible<T, I&>::value || std::is_constructible<T, I>::value, false);
  agree("conversion to a pointer", name, a, std::is_constructible<T*, I&>::value || std::is_constructible<const T*, const I&>::value || std::is_constructible<void*, I&>::value, false);
  agree("conversion to bool", name, a, std::is_constructible<bool, I&>::value || std::is_constructible<bool, const I&>::value, false);
  typedef xyz::indirect<NoHash, A> Other;
  agree("conversion to another holder", name, a, std::is_constructible<xyz::indirect<NoHash>, I&>::value || std::is_assignable<xyz::indirect<NoHash>&, I&>::value ||
        std::is_constructible<xyz::polymorphic<NoHash>, I&>::value, false);
  agree("from another holder", name, a, std::is_constructible<I, xyz::indirect<NoHash>&>::value || std::is_constructible<I, xyz::polymorphic<NoHash>>::value || std::is_assignable<I&, xyz::indirect<NoHash>>::value, false);
  agree("from a pointer", name, a, std::is_constructible<I, T*>::value && !std::is_constructible<T, T*>::value, false);
}

// ---- exceptions
template <class H>
struct Ops {
  typedef typename H::allocator_type A;
  static H& l() noexcept;
  static const H& c() noexcept;
  static H&& r() noexcept;
  static const H&& cr() noexcept;
};
template <class H, class A>
void exceptions(const char* name, bool indirect, B_<true>);
template <class H>
void exceptions(const char* name) {
  typedef typename H::allocator_type A;
  typedef std::allocator_traits<A> AT;
  typedef Ops<H> O;
  const bool pm = AT::propagate_on_container_move_assignment::value, ps = AT::propagate_on_container_swap::value,
             ae = AT::is_always_equal::value;
  const std::string a = std::string(pm ? "M" : "-") + (ps ? "S" : "-") + (ae ? "E" : "-");
#define DECLARES(WHAT, EXPR, WANT)                                                                                    \
  do {                                                                                                                \
    const bool have_ = noexcept(EXPR), want_ = (WANT);                                                                \
    REQF(P, have_ == want_, "%s of %s, allocator %s: declared %s", WHAT, name, a.c_str(),                             \
         have_ ? "never to throw" : "to throw possibly");                                                             \
    vt::seen(P, sig(WHAT, have_, pm, ps, ae, static_cast<long>(mon::fnv(name))));                                     \
  } while (0)
  REQF(P, std::is_nothrow_move_constructible<H>::value, "%s, allocator %s: moving may throw", name, a.c_str());
  DECLARES("move construction", H(O::r()), true);
  DECLARES("move assignment", O::l() = O::r(), pm || ae);
  DECLARES("allocator-extended move", H(std::allocator_arg, std::declval<const A&>(), O::r()), ae);
  DECLARES("swap", O::l().swap(O::l()), ps || ae);
  DECLARES("free swap", swap(O::l(), O::l()), ps || ae);
  DECLARES("operator*", *O::l(), true);
  DECLARES("const operator*", *O::c(), true);
  DECLARES("rvalue operator*", *O::r(), true);
  DECLARES("operator->", O::l().operator->(), true);
  DECLARES("const operator->", O::c().operator->(), true);
  DECLARES("valueless_after_move", O::c().valueless_after_move(), true);
  DECLARES("get_allocator", O::c().get_allocator(), true);
  DECLARES("destruction", O::l().~H(), true);
  DECLARES("copy assignment", O::l() = O::c(), false);
  DECLARES("copying with an allocator", H(std::allocator_arg, std::declval<const A&>(), O::c()), false);
  DECLARES("copying", H(O::c()), false);
  typedef typename H::value_type T;
  REQF(P, !std::is_nothrow_default_constructible<H>::value, "%s, allocator %s: default construction is declared never to throw", name, a.c_str());
  REQF(P, !(std::is_nothrow_constructible<H, const T&>::value || std::is_nothrow_constructible<H, T>::value ||
            std::is_nothrow_constructible<H, std::allocator_arg_t, const A&, T>::value),
       "%s, allocator %s: construction from a value is declared never to throw", name, a.c_str());
  REQF(P, !(std::is_nothrow_constructible<H, in_place, T>::value || std::is_nothrow_constructible<H, in_place_type<T>, T>::value),
       "%s, allocator %s: in-place construction is declared never to throw", name, a.c_str());
#undef DECLARES
}
template <class T, bool C, bool M, bool S, bool E>
void exceptions_for(const char* name) {
  typedef Cfg<C, M, S, E, false, false> F;
  exceptions<xyz::indirect<T, MonAlloc<T, F>>>((std::string("indirect of ") + name).c_str());
  exceptions<xyz::polymorphic<T, MonAlloc<T, F>>>((std::string("polymorphic of ") + name).c_str());
}
template <class T>
void all_exceptions(const char* name) {
  exceptions_for<T, false, false, false, false>(name);
  exceptions_for<T, false, false, false, true>(name);
  exceptions_for<T, false, false, true, false>(name);
  exceptions_for<T, false, false, true, true>(name);
  exceptions_for<T, false, true, false, false>(name);
  exceptions_for<T, false, true, false, true>(name);
  exceptions_for<T, false, true, true, false>(name);
  exceptions_for<T, false, true, true, true>(name);
  exceptions_for<T, true, false, false, false>(name);
  exceptions_for<T, true, false, false, true>(name);
  exceptions_for<T, true, false, true, false>(name);
  exceptions_for<T, true, false, true, true>(name);
  exceptions_for<T, true, true, false, false>(name);
  exceptions_for<T, true, true, true, true>(name);
  exceptions<xyz::indirect<T>>(name);
  exceptions<xyz::polymorphic<T>>(name);
  exceptions<xyz::indirect<T, EmptyAlloc<T>>>(name);
  exceptions<xyz::polymorphic<T, EmptyAlloc<T>>>(name);
}

// ---- polymorphic
struct Base {
  long v;
  Base(long x = 1) : v(x) {}
  Base(const Base&) = default;
  Base& operator=(const Base&) = default;
  virtual ~Base() = default;
  virtual std::string who() const { return "Base " + std::to_string(v); }
};
struct Derived : Base {
  Derived(long x = 2) : Base(x) {}
  std::string who() const override { return "Derived " + std::to_string(v); }
};
struct Further : Derived {
  std::string s;
  Further(long x, const char* t) : Derived(x), s(t) {}
  Further(std::initializer_list<int> l) : Derived(static_cast<long>(l.size())), s("l") {}
  Further(std::initializer_list<int> l, std::string t) : Derived(static_cast<long>(l.size())), s(std::move(t)) {}
  std::string who() const override { return "Further " + std::to_string(v) + s; }
};
struct FromLvalue : Base {
  explicit FromLvalue(int& x) : Base(x) {}
  std::string who() const override { return "FromLvalue " + std::to_string(v); }
};
// the unfit ones can be made in every way there is
#define EVERY_WAY(T)                            \
  T() {}                                        \
  T(int&) {}                                    \
  T(long, const char*, int = 0) {}              \
  T(std::string) {}                             \
  T(std::initializer_list<int>) {}              \
  T(std::initializer_list<int>, std::string) {}
struct NotCopyable : Base {
  EVERY_WAY(NotCopyable)
  NotCopyable(NotCopyable&&) = default;
  NotCopyable(const NotCopyable&) = delete;
};
struct Hidden : private Base {
  EVERY_WAY(Hidden)
};
struct Left : Base {};
struct Right : Base {};
struct Twice : Left, Right {
  EVERY_WAY(Twice)
};
struct Unrelated {
  EVERY_WAY(Unrelated)
  virtual ~Unrelated() = default;
};
struct Iface {
  virtual ~Iface() = default;
  virtual std::string who() const = 0;
};
struct Impl : Iface {
  long v;
  explicit Impl(long x = 3) : v(x) {}
  std::string who() const override { return "Impl " + std::to_string(v); }
};
struct Plain0 {
  long v;
  Plain0(long x = 4) : v(x) {}
  std::string who() const { return "Plain0 " + std::to_string(v); }
};
struct Plain1 : Plain0 {
  Plain1(long x = 5) : Plain0(x) {}
};
VT_ARG(Base, "Base", Base(11))
VT_ARG(Derived, "Derived", Derived(12))
VT_ARG(Further, "Further", Further(13, "f"))
template <>
struct Arg<FromLvalue> {
  static FromLvalue make() {
    int i = 6;
    return FromLvalue(i);
  }
  static const char* name() { return "FromLvalue"; }
};
VT_ARG(NotCopyable, "NotCopyable", NotCopyable())
VT_ARG(Hidden, "Hidden", Hidden())
VT_ARG(Twice, "Twice", Twice())
VT_ARG(Unrelated, "Unrelated", Unrelated())
VT_ARG(Impl, "Impl", Impl(14))
VT_ARG(Plain0, "Plain0", Plain0(15))
VT_ARG(Plain1, "Plain1", Plain1(16))
VT_ARG(Base*, "Base*", nullptr)
VT_ARG(Derived*, "Derived*", nullptr)
VT_ARG(std::shared_ptr<Derived>, "shared_ptr<Derived>", nullptr)
VT_ARG(xyz::polymorphic<Derived>, "polymorphic<Derived>", xyz::polymorphic<Derived>(Derived(1)))
VT_ARG(xyz::polymorphic<Unrelated>, "polymorphic<Unrelated>", xyz::polymorphic<Unrelated>(Unrelated()))
VT_ARG(xyz::indirect<Derived>, "indirect<Derived>", xyz::indirect<Derived>(Derived(1)))

// an object of U may be owned as a T
template <class T, class U>
struct Fits : B_<std::is_base_of<T, U>::value && std::is_convertible<U*, T*>::value && std::is_copy_constructible<U>::value> {};
template <class T, class U>
struct FitsC : B_<std::is_class<U>::value && Fits<T, U>::value> {};
template <class U>
struct Unclear : B_<VT_HDR == 14 && (std::is_same<U, Hidden>::value || std::is_same<U, Twice>::value)> {};

template <class T, class A, class U>
struct PolyOne {
  typedef xyz::polymorphic<T, A> H;
  typedef Bare<U> UU;
  static constexpr bool can = FitsC<T, UU>::value;
  template <bool Yes, class D = void>
  struct Run {
    static void go(const char*, const std::string&) {}
  };
  template <class D>
  struct Run<true, D> {
    static void go(const char* name, const std::string& a) {
      Holdr<U> h, h2;
      UU t(h2.pass());
      H p(std::allocator_arg, A(AllocInfo<A>::make(4)), h.pass());
      same_value("allocator-extended construction", name, a, p.valueless_after_move() ? std::string("valueless") : p->who(), t.who());
    }
  };
  static void go(const char* name) {
    const std::string a = list<U>();
    if (!Unclear<UU>::value) {
#if VT_HDR == 20
      agree("construction", name, a, std::is_constructible<H, U>::value, can && std::is_default_constructible<A>::value);
#else
      if (!can || std::is_default_constructible<A>::value)
        agree("construction", name, a, std::is_constructible<H, U>::value, can);
#endif
      agree("allocator-extended construction", name, a, std::is_constructible<H, std::allocator_arg_t, const A&, U>::value, can);
      Run<can && std::is_constructible<UU, U>::value>::go(name, a);
    }
    agree("implicit conversion", name, a, std::is_convertible<U, H>::value, false);
    agree("assignment", name, a, std::is_assignable<H&, U>::value, false);
  }
};
template <class T, class A, class U, class... Us>
struct PolyIn {
  typedef xyz::polymorphic<T, A> H;
  static constexpr bool can = FitsC<T, U>::value && std::is_constructible<U, Us...>::value;
  template <bool Yes, class D = void>
  struct Run {
    static void go(const char*, const std::string&) {}
  };
  template <class D>
  struct Run<true, D> {
    template <class... Hs>
    static std::string build(Hs&&... hs) {
      some_int = 6;
      H i(std::allocator_arg, A(AllocInfo<A>::make(3)), in_place_type<U>(), static_cast<Us>(hs.x)...);
      return i.valueless_after_move() ? std::string("valueless") : i->who();
    }
    template <class... Hs>
    static std::string plainly(Hs&&... hs) {
      some_int = 6;
      U u(static_cast<Us>(hs.x)...);
      return u.who();
    }
    static void go(const char* name, const std::string& a) {
      same_value("allocator-extended in-place construction", name, a, build(Holdr<Us>()...), plainly(Holdr<Us>()...));
    }
  };
  static void go(const char* name) {
    if (Unclear<U>::value) return;
    const std::string a = std::string(Arg<U>::name()) + " from " + list<Us...>();
    agree("in-place construction", name, a, std::is_constructible<H, in_place_type<U>, Us...>::value, can && std::is_default_constructible<A>::value);
    agree("allocator-extended in-place construction", name, a,
          std::is_constructible<H, std::allocator_arg_t, const A&, in_place_type<U>, Us...>::value, can);
    Run<can && Usable<Us...>::value>::go(name, a);
  }
};
template <class T, class A, class U>
void poly_type(const char* name) {
  PolyOne<T, A, U&&>::go(name);
  PolyOne<T, A, U&>::go(name);
  PolyOne<T, A, const U&>::go(name);
  PolyIn<T, A, U, U&&>::go(name);
  PolyIn<T, A, U, const U&>::go(name);
  PolyIn<T, A, U, int&>::go(name);
  PolyIn<T, A, U, int&&>::go(name);
  PolyIn<T, A, U, const int&>::go(name);
  PolyIn<T, A, U, std::string&&>::go(name);
  PolyIn<T, A, U, long&&, const char*&&>::go(name);
  PolyIn<T, A, U, long&&, const char*&&, int&&>::go(name);
  PolyIn<T, A, U, std::initializer_list<int>&&>::go(name);
  PolyIn<T, A, U, std::initializer_list<int>&&, std::string&&>::go(name);
  PolyIn<T, A, U, std::initializer_list<int>&&, int&&>::go(name);
}
template <class T, class A>
void poly_all(const char* name) {
  typedef xyz::polymorphic<T, A> H;
  poly_type<T, A, Base>(name);
  poly_type<T, A, Derived>(name);
  poly_type<T, A, Further>(name);
  poly_type<T, A, FromLvalue>(name);
  poly_type<T, A, NotCopyable>(name);
  poly_type<T, A, Hidden>(name);
  poly_type<T, A, Twice>(name);
  poly_type<T, A, Unrelated>(name);
  poly_type<T, A, Impl>(name);
  poly_type<T, A, Plain0>(name);
  poly_type<T, A, Plain1>(name);
  PolyOne<T, A, Base*>::go(name);
  PolyOne<T, A, Derived*>::go(name);
  PolyOne<T, A, std::nullptr_t>::go(name);
  PolyOne<T, A, std::shared_ptr<Derived>&>::go(name);
  PolyOne<T, A, int>::go(name);
  PolyOne<T, A, std::string>::go(name);
  typedef xyz::polymorphic<Unrelated> Other;
  agree("from another holder", name, "polymorphic", std::is_constructible<H, Other&>::value || std::is_constructible<H, Other>::value || std::is_assignable<H&, Other>::value, false);
  agree("from a holder of a derived type", name, "polymorphic<Derived>",
        !std::is_same<H, xyz::polymorphic<Derived>>::value &&
            (std::is_constructible<H, xyz::polymorphic<Derived>&>::value || std::is_assignable<H&, xyz::polymorphic<Derived>>::value), false);
  agree("conversion to the value", name, "itself", std::is_convertible<H&, T&>::value || std::is_constructible<T&, H&>::value || std::is_constructible<const T&, const H&>::value, false);
  agree("conversion to a pointer", name, "itself", std::is_constructible<T*, H&>::value || std::is_constructible<const T*, const H&>::value, false);
  agree("conversion to bool", name, "itself", std::is_constructible<bool, H&>::value, false);
  agree("copying", name, "itself", std::is_copy_constructible<H>::value && std::is_copy_assignable<H>::value && std::is_move_constructible<H>::value &&
        std::is_constructible<H, H&>::value && std::is_constructible<H, const H>::value && std::is_convertible<const H&, H>::value, true);
}

// an allocator without a default constructor, and plain ones
template <class T>
using NoDef = MonAlloc<T, Cfg<false, false, false, false, false, false, false>>;
template <class T>
using Mon = MonAlloc<T, Cfg<false, false, false, false, false, false>>;
}  // namespace
namespace std {
template <>
struct hash<HasHash> {
  size_t operator()(const HasHash& h) const { return static_cast<size_t>(h.v); }
};
}  // namespace std
namespace {
template <class H, class = void>
struct Hashable : std::false_type {};
template <class H>
struct Hashable<H, void_t<decltype(std::hash<H>()(std::declval<const H&>()))>> : std::true_type {};
}  // namespace

#define TYPE(NAME, T)                                                           \
  CASE(from_##NAME, P, 1) {                                                     \
    each_kind<T, std::allocator<T>, VT_ALL_ARGS>(#T);                           \
    packs<T, std::allocator<T>>(#T);                                            \
  }                                                                             \
  CASE(from_nodef_##NAME, P, 1) {                                               \
    each_kind<T, NoDef<T>, VT_ALL_ARGS>(#T ", allocator without default");      \
    packs<T, NoDef<T>>(#T ", allocator without default");                       \
  }
#define PLAINLY(NAME, T)                                                         \
  TYPE(NAME, T)                                                                 \
  CASE(out_##NAME, P, 1) { out<T, std::allocator<T>>(#T); out<T, Mon<T>>(#T); }
#if VT_PART == 1
PLAINLY(int, int)
PLAINLY(long, long)
PLAINLY(double, double)
PLAINLY(enum, Shade)
PLAINLY(pointer, int*)
PLAINLY(string, std::string)
#elif VT_PART == 2
PLAINLY(vector, std::vector<int>)
PLAINLY(unique_ptr, std::unique_ptr<int>)
PLAINLY(NoDefault, NoDefault)
PLAINLY(FromText, FromText)
PLAINLY(MoveOnly, MoveOnlyT)
PLAINLY(CopyOnly, CopyOnlyT)
#elif VT_PART == 3
PLAINLY(NoAssign, NoAssignT)
PLAINLY(LvalueOnly, LvalueOnly)
PLAINLY(RvalueOnly, RvalueOnly)
PLAINLY(Several, Several)
PLAINLY(Listy, Listy)
PLAINLY(Aggr, Aggr)
#elif VT_PART == 4
PLAINLY(AssignFrom, AssignFrom)
PLAINLY(BothWays, BothWays)
TYPE(Anything, Anything)
CASE(exceptions_quiet, P, 1) { all_exceptions<Quiet>("Quiet"); }
CASE(exceptions_thrower, P, 1) { all_exceptions<Thrower>("Thrower"); }
CASE(exceptions_string, P, 1) { all_exceptions<std::string>("string"); }
CASE(exceptions_base, P, 1) { all_exceptions<Base>("Base"); }
#else
CASE(poly_base, P, 1) { poly_all<Base, std::allocator<Base>>("Base"); }
CASE(poly_derived, P, 1) { poly_all<Derived, std::allocator<Derived>>("Derived"); }
CASE(poly_iface, P, 1) { poly_all<Iface, std::allocator<Iface>>("Iface"); }
CASE(poly_plain, P, 1) { poly_all<Plain0, std::allocator<Plain0>>("Plain0"); }
CASE(poly_base_nodef, P, 1) { poly_all<Base, NoDef<Base>>("Base, allocator without default"); }
CASE(poly_iface_nodef, P, 1) { poly_all<Iface, NoDef<Iface>>("Iface, allocator without default"); }

CASE(braced, P, 1) {
  braces<Quiet, std::allocator<Quiet>>("indirect of Quiet");
  braces<Quiet, NoDef<Quiet>>("indirect of Quiet, allocator without default");
  braces<FromText, std::allocator<FromText>>("indirect of FromText");
  braces<std::string, Mon<std::string>>("indirect of string");
  braces<std::vector<int>, std::allocator<std::vector<int>>>("indirect of vector");
  braces<Listy, std::allocator<Listy>>("indirect of Listy");
  poly_braces<Base, std::allocator<Base>>("polymorphic of Base");
  poly_braces<Derived, NoDef<Derived>>("polymorphic of Derived, allocator without default");
  poly_braces<Plain0, Mon<Plain0>>("polymorphic of Plain0");
  poly_braces<Quiet, std::allocator<Quiet>>("polymorphic of Quiet");
}

// ---- overloads: who is called
namespace {
int f(long) { return 0; }
int f(const xyz::indirect<long>&) { return 1; }
int g(const std::string&) { return 0; }
int g(xyz::indirect<std::string>) { return 1; }
int h(const Base&) { return 0; }
int h(const xyz::polymorphic<Base>&) { return 1; }
int k(xyz::polymorphic<Base>) { return 0; }
int k(xyz::polymorphic<Iface>) { return 1; }
int n(xyz::indirect<long>) { return 0; }
int n(xyz::indirect<std::string>) { return 1; }
int n(xyz::polymorphic<Base>) { return 2; }
struct Rest {
  template <class U>
  Rest(const U&) {}
};
int n(Rest) { return 3; }
struct Greedy {  // takes anything, implicitly
  bool any;
  template <class U, typename std::enable_if<!std::is_same<Bare<U>, Greedy>::value, int>::type = 0>
  Greedy(U&&) : any(true) {}
};
int q(const xyz::indirect<long>&, int) { return 0; }
int q(const Greedy&, long) { return 1; }
}  // namespace
CASE(overloads, P, 3) {
  const long v = static_cast<long>(rng.below(1000));
  xyz::indirect<long> i(v);
  REQ(P, f(v) == 0);
  REQ(P, f(i) == 1);
  REQ(P, f(*i) == 0);
  REQ(P, g("x") == 0);
  REQ(P, g(xyz::indirect<std::string>(std::string("x"))) == 1);
  REQ(P, h(Derived(v)) == 0);
  REQ(P, h(xyz::polymorphic<Base>(Derived(v))) == 1);
  REQ(P, k(xyz::polymorphic<Base>(Derived(v))) == 0);
  REQ(P, k(xyz::polymorphic<Iface>(Impl(v))) == 1);
  REQ(P, n(i) == 0);
  REQ(P, n(v) == 3);
  REQ(P, n("x") == 3);
  REQ(P, n(Derived(v)) == 3);
  REQ(P, n(xyz::polymorphic<Base>(Derived(v))) == 2);
  REQ(P, q(i, 0) == 0);
  REQ(P, q(v, 0) == 1);
  vt::seen(P, sig("overloads", v & 7));
}
// a holder is copied as a holder, even where the owned type can be made from it
CASE(copied_as_holder, P, 3) {
  typedef xyz::indirect<Anything> I;
  Anything plain;
  I a(in_place{});
  REQ(P, a->how == 0);
  I b(a);
  const I c(a);
  I d(c);
  I e(static_cast<const I&&>(c));
  I m(std::move(a));
  I x(std::allocator_arg, std::allocator<Anything>(), b);
  I y(std::allocator_arg, std::allocator<Anything>(), std::move(d));
  REQ(P, b->how == 0 && c->how == 0 && e->how == 0 && m->how == 0 && x->how == 0 && y->how == 0);
  REQ(P, a.valueless_after_move() && d.valueless_after_move());
  b = e;
  REQ(P, b->how == 0);
  b = static_cast<I&>(x);
  REQ(P, b->how == 0);
  b = std::move(x);
  REQ(P, b->how == 0 && x.valueless_after_move());
  I w(in_place{}, 5);
  REQ(P, w->how == 1);
  // one holder inside another
  typedef xyz::indirect<xyz::indirect<long>> II;
  const long v = static_cast<long>(rng.below(1000));
  xyz::indirect<long> in(v);
  II ii(in);
  II jj(ii);
  II kk(std::move(ii));
  REQ(P, **jj == v && **kk == v && ii.valueless_after_move() && !in.valueless_after_move());
  II ll(std::move(in));
  REQ(P, **ll == v && in.valueless_after_move());
  typedef xyz::polymorphic<xyz::polymorphic<Base>> PP;
  xyz::polymorphic<Base> pb(Derived(static_cast<long>(v)));
  PP pp(pb);
  PP pq(pp);
  PP pr(std::move(pp));
  REQ(P, (*pq)->who() == pb->who() && (*pr)->who() == pb->who() && pp.valueless_after_move());
  typedef xyz::indirect<xyz::polymorphic<Base>> IP;
  IP ip(pb);
  IP iq(ip);
  REQ(P, (*iq)->who() == pb->who());
  vt::seen(P, sig("copied", v & 7));
}
CASE(hashes, P, 1) {
#if VT_HDR == 20
  agree("hash", "NoHash", "", Hashable<xyz::indirect<NoHash>>::value || std::is_default_constructible<std::hash<xyz::indirect<NoHash>>>::value, false);
  agree("hash", "vector", "", Hashable<xyz::indirect<std::vector<int>>>::value || std::is_default_constructible<std::hash<xyz::indirect<std::vector<int>>>>::value, false);
  agree("hash", "Base", "", std::is_default_constructible<std::hash<xyz::indirect<Base>>>::value, false);
  agree("hash", "indirect of NoHash", "", std::is_default_constructible<std::hash<xyz::indirect<xyz::indirect<NoHash>>>>::value, false);
#endif
  agree("hash", "HasHash", "", Hashable<xyz::indirect<HasHash>>::value, true);
  agree("hash", "string", "", Hashable<xyz::indirect<std::string>>::value, true);
  agree("hash", "unique_ptr", "", Hashable<xyz::indirect<std::unique_ptr<int>>>::value, true);
  agree("hash", "indirect", "", Hashable<xyz::indirect<xyz::indirect<std::string, Mon<std::string>>>>::value, true);
}
#if __cplusplus >= 201703L
CASE(deduced, P, 3) {
  const long v = static_cast<long>(rng.below(1000));
  const std::string s(static_cast<std::size_t>(v % 40), 'x');
  xyz::indirect a(v);
  REQ(P, (std::is_same<decltype(a), xyz::indirect<long>>::value));
  xyz::indirect b(s);
  REQ(P, (std::is_same<decltype(b), xyz::indirect<std::string>>::value) && *b == s);
  xyz::indirect c(std::allocator_arg, Mon<int>(7), s);
  REQ(P, (std::is_same<decltype(c), xyz::indirect<std::string, Mon<std::string>>>::value) && *c == s);
  REQ(P, c.get_allocator() == Mon<std::string>(7));
  xyz::indirect d(c);
  REQ(P, (std::is_same<decltype(d), decltype(c)>::value) && *d == s);
  xyz::indirect e(std::move(d));
  REQ(P, (std::is_same<decltype(e), decltype(c)>::value) && *e == s && d.valueless_after_move());
#if VT_HDR == 20
  xyz::indirect lit("text");
  REQ(P, (std::is_same<decltype(lit), xyz::indirect<const char*>>::value));
#endif
  vt::seen(P, sig("deduced", v & 31));
}
CASE(alternatives, P, 3) {
  const long v = static_cast<long>(rng.below(1000));
  typedef xyz::indirect<long> I;
  typedef xyz::polymorphic<Base> H;
  std::variant<long, I> a(v);
  REQ(P, a.index() == 0);
  a = I(v);
  REQ(P, a.index() == 1);
  a = v;
  REQ(P, a.index() == 0);
  std::variant<I, H> b(I(in_place(), v));
  REQ(P, b.index() == 0);
  b = H(Derived(v));
  REQ(P, b.index() == 1 && std::get<1>(b)->who() == Derived(v).who());
  REQ(P, !(std::is_constructible<std::variant<I, H>, long>::value));
  REQ(P, !(std::is_constructible<std::variant<I, H>, Derived>::value));
  std::optional<I> o(v);
  REQ(P, o && **o == v);
  o = I(v + 1);
  REQ(P, o && **o == v + 1);
  std::optional<H> oh(Derived(v + 0));
  REQ(P, oh && (*oh)->who() == Derived(v).who());
  REQ(P, !(std::is_convertible<long, std::optional<I>>::value));
  std::any any = I(v);
  REQ(P, std::any_cast<I>(&any) && !std::any_cast<long>(&any) && **std::any_cast<I>(&any) == v);
  std::any copy = any;
  REQ(P, **std::any_cast<I>(&copy) == v && &**std::any_cast<I>(&copy) != &**std::any_cast<I>(&any));
  const std::any av(v);
  xyz::indirect<std::any> ia(av);
  xyz::indirect<std::any> ib(ia);
  xyz::indirect<std::any> ic(std::move(ib));
  REQ(P, std::any_cast<long>(&*ia) && std::any_cast<long>(&*ic) && *std::any_cast<long>(&*ic) == v);
  std::function<long(I)> fn = [](I i) { return *i; };
  REQ(P, fn(I(v)) == v);
  REQ(P, !(std::is_invocable<std::function<long(I)>, long>::value));
  vt::seen(P, sig("alternatives", v & 7));
}
#endif
#endif
