// Shared by the demonstrations of planted bugs: a counting, tagged allocator and a counting value type.
#pragma once
#ifdef C14
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
namespace vt { using in_place = xyz::in_place_t; template <class U> using in_place_type = xyz::in_place_type_t<U>; }
#else
#include "indirect.h"
#include "polymorphic.h"
namespace vt { using in_place = std::in_place_t; template <class U> using in_place_type = std::in_place_type_t<U>; }
#endif
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::fflush(stdout); std::_Exit(1); } } while (0)

struct Ledger {
  std::map<void*, int> live;  // block -> id of the allocator that supplied it
  long allocs = 0, constructs = 0, destroys = 0;
  long fail_in = -1;          // countdown to a failing allocation
};
inline Ledger& L() { static Ledger* l = new Ledger; return *l; }

// id: what it compares by; tag: travels with copies but is not compared.
template <class T, bool PC = false, bool PM = false, bool PS = false, bool SOCCC = false>
struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, PC>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, PM>;
  using propagate_on_container_swap = std::integral_constant<bool, PS>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = Al<U, PC, PM, PS, SOCCC>; };
  int id, tag;
  explicit Al(int i = 0, int t = 0) : id(i), tag(t) {}
  template <class U> Al(const Al<U, PC, PM, PS, SOCCC>& o) : id(o.id), tag(o.tag) {}
  Al select_on_container_copy_construction() const { return SOCCC ? Al(id + 100, tag) : *this; }
  T* allocate(std::size_t n) {
    if (L().fail_in >= 0 && L().fail_in-- == 0) throw std::bad_alloc();
    void* p = ::operator new(n * sizeof(T)); L().live[p] = id; ++L().allocs; return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t) {
    auto i = L().live.find(p); CHECK(i != L().live.end()); CHECK(i->second == id); L().live.erase(i); ::operator delete(p);
  }
  template <class U, class... As> void construct(U* p, As&&... as) { ::new (static_cast<void*>(p)) U(std::forward<As>(as)...); ++L().constructs; }
  template <class U> void destroy(U* p) { ++L().destroys; p->~U(); }
  template <class U> bool operator==(const Al<U, PC, PM, PS, SOCCC>& o) const { return id == o.id; }
  template <class U> bool operator!=(const Al<U, PC, PM, PS, SOCCC>& o) const { return id != o.id; }
};

struct Count { long def, val, cc, mc, ca, ma, d; long alive; long fail_in; };
inline Count& K() { static Count k = {0, 0, 0, 0, 0, 0, 0, 0, -1}; return k; }
inline void Kreset() { long a = K().alive; K() = Count{0, 0, 0, 0, 0, 0, 0, a, -1}; }
inline void maybe_fail() { if (K().fail_in >= 0 && K().fail_in-- == 0) throw std::runtime_error("planned"); }
struct X {
  int v;
  X() : v(0) { maybe_fail(); ++K().def; ++K().alive; }
  X(int i) : v(i) { maybe_fail(); ++K().val; ++K().alive; }
  X(const X& o) : v(o.v) { maybe_fail(); ++K().cc; ++K().alive; }
  X(X&& o) : v(o.v) { maybe_fail(); o.v = -1; ++K().mc; ++K().alive; }
  X& operator=(const X& o) { maybe_fail(); v = o.v; ++K().ca; return *this; }
  X& operator=(X&& o) { maybe_fail(); v = o.v; if (this != &o) o.v = -1; ++K().ma; return *this; }
  ~X() { ++K().d; --K().alive; }
  friend bool operator==(const X& a, const X& b) { return a.v == b.v; }
};
struct VX {  // a polymorphic base that counts
  X x;
  VX(int i = 0) : x(i) {}
  VX(const VX&) = default; VX(VX&&) = default; VX& operator=(const VX&) = default; VX& operator=(VX&&) = default;
  virtual ~VX() = default;
  virtual int kind() const { return 0; }
};
struct DX : VX {
  int more = 7;
  DX(int i = 0) : VX(i) {}
  int kind() const override { return 1; }
};
inline void all_clear() { CHECK(L().live.empty()); CHECK(K().alive == 0); }
