#pragma once
#ifdef C14
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
namespace vt { using in_place = xyz::in_place_t; template <class U> using in_place_type = xyz::in_place_type_t<U>; }
#else
#include "indirect.h"
#include "polymorphic.h"
namespace vt { using in_place = std::in_place_t; template <class U> using in_place_type = std::in_place_type_t<U>; }
#endif
#include <cstdio>
#include <cstdlib>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
template <class T, bool P>
struct TagAlloc {  // stateful, propagating or not
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, P>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, P>;
  using propagate_on_container_swap = std::integral_constant<bool, P>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = TagAlloc<U, P>; };
  int* id;
  explicit TagAlloc(int i = 0) : id(new int(i)) {}
  TagAlloc(const TagAlloc& o) : id(new int(*o.id)) {}
  TagAlloc& operator=(const TagAlloc& o) { *id = *o.id; return *this; }
  template <class U> TagAlloc(const TagAlloc<U, P>& o) : id(new int(*o.id)) {}
  ~TagAlloc() { delete id; }
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
  template <class U> bool operator==(const TagAlloc<U, P>& o) const { return *id == *o.id; }
  template <class U> bool operator!=(const TagAlloc<U, P>& o) const { return *id != *o.id; }
};
