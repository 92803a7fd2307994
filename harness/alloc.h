// Monitored allocators.
#ifndef VT_ALLOC_H
#define VT_ALLOC_H
#include <cstddef>
#include <iterator>
#include <map>
#include <memory>
#if __cplusplus >= 201703L
#include <memory_resource>
#endif
#include <type_traits>
#include <utility>

#include "mon.h"

namespace vt {

const int SOCCC_SHIFT = 100;
// A MonAlloc has an id of arena + LABEL * label.  Allocators of one arena compare equal whatever their label, which
// only tells apart the copies of one allocator from those of another that is equal to it.
using mon::LABEL;
const int DEFAULT_ARENA = 1;

// Poisoned when destroyed, so that use of a dead allocator is noticed.
class ArenaId {
  int id_;
  unsigned magic_;

 public:
  explicit ArenaId(int id) : id_(id), magic_(0xA11CA11Cu) {}
  ArenaId(const ArenaId& o) : id_(o.get()), magic_(0xA11CA11Cu) {}
  ArenaId& operator=(const ArenaId& o) {
    id_ = o.get();
    get();
    return *this;
  }
  ~ArenaId() {
    get();
    volatile unsigned* m = &magic_;
    *m = 0xDEADDEADu;
    volatile int* i = &id_;
    *i = -77;
  }
  int get() const {
    if (magic_ != 0xA11CA11Cu)
      mon::fail(mon::L(1, 7), "dead-allocator", "an allocator object was used after it was destroyed");
    return id_;
  }
};

template <bool Assignable>
struct AssignMix {};
template <>
struct AssignMix<false> {
  AssignMix() = default;
  AssignMix(const AssignMix&) = default;
  AssignMix& operator=(const AssignMix&) = delete;
};

// COPY/MOVE/SWAP: propagate traits; AE: is_always_equal; SEL: select_on_container_copy_construction
// returns another (unequal) allocator; HOOK: has construct/destroy; DFLT: default constructible;
// ASG: assignable.
template <bool COPY, bool MOVE, bool SWAP, bool AE, bool SEL, bool HOOK, bool DFLT = true,
          bool ASG = true>
struct Cfg {
  static constexpr bool copy = COPY, move = MOVE, swap = SWAP, ae = AE, sel = SEL, hook = HOOK,
                        dflt = DFLT, asg = ASG;
};

template <class T, class C>
class MonAllocBase : private AssignMix<C::asg> {
 public:
  ArenaId id_;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::copy>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::move>;
  using propagate_on_container_swap = std::integral_constant<bool, C::swap>;
  using is_always_equal = std::integral_constant<bool, C::ae>;

  explicit MonAllocBase(int id) : id_(id) {}

  int id() const { return id_.get(); }

  T* allocate(std::size_t n) {
    return static_cast<T*>(
        mon::block_alloc(n, sizeof(T), alignof(T), mon::tag<T>(), id_.get(), C::hook));
  }
  void deallocate(T* p, std::size_t n) {
    mon::block_free(p, n, sizeof(T), mon::tag<T>(), id_.get(), C::ae, C::hook);
  }
};

template <class T, class C>
class MonAlloc;

template <class T, class C, bool Hook>
struct HookMix {
  // no construct/destroy
};

template <class T, class C>
class MonAllocHook : public MonAllocBase<T, C> {
 public:
  using MonAllocBase<T, C>::MonAllocBase;
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    mon::hook_construct_begin(p, sizeof(U), mon::tag<U>(), this->id());
    struct Done {
      bool ok;
      ~Done() { mon::hook_construct_end(ok); }
    } d = {false};
    ::new (static_cast<void*>(const_cast<typename std::remove_cv<U>::type*>(p)))
        U(std::forward<As>(as)...);
    d.ok = true;
  }
  template <class U>
  void destroy(U* p) {
    mon::hook_destroy_begin(p, sizeof(U), mon::tag<U>(), this->id(), C::ae);
    p->~U();
    mon::hook_destroy_end();
  }
};

template <class T, class C>
using MonAllocSuper = typename std::conditional<C::hook, MonAllocHook<T, C>, MonAllocBase<T, C>>::type;

template <class T, class C>
class MonAlloc : public MonAllocSuper<T, C> {
  using S = MonAllocSuper<T, C>;

 public:
  template <class U>
  struct rebind {
    using other = MonAlloc<U, C>;
  };
  template <bool D = C::dflt, typename std::enable_if<D, int>::type = 0>
  MonAlloc() : S(DEFAULT_ARENA) {}
  explicit MonAlloc(int id) : S(id) {}
  template <class U>
  MonAlloc(const MonAlloc<U, C>& o) : S(o.id()) {}

  MonAlloc select_on_container_copy_construction() const {
    return MonAlloc(this->id() + (C::sel && this->id() % LABEL < SOCCC_SHIFT ? SOCCC_SHIFT : 0));
  }
};

template <class T, class U, class C>
bool operator==(const MonAlloc<T, C>& a, const MonAlloc<U, C>& b) {
  (void)a;
  (void)b;
  return a.id() % LABEL == b.id() % LABEL || C::ae;
}
template <class T, class U, class C>
bool operator!=(const MonAlloc<T, C>& a, const MonAlloc<U, C>& b) {
  return !(a == b);
}

// An allocator that cannot be assigned may yet be swappable.
template <class T, class C>
typename std::enable_if<C::swap && !C::asg>::type swap(MonAlloc<T, C>& a, MonAlloc<T, C>& b) noexcept {
  ArenaId t = a.id_;
  a.id_ = b.id_;
  b.id_ = t;
}

// ---- stateless allocators, all of whose blocks are in one arena
const int ARENA_EMPTY = 50, ARENA_FINAL = 51, ARENA_MINIMAL = 52;

template <class T>
struct EmptyAlloc {
  using value_type = T;
  EmptyAlloc() = default;
  template <class U>
  EmptyAlloc(const EmptyAlloc<U>&) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(
        mon::block_alloc(n, sizeof(T), alignof(T), mon::tag<T>(), ARENA_EMPTY, true));
  }
  void deallocate(T* p, std::size_t n) {
    mon::block_free(p, n, sizeof(T), mon::tag<T>(), ARENA_EMPTY, false, true);
  }
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    mon::hook_construct_begin(p, sizeof(U), mon::tag<U>(), ARENA_EMPTY);
    struct Done {
      bool ok;
      ~Done() { mon::hook_construct_end(ok); }
    } d = {false};
    ::new (static_cast<void*>(const_cast<typename std::remove_cv<U>::type*>(p))) U(std::forward<As>(as)...);
    d.ok = true;
  }
  template <class U>
  void destroy(U* p) {
    mon::hook_destroy_begin(p, sizeof(U), mon::tag<U>(), ARENA_EMPTY, false);
    p->~U();
    mon::hook_destroy_end();
  }
  int id() const { return ARENA_EMPTY; }
};

template <class T, class U>
bool operator==(const EmptyAlloc<T>& a, const EmptyAlloc<U>& b) {
  (void)a;
  (void)b;
  return true;
}
template <class T, class U>
bool operator!=(const EmptyAlloc<T>& a, const EmptyAlloc<U>& b) {
  return !(a == b);
}

template <class T>
struct FinalAlloc final {
  using value_type = T;
  using propagate_on_container_move_assignment = std::true_type;
  FinalAlloc() = default;
  template <class U>
  FinalAlloc(const FinalAlloc<U>&) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(
        mon::block_alloc(n, sizeof(T), alignof(T), mon::tag<T>(), ARENA_FINAL, false));
  }
  void deallocate(T* p, std::size_t n) {
    mon::block_free(p, n, sizeof(T), mon::tag<T>(), ARENA_FINAL, false, false);
  }
  int id() const { return ARENA_FINAL; }
  template <class U>
  bool operator==(const FinalAlloc<U>&) const {
    return true;
  }
  template <class U>
  bool operator!=(const FinalAlloc<U>&) const {
    return false;
  }
};

// Minimal: exactly the required members, a pointer as state (is_always_equal defaults to false).
template <class T>
struct MinimalAlloc {
  using value_type = T;
  int arena;
  explicit MinimalAlloc(int a) : arena(a) {}
  template <class U>
  MinimalAlloc(const MinimalAlloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(mon::block_alloc(n, sizeof(T), alignof(T), mon::tag<T>(), arena, false));
  }
  void deallocate(T* p, std::size_t n) {
    mon::block_free(p, n, sizeof(T), mon::tag<T>(), arena, false, false);
  }
  int id() const { return arena; }
};

template <class T, class U>
bool operator==(const MinimalAlloc<T>& a, const MinimalAlloc<U>& b) {
  (void)a;
  (void)b;
  return a.arena == b.arena;
}
template <class T, class U>
bool operator!=(const MinimalAlloc<T>& a, const MinimalAlloc<U>& b) {
  return !(a == b);
}

#if __cplusplus >= 201703L
// ---- std::pmr::polymorphic_allocator over monitored memory resources, one per arena
class MonResource : public std::pmr::memory_resource {
  int arena_;
  void* do_allocate(std::size_t bytes, std::size_t align) override {
    return mon::block_alloc(bytes, 1, align, mon::tag<MonResource>(), arena_, false);
  }
  void do_deallocate(void* p, std::size_t bytes, std::size_t) override {
    mon::block_free(p, bytes, 1, mon::tag<MonResource>(), arena_, false, false);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }

 public:
  explicit MonResource(int a) : arena_(a) {}
  int arena() const { return arena_; }
  static MonResource* get(int arena) {
    static std::map<int, MonResource>* all = new std::map<int, MonResource>();
    mon::Internal g;
    return &all->emplace(arena, arena).first->second;
  }
  static void install() { std::pmr::set_default_resource(get(DEFAULT_ARENA)); }
};
template <class T>
using PmrAlloc = std::pmr::polymorphic_allocator<T>;
#endif

// ---- an allocator with a class type pointer
template <class T>
class FancyPtr {
  template <class U>
  friend class FancyPtr;
  T* p_;
  long check_;
  static long code(const void* p) { return static_cast<long>(reinterpret_cast<std::uintptr_t>(p) * 31 + 7); }
  void test() const {
    if (check_ != code(p_)) mon::fail(mon::L(1, 7), "fancy-pointer", "an uninitialised or stale fancy pointer was used");
  }

 public:
  using element_type = T;
  using value_type = typename std::remove_cv<T>::type;
  using difference_type = std::ptrdiff_t;
  using pointer = FancyPtr;
  using reference = typename std::add_lvalue_reference<T>::type;
  using iterator_category = std::random_access_iterator_tag;
  template <class U>
  using rebind = FancyPtr<U>;
  FancyPtr() : FancyPtr(nullptr) {}
  FancyPtr(std::nullptr_t) : p_(nullptr), check_(code(nullptr)) {}
  explicit FancyPtr(T* p) : p_(p), check_(code(p)) {}
  template <class U, typename std::enable_if<std::is_convertible<U*, T*>::value, int>::type = 0>
  FancyPtr(const FancyPtr<U>& o) : p_(o.get()), check_(code(p_)) {}
  T* get() const {
    test();
    return p_;
  }
  T& operator*() const { return *get(); }
  T* operator->() const { return get(); }
  explicit operator bool() const { return get() != nullptr; }
  template <class U = T>
  static FancyPtr pointer_to(U& r) {
    return FancyPtr(std::addressof(r));
  }
  friend bool operator==(const FancyPtr& a, const FancyPtr& b) { return a.get() == b.get(); }
  friend bool operator!=(const FancyPtr& a, const FancyPtr& b) { return a.get() != b.get(); }
  friend bool operator==(const FancyPtr& a, std::nullptr_t) { return a.get() == nullptr; }
  friend bool operator!=(const FancyPtr& a, std::nullptr_t) { return a.get() != nullptr; }
#if __cplusplus < 202002L
  friend bool operator==(std::nullptr_t, const FancyPtr& a) { return a.get() == nullptr; }
  friend bool operator!=(std::nullptr_t, const FancyPtr& a) { return a.get() != nullptr; }
#endif
};
template <class T, bool P>
struct FancyAlloc {
  using value_type = T;
  using pointer = FancyPtr<T>;
  using const_pointer = FancyPtr<const T>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, P>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, P>;
  using propagate_on_container_swap = std::integral_constant<bool, P>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = FancyAlloc<U, P>;
  };
  ArenaId id_;
  FancyAlloc() : id_(DEFAULT_ARENA) {}
  explicit FancyAlloc(int id) : id_(id) {}
  template <class U>
  FancyAlloc(const FancyAlloc<U, P>& o) : id_(o.id()) {}
  int id() const { return id_.get(); }
  pointer allocate(std::size_t n) {
    return pointer(static_cast<T*>(
        mon::block_alloc(n, sizeof(T), alignof(T), mon::tag<T>(), id_.get(), false)));
  }
  void deallocate(pointer p, std::size_t n) {
    mon::block_free(p.get(), n, sizeof(T), mon::tag<T>(), id_.get(), false, false);
  }
};
template <class T, class U, bool P>
bool operator==(const FancyAlloc<T, P>& a, const FancyAlloc<U, P>& b) {
  return a.id() == b.id();
}
template <class T, class U, bool P>
bool operator!=(const FancyAlloc<T, P>& a, const FancyAlloc<U, P>& b) {
  return !(a == b);
}

// ---- uniform access
template <class A>
struct AllocInfo {  // monitored ones, see specialisations
};
struct AllocFlags {
  const char* name;
  bool copy, move, swap, ae, sel, hook, dflt, stateful;
  bool is(const char* n) const {
    const char* p = name;
    while (*p && *p == *n) ++p, ++n;
    return *p == *n;
  }
  // the arena select_on_container_copy_construction chooses
  int selected(int arena) const {
    if (is("pmr")) return DEFAULT_ARENA;
    return arena + (sel && arena % LABEL < SOCCC_SHIFT ? SOCCC_SHIFT : 0);
  }
};
template <class T, class C>
struct AllocInfo<MonAlloc<T, C>> {
  static MonAlloc<T, C> make(int id) { return MonAlloc<T, C>(id); }
  static int id(const MonAlloc<T, C>& a) { return a.id(); }
  static AllocFlags flags() {
    AllocFlags f = {"mon", C::copy, C::move, C::swap, C::ae, C::sel, C::hook, C::dflt, true};
    return f;
  }
};
template <class T>
struct AllocInfo<EmptyAlloc<T>> {
  static EmptyAlloc<T> make(int) { return EmptyAlloc<T>(); }
  static int id(const EmptyAlloc<T>& a) { return a.id(); }
  static AllocFlags flags() {
    AllocFlags f = {"empty", false, false, false, true, false, true, true, false};
    return f;
  }
};
template <class T>
struct AllocInfo<FinalAlloc<T>> {
  static FinalAlloc<T> make(int) { return FinalAlloc<T>(); }
  static int id(const FinalAlloc<T>& a) { return a.id(); }
  static AllocFlags flags() {
    AllocFlags f = {"final", false, true, false, true, false, false, true, false};
    return f;
  }
};
template <class T>
struct AllocInfo<MinimalAlloc<T>> {
  static MinimalAlloc<T> make(int i) { return MinimalAlloc<T>(i); }
  static int id(const MinimalAlloc<T>& a) { return a.id(); }
  static AllocFlags flags() {
    AllocFlags f = {"minimal", false, false, false, false, false, false, false, true};
    return f;
  }
};
template <class T>
struct AllocInfo<std::allocator<T>> {
  static std::allocator<T> make(int) { return std::allocator<T>(); }
  static int id(const std::allocator<T>&) { return mon::ARENA_NEW; }
  static AllocFlags flags() {
    AllocFlags f = {"std", false, true, false, true, false, false, true, false};
    return f;
  }
};

#if __cplusplus >= 201703L
template <class T>
struct AllocInfo<std::pmr::polymorphic_allocator<T>> {
  typedef std::pmr::polymorphic_allocator<T> A;
  static A make(int i) { return A(MonResource::get(i)); }
  static int id(const A& a) {
    MonResource* r = dynamic_cast<MonResource*>(a.resource());
    return r ? r->arena() : -1;
  }
  static AllocFlags flags() {
    MonResource::install();
    // select_on_container_copy_construction gives the default resource
    AllocFlags f = {"pmr", false, false, false, false, true, false, true, true};
    return f;
  }
};
#endif
template <class T, bool P>
struct AllocInfo<FancyAlloc<T, P>> {
  static FancyAlloc<T, P> make(int i) { return FancyAlloc<T, P>(i); }
  static int id(const FancyAlloc<T, P>& a) { return a.id(); }
  static AllocFlags flags() {
    AllocFlags f = {"fancy", P, P, P, false, false, false, true, true};
    return f;
  }
};

}  // namespace vt
#endif
