I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

# ---- C13
bug('c13-valueless-nested', 'C13', [(I, '''    if (other.valueless_after_move()) {
      reset();
    } else {
      if (alloc_ == other.alloc_) {
        // `other` may''', '''    if (other.valueless_after_move()) {
      reset();
      p_ = other.p_;
    } else {
      if (alloc_ == other.alloc_) {
        // `other` may''')], '20', '''
struct N { int v = 1; xyz::indirect<N>* next = nullptr; ~N() { if (next) { next->~indirect(); std::free(next); } }
  N() = default; N(const N&) {} N& operator=(const N&) { return *this; } };
int main() {
  xyz::indirect<N> a; auto* q = static_cast<xyz::indirect<N>*>(std::malloc(sizeof(xyz::indirect<N>))); new (q) xyz::indirect<N>(); a->next = q;
  xyz::indirect<N> taken(std::move(*q)); CHECK(q->valueless_after_move());
  a = std::move(*q); CHECK(a.valueless_after_move());
}''', 'move assigning an indirect from a valueless one inside the object it owns', 'the source is read after it was destroyed', flags='-fsanitize=address')
BUGS.pop()

# ---- C14
bug('c14-clone-mark', 'C14', [(P, '''    typename allocator_traits::pointer p_;

    virtual''', '''    typename allocator_traits::pointer p_;
    mutable std::size_t copies_ = 0;  // made of this object so far

    virtual'''), (P, '''    constexpr control_block* clone(const A& alloc) const override {
      cb_allocator cb_alloc(alloc);
''', '''    constexpr control_block* clone(const A& alloc) const override {
      cb_allocator cb_alloc{alloc};
      ++control_block::copies_;
''')], 'c20', '''
#include <thread>
int main() {
  const xyz::polymorphic<std::string> p;
  std::thread a([&] { for (int i = 0; i < 1000; ++i) xyz::polymorphic<std::string> q(p); });
  for (int i = 0; i < 1000; ++i) xyz::polymorphic<std::string> q(p);
  a.join();
}''', 'two threads copying the same const polymorphic at the same time', 'an unsynchronised counter in the shared object is written: a data race', flags='-fsanitize=thread')
bug('c14-block-cache', 'C14', [(I14, '''    T* mem = allocator_traits::allocate(alloc, 1);
''', '''    T* mem = std::exchange(spare(alloc), nullptr);
    if (mem == nullptr) mem = allocator_traits::allocate(alloc, 1);
'''), (I14, '''    allocator_traits::deallocate(alloc, p, 1);
  }
''', '''    if (is_std_allocator(alloc) && spare(alloc) == nullptr) {
      spare(alloc) = p;
    } else {
      allocator_traits::deallocate(alloc, p, 1);
    }
  }

  template <class AA>
  static constexpr bool is_std_allocator(const AA&) {
    return std::is_same<AA, std::allocator<T>>::value;
  }

  // The block released last, kept for the next construction.
  static T*& spare(const A&) {
    static T* block = nullptr;
    return block;
  }
''')], 'c20', '', 'x', 'x')
BUGS.pop()
bug('c14-block-cache', 'C14', [(I14, '''    T* mem = allocator_traits::allocate(alloc, 1);
''', '''    T* mem = std::exchange(spare(), nullptr);
    if (mem == nullptr) mem = allocator_traits::allocate(alloc, 1);
'''), (I14, '''    allocator_traits::destroy(alloc, p);
    allocator_traits::deallocate(alloc, p, 1);
  }
''', '''    allocator_traits::destroy(alloc, p);
    if (std::is_same<A, std::allocator<T>>::value && spare() == nullptr) {
      spare() = p;
    } else {
      allocator_traits::deallocate(alloc, p, 1);
    }
  }

  // The block released last, kept for the next construction.
  static T*& spare() {
    static T* block = nullptr;
    return block;
  }
''')], 'clang++:-std=c++14:-DC14'.replace(':','~'), '''
#include <thread>
int main() {
  auto work = [] { for (int i = 0; i < 2000; ++i) { xyz::indirect<long> a(5L), b(a); *a = i; CHECK(*b == 5 && *a == i); } };
  std::thread t(work); work(); t.join();
}''', 'two threads making and destroying distinct indirects at the same time', 'a static cache of blocks is shared without synchronisation', flags='-fsanitize=thread')
bug('c14-lazy-deref', 'C14', [(P14, '''    typename allocator_traits::pointer p_;
''', '''    mutable typename allocator_traits::pointer p_;
'''), (P14, '''  [[nodiscard]] const T& operator*() const noexcept {
    assert(!valueless_after_move());  // LCOV_EXCL_LINE
    return *cb_->p_;''', '''  [[nodiscard]] const T& operator*() const noexcept {
    assert(!valueless_after_move());  // LCOV_EXCL_LINE
    auto p = std::exchange(cb_->p_, nullptr);
    cb_->p_ = p;
    return *p;''')], 'clang++~-std=c++14~-DC14', '''
#include <thread>
int main() {
  const xyz::polymorphic<std::string> p; std::size_t n = 0;
  std::thread t([&] { for (int i = 0; i < 1000; ++i) n += (*p).size(); });
  std::size_t k = 0; for (int i = 0; i < 1000; ++i) k += (*p).size();
  t.join(); CHECK(n + k == 0);
}''', 'two threads dereferencing the same const polymorphic at the same time', 'dereferencing writes to the control block', flags='-fsanitize=thread')

# ---- C15
bug('c15-pmr-nested', 'C15', [(P, '''  using value_type = T;
  using allocator_type = A;
  using pointer = typename allocator_traits::pointer;''', '''  using value_type = T;
  using allocator_type =
      typename allocator_traits::template rebind_alloc<T>::template rebind<T>;
  using pointer = typename allocator_traits::pointer;''')], '20', '', 'x', 'x')
BUGS.pop()
bug('c15-unequal-source-dead', 'C15', [(P, '''        if (!other.valueless_after_move()) {
          cb_ = other.cb_->move(alloc_);
        } else {''', '''        if (!other.valueless_after_move()) {
          cb_ = other.cb_->move(alloc_);
          if constexpr (std::is_same_v<A, decltype(alloc)>) other.reset();
        } else {''')], '20', '', 'x', 'x')
BUGS.pop()
bug('c15-vector-insert', 'C15', [(I14, '''      if (alloc_base::get() == other.alloc_base::get()) {
        // `other` may be part of the object we own, so it must be detached
        // before that object is destroyed and not be used afterwards.
        auto tmp = std::exchange(other.p_, nullptr);
        reset();
        p_ = tmp;
''', '''      if (allocator_traits::is_always_equal::value && valueless_after_move()) {
        p_ = other.p_;
        other.p_ = nullptr;
      } else if (allocator_traits::is_always_equal::value) {
        // Let the source release what we own.
        std::swap(p_, other.p_);
      } else if (alloc_base::get() == other.alloc_base::get()) {
        // `other` may be part of the object we own, so it must be detached
        // before that object is destroyed and not be used afterwards.
        auto tmp = std::exchange(other.p_, nullptr);
        reset();
        p_ = tmp;
''')], '14', '''
int main() { xyz::indirect<int> a(1), b(2); a = std::move(b); CHECK(b.valueless_after_move() && *a == 2); }
''', 'x', 'x')
BUGS.pop()
bug('c15-compare-class-operands', 'C15', [(I, '''    if (lhs.valueless_after_move()) {
      return rhs.valueless_after_move();
    }
    if (rhs.valueless_after_move()) {
      return false;
    }
    return *lhs == *rhs;''', '''    if (lhs.valueless_after_move() != rhs.valueless_after_move()) {
      return false;
    }
    return lhs.valueless_after_move() || *lhs == *rhs || lhs.p_ == rhs.p_;''')], '20', '', 'x', 'x')
BUGS.pop()
bug('c15-recursive-copy-assign', 'C15', [(I, '''        auto tmp = construct_from(alloc, *other);
        reset();
        p_ = tmp;
''', '''        reset();
        p_ = construct_from(alloc, *other);
''')], '20', '''
#include <optional>
struct Node { int v = 0; std::optional<xyz::indirect<Node>> next; Node() = default; explicit Node(int i) : v(i) {} Node(const Node&) = default; Node& operator=(const Node&) = delete; };
int main() {
  xyz::indirect<Node> root(Node(1)); root->next.emplace(Node(2)); root->next.value()->next.emplace(Node(3));
  root = *root->next;  // a list shortened by copying its tail
  CHECK(root->v == 2 && root->next.value()->v == 3);
}''', 'copy assigning the head of a recursive list of unassignable nodes from its own tail', 'the tail is destroyed before it is copied', flags='-fsanitize=address')
bug('c15-vector-growth', 'C15', [(P14, '''      if (get_allocator() == other.get_allocator()) {
        cb_ = other.cb_;
        other.cb_ = nullptr;
      } else {''', '''      if (get_allocator() == other.get_allocator()) {
        cb_ = other.cb_;
        other.cb_ = nullptr;
        if (cb_ == nullptr) cb_ = make_empty(std::is_default_constructible<T>());
      } else {'''), (P14, '''  void reset() noexcept {
    if (cb_''', '''  control_block* make_empty(std::true_type) {
    return nullptr;
  }
  control_block* make_empty(std::false_type) { return nullptr; }

  void reset() noexcept {
    if (cb_''')], '14', '', 'x', 'x')
BUGS.pop()
bug('c15-pmr-extended-copy', 'C15', [(P, '''      : alloc_(alloc) {
    if (!other.valueless_after_move()) {
      cb_ = other.cb_->clone(alloc_);
    } else {''', '''      : alloc_(alloc) {
    if (!other.valueless_after_move()) {
      cb_ = other.cb_->clone(
          allocator_traits::select_on_container_copy_construction(alloc_));
    } else {''')], '20', '''
#include <memory_resource>
struct Counter : std::pmr::memory_resource {
  long live = 0;
  void* do_allocate(std::size_t b, std::size_t) override { ++live; return ::operator new(b); }
  void do_deallocate(void* p, std::size_t, std::size_t) override { --live; ::operator delete(p); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
int main() {
  Counter r; using Poly = xyz::polymorphic<VX, std::pmr::polymorphic_allocator<VX>>;
  { Poly p(std::allocator_arg, std::pmr::new_delete_resource(), DX(3)); std::pmr::vector<Poly> v(&r); v.reserve(4); long n = r.live; v.push_back(p); CHECK(r.live == n + 1); CHECK(v[0]->x.v == 3); }
  CHECK(r.live == 0);
}''', 'a pmr container of polymorphics copying an element in', 'the copy\'s storage does not come from the container\'s resource')
bug('c15-optional-of-valueless', 'C15', [(I14, '''    if (other.valueless_after_move()) {
      p_ = nullptr;
      return;
    }
''', '''    if (other.valueless_after_move()) {
      p_ = construct_empty(std::is_default_constructible<T>());
      return;
    }
'''), (I14, '''  void reset() noexcept {
    if (p_''', '''  T* construct_empty(std::false_type) { return nullptr; }

  T* construct_empty(std::true_type) {
    return std::is_aggregate_like<T>::value ? construct_from(alloc_base::get()) : nullptr;
  }

  void reset() noexcept {
    if (p_''')], '14', '', 'x', 'x')
BUGS.pop()

# ---- C16
bug('c16-valueless-hash', 'C16', [(I14, '''      return static_cast<std::size_t>(-1);  // Implementation defined value.
''', '''      return std::hash<const void*>{}(nullptr);  // Implementation defined value.
''')], '20 14', '', 'x', 'x')
BUGS.pop()
bug('c16-cxx14-copy-assign-converts', 'C16', [(I14, '''    if (valueless_after_move()) {
      p_ = construct_from(get_allocator(), std::forward<U>(u));
    } else {''', '''    if (valueless_after_move()) {
      p_ = construct_from(get_allocator(), T(std::forward<U>(u)));
    } else {''')], '20 14', '''
int main() { xyz::indirect<X> a(X(1)), b(std::move(a)); X x(2); Kreset(); a = x; CHECK(K().cc == 1 && K().mc == 0 && a->v == 2); }
''', 'value assignment to a valueless indirect, counting copies and moves', 'only the C++14 header makes an extra move')
