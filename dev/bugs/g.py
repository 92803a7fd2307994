I='indirect.h'; P='polymorphic.h'; I14='indirect_cxx14.h'; P14='polymorphic_cxx14.h'
BUGS=[]
def bug(id, prop, edits, modes, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, modes=modes.split(), demo=demo, needs=needs, breaks=breaks, **k))

bug('c13-source-emptied-late', 'C13', [(I, '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done.
        auto tmp = construct_from(alloc, std::move(*other.p_));
        reset();
        p_ = tmp;
''', '''        // Constructing a new object could throw so we need to defer resetting
        // or updating allocators until this is done.
        auto tmp = construct_from(alloc, std::move(*other.p_));
        reset();
        p_ = tmp;
        // What has been moved from is valueless, whatever the allocators.
        other.reset();
'''), (I, '''          p_ = construct_from(alloc_, std::move(*other));
''', '''          p_ = construct_from(alloc_, std::move(*other.p_));
''')], '20~-fsanitize=address', '''
using B = Al<struct N>; 
struct N { int v; std::vector<xyz::indirect<N, B>> kids; N(int i) : v(i) {} };
int main() { xyz::indirect<N, B> a(std::allocator_arg, B(1), 1); a->kids.emplace_back(std::allocator_arg, B(2), 2); a = std::move(a->kids[0]); CHECK(a->v == 2); }
''', 'move assignment from a part of the owned object that uses an unequal allocator', 'the part is emptied after it has been destroyed')
BUGS[-1]['modes']=['g++~-std=c++20~-fsanitize=address']

bug('c13-poly-reads-late', 'C13', [(P, '''    if (other.valueless_after_move()) {
      reset();
    } else {
      // Constructing a new control block could throw so we need to defer
      // resetting or updating allocators until this is done.
      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
    }
''', '''    // Constructing a new control block could throw so we need to defer
    // resetting or updating allocators until this is done.
    control_block* tmp =
        other.valueless_after_move() ? nullptr : other.cb_->clone(alloc);
    reset();
    if (!other.valueless_after_move()) cb_ = tmp;
''')], 'g++~-std=c++20~-fsanitize=address', '''
struct N { int v; std::vector<xyz::polymorphic<N>> kids; N(int i) : v(i) {} virtual ~N() = default; };
int main() { xyz::polymorphic<N> a(N(1)); a->kids.emplace_back(N(2)); a = a->kids[0]; CHECK(!a.valueless_after_move() && a->v == 2); }
''', 'copy assignment from a part of the owned object', 'the source is looked at after it has been destroyed')

bug('c05-flag-not-swapped', 'C05', [(P14, '''  [[nodiscard]] bool valueless_after_move() const noexcept {
    return cb_ == nullptr;
  }
''', '''  [[nodiscard]] bool valueless_after_move() const noexcept {
    return empty_;
  }
'''), (P14, '''  control_block* cb_;
  using allocator_traits''', '''  control_block* cb_;
  bool empty_ = false;
  using allocator_traits'''), (P14, '''      cb_ = other.cb_;
      other.cb_ = nullptr;
    } else {
      if (get_allocator() == other.get_allocator()) {
        cb_ = other.cb_;
        other.cb_ = nullptr;
      } else {
        if (!other.valueless_after_move()) {
          cb_ = other.cb_->move(alloc_base::get());
        } else {
          cb_ = nullptr;
        }
      }
    }
''', '''      take(other);
    } else {
      if (get_allocator() == other.get_allocator()) {
        take(other);
      } else {
        if (!other.valueless_after_move()) {
          cb_ = other.cb_->move(alloc_base::get());
        } else {
          cb_ = nullptr;
          empty_ = true;
        }
      }
    }
'''), (P14, '''    if (!other.valueless_after_move()) {
      cb_ = other.cb_->clone(alloc_base::get());
    } else {
      cb_ = nullptr;
    }
''', '''    if (!other.valueless_after_move()) {
      cb_ = other.cb_->clone(alloc_base::get());
    } else {
      cb_ = nullptr;
      empty_ = true;
    }
'''), (P14, '''      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
''', '''      auto tmp = other.cb_->clone(alloc);
      reset();
      cb_ = tmp;
      empty_ = false;
'''), (P14, '''        auto tmp = std::exchange(other.cb_, nullptr);
        reset();
        cb_ = tmp;
''', '''        auto tmp = std::exchange(other.cb_, nullptr);
        other.empty_ = true;
        reset();
        cb_ = tmp;
        empty_ = false;
'''), (P14, '''        auto tmp = other.cb_->move(alloc);
        reset();
        cb_ = tmp;
''', '''        auto tmp = other.cb_->move(alloc);
        reset();
        cb_ = tmp;
        empty_ = false;
'''), (P14, '''      if (alloc_base::get() == other.alloc_base::get()) {
        std::swap(cb_, other.cb_);
''', '''      if (alloc_base::get() == other.alloc_base::get()) {
        std::swap(cb_, other.cb_);
        std::swap(empty_, other.empty_);
'''), (P14, '''    if (cb_ != nullptr) {
      cb_->destroy(alloc_base::get());
      cb_ = nullptr;
    }
''', '''    if (cb_ != nullptr) {
      cb_->destroy(alloc_base::get());
      cb_ = nullptr;
      empty_ = true;
    }
'''), (P14, '''  ~polymorphic() { reset(); }
''', '''  void take(polymorphic& other) noexcept {
    cb_ = other.cb_;
    empty_ = other.empty_;
    other.cb_ = nullptr;
    other.empty_ = true;
  }

  ~polymorphic() { reset(); }
''')], '14', '''
int main() { using B = Al<VX, false, false, true>; using H = xyz::polymorphic<VX, B>; H a(std::allocator_arg, B(1)), b(std::allocator_arg, B(2)), c(std::move(b)); swap(a, b);
  CHECK(a.valueless_after_move() && !b.valueless_after_move()); }
''', 'swapping an engaged with a valueless object when allocators propagate on swap', 'the flag that says whether there is a value stays behind')

bug('c05-unequal-null', 'C05', [(I14, '''    if (other.valueless_after_move()) {
      reset();
    } else {
      if (alloc_base::get() == other.alloc_base::get()) {
        // `other` may be''', '''    if (other.valueless_after_move() && valueless_after_move()) {
      // Nothing to do.
    } else {
      if (alloc_base::get() == other.alloc_base::get()) {
        // `other` may be'''), (I14, '''        auto tmp = construct_from(alloc, std::move(*other.p_));
        reset();
        p_ = tmp;
''', '''        auto tmp = construct_from(alloc, std::move(*other));
        reset();
        p_ = tmp;
''')], 'g++~-std=c++14~-DC14', '''
int main() { using B = Al<X>; using H = xyz::indirect<X, B>; H a(std::allocator_arg, B(1)), b(std::allocator_arg, B(2)), c(std::move(b)); a = std::move(b); CHECK(a.valueless_after_move()); }
''', 'move assignment from a valueless source with an unequal allocator', 'the missing object is dereferenced')

bug('c16-cxx17-swap-assign', 'C16', [(I14, '''      if (alloc_base::get() == other.alloc_base::get()) {
        // `other` may be part of the object we own, so it must be detached
''', '''#if __cplusplus >= 201703L
      if (allocator_traits::is_always_equal::value && sizeof(T) > sizeof(T*)) {
        // Leave it to other to release what we own.
        std::swap(p_, other.p_);
      } else
#endif
      if (allocator_traits::is_always_equal::value ||
          alloc_base::get() == other.alloc_base::get()) {
        // `other` may be part of the object we own, so it must be detached
''')], '17', '''
struct W { long a, b; };
int main() { xyz::indirect<W> a(W{1, 2}), b(W{3, 4}); a = std::move(b); CHECK(a->a == 3); CHECK(b.valueless_after_move()); }
''', 'the C++14 header compiled as C++17', 'the source of a move assignment keeps the old object of the target')

bug('c14-compare-guard', 'C14', [(I14, '''    if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
      return lhs.valueless_after_move() && rhs.valueless_after_move();
    }
    return *lhs == *rhs;
''', '''    if (lhs.valueless_after_move() || rhs.valueless_after_move()) {
      return lhs.valueless_after_move() && rhs.valueless_after_move();
    }
    // Values that lead back to themselves are equal unless something differs.
    const void*& current = comparing();
    if (current == lhs.p_) return true;
    const void* const outer = current;
    current = lhs.p_;
    const bool result = *lhs == *rhs;
    current = outer;
    return result;
'''), (I14, ''' private:
  pointer p_;
''', ''' private:
  pointer p_;

  // The object whose comparison is under way.
  static const void*& comparing() noexcept {
    static const void* p = nullptr;
    return p;
  }
''')], 'g++~-std=c++14~-DC14', '''
#include <thread>
#include <atomic>
struct S { int v; static std::atomic<int>& in() { static std::atomic<int> x{0}; return x; } };
std::atomic<bool> inside{false}, done{false};
bool operator==(const S& a, const S& b) { if (a.v == 1 && !inside.exchange(true)) while (!done) std::this_thread::yield(); return a.v == b.v; }
int main() { const xyz::indirect<S> a(S{1}), b(S{2}); std::thread t([&] { (void)(a == b); }); while (!inside) std::this_thread::yield(); bool r = a == b; done = true; t.join(); CHECK(!r); }
''', 'two threads comparing the same indirect', 'a mark in the object makes the second comparison succeed', flags='')

bug('c01-bytes', 'C01', [(P14, '''      cb_allocator cb_alloc(alloc);
      auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
      try {
        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
        return mem;
      } catch (...) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;
      }
''', '''      cb_allocator cb_alloc(alloc);
      auto mem = static_cast<direct_control_block*>(
          control_block::raw(alloc, sizeof(direct_control_block)));
      try {
        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
        return mem;
      } catch (...) {
        control_block::free_raw(alloc, mem, sizeof(direct_control_block));
        throw;
      }
'''), (P14, '''      cb_allocator cb_alloc(alloc);
      auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
      try {
        cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                   std::move(storage_.u_));
        return mem;
      } catch (...) {
        cb_alloc_traits::deallocate(cb_alloc, mem, 1);
        throw;
      }
''', '''      cb_allocator cb_alloc(alloc);
      auto mem = static_cast<direct_control_block*>(
          control_block::raw(alloc, sizeof(direct_control_block)));
      try {
        cb_alloc_traits::construct(cb_alloc, mem, alloc,
                                   std::move(storage_.u_));
        return mem;
      } catch (...) {
        control_block::free_raw(alloc, mem, sizeof(direct_control_block));
        throw;
      }
'''), (P14, '''      cb_alloc_traits::deallocate(cb_alloc, this, 1);
''', '''      control_block::free_raw(alloc, this, sizeof(direct_control_block));
'''), (P14, '''    cb_allocator cb_alloc(alloc_base::get());
    using cb_alloc_traits = std::allocator_traits<cb_allocator>;
    auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
''', '''    cb_allocator cb_alloc(alloc_base::get());
    using cb_alloc_traits = std::allocator_traits<cb_allocator>;
    auto mem = static_cast<direct_control_block<U>*>(
        control_block::raw(alloc_base::get(), sizeof(direct_control_block<U>)));
'''), (P14, '''    } catch (...) {
      cb_alloc_traits::deallocate(cb_alloc, mem, 1);
      throw;
    }
  }

 public:
  using value_type''', '''    } catch (...) {
      control_block::free_raw(alloc_base::get(), mem,
                              sizeof(direct_control_block<U>));
      throw;
    }
  }

 public:
  using value_type'''), (P14, '''    virtual ~control_block() = default;
''', '''    // All control blocks come from the same allocator, of words.
    using word_allocator = typename allocator_traits::template rebind_alloc<
        std::max_align_t>;

    static void* raw(const A& alloc, std::size_t n) {
      word_allocator words(alloc);
      return std::allocator_traits<word_allocator>::allocate(
          words, (n + sizeof(std::max_align_t) - 1) / sizeof(std::max_align_t));
    }

    static void free_raw(const A& alloc, void* p, std::size_t n) {
      word_allocator words(alloc);
      std::allocator_traits<word_allocator>::deallocate(
          words, static_cast<std::max_align_t*>(p),
          (n + sizeof(std::max_align_t) - 1) / sizeof(std::max_align_t));
    }

    virtual ~control_block() = default;
'''), (P14, '''#include <cassert>
''', '''#include <cassert>
#include <cstddef>
''')], 'g++~-std=c++17~-DC14', '''
struct alignas(256) W { virtual ~W() = default; char c[256]; };
int main() { std::vector<xyz::polymorphic<W>> v; for (int i = 0; i < 20; ++i) { v.emplace_back(W()); std::string* s = new std::string(i * 16 + 40, 'x'); (void)s; CHECK(reinterpret_cast<std::size_t>(&*v.back()) % 256 == 0); } }
''', 'an over-aligned owned type', 'owned objects lie at misaligned addresses')
