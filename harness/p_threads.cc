// Concurrent workloads (C14): every case runs twice in fresh processes, once with its threads one
// after the other and once concurrently.  The concurrent run must be free of data races and memory
// errors (ThreadSanitizer, AddressSanitizer) and every thread must observe the same results as in the
// sequential one.  The monitor itself synchronises nothing: thread-local digests, one relaxed counter.
#include "compat.h"

#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#if __cplusplus >= 201703L
#include <memory_resource>
#include <optional>
#endif

#include "supervise.h"

namespace {
const int MAXT = 8;
typedef std::uint64_t u64;

// ------------------------------------------------------------------ per-thread monitor
struct Digest {
  u64 h = 1469598103934665603ull;
  long ops = 0;
  std::vector<u64> sigs;
  std::vector<unsigned> tickets;
  void add(long v) {
    for (int i = 0; i < 8; ++i) h = (h ^ ((static_cast<u64>(v) >> (8 * i)) & 255)) * 1099511628211ull;
  }
};
thread_local Digest* me;
thread_local long ctor_n, dtor_n, fault_in;
std::atomic<unsigned> ticket(0);

struct Boom {
  int n;
};
void maybe_throw() {
  if (fault_in > 0 && --fault_in == 0) throw Boom{7};
}

// ------------------------------------------------------------------ owned types
struct Obj {
  long v;
  long chk;
  std::vector<long>* heap;  // a block of its own: read by every copy
  explicit Obj(long x = 0) : v(x), chk(~x), heap(new std::vector<long>(3, x)) { ++ctor_n; }
  Obj(const Obj& o) : v(o.get()), chk(~o.v), heap(nullptr) {
    maybe_throw();
    heap = new std::vector<long>(*o.heap);
    ++ctor_n;
  }
  Obj(Obj&& o) : v(o.get()), chk(~o.v), heap(nullptr) {
    maybe_throw();
    heap = new std::vector<long>(*o.heap);
    o.set(-1);
    ++ctor_n;
  }
  Obj& operator=(const Obj& o) {
    maybe_throw();
    set(o.get());
    return *this;
  }
  Obj& operator=(Obj&& o) {
    maybe_throw();
    set(o.get());
    if (&o != this) o.set(-1);
    return *this;
  }
  ~Obj() {
    get();
    v = chk = 0x55;
    delete heap;
    ++dtor_n;
  }
  long get() const {
    if (v != ~chk || (heap && (*heap)[1] != v)) {
      fprintf(stderr, "owned object damaged\n");
      abort();
    }
    return v;
  }
  void set(long x) {
    v = x;
    chk = ~x;
    heap->assign(3, x);
  }
  friend bool operator==(const Obj& a, const Obj& b) { return a.get() == b.get(); }
  friend bool operator!=(const Obj& a, const Obj& b) { return a.get() != b.get(); }
  friend bool operator<(const Obj& a, const Obj& b) { return a.get() < b.get(); }
  friend bool operator>(const Obj& a, const Obj& b) { return a.get() > b.get(); }
  friend bool operator<=(const Obj& a, const Obj& b) { return a.get() <= b.get(); }
  friend bool operator>=(const Obj& a, const Obj& b) { return a.get() >= b.get(); }
};
struct Base {
  Obj b;
  explicit Base(long v = 0) : b(v) {}
  virtual ~Base() = default;
  Base(const Base&) = default;
  Base& operator=(const Base&) = default;
  virtual long read() const { return b.get(); }
  virtual void write(long v) { b.set(v); }
};
struct Der1 : Base {
  Obj d;
  explicit Der1(long v = 0) : Base(v), d(v + 1) {}
  long read() const override { return b.get() * 3 + d.get(); }
  void write(long v) override {
    b.set(v);
    d.set(v + 1);
  }
};
struct Pad {
  long p[5] = {1, 2, 3, 4, 5};
};
struct Der2 : Pad, virtual Base {
  std::string s;
  explicit Der2(long v = 0) : Base(v), s(static_cast<std::size_t>(20 + v % 30), 'x') {}
  long read() const override { return b.get() * 5 + static_cast<long>(s.size()) + p[4]; }
  void write(long v) override {
    b.set(v);
    s.assign(static_cast<std::size_t>(20 + v % 30), 'y');
  }
};
struct Tree {
  Obj o;
  std::vector<xyz::indirect<Tree>> kids;
  explicit Tree(long v = 0) : o(v) {
    if (v > 0)
      for (long i = 0; i < v % 3; ++i) kids.emplace_back(vt::in_place(), v / 3);
  }
  long sum() const {
    long s = o.get();
    for (const auto& k : kids) s = s * 7 + (k.valueless_after_move() ? 1 : k->sum());
    return s;
  }
  void write(long v) {
    o.set(v);
    for (auto& k : kids)
      if (!k.valueless_after_move()) k->write(v + 1);
  }
};

// ------------------------------------------------------------------ allocators
template <class T, bool P, bool HOOK>
struct TAlloc {
  typedef T value_type;
  typedef std::integral_constant<bool, P> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, P> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, P> propagate_on_container_swap;
  template <class U>
  struct rebind {
    typedef TAlloc<U, P, HOOK> other;
  };
  int id;
  explicit TAlloc(int i = 0) : id(i) {}
  template <class U>
  TAlloc(const TAlloc<U, P, HOOK>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    if (fault_in > 0) maybe_throw();
    long* p = static_cast<long*>(::operator new(n * sizeof(T) + 16));
    p[0] = id;
    return reinterpret_cast<T*>(p + 2);
  }
  void deallocate(T* q, std::size_t) {
    long* p = reinterpret_cast<long*>(q) - 2;
    if (p[0] != id) {
      fprintf(stderr, "block returned to another allocator\n");
      abort();
    }
    ::operator delete(p);
  }
  friend bool operator==(const TAlloc& a, const TAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const TAlloc& a, const TAlloc& b) { return a.id != b.id; }
};
template <class A>
A mk(int id, long) { (void)id; return A(); }
template <class A>
auto mk(int id, int) -> decltype(A(id), A(id).id, A()) { return A(id); }
template <class A>
A mk(int id) { return mk<A>(id, 0); }
template <class A>
auto aid(const A& a, int) -> decltype(static_cast<long>(a.id)) { return a.id; }
template <class A>
long aid(const A&, long) { return 0; }

// ------------------------------------------------------------------ kinds of holders
template <class I>
struct K;
template <class T, class A>
struct K<xyz::indirect<T, A>> {
  typedef xyz::indirect<T, A> I;
  typedef A Alloc;
  static I make(int id, long v) { return I(std::allocator_arg, mk<A>(id), vt::in_place(), v); }
  static long rd(const Obj& o) { return o.get(); }
  static long rd(const Tree& t) { return t.sum(); }
  static long rd(long v) { return v; }
  static void wr(Obj& o, long v) { o.set(v); }
  static void wr(Tree& t, long v) { t.write(v); }
  static void wr(long& o, long v) { o = v; }
  static long read(const I& i) { return i.valueless_after_move() ? -99 : rd(*i); }
  static long read2(const I& i) { return i.valueless_after_move() ? -99 : rd(*i.operator->()); }
  static void write(I& i, long v) {
    if (!i.valueless_after_move()) wr(*i, v);
  }
  static void assign(I& i, long v) { i = T(v); }
  // comparison and hashing, where the owned type supports them
  template <class U>
  static long more(const I& a, const xyz::indirect<U, A>& b, long v, std::true_type) {
    long r = 0;
    r = r * 2 + (a == b);
    r = r * 2 + (a != b);
    r = r * 2 + (a < b);
    r = r * 2 + (a <= b);
    r = r * 2 + (a > b);
    r = r * 2 + (b >= a);
    T t(v);
    r = r * 2 + (a == t);
    r = r * 2 + (t < a);
    r = r * 2 + (a < t);
    return r * 1000003 + static_cast<long>(std::hash<I>()(a) % 1000003);
  }
  template <class U>
  static long more(const I&, const U&, long, std::false_type) { return 0; }
  static long more(const I& a, const I& b, long v) {
    return more(a, b, v, std::integral_constant<bool, !std::is_same<T, Tree>::value>());
  }
};
template <class T, class A>
struct K<xyz::polymorphic<T, A>> {
  typedef xyz::polymorphic<T, A> I;
  typedef A Alloc;
  static I make(int id, long v) {
    switch (v % 3) {
      case 0: return I(std::allocator_arg, mk<A>(id), vt::in_place_type<Base>(), v);
      case 1: return I(std::allocator_arg, mk<A>(id), vt::in_place_type<Der1>(), v);
      default: return I(std::allocator_arg, mk<A>(id), vt::in_place_type<Der2>(), v);
    }
  }
  static long read(const I& i) { return i.valueless_after_move() ? -99 : (*i).read(); }
  static long read2(const I& i) { return i.valueless_after_move() ? -99 : i->read(); }
  static void write(I& i, long v) {
    if (!i.valueless_after_move()) i->write(v);
  }
  static void assign(I& i, long v) { i = make(aid(i.get_allocator(), 0), v); }
  static long more(const I&, const I&, long) { return 0; }
};
}  // namespace
template <>
struct std::hash<Obj> {
  std::size_t operator()(const Obj& o) const { return static_cast<std::size_t>(o.get()) * 2654435761u; }
};
namespace {

// ------------------------------------------------------------------ cases
struct CaseBase {
  std::string name;
  virtual ~CaseBase() = default;
  virtual int threads(mon::Rng& g) { return 2 + static_cast<int>(g.below(4)); }
  virtual void setup(mon::Rng&) = 0;
  virtual void body(int tid, int n, mon::Rng& g) = 0;
  virtual void teardown(Digest&) = 0;
};
std::vector<std::pair<CaseBase* (*)(), const char*>> registry;
struct Reg {
  Reg(CaseBase* (*f)(), const char* n) { registry.push_back(std::make_pair(f, n)); }
};
const char* case_now = "";
// notes one operation of this thread
void did(int op, long state) {
  ++me->ops;
  long k[] = {op, state};
  me->sigs.push_back(mon::fnv(k, sizeof k, mon::fnv(case_now, strlen(case_now))));
  me->tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
  if ((me->tickets.back() & 31u) == 0) sched_yield();
}
long steps = 60;

// every const operation, on an object shared by all threads
template <class I>
struct Shared : CaseBase {
  typedef K<I> Kd;
  std::unique_ptr<const I> x[3];
  void setup(mon::Rng& g) override {
    x[0].reset(new I(Kd::make(1, 10 + static_cast<long>(g.below(20)))));
    I t(Kd::make(1, 5));
    x[1].reset(new I(t));  // a copy of something else that lives on
    I* vless = new I(Kd::make(2, 7));
    I sink(std::move(*vless));
    x[2].reset(vless);
  }
  void body(int, int, mon::Rng& g) override {
    I mine(Kd::make(1, 3)), other(Kd::make(2, 4));
    for (long s = 0; s < steps; ++s) {
      const I& y = *x[g.below(8) == 0 ? 2 : g.below(2)];
      int op = static_cast<int>(g.below(12));
      long v = static_cast<long>(g.below(30));
      switch (op) {
        case 0: {
          I c(y);
          me->add(Kd::read(c));
          Kd::write(c, v);
          me->add(Kd::read(c));
          break;
        }
        case 1: {
          I c(std::allocator_arg, mk<typename Kd::Alloc>(static_cast<int>(g.below(3))), y);
          me->add(Kd::read(c));
          Kd::write(c, v);
          break;
        }
        case 2:
          mine = y;
          me->add(Kd::read(mine));
          break;
        case 3:
          other = y;
          Kd::write(other, v);
          me->add(Kd::read(other));
          break;
        case 4: me->add(Kd::read(y)); break;
        case 5: me->add(Kd::read2(y)); break;
        case 6: me->add(y.valueless_after_move()); break;
        case 7: me->add(aid(y.get_allocator(), 0)); break;
        case 8: me->add(Kd::more(y, mine, v)); break;
        case 9: me->add(Kd::more(mine, y, v)); break;
        case 10: me->add(Kd::more(y, *x[g.below(3)], v)); break;
        default: {
          fault_in = 1 + static_cast<long>(g.below(4));
          try {
            I c(y);
            me->add(Kd::read(c));
            mine = y;
          } catch (const Boom& b) {
            me->add(b.n);
          } catch (const std::bad_alloc&) {
            me->add(8);
          }
          fault_in = 0;
          me->add(Kd::read(mine));
        }
      }
      did(op, y.valueless_after_move() * 2 + mine.valueless_after_move());
    }
  }
  void teardown(Digest& d) override {
    for (auto& p : x) d.add(Kd::read(*p));
    for (auto& p : x) p.reset();
  }
};

// unrestricted operations on objects of one's own that are copied or moved from one another
template <class I>
struct Relatives : CaseBase {
  typedef K<I> Kd;
  std::vector<std::vector<I>> own;
  bool fresh_start = false;
  void setup(mon::Rng& g) override {
    own.resize(MAXT);
    fresh_start = g.chance(40);
    if (fresh_start) return;  // first uses of everything happen in the threads
    I root(Kd::make(1, 12));
    for (int t = 0; t < MAXT; ++t) {
      std::vector<I>& o = own[static_cast<std::size_t>(t)];
      o.reserve(4);
      o.push_back(root);
      o.push_back(t ? own[static_cast<std::size_t>(t - 1)][1] : root);
      I c(root);
      o.push_back(std::move(c));
      I d(Kd::make(1, 12 + t)), e(Kd::make(1, 40 + t));
      d = root;
      swap(d, e);
      o.push_back(std::move(e));
    }
  }
  void body(int tid, int, mon::Rng& g) override {
    std::vector<I>& o = own[static_cast<std::size_t>(tid)];
    if (fresh_start) {
      o.reserve(4);
      for (int i = 0; i < 4; ++i) o.push_back(Kd::make(1, 3 + tid + i));
    }
    for (long s = 0; s < steps; ++s) {
      std::size_t i = g.below(4), j = g.below(4);
      int op = static_cast<int>(g.below(14));
      long v = static_cast<long>(g.below(40));
      int id = static_cast<int>(g.below(2)) + 1;
      switch (op) {
        case 0: Kd::write(o[i], v); break;
        case 1: o[i] = o[j]; break;
        case 2: o[i] = std::move(o[j]); break;
        case 3:
          if (aid(o[i].get_allocator(), 0) == aid(o[j].get_allocator(), 0)) o[i].swap(o[j]);
          break;
        case 4: {
          I t(o[i]);
          Kd::write(t, v);
          me->add(Kd::read(t));
          break;
        }
        case 5: {
          I t(std::move(o[i]));
          me->add(Kd::read(t));
          o[i] = std::move(t);
          break;
        }
        case 6: o[i] = Kd::make(id, v); break;
        case 7: {
          I t(std::allocator_arg, mk<typename Kd::Alloc>(id), o[i]);
          me->add(aid(t.get_allocator(), 0) + Kd::read(t));
          break;
        }
        case 8: {
          I t(std::allocator_arg, mk<typename Kd::Alloc>(id), std::move(o[i]));
          o[j] = t;
          break;
        }
        case 9: {
          I t{};
          me->add(Kd::read(t));
          t = o[i];
          me->add(Kd::read(t));
          break;
        }
        case 10: Kd::assign(o[i], v); break;
        case 11: me->add(Kd::more(o[i], o[j], v)); break;
        case 12: {
          std::unique_ptr<I> p(new I(o[i]));
          o[j] = static_cast<const I&>(*p);
          break;
        }
        default: {
          fault_in = 1 + static_cast<long>(g.below(5));
          try {
            I c(o[i]);
            o[j] = c;
            I d(std::allocator_arg, mk<typename Kd::Alloc>(id), std::move(c));
            me->add(Kd::read(d));
          } catch (const Boom& b) {
            me->add(b.n);
          }
          fault_in = 0;
        }
      }
      for (I& x : o) me->add(Kd::read(x));
      did(op, o[i].valueless_after_move() * 2 + o[j].valueless_after_move());
    }
    if (g.chance(50)) o.clear();
  }
  void teardown(Digest& d) override {
    for (auto& o : own)
      for (auto& x : o) d.add(Kd::read(x));
    own.clear();
  }
};

// objects handed from thread to thread
template <class I>
struct HandOff : CaseBase {
  typedef K<I> Kd;
  struct Queue {
    std::mutex m;
    std::condition_variable c;
    std::deque<I> q;
    void put(I&& i) {
      std::lock_guard<std::mutex> l(m);
      q.push_back(std::move(i));
      c.notify_one();
    }
    I get() {
      std::unique_lock<std::mutex> l(m);
      while (q.empty()) c.wait(l);
      I r(std::move(q.front()));
      q.pop_front();
      return r;
    }
  };
  std::unique_ptr<Queue> qs[MAXT];
  // hand-off of a pointer through release and acquire, one slot per item
  std::vector<std::unique_ptr<std::atomic<I*>>> slots;
  void setup(mon::Rng&) override {
    for (auto& q : qs) q.reset(new Queue);
    for (long i = 0; i < steps * MAXT; ++i) slots.emplace_back(new std::atomic<I*>(nullptr));
  }
  void body(int tid, int n, mon::Rng& g) override {
    std::size_t T = static_cast<std::size_t>(tid);
    for (long s = 0; s < steps; ++s) {
      long v = static_cast<long>(g.below(40));
      int op;
      if (tid == 0) {
        qs[1 % MAXT]->put(Kd::make(1, v));
        op = 0;
      } else {
        I x(qs[T]->get());
        me->add(Kd::read(x));
        op = 1 + static_cast<int>(g.below(4));
        if (op == 1) Kd::write(x, v);
        if (op == 2) {
          I y(x);
          Kd::write(y, v);
          x = std::move(y);
        }
        if (op == 3) x = Kd::make(1, v);
        me->add(Kd::read(x));
        if (tid + 1 < n) qs[T + 1]->put(std::move(x));
      }
      did(op, tid);
      // the second channel
      std::atomic<I*>& out = *slots[static_cast<std::size_t>(s * MAXT + tid)];
      if (tid + 1 < n) out.store(new I(Kd::make(2, v)), std::memory_order_release);
      if (tid > 0) {
        std::atomic<I*>& in = *slots[static_cast<std::size_t>(s * MAXT + tid - 1)];
        I* p;
        while (!(p = in.load(std::memory_order_acquire))) sched_yield();
        std::unique_ptr<I> own(p);
        me->add(Kd::read(*own));
        Kd::write(*own, v);
        I z(std::move(*own));
        me->add(Kd::read(z));
        did(7, tid);
      }
    }
  }
  void teardown(Digest& d) override {
    for (auto& q : qs) {
      for (auto& x : q->q) d.add(Kd::read(x));
      q.reset();
    }
    slots.clear();
  }
};

// containers read by all threads
template <class I>
struct Containers : CaseBase {
  typedef K<I> Kd;
  std::vector<I> v;
  std::map<int, I> m;
  void setup(mon::Rng& g) override {
    for (int i = 0; i < 10; ++i) {
      v.push_back(Kd::make(1, static_cast<long>(g.below(30))));
      m.emplace(i, v.back());
    }
    I gone(std::move(v[4]));
  }
  void body(int, int, mon::Rng& g) override {
    for (long s = 0; s < steps / 4 + 1; ++s) {
      int op = static_cast<int>(g.below(4));
      const std::vector<I>& cv = v;
      const std::map<int, I>& cm = m;
      switch (op) {
        case 0:
          for (const I& i : cv) me->add(Kd::read(i));
          break;
        case 1: {
          std::vector<I> c(cv);
          std::reverse(c.begin(), c.end());
          for (I& i : c) Kd::write(i, 2);
          c.erase(c.begin() + 3);
          for (const I& i : c) me->add(Kd::read(i));
          break;
        }
        case 2: {
          std::map<int, I> c(cm);
          c.erase(3);
          for (const auto& i : c) me->add(Kd::read(i.second));
          break;
        }
        default:
          for (std::size_t i = 1; i < cv.size(); ++i) me->add(Kd::more(cv[i - 1], cv[i], 3));
      }
      did(op, 0);
    }
  }
  void teardown(Digest& d) override {
    for (const I& i : v) d.add(Kd::read(i));
    v.clear();
    m.clear();
  }
};

#define KIND(N, ...)                                                                              \
  typedef __VA_ARGS__ Ty_##N;                                                                     \
  static Reg a_##N([]() -> CaseBase* { return new Shared<Ty_##N>; }, "shared " #__VA_ARGS__);     \
  static Reg b_##N([]() -> CaseBase* { return new Relatives<Ty_##N>; }, "relatives " #__VA_ARGS__); \
  static Reg c_##N([]() -> CaseBase* { return new HandOff<Ty_##N>; }, "hand-off " #__VA_ARGS__);  \
  static Reg d_##N([]() -> CaseBase* { return new Containers<Ty_##N>; }, "containers " #__VA_ARGS__);
KIND(is, xyz::indirect<Obj, std::allocator<Obj>>)
KIND(if_, xyz::indirect<Obj, TAlloc<Obj, false, false>>)
KIND(it, xyz::indirect<Obj, TAlloc<Obj, true, true>>)
KIND(il, xyz::indirect<long, std::allocator<long>>)
KIND(ir, xyz::indirect<Tree, std::allocator<Tree>>)
KIND(ps, xyz::polymorphic<Base, std::allocator<Base>>)
KIND(pf, xyz::polymorphic<Base, TAlloc<Base, false, false>>)
KIND(pt, xyz::polymorphic<Base, TAlloc<Base, true, true>>)

// ------------------------------------------------------------------ supervision
struct Result {
  int n;
  int done;
  u64 h[MAXT + 1];
  long ops;
  long nsigs, switches;
  u64 order;
  u64 sigs[4096];
};
Result* res;

struct Start {
  CaseBase* c;
  int tid, n;
  u64 seed;
  Digest d;
  long ct, dt;
};
std::atomic<int> waiting(0), go(0);
void* thread_main(void* p) {
  Start& s = *static_cast<Start*>(p);
  me = &s.d;
  mon::Rng g(s.seed);
  if (s.n > 0) {  // concurrent: all start together
    waiting.fetch_add(1, std::memory_order_relaxed);
    while (!go.load(std::memory_order_relaxed)) sched_yield();
  }
  s.c->body(s.tid, s.n < 0 ? -s.n : s.n, g);
  s.ct = ctor_n;
  s.dt = dtor_n;
  return nullptr;
}

void run_child(int ci, u64 seed, bool concurrent) {
  std::unique_ptr<CaseBase> c(registry[static_cast<std::size_t>(ci)].first());
  case_now = registry[static_cast<std::size_t>(ci)].second;
  mon::Rng g(seed);
  int n = c->threads(g);
  Digest top;
  me = &top;
  c->setup(g);
  std::vector<std::unique_ptr<Start>> st;
  std::vector<pthread_t> th(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i) {
    st.emplace_back(new Start{c.get(), i, concurrent ? n : -n, g.next(), Digest(), 0, 0});
    st.back()->d.sigs.reserve(4096);
    st.back()->d.tickets.reserve(4096);
  }
  for (int i = 0; i < n; ++i) {
    if (pthread_create(&th[static_cast<std::size_t>(i)], nullptr, thread_main, st[static_cast<std::size_t>(i)].get()))
      _exit(4);
    if (!concurrent) pthread_join(th[static_cast<std::size_t>(i)], nullptr);
  }
  if (concurrent) {
    while (waiting.load(std::memory_order_relaxed) < n) sched_yield();
    go.store(1, std::memory_order_relaxed);
    for (int i = 0; i < n; ++i) pthread_join(th[static_cast<std::size_t>(i)], nullptr);
  }
  c->teardown(top);
  res->n = n;
  res->ops = 0;
  long cn = ctor_n, dn = dtor_n;
  std::vector<std::pair<unsigned, int>> order;
  std::set<u64> sg;
  for (int i = 0; i < n; ++i) {
    Start& s = *st[static_cast<std::size_t>(i)];
    res->h[i] = s.d.h;
    res->ops += s.d.ops;
    cn += s.ct;
    dn += s.dt;
    for (unsigned t : s.d.tickets) order.push_back(std::make_pair(t, i));
    sg.insert(s.d.sigs.begin(), s.d.sigs.end());
  }
  top.add(cn);
  top.add(cn - dn);  // owned objects left behind
  res->h[n] = top.h;
  std::sort(order.begin(), order.end());
  res->order = 1469598103934665603ull;
  res->switches = 0;
  for (std::size_t i = 0; i < order.size(); ++i) {
    res->order = (res->order ^ static_cast<u64>(order[i].second)) * 1099511628211ull;
    if (i && order[i].second != order[i - 1].second) ++res->switches;
  }
  res->nsigs = 0;
  for (u64 x : sg)
    if (res->nsigs < 4096) res->sigs[res->nsigs++] = x;
  res->done = 1;
}

// 0 finished, 1 failed, 2 hung
int supervise(int ci, u64 seed, bool concurrent, Result& out, char* why, std::size_t len) {
  memset(res, 0, sizeof *res);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) exit(2);
  if (pid == 0) {
    run_child(ci, seed, concurrent);
    fflush(nullptr);
    exit(0);  // lets the sanitizer finish
  }
  bool hung = false;
  mon::sh->progress = 0;
  int st = wait_child(pid, 120, &hung);
  out = *res;
  if (hung) {
    snprintf(why, len, "did not finish");
    return 2;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && res->done) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 4) exit(2);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) exit(2);
  if (WIFEXITED(st))
    snprintf(why, len, "%s (exit status %d, see the log)",
             WEXITSTATUS(st) == 66 ? "data race reported by ThreadSanitizer" : "sanitizer report or failure",
             WEXITSTATUS(st));
  else
    snprintf(why, len, "died of signal %d (see the log)", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  return 1;
}
}  // namespace

namespace mon {
Shared* sh;
}
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_abort=0"; }

int main(int argc, char** argv) {
  u64 seed = 1;
  double scale = 1;
  const char *cov = nullptr, *report = nullptr, *only = nullptr;
  long only_rep = -1, max_bad = 3;
  int shard = 0, nshards = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed")
      seed = strtoull(v, nullptr, 10), ++i;
    else if (a == "--scale")
      scale = atof(v), ++i;
    else if (a == "--shard")
      sscanf(v, "%d/%d", &shard, &nshards), ++i;
    else if (a == "--cov")
      cov = v, ++i;
    else if (a == "--report")
      report = v, ++i;
    else if (a == "--only")
      only = v, ++i;
    else if (a == "--rep")
      only_rep = atol(v), ++i;
    else if (a == "--max-bad")
      max_bad = atol(v), ++i;
    else
      return 2;
  }
  mon::sh = static_cast<mon::Shared*>(
      mmap(nullptr, sizeof(mon::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  res = static_cast<Result*>(
      mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (mon::sh == MAP_FAILED || res == MAP_FAILED) return 2;
  FILE* rep = report ? fopen(report, "w") : stdout;
  if (!rep) return 2;
  long reps = static_cast<long>(6 * scale);
  if (reps < 1) reps = 1;
  long bad = 0, jobs = 0, ops = 0, idx = 0, switches = 0;
  std::set<u64> sigs, orders;
  std::vector<std::string> samples;
  for (long r = 0; r < reps && bad < max_bad; ++r)
    for (std::size_t ci = 0; ci < registry.size() && bad < max_bad; ++ci) {
      if (only && std::string(only) != registry[ci].second) continue;
      if (only_rep >= 0 && r != only_rep) continue;
      if (idx++ % nshards != shard) continue;
      u64 sd = mon::fnv(registry[ci].second, strlen(registry[ci].second), seed * 1000003 + static_cast<u64>(r) * 7919);
      static Result a, b;
      char why[300] = "", why2[300] = "";
      int sa = supervise(static_cast<int>(ci), sd, false, a, why, sizeof why);
      int tries = sa == 0 ? 3 : 1;
      std::string text;
      for (int t = 0; t < tries && text.empty(); ++t) {
        int sb = supervise(static_cast<int>(ci), sd, true, b, why2, sizeof why2);
        ++jobs;
        if (sa != 0) break;  // fails without any concurrency: other properties judge that
        if (sb == 2 && supervise(static_cast<int>(ci), sd, true, b, why2, sizeof why2) != 2) continue;
        if (sb != 0) {
          text = std::string("concurrent run: ") + why2;
        } else {
          for (int i = 0; i <= b.n; ++i)
            if (a.h[i] != b.h[i]) {
              char buf[200];
              snprintf(buf, sizeof buf, i < b.n ? "thread %d of %d observed other results than in the sequential run"
                                                 : "final state differs from the sequential run (%d of %d)", i, b.n);
              text = buf;
              break;
            }
        }
        if (text.empty()) {
          ops += b.ops;
          switches += b.switches;
          orders.insert(b.order);
          for (long i = 0; i < b.nsigs; ++i) sigs.insert(mon::fnv(&b.order, sizeof b.order, b.sigs[i]));
          if (samples.size() < 3) {
            char buf[400];
            snprintf(buf, sizeof buf, "%s rep %ld: %d threads, %ld operations, %ld switches between threads, digests %llx %llx",
                     registry[ci].second, r, b.n, b.ops, b.switches, static_cast<unsigned long long>(b.h[0]),
                     static_cast<unsigned long long>(b.h[b.n]));
            samples.push_back(buf);
          }
        }
      }
      if (!text.empty()) {
        ++bad;
        fprintf(rep, "{\"labels\":\"C14\",\"oracle\":\"threads\",\"subject\":");
        json_str(rep, registry[ci].second);
        fprintf(rep, ",\"case\":%ld,\"index\":%ld,\"text\":", idx - 1, r);
        json_str(rep, text.c_str());
        fprintf(rep, ",\"history\":\"\"}\n");
        fflush(rep);
      }
    }
  fprintf(rep, "{\"end\":true,\"jobs\":%ld,\"subjects\":%zu,\"bad\":%ld,\"unrelated\":0,\"switches\":%ld,\"interleavings\":%zu}\n",
          jobs, registry.size(), bad, switches, orders.size());
  if (rep != stdout) fclose(rep);
  if (cov) {
    FILE* f = fopen(cov, "w");
    if (!f) return 2;
    fprintf(f, "E 14 %ld\nS 14", ops);
    for (u64 s : sigs) fprintf(f, " %llx", static_cast<unsigned long long>(s));
    fprintf(f, "\n");
    for (const std::string& s : samples) fprintf(f, "X 14 %s\n", s.c_str());
    fclose(f);
  }
  return bad ? 3 : 0;
}
