// C09: hashing of indirects, and unordered containers keyed by them.
#include "cases.h"
#include "alloc.h"
#include "types.h"

#include <climits>
#include <map>
#include <memory>
#include <new>
#include <unordered_map>
#include <unordered_set>
using namespace vt;
using mon::L;

namespace {
// a monitored key; its hash is chosen by the test
template <int ID>
struct Key {
  Core<ID> c;
  std::size_t h;
  Key(long v, std::size_t hash) : c(BaseTag(), v), h(hash) {}
  explicit Key(long v) : c(BaseTag(), v), h(static_cast<std::size_t>(v)) {}
  Key(const Key&) = default;
  Key(Key&& o) : c(std::move(o.c)), h(o.h) { o.h = static_cast<std::size_t>(MOVED); }
  Key& operator=(const Key&) = default;
  Key& operator=(Key&& o) {
    c = std::move(o.c);
    h = o.h;
    return *this;
  }
};
template <int ID>
bool operator==(const Key<ID>& a, const Key<ID>& b) {
  return a.c.v() == b.c.v();
}
typedef Key<81> K;
const void* hashed_at;
long hash_calls;
struct Addr {  // hashed and compared by address: the owned object itself must be hashed
  long v;
  explicit Addr(long x) : v(x) {}
};
}  // namespace
namespace std {
template <>
struct hash<K> {
  size_t operator()(const K& k) const {
    REQ(L(9, 1), k.c.ok());
    hashed_at = std::addressof(k);
    ++hash_calls;
    return k.h;
  }
};
template <>
struct hash<Addr> {
  size_t operator()(const Addr& k) const noexcept { return reinterpret_cast<size_t>(&k); }
};
}  // namespace std

namespace {
enum class Shade : int { dark = -5, light = 9 };
typedef Cfg<false, false, false, false, false, false> F;
typedef Cfg<true, true, true, false, true, true> TH;

// The hash of a value, whatever happened to its holder.
template <class T, class A>
void values(const char* what, mon::Rng& rng, const std::vector<T>& pool) {
  typedef xyz::indirect<T, A> I;
  const std::hash<I> H = std::hash<I>();
  bool have_vl = false;
  std::size_t vl = 0;
  for (std::size_t i = 0; i < pool.size(); ++i)
    for (int how = 0; how < 7; ++how) {
      int ar = 3 + static_cast<int>(rng.below(4)), ar2 = 3 + static_cast<int>(rng.below(4));
      const T& v = pool[i];
      const T& other = pool[(i + 1) % pool.size()];
      mon::hist_reset();
      mon::hist("%s value #%zu history %d allocators %d %d", what, i, how, ar, ar2);
      I x(std::allocator_arg, AllocInfo<A>::make(ar), in_place(), v);
      I y(std::allocator_arg, AllocInfo<A>::make(ar2), in_place(), other);
      alignas(I) unsigned char raw[sizeof(I)];
      I* z = nullptr;  // holds v in the end
      I* e = nullptr;  // is valueless in the end
      switch (how) {
        case 0:
          z = ::new (static_cast<void*>(raw)) I(x);
          break;
        case 1:
          z = ::new (static_cast<void*>(raw)) I(std::move(x));
          e = &x;
          break;
        case 2:
          z = ::new (static_cast<void*>(raw)) I(y);
          *z = x;
          break;
        case 3:
          z = ::new (static_cast<void*>(raw)) I(y);
          *z = std::move(x);
          e = x.valueless_after_move() ? &x : nullptr;
          break;
        case 4: {
          I t(std::move(y));
          z = ::new (static_cast<void*>(raw)) I(y);  // valueless
          *z = x;
          e = &y;
          break;
        }
        case 5: {
          I t(std::move(y));
          z = ::new (static_cast<void*>(raw)) I(y);  // valueless
          *z = v;
          e = &y;
          break;
        }
        default: {
          z = ::new (static_cast<void*>(raw)) I(std::allocator_arg, x.get_allocator(), in_place(), other);
          z->swap(x);
          break;
        }
      }
      const I& cz = *z;
      std::size_t got, want = std::hash<T>()(v);
      const void* at = std::addressof(*cz);
      {
        mon::Window w;
        got = H(cz);
        for (int ev = 0; ev < mon::NEV; ++ev)
          REQF(L(9), mon::cnt[0][ev] + mon::cnt[1][ev] == 0, "%s: hashing did %s", what, mon::ev_name[ev]);
      }
      REQF(L(9), got == want, "%s: hash of value #%zu is %zx, of the indirect owning it %zx", what, i, want, got);
      REQ(L(9), H(*z) == want && std::hash<I>()(cz) == want);
      REQ(L(9, 10), !z->valueless_after_move() && std::addressof(*cz) == at);
      vt::seen(L(9), sig(what, i, how, ar, ar2));
      if (e && e->valueless_after_move()) {
        mon::Window w;
        std::size_t h = H(*e);
        for (int ev = 0; ev < mon::NEV; ++ev)
          REQF(L(9, 5), mon::cnt[0][ev] + mon::cnt[1][ev] == 0, "%s: hashing did %s", what, mon::ev_name[ev]);
        if (!have_vl) vl = h;
        have_vl = true;
        REQF(L(9, 5), h == vl, "%s: two valueless indirects hash to %zx and %zx", what, vl, h);
        REQ(L(9, 5), e->valueless_after_move());
        vt::seen(L(9, 5), sig(what, -1, how, ar, ar2));
      }
      z->~I();
    }
}

const std::size_t hashes[] = {0, 1, static_cast<std::size_t>(-1), static_cast<std::size_t>(-2),
                              static_cast<std::size_t>(1) << 63, 0x123456789abcdefull};
}  // namespace

CASE(hash_int, L(9), 4) {
  std::vector<int> p = {0, 1, -1, INT_MIN, INT_MAX, 42};
  values<int, MonAlloc<int, F>>("int fff", rng, p);
  values<int, MonAlloc<int, TH>>("int ttt_sel_hook", rng, p);
  values<int, std::allocator<int>>("int std", rng, p);
}
CASE(hash_string, L(9), 4) {
  std::vector<std::string> p = {"", "a", std::string("a\0", 2), std::string(200, 'z')};
  values<std::string, MonAlloc<std::string, F>>("string fff", rng, p);
  values<std::string, EmptyAlloc<std::string>>("string empty", rng, p);
}
CASE(hash_long, L(9), 4) {
  std::vector<long> p = {0, 1, -1, LONG_MIN, LONG_MAX};
  values<long, MinimalAlloc<long>>("long minimal", rng, p);
}
CASE(hash_double, L(9), 4) {
  std::vector<double> p = {0.0, -0.0, 1.5, 1e300};
  values<double, std::allocator<double>>("double std", rng, p);
}
CASE(hash_enum, L(9), 4) {
  std::vector<Shade> p = {Shade::dark, Shade::light};
  values<Shade, MonAlloc<Shade, TH>>("enum ttt_sel_hook", rng, p);
}
CASE(hash_pointer, L(9), 4) {
  std::vector<const char*> p = {nullptr, "x"};
  values<const char*, MonAlloc<const char*, F>>("pointer fff", rng, p);
}
CASE(hash_shared_ptr, L(9), 4) {
  typedef std::shared_ptr<int> S;
  std::vector<S> p = {S(), std::make_shared<int>(3)};
  values<S, MonAlloc<S, F>>("shared_ptr fff", rng, p);
}
CASE(hash_key, L(9), 6) {
  std::vector<K> p;
  long n = 0;
  for (std::size_t h : hashes) p.push_back(K(n++, h));
  values<K, MonAlloc<K, F>>("Key fff", rng, p);
  values<K, MonAlloc<K, TH>>("Key ttt_sel_hook", rng, p);
  values<K, std::allocator<K>>("Key std", rng, p);
}
// the owned object itself is hashed, once
CASE(hash_identity, L(9), 1) {
  (void)rng;
  for (std::size_t h : hashes) {
    const xyz::indirect<K> x((in_place()), 5L, h);
    hash_calls = 0;
    std::size_t got = std::hash<xyz::indirect<K>>()(x);
    REQ(L(9), got == h && hashed_at == std::addressof(*x));
    vt::seen(L(9), sig("identity", static_cast<long>(h)));
  }
  const xyz::indirect<Addr> a((in_place()), 1L), b(a);
  REQ(L(9), std::hash<xyz::indirect<Addr>>()(a) == std::hash<Addr>()(*a));
  REQ(L(9), std::hash<xyz::indirect<Addr>>()(b) == std::hash<Addr>()(*b));
}
// indirect of indirect
CASE(hash_nested, L(9, 5), 1) {
  (void)rng;
  typedef xyz::indirect<int> I;
  typedef xyz::indirect<I> II;
  for (int v = -3; v < 4; ++v) {
    II x((in_place()), (in_place()), v);
    REQ(L(9), std::hash<II>()(x) == std::hash<int>()(v));
    I taken(std::move(*x));
    REQ(L(9, 5), std::hash<II>()(x) == std::hash<I>()(*x));
    II outer(std::move(x));
    I plain(v);
    I t2(std::move(plain));
    REQ(L(9, 5), std::hash<II>()(outer) == std::hash<I>()(plain));
    II y((in_place()), (in_place()), v + 1), z(std::move(y));
    REQ(L(9, 5), std::hash<II>()(y) == std::hash<II>()(x));
    vt::seen(L(9, 5), sig("nested", v));
  }
}

// Unordered containers against an ordered model.
namespace {
template <class A>
void container(mon::Rng& rng, const char* what, int spread) {
  typedef xyz::indirect<K, A> I;
  typedef std::unordered_map<I, int> Map;
  Map m;
  std::map<long, int> model;
  int valueless = 0;  // the key may be valueless, too
  auto key_hash = [&](long k) { return spread == 0 ? std::size_t(7) : spread == 1 ? static_cast<std::size_t>(k % 3 - 1) : static_cast<std::size_t>(k) * 0x9E3779B97F4A7C15ull; };
  auto make = [&](long k) {
    return I(std::allocator_arg, AllocInfo<A>::make(3 + static_cast<int>(rng.below(3))), in_place(), k, key_hash(k));
  };
  auto hollow = [&] {
    I x = make(1000);
    I t(std::move(x));
    return x;  // copied or moved from valueless: valueless
  };
  unsigned n = thorough ? 300 : 60;
  for (unsigned step = 0; step < n; ++step) {
    mon::sh->progress = mon::sh->progress + 1;
    long k = static_cast<long>(rng.below(25));
    int val = static_cast<int>(rng.below(1000));
    unsigned op = rng.below(12);
    mon::hist("%u:%ld ", op, k);
    switch (op) {
      case 0:
      case 1:
      case 2: {
        bool fresh = m.emplace(make(k), val).second;
        bool want = model.emplace(k, val).second;
        REQ(L(9), fresh == want);
        break;
      }
      case 3: {
        m[make(k)] = val;
        model[k] = val;
        break;
      }
      case 4:
        REQ(L(9), m.erase(make(k)) == model.erase(k));
        break;
      case 5:
        m.rehash(rng.below(200));
        break;
      case 6: {
        Map other(std::move(m));
        m = std::move(other);
        break;
      }
      case 7: {
        Map other(m);
        m = other;
        break;
      }
      case 8: {
        auto it = m.find(make(k));
        auto mi = model.find(k);
        REQ(L(9), (it == m.end()) == (mi == model.end()));
        if (it != m.end()) {
          REQ(L(9), it->second == mi->second && it->first->c.v() == k);
          if (rng.chance(50)) {
            m.erase(it);
            model.erase(mi);
          }
        }
        break;
      }
      case 9: {  // the valueless key
        bool fresh = m.emplace(hollow(), -1).second;
        REQ(L(9, 5), fresh == (valueless == 0));
        valueless = 1;
        break;
      }
      case 10: {
        REQ(L(9, 5), m.count(hollow()) == static_cast<std::size_t>(valueless));
        if (rng.chance(30)) {
          REQ(L(9, 5), m.erase(hollow()) == static_cast<std::size_t>(valueless));
          valueless = 0;
        }
        break;
      }
      default: {
#if __cplusplus >= 201703L
        auto node = m.extract(make(k));
        REQ(L(9), node.empty() == (model.find(k) == model.end()));
        if (!node.empty()) {
          int old = model[k];
          model.erase(k);
          long k2 = static_cast<long>(rng.below(25));
          // change the key inside the node
          node.key() = make(k2);
          bool in = m.insert(std::move(node)).inserted;
          REQ(L(9), in == model.emplace(k2, old).second);
        }
#endif
      }
    }
    REQF(L(9), m.size() == model.size() + static_cast<std::size_t>(valueless), "%s: %zu keys held, expected %zu",
         what, m.size(), model.size() + static_cast<std::size_t>(valueless));
    if (step % 8 == 0 || step + 1 == n) {
      for (long q = 0; q < 25; ++q) {
        auto it = m.find(make(q));
        auto mi = model.find(q);
        REQF(L(9), (it == m.end()) == (mi == model.end()), "%s: key %ld %s", what, q,
             it == m.end() ? "is not found" : "is found but was not put in");
        if (it != m.end()) REQ(L(9), it->second == mi->second && it->first->c.ok());
      }
      vt::seen(L(9), sig(what, spread, static_cast<long>(m.size()), static_cast<long>(m.bucket_count()), valueless, op));
    }
  }
}
}  // namespace
CASE(hash_map_fff, L(9), 60) { container<MonAlloc<K, F>>(rng, "unordered_map fff", static_cast<int>(rng.below(3))); }
CASE(hash_map_std, L(9), 60) { container<std::allocator<K>>(rng, "unordered_map std", static_cast<int>(rng.below(3))); }
CASE(hash_map_ttt, L(9), 60) {
  container<MonAlloc<K, TH>>(rng, "unordered_map ttt_sel_hook", static_cast<int>(rng.below(3)));
}
// equal indirects hash equally, over random pairs
CASE(hash_equal, L(9), 40) {
  typedef xyz::indirect<K, MonAlloc<K, F>> I;
  for (int i = 0; i < 30; ++i) {
    long a = rng.below(4), b = rng.below(4);
    I x(std::allocator_arg, MonAlloc<K, F>(3), in_place(), a, hashes[a]);
    I y(std::allocator_arg, MonAlloc<K, F>(4), in_place(), b, hashes[b]);
    if (rng.chance(25)) I t(std::move(x));
    if (rng.chance(25)) I t(std::move(y));
    bool eq = x == y;
    if (eq) REQ(L(9), std::hash<I>()(x) == std::hash<I>()(y));
    vt::seen(L(9), sig("equal", eq, a, b, x.valueless_after_move(), y.valueless_after_move()));
  }
}
