// C13: self-assignment, and assignment from a part of the owned object, over trees.
#include "cases.h"
#include "alloc.h"
#include "types.h"

#include <array>
#include <new>
#include <set>
using namespace vt;
using mon::L;

namespace {
// A place for a value that may be absent; the type may be incomplete where Opt is named.
template <class T>
class Kids {
  std::vector<T> v_;  // never grows beyond what is reserved, so its elements stay put

 public:
  Kids() {}
  Kids(const Kids&) = default;
  Kids(Kids&&) = default;
  Kids& operator=(const Kids&) = default;
  Kids& operator=(Kids&&) = default;
  std::vector<T>& v() { return v_; }
  const std::vector<T>& v() const { return v_; }
};

// ---- indirect trees.  ASSIGN: whether nodes can be copy-assigned (then copy assignment from a
// nested node goes through the owned object, which is its own affair).
template <class C, bool ASSIGN>
struct INode;
template <class C, bool ASSIGN>
struct INode {
  typedef MonAlloc<INode, C> A;
  typedef xyz::indirect<INode, A> H;
  Core<91> c;
  Kids<H> kids;
  explicit INode(long v) : c(BaseTag(), v) {}
  INode(const INode&) = default;
  INode(INode&&) = default;
  INode& operator=(const INode&) = default;
  INode& operator=(INode&&) = default;
  typedef in_place Tag;
  std::vector<H>& k() { return kids.v(); }
  const std::vector<H>& k() const { return kids.v(); }
  long v() const { return c.v(); }
  bool ok() const { return c.ok(); }
  static constexpr bool through = true;
  static constexpr bool poly = false;
};
template <class C>
struct INode<C, false> {
  typedef MonAlloc<INode, C> A;
  typedef xyz::indirect<INode, A> H;
  Core<92> c;
  Kids<H> kids;
  explicit INode(long v) : c(BaseTag(), v) {}
  INode(const INode&) = default;
  INode(INode&&) = default;
  INode& operator=(const INode&) = delete;
  typedef in_place Tag;
  std::vector<H>& k() { return kids.v(); }
  const std::vector<H>& k() const { return kids.v(); }
  long v() const { return c.v(); }
  bool ok() const { return c.ok(); }
  static constexpr bool through = false;
  static constexpr bool poly = false;
};
// ---- polymorphic trees
template <class C>
struct PNode;
template <class C>
struct PBranch;
template <class C>
struct PNode {
  typedef MonAlloc<PNode, C> A;
  typedef xyz::polymorphic<PNode, A> H;
  Core<93> c;
  explicit PNode(long v) : c(BaseTag(), v) {}
  PNode(const PNode&) = default;
  PNode(PNode&&) = default;
  virtual ~PNode() {}
  typedef in_place_type<PBranch<C>> Tag;
  virtual std::vector<H>& k() = 0;
  virtual const std::vector<H>& k() const = 0;
  virtual bool ok() const { return c.ok(); }
  long v() const { return c.v(); }
  static constexpr bool through = false;
  static constexpr bool poly = true;
};
template <class C>
struct PBranch : PNode<C> {
  typedef typename PNode<C>::H H;
  Core<94> d;
  Kids<H> kids;
  explicit PBranch(long v) : PNode<C>(v), d(BaseTag(), ~v) {}
  PBranch(const PBranch&) = default;
  PBranch(PBranch&&) = default;
  std::vector<H>& k() override { return kids.v(); }
  const std::vector<H>& k() const override { return kids.v(); }
  bool ok() const override { return this->c.ok() && d.ok() && d.v() == ~this->c.v(); }
};

// ---- nodes whose copies are declared never to throw: nothing about them tells that the old object
// had better be kept until the copy is made
template <class C>
struct INodeNC {
  typedef MonAlloc<INodeNC, C> A;
  typedef xyz::indirect<INodeNC, A> H;
  Core<89, true, false, true> c;
  Kids<H> kids;
  explicit INodeNC(long v) : c(BaseTag(), v) {}
  INodeNC(const INodeNC& o) noexcept : c(o.c), kids(o.kids) {}
  INodeNC(INodeNC&& o) noexcept : c(std::move(o.c)), kids(std::move(o.kids)) {}
  INodeNC& operator=(const INodeNC&) = delete;
  typedef in_place Tag;
  std::vector<H>& k() { return kids.v(); }
  const std::vector<H>& k() const { return kids.v(); }
  long v() const { return c.v(); }
  bool ok() const { return c.ok(); }
  static constexpr bool through = false;
  static constexpr bool poly = false;
};
template <class C>
struct PNodeNC {
  typedef MonAlloc<PNodeNC, C> A;
  typedef xyz::polymorphic<PNodeNC, A> H;
  Core<90, true, false, true> c;
  Kids<H> kids;
  explicit PNodeNC(long v) : c(BaseTag(), v) {}
  PNodeNC(const PNodeNC& o) noexcept : c(o.c), kids(o.kids) {}
  PNodeNC(PNodeNC&& o) noexcept : c(std::move(o.c)), kids(std::move(o.kids)) {}
  virtual ~PNodeNC() {}
  typedef in_place_type<PNodeNC> Tag;
  std::vector<H>& k() { return kids.v(); }
  const std::vector<H>& k() const { return kids.v(); }
  long v() const { return c.v(); }
  bool ok() const { return c.ok(); }
  static constexpr bool through = false;
  static constexpr bool poly = true;
};

// ---- what a tree looks like
struct Snap {
  bool vl;
  int arena;
  const void* at;
  long v;
  std::vector<Snap> kids;
};
template <class H>
int arena_of(const H& h) {
  auto a = h.get_allocator();
  return a.id();
}
template <class H>
Snap snap(const H& h) {
  Snap s;
  s.arena = arena_of(h);
  s.vl = h.valueless_after_move();
  s.at = nullptr;
  s.v = 0;
  if (!s.vl) {
    REQ(L(13, 1), h->ok());
    s.at = static_cast<const void*>(std::addressof(*h));
    s.v = h->v();
    for (const H& k : h->k()) s.kids.push_back(snap(k));
  }
  return s;
}
// the values (not addresses and allocators) are the same
bool same_value(const Snap& a, const Snap& b) {
  if (a.vl != b.vl || a.v != b.v || a.kids.size() != b.kids.size()) return false;
  for (std::size_t i = 0; i < a.kids.size(); ++i)
    if (!same_value(a.kids[i], b.kids[i])) return false;
  return true;
}
bool same_all(const Snap& a, const Snap& b) {
  if (a.vl != b.vl || a.v != b.v || a.arena != b.arena || a.at != b.at || a.kids.size() != b.kids.size())
    return false;
  for (std::size_t i = 0; i < a.kids.size(); ++i)
    if (!same_all(a.kids[i], b.kids[i])) return false;
  return true;
}
std::string show(const Snap& s) {
  if (s.vl) return "-";
  std::string r = std::to_string(s.v);
  if (!s.kids.empty()) {
    r += "(";
    for (const Snap& k : s.kids) r += show(k) + " ";
    r += ")";
  }
  return r;
}

long next_value;
template <class N>
typename N::H build(mon::Rng& rng, int depth, bool arenas) {
  typedef typename N::H H;
  H h(std::allocator_arg, typename N::A(arenas ? 3 + static_cast<int>(rng.below(2)) : 3), typename N::Tag(), ++next_value);
  unsigned n = depth <= 0 ? 0 : 1 + rng.below(3);
  h->k().reserve(n);
  for (unsigned i = 0; i < n; ++i) h->k().emplace_back(build<N>(rng, depth - 1 - static_cast<int>(rng.below(2)), arenas));
  if (n && rng.chance(15)) { H gone(std::move(h->k()[rng.below(n)])); }  // a valueless one inside
  return h;
}
// a random proper descendant, as a path
template <class H>
H* descend(H& root, mon::Rng& rng, int* depth) {
  H* p = &root;
  *depth = 0;
  while (!p->valueless_after_move() && !(*p)->k().empty() && (*depth == 0 || rng.chance(60))) {
    p = &(*p)->k()[rng.below(static_cast<unsigned>((*p)->k().size()))];
    ++*depth;
  }
  return *depth ? p : nullptr;
}

enum How { MOVE_ASSIGN, COPY_ASSIGN, MOVE_CTOR, COPY_CTOR, SELF_MOVE, SELF_COPY, SELF_SWAP, NHOW };
const char* const how_name[] = {"h = move(nested)", "h = nested", "H(move(nested))", "H(nested)",
                                "h = move(h)", "h = h", "swap(h, h)"};

template <class N>
void go(const char* what, mon::Rng& rng) {
  typedef typename N::H H;
  typedef typename N::A A;
  typedef std::allocator_traits<A> AT;
  const bool pocca = AT::propagate_on_container_copy_assignment::value,
             pocma = AT::propagate_on_container_move_assignment::value, ae = A::is_always_equal::value;
  const int max_depth = thorough ? 5 : 4;
  for (int how = 0; how < NHOW; ++how) {
    mon::sh->progress = mon::sh->progress + 1;
    mon::sh->ctx = 0;
    next_value = 0;
    H h = build<N>(rng, 1 + static_cast<int>(rng.below(static_cast<unsigned>(max_depth))), rng.chance(60));
    if (how >= SELF_MOVE && rng.chance(15)) { H gone(std::move(h)); }
    int depth = 0;
    H* from = how < SELF_MOVE ? descend(h, rng, &depth) : &h;
    if (!from) continue;
    Snap before = snap(h), src = snap(*from);
    bool eq = ae || before.arena == src.arena;
    if (how == COPY_ASSIGN && N::through && eq && !src.vl) continue;  // the owned type's own affair
    mon::hist_reset();
    mon::hist("%s: %s on %s, nested %s at depth %d, allocators %d <- %d", what, how_name[how], show(before).c_str(),
              show(src).c_str(), depth, before.arena, src.arena);
    H& r = h;
    switch (how) {
      case SELF_MOVE:
      case SELF_COPY:
      case SELF_SWAP: {
        {
          mon::Window w;
          H* same = how == SELF_MOVE ? &(h = std::move(r)) : how == SELF_COPY ? &(h = r) : &h;
          if (how == SELF_SWAP) {
            using std::swap;
            if (rng.chance(50))
              swap(h, r);
            else
              h.swap(r);
          }
          REQ(L(13), same == &h);
          for (int e = 0; e < mon::NEV; ++e)
            REQF(how == SELF_SWAP ? L(13, 11) : L(13), mon::cnt[0][e] + mon::cnt[1][e] == 0, "%s: %s did %s", what,
                 how_name[how], mon::ev_name[e]);
        }
        REQF(how == SELF_SWAP ? L(13, 11) : L(13), same_all(snap(h), before), "%s: %s changed %s to %s", what,
             how_name[how], show(before).c_str(), show(snap(h)).c_str());
        break;
      }
      case MOVE_ASSIGN: {
        bool stolen = eq;
        long n_before = mon::live_objs();
        (void)n_before;
        {
          mon::Window w;
          H& res = (h = std::move(*from));
          REQ(L(13), &res == &h);
          if (stolen || src.vl)
            REQF(L(13, 4), mon::cnt[1][mon::CCTOR] + mon::cnt[1][mon::MCTOR] + mon::cnt[1][mon::ALLOC] == 0,
                 "%s: move assignment from a nested part made %ld copies, %ld moves, %ld allocations", what,
                 mon::cnt[1][mon::CCTOR], mon::cnt[1][mon::MCTOR], mon::cnt[1][mon::ALLOC]);
        }
        Snap after = snap(h);
        REQF(L(13, 15), same_value(after, src), "%s: move assignment of the nested %s into %s left %s", what,
             show(src).c_str(), show(before).c_str(), show(after).c_str());
        if (stolen) REQF(L(13, 4), after.at == src.at, "%s: the nested owned object was not handed over itself", what);
        int want = pocma ? src.arena : before.arena;
        REQF(L(13, 7), ae || after.arena == want, "%s: allocator is %d, expected %d", what, after.arena, want);
        break;
      }
      case COPY_ASSIGN: {
        // with faults: first let it fail at every point
        for (int k = 1;; ++k) {
          bool thrown = false, plain = false;
          mon::pending_fault = rng.chance(30) || std::is_nothrow_copy_constructible<N>::value ? 0 : k;
          mon::pending_flavour = static_cast<int>(rng.below(2));
          if (!mon::pending_fault) plain = true;
          int ser = 0;
          {
            mon::Window w;
            try {
              H& res = (h = static_cast<const H&>(*from));
              REQ(L(13), &res == &h);
            } catch (const mon::Fault& f) {
              thrown = true;
              ser = f.serial;
            } catch (const mon::AllocFault& f) {
              thrown = true;
              ser = f.serial;
            } catch (const mon::OddFault& f) {
              thrown = true;
              ser = f.serial;
            }
          }
          if (!thrown) {
            REQ(L(6), plain || !mon::fc.fired);
            break;
          }
          REQ(L(6), ser == mon::fc.serial);
          REQF(L(6, 13), same_all(snap(h), before), "%s: failed copy assignment (%s) from a nested part changed %s to %s",
               what, mon::fc.site, show(before).c_str(), show(snap(h)).c_str());
          vt::seen(L(6), sig(what, how, k, depth, before.arena, src.arena));
        }
        mon::sh->ctx = 0;
        Snap after = snap(h);
        REQF(L(13, 2, 15), same_value(after, src), "%s: copy assignment of the nested %s into %s left %s", what,
             show(src).c_str(), show(before).c_str(), show(after).c_str());
        int want = pocca ? src.arena : before.arena;
        REQF(L(13, 7), ae || after.arena == want, "%s: allocator is %d, expected %d", what, after.arena, want);
        break;
      }
      case MOVE_CTOR: {
        {
          H x(std::move(*from));
          Snap sx = snap(x), rest = snap(h);
          REQF(L(13, 4), same_all(sx, src), "%s: moving from a nested part changed it from %s to %s", what,
               show(src).c_str(), show(sx).c_str());
          REQ(L(13, 4), from->valueless_after_move() && rest.at == before.at && rest.arena == before.arena);
          h = std::move(x);
        }
        REQF(L(13), same_value(snap(h), src), "%s: detached part %s put back at the top is %s", what,
             show(src).c_str(), show(snap(h)).c_str());
        break;
      }
      default: {
        {
          H x(static_cast<const H&>(*from));
          REQF(L(13, 2), same_value(snap(x), src), "%s: copy of a nested part is %s, expected %s", what,
               show(snap(x)).c_str(), show(src).c_str());
          REQ(L(13, 2), same_all(snap(h), before));
          h = std::move(x);
        }
        REQF(L(13), same_value(snap(h), src), "%s: copied part %s put back at the top is %s", what,
             show(src).c_str(), show(snap(h)).c_str());
      }
    }
    vt::seen(L(13), sig(what, how, depth, before.arena, src.arena, src.vl, static_cast<long>(mon::fnv(show(before)))));
  }
}
typedef Cfg<false, false, false, false, false, false> FFF;
typedef Cfg<true, false, false, false, false, false> TFF;
typedef Cfg<false, true, false, false, false, true> FTF;
typedef Cfg<true, true, true, false, false, false> TTT;
typedef Cfg<true, true, true, false, true, true> TSH;
typedef Cfg<false, false, false, true, false, false> FAE;
typedef Cfg<true, true, true, true, false, true> TAE;
}  // namespace
#define NEST_NC(C)                                                                                        \
  CASE(nest_indirect_nc_##C, L(13, 15), 20) { go<INodeNC<C>>("indirect of nothrow copyable nodes " #C, rng); } \
  CASE(nest_polymorphic_nc_##C, L(13, 15), 20) { go<PNodeNC<C>>("polymorphic of nothrow copyable " #C, rng); }
NEST_NC(FFF)
NEST_NC(FTF)
NEST_NC(TSH)
NEST_NC(FAE)
#define NEST(C)                                                                                                \
  CASE(nest_indirect_##C, L(13, 15), 25) { go<INode<C, true>>("indirect " #C, rng); }                              \
  CASE(nest_indirect_na_##C, L(13, 15), 25) { go<INode<C, false>>("indirect of not assignable nodes " #C, rng); }  \
  CASE(nest_polymorphic_##C, L(13, 15), 25) { go<PNode<C>>("polymorphic " #C, rng); }
NEST(FFF)
NEST(TFF)
NEST(FTF)
NEST(TTT)
NEST(TSH)
NEST(FAE)
NEST(TAE)

// ---- with std::allocator, and through other structures
namespace {
struct LNode {
  Core<95> c;
  std::vector<xyz::indirect<LNode>> next;
  explicit LNode(long v) : c(BaseTag(), v) {}
  LNode(const LNode&) = default;
  LNode(LNode&&) = default;
  LNode& operator=(const LNode&) = default;
  LNode& operator=(LNode&&) = default;
};
struct Shape {
  Core<96> c;
  explicit Shape(long v) : c(BaseTag(), v) {}
  Shape(const Shape&) = default;
  virtual ~Shape() {}
};
struct Wrap : Shape {  // decorators
  xyz::polymorphic<Shape> inner;
  std::array<long, 20> pad;
  Wrap(long v, xyz::polymorphic<Shape> in) : Shape(v), inner(std::move(in)) { pad.fill(v); }
  Wrap(const Wrap&) = default;
};
struct Mid {  // indirect inside polymorphic inside indirect
  Core<97> c;
  std::vector<xyz::polymorphic<Mid>> p;
  std::vector<xyz::indirect<Mid>> i;
  explicit Mid(long v) : c(BaseTag(), v) {}
  Mid(const Mid&) = default;
  Mid(Mid&&) = default;
  Mid& operator=(const Mid&) = default;
  virtual ~Mid() {}
};
}  // namespace
CASE(nest_list, L(13, 15), 20) {
  typedef xyz::indirect<LNode> H;
  H h((in_place()), 0L);
  H* tail = &h;
  long n = 2 + static_cast<long>(rng.below(20));
  for (long i = 1; i < n; ++i) {
    (*tail)->next.emplace_back(in_place(), i);
    tail = &(*tail)->next[0];
  }
  tail = nullptr;
  long at = 0;
  while (!h->next.empty()) {  // pop the front
    unsigned skip = rng.below(3);
    H* p = &h;
    long to = at;
    for (unsigned s = 0; s <= skip && !(*p)->next.empty(); ++s) {
      p = &(*p)->next[0];
      ++to;
    }
    const LNode* node = std::addressof(**p);
    if (rng.chance(30))
      h = H(std::move(*p));
    else
      h = std::move(*p);
    REQF(L(13), h->c.ok() && h->c.v() == to, "popping %ld nodes off a list of %ld left node %ld", to - at, n - at, h->c.v());
    REQ(L(13, 4), std::addressof(*h) == node);
    vt::seen(L(13), sig("list", n, at, to));
    at = to;
  }
}
CASE(nest_decorators, L(13, 3, 15), 20) {
  typedef xyz::polymorphic<Shape> P;
  P p((in_place_type<Shape>()), 0L);
  long n = 1 + static_cast<long>(rng.below(15));
  for (long i = 1; i <= n; ++i) {
    const Shape* was = std::addressof(*p);
    p = P((in_place_type<Wrap>()), i, std::move(p));  // p goes into what p becomes
    REQ(L(13, 3), p->c.v() == i && std::addressof(*static_cast<Wrap&>(*p).inner) == was);
  }
  P copy(p);
  long at = n;
  while (at > 0) {
    Wrap& w = static_cast<Wrap&>(*p);
    REQ(L(3, 13), w.pad[19] == at);
    const Shape* in = std::addressof(*w.inner);
    bool cp = rng.chance(40);
    if (cp)
      p = w.inner;
    else
      p = std::move(w.inner);
    --at;
    REQF(L(13), p->c.ok() && p->c.v() == at, "unwrapping a decorator gave %ld, expected %ld", p->c.v(), at);
    REQ(L(13, 4), cp || std::addressof(*p) == in);
    vt::seen(L(13), sig("decorator", n, at, cp));
  }
  REQ(L(2), copy->c.v() == n);
}
CASE(nest_mixed, L(13, 15), 20) {
  xyz::indirect<Mid> h((in_place()), 1L);
  h->p.emplace_back(in_place_type<Mid>(), 2L);
  h->p[0]->i.emplace_back(in_place(), 3L);
  h->p[0]->i[0]->p.emplace_back(in_place_type<Mid>(), 4L);
  xyz::polymorphic<Mid> q(h->p[0]);
  REQ(L(13, 2), q->i[0]->p[0]->c.v() == 4);
  if (rng.chance(50)) {
    q = std::move(q->i[0]->p[0]);
    REQ(L(13), q->c.v() == 4 && q->c.ok());
  } else {
    q = q->i[0]->p[0];
    REQ(L(13), q->c.v() == 4 && q->c.ok());
  }
  h = std::move(h->p[0]->i[0]);
  REQ(L(13), h->c.v() == 3 && h->c.ok() && h->p[0]->c.v() == 4);
  xyz::polymorphic<Mid> x(std::move(h->p[0]));
  h = xyz::indirect<Mid>(h);
  REQ(L(13, 5), h->p[0].valueless_after_move() && x->c.v() == 4);
  x->p.push_back(std::move(h->p[0]));
  x = std::move(x->p[0]);  // from a valueless one inside
  REQ(L(13, 5), x.valueless_after_move());
  vt::seen(L(13), sig("mixed", static_cast<long>(rng.below(8))));
}
