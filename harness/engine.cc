// The op-sequence engine: exhaustive operation matrix and random histories over every registered
// subject, each operation judged against a reference model, the ledger and the event counters.
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>

#include "subject.h"
#include "supervise.h"

namespace vt {
const char* const op_name[NOPS] = {
    "default", "from const T&", "from T&", "from T&&", "in_place(Arg&)", "in_place(const Arg&)",
    "in_place(Arg&&)", "in_place(const Arg&&)", "in_place(4 args)", "in_place(ilist)",
    "in_place(ilist,Arg&)", "in_place(ilist,const Arg&)", "in_place(ilist,Arg&&)",
    "converting(Arg&)", "converting(const Arg&)", "converting(Arg&&)", "copy(const&)", "copy(&)",
    "copy(const&&)", "move", "copy=(const&)", "copy=(&)", "copy=(const&&)", "move=", "member swap",
    "free swap", "=(const T&)", "=(T&)", "=(T&&)", "=(const Arg&)", "=(Arg&&)", "mutate *",
    "mutate ->", "take *move(x)", "destroy"};
std::vector<Subject*>& registry() {
  static std::vector<Subject*> r;
  return r;
}
}  // namespace vt

using namespace vt;
using mon::L;
using mon::Labels;

namespace {

const int NSLOT = 6;

struct MSlot {  // the model of one holder
  bool live = false;
  bool eng = false;
  bool limbo = false;  // owns an object whose value is not specified (moved from)
  int tix = 0;
  long v = 0;
  int cat = 0;
  int arena = 0;
  const void* t_addr = nullptr;
  const void* md = nullptr;
};

struct Opts {
  std::uint64_t seed = 1;
  int shard = 0, nshards = 1;
  long random_cases = 100;
  int random_len = 40;
  bool matrix = true;
  bool trace = false;        // C16: record what is observed instead of judging it
  const char* trace_file = nullptr;
  long only_case = -1;
  const char* cov = nullptr;
  const char* report = nullptr;
  const char* subject = nullptr;
  Labels stop_on = 0;
  long max_bad = 40;
  bool has_index = false;  // only the case of this index of each subject
  long only_index = 0;
} opt;

FILE* trace_out;
std::uint64_t trace_h;  // --trace-hash: digest of the current case's trace instead of its text
bool trace_hash;
void tprintf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tprintf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (trace_hash) {
    char buf[512];
    vsnprintf(buf, sizeof buf, fmt, ap);
    trace_h = mon::fnv(buf, strlen(buf), trace_h);
  } else {
    vfprintf(trace_out, fmt, ap);
  }
  va_end(ap);
}

struct OpReq {
  int op;
  int d, s;       // slots
  int arena;      // -1: untagged
  int tix;
  long v;
  long fault;
  int flavour;
};

struct Engine {
  Subject& S;
  void* mem[NSLOT];
  MSlot m[NSLOT];
  long next_v = 10;
  std::uint64_t ops_done = 0;
  // The run left the model behind in a way that is none of the focus properties' business; from
  // here on only the model-independent oracles (ledger, sanitizers) judge it.
  bool lenient = false;

  explicit Engine(Subject& s) : S(s) {
    for (int i = 0; i < NSLOT; ++i) mem[i] = nullptr;
  }

  bool same(int a, int b) const {  // do allocators of arenas a and b compare equal?
    return S.af.ae || !S.af.stateful || a == b || (labels() && a % mon::LABEL == b % mon::LABEL);
  }
  bool labels() const {  // are there allocators that are equal and yet distinguishable?
    return S.af.is("mon");
  }
  int dflt_arena() const { return S.af.stateful ? DEFAULT_ARENA : 0; }
  const TypeInfo& ti(int tix) const { return S.types[static_cast<std::size_t>(tix)]; }
  long norm(long v) const {
    if (!S.poly && ti(0).id == 105) return 0;
    return v;
  }
  long fresh() { return ++next_v; }

  void* slot_mem(int i) {
    // exact-size allocations, refilled with garbage, so that overruns and uninitialised members show
    mon::Internal g;
    if (!mem[i]) {
      void* p = nullptr;
      std::size_t al = S.align < 16 ? 16 : S.align;
      if (posix_memalign(&p, al, S.size) != 0) _exit(4);
      mem[i] = p;
    }
    memset(mem[i], (i & 1) ? 0x5A : 0xA6, S.size);
    return mem[i];
  }
  void slot_free(int i) {
    free(mem[i]);
    mem[i] = nullptr;
  }
  ~Engine() {
    for (int i = 0; i < NSLOT; ++i) free(mem[i]);
  }

  std::string describe(int i) const {
    char b[160];
    const MSlot& x = m[i];
    if (!x.live)
      snprintf(b, sizeof b, "#%d absent", i);
    else if (!x.eng)
      snprintf(b, sizeof b, "#%d valueless alloc %d", i, x.arena);
    else
      snprintf(b, sizeof b, "#%d %s %s%ld alloc %d", i, ti(x.tix).name, x.limbo ? "moved-from " : "",
               x.v, x.arena);
    return b;
  }

  // ------------------------------------------------------------ what an operation is about
  static Labels main_labels(const Subject& S, const OpReq& r, const MSlot* m) {
    Labels l = 0;
    const Labels poly3 = S.poly ? L(3) : 0;
    if (r.op <= OP_LAST_MAKE)
      l = L(12) | poly3;
    else if (r.op <= OP_COPY_CR)
      l = L(2) | poly3;
    else if (r.op == OP_MOVE)
      l = L(4) | poly3;
    else if (r.op <= OP_CASSIGN_CR)
      l = L(2) | poly3;
    else if (r.op == OP_MASSIGN)
      l = L(4) | poly3;
    else if (r.op <= OP_SWAP_F)
      l = L(11) | poly3;
    else if (r.op <= OP_VASG_ARG_R)
      l = m[r.d].eng ? L(10) : L(5, 12);
    else if (r.op <= OP_TAKE)
      l = L(10);
    else
      l = L(1);
    return l;
  }
  Labels ctx_labels(const OpReq& r) const {
    Labels c = 0;
    bool two = r.op > OP_LAST_MAKE && r.op <= OP_SWAP_F;
    if (two && r.op > OP_LAST_CTOR && r.d == r.s) c |= L(13);
    if (two && !m[r.s].eng) c |= L(5);
    if (r.op > OP_LAST_CTOR && r.op <= OP_VASG_ARG_R && m[r.d].live && !m[r.d].eng) c |= L(5);
    if (r.op == OP_DESTROY && !m[r.d].eng) c |= L(5);
    return c;
  }
  // does the operation exercise the allocator rules?
  bool alloc_op(const OpReq& r) const {
    if (!S.af.stateful) return false;
    if (r.op <= OP_LAST_CTOR) return true;
    if (r.op <= OP_SWAP_F) return m[r.d].arena != m[r.s].arena;
    return false;
  }

  // ------------------------------------------------------------ checks
  void bad(Labels l, const char* oracle, const char* fmt, ...)
      __attribute__((format(printf, 4, 5))) {
    char b[700];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    mon::soft(l, oracle, "%s: %s", S.name.c_str(), b);
  }

  enum Role { TARGET, SOURCE, OTHER };

  // Compares slot i with the model.  `l`: labels of the operation just done.
  void check_slot(int i, Role role, Labels l) {
    MSlot& x = m[i];
    if (!x.live) return;
    const char* who = role == TARGET ? "the target" : role == SOURCE ? "the source" : "an uninvolved object";
    Labels here = role == OTHER ? L(2, 10) : l;
    bool vl = S.valueless(mem[i]);
    if (vl != !x.eng)
      bad(here | L(5), "engagement", "%s (%s) is %s", who, describe(i).c_str(),
          vl ? "valueless" : "engaged");
    if (S.af.stateful) {
      if (S.alloc_id(mem[i]) != x.arena || !S.alloc_matches(mem[i], x.arena)) {
        bad(L(7) | (here & L(11, 13)), "allocator", "%s (%s) reports allocator %d", who,
            describe(i).c_str(), S.alloc_id(mem[i]));
      }
    }
    if (vl) return;
    const void* t_addr = nullptr;
    Obs o = S.observe(mem[i], &t_addr);
    const TypeInfo& t = ti(x.tix);
    if (o.type != t.id)
      bad(here | L(3), "dynamic-type", "%s (%s) owns an object of type #%d, expected #%d", who,
          describe(i).c_str(), o.type, t.id);
    if (x.limbo) {
      x.v = o.v;
      x.cat = o.cat;
    } else {
      if (!o.ok)
        bad(here | L(1) | (S.poly ? L(3) : 0), "value-integrity",
            "the object owned by %s (%s) is damaged or incomplete", who, describe(i).c_str());
      if (o.v != norm(x.v))
        bad(here | (S.poly ? L(3) : 0), "value", "%s (%s) has value %ld", who, describe(i).c_str(),
            o.v);
      if (x.cat != 0 && o.cat != x.cat)
        bad(here | L(12), "overload",
            "the object owned by %s (%s) was made by overload %d, expected %d", who,
            describe(i).c_str(), o.cat, x.cat);
    }
    if (x.t_addr && (x.t_addr != t_addr || x.md != o.md))
      bad(here | (role == TARGET ? 0 : L(10)), "identity",
          "%s (%s) no longer owns the same object (address changed)", who, describe(i).c_str());
    x.t_addr = t_addr;
    x.md = o.md;
    // where does the object live?
    mon::BlockInfo b = mon::block_of(o.md, o.size);
    if (!b.found) {
      bad(L(1), "storage", "the object owned by %s (%s) is not inside live allocated storage", who,
          describe(i).c_str());
      return;
    }
    if (reinterpret_cast<std::uintptr_t>(o.md) % t.align != 0)
      bad(L(1), "alignment", "the object owned by %s (%s) is not aligned to %zu", who,
          describe(i).c_str(), t.align);
    if (S.af.stateful ? !same(b.arena, x.arena) : b.arena != S.alloc_id(mem[i]))
      bad(L(7) | (here & L(11)), "storage-arena",
          "the object owned by %s (%s) lives in storage of allocator %d", who, describe(i).c_str(),
          b.arena);
    if (S.af.hook)
      mon::hook_expect(o.md, t.tag, x.arena, S.af.ae, L(7));
    for (int j = 0; j < i; ++j)
      if (m[j].live && m[j].eng && m[j].md == o.md)
        bad(L(1, 2), "shared", "%s and %s own the same object", describe(j).c_str(),
            describe(i).c_str());
  }

  void check_all(const OpReq& r, Labels l, bool faulted) {
    for (int i = 0; i < NSLOT; ++i) {
      Role role = OTHER;
      if (i == r.d) role = TARGET;
      if (r.op > OP_LAST_MAKE && r.op <= OP_SWAP_F && i == r.s && i != r.d)
        role = r.op == OP_SWAP_F || r.op == OP_SWAP_M ? TARGET : SOURCE;
      check_slot(i, role, l);
    }
    long engaged = 0, cores = 0;
    bool exact = true;
    for (int i = 0; i < NSLOT; ++i)
      if (m[i].live && m[i].eng) {
        ++engaged;
        cores += ti(m[i].tix).ncores;
        if (!ti(m[i].tix).exact) exact = false;
      }
    for (const TypeInfo& t : S.types)
      if (!t.exact) exact = false;
    Labels leak = L(1) | (faulted ? L(6) : 0);
    if (r.op == OP_MASSIGN || r.op == OP_MOVE) leak |= L(4);
    if (mon::live_objs_in_blocks() != cores)
      bad(leak, "object-balance", "%ld monitored owned objects alive, expected %ld",
          mon::live_objs_in_blocks(), cores);
    if (exact || S.af.name != std::string("std")) {
      // with monitored allocators the ledger holds their blocks plus, for types that allocate
      // internally, blocks of operator new; those are judged at the end of the case
      long n = exact ? mon::live_blocks() : engaged;
      if (n != engaged)
        bad(leak, "block-balance", "%ld storage blocks alive, expected %ld", n, engaged);
    }
    long locals = mon::live_objs() - mon::live_objs_in_blocks();
    if (locals != 0)
      bad(leak, "object-balance", "%ld monitored objects alive outside storage", locals);
  }

  // ------------------------------------------------------------ one operation
  void trace_op(const OpReq& r, const char* outcome) {
    if (!trace_out) return;
    mon::Internal g;
    tprintf("%s d%d s%d a%d t%d v%ld f%ld -> %s;", op_name[r.op], r.d, r.s, r.arena, r.tix,
            r.v, r.fault, outcome);
    for (int e = 0; e < mon::NEV; ++e)
      if ((e != mon::ALLOC && e != mon::DEALLOC) || all_exact())
        tprintf(" %ld/%ld", mon::cnt[1][e], mon::cnt[0][e]);
    tprintf(";");
    for (int i = 0; i < NSLOT; ++i) {
      if (!m[i].live) continue;
      bool vl = S.valueless(mem[i]);
      tprintf(" [%d a%d", i, S.af.stateful && !S.af.ae ? S.alloc_id(mem[i]) : 0);
      if (!vl) {
        const void* ta;
        Obs o = S.observe(mem[i], &ta);
        tprintf(" t%d v%ld c%d %d%s", o.type, o.v, o.cat, o.ok,
                o.md == m[i].md ? " same" : "");
        m[i].md = o.md;
        if (S.af.hook) mon::hook_expect(o.md, ti(m[i].tix).tag, S.alloc_id(mem[i]), S.af.ae, L(7));
      } else {
        m[i].md = nullptr;
      }
      tprintf("]");
    }
    tprintf("\n");
  }
  bool all_exact() const {
    for (const TypeInfo& t : S.types)
      if (!t.exact) return false;
    return true;
  }

  // take the model's picture of what is there from the objects themselves
  void resync() {
    lenient = true;
    for (int i = 0; i < NSLOT; ++i)
      if (m[i].live) {
        m[i].eng = !S.valueless(mem[i]);
        if (S.af.stateful) m[i].arena = S.alloc_id(mem[i]);
        m[i].limbo = false;
        if (m[i].eng) {
          const void* ta;
          Obs o = S.observe(mem[i], &ta);
          m[i].limbo = o.v == MOVED;
          for (std::size_t t = 0; t < S.types.size(); ++t)
            if (S.types[t].id == o.type) m[i].tix = static_cast<int>(t);
        }
      }
  }

  // returns true when the injected fault fired (or no fault was asked for)
  bool run(OpReq r) {
    mon::sh->progress = mon::sh->progress + 1;
    MSlot& d = m[r.d];
    MSlot& s = m[r.s];
    const Labels ml = main_labels(S, r, m);
    const Labels cx = ctx_labels(r);
    mon::sh->op_labels = ml;
    mon::sh->ctx = cx;
    {
      char arena[24] = "", src[100] = "", flt[24] = "", ty[64] = "";
      if (r.op <= OP_LAST_CTOR && r.arena >= 0) snprintf(arena, sizeof arena, " alloc %d", r.arena);
      if (r.op > OP_LAST_MAKE && r.op <= OP_SWAP_F)
        snprintf(src, sizeof src, " from %s", describe(r.s).c_str());
      if (r.op <= OP_LAST_MAKE) snprintf(ty, sizeof ty, " %s %ld", ti(r.tix).name, r.v);
      if (r.fault) snprintf(flt, sizeof flt, " [fault %ld]", r.fault);
      mon::hist("%s: %s%s%s%s%s\n", describe(r.d).c_str(), op_name[r.op], ty, arena, src, flt);
    }

    // ---- expectation
    long exp[mon::NEV] = {0};
    bool inplace_assign = false;
    MSlot nd = d, ns = s;
    bool self = r.op > OP_LAST_CTOR && r.op <= OP_SWAP_F && r.d == r.s;
    bool sliced_fault = false;  // a fault while moving may leave a partly moved source value
    if (r.op <= OP_LAST_MAKE) {
      nd = MSlot();
      nd.live = nd.eng = true;
      nd.tix = r.tix;
      nd.arena = S.af.stateful ? (r.arena < 0 ? dflt_arena() : r.arena) : 0;
      const TypeInfo& t = ti(r.tix);
      nd.v = r.v;
      nd.cat = 0;
      mon::Ev ev = mon::VCTOR;
      switch (r.op) {
        case OP_DEFAULT:
          nd.v = t.id == 110 ? 0 : 0;
          nd.cat = CAT_DEFAULT;
          break;
        case OP_VAL_CL:
        case OP_VAL_L:
          ev = mon::CCTOR;
          nd.cat = CAT_ARG_R;  // how the copied object had been made
          break;
        case OP_VAL_R:
          ev = t.own_move ? mon::MCTOR : mon::CCTOR;
          nd.cat = CAT_ARG_R;
          break;
        case OP_ARG_L:
        case OP_CONV_L:
          nd.cat = CAT_ARG_L;
          break;
        case OP_ARG_CL:
        case OP_CONV_CL:
          nd.cat = CAT_ARG_CL;
          break;
        case OP_ARG_R:
        case OP_CONV_R:
          nd.cat = CAT_ARG_R;
          break;
        case OP_ARG_CR:
          nd.cat = CAT_ARG_CR;
          break;
        case OP_MULTI:
          nd.v = multi_value(r.v, 2, 3, 4);
          nd.cat = CAT_MULTI;
          break;
        case OP_ILIST:
          nd.v = il_value();
          nd.cat = CAT_ILIST;
          break;
        case OP_ILIST_L:
          nd.v = il_value() + r.v * 1000000;
          nd.cat = CAT_ILIST_L;
          break;
        case OP_ILIST_CL:
          nd.v = il_value() + r.v * 1000000;
          nd.cat = CAT_ILIST_CL;
          break;
        case OP_ILIST_R:
          nd.v = il_value() + r.v * 1000000;
          nd.cat = CAT_ILIST_R;
          break;
      }
      if (t.ncores == 0) nd.cat = 0;
      exp[mon::ALLOC] = 1;
      exp[ev] = t.ncores;
    } else if (r.op <= OP_COPY_CR) {
      nd = s;
      nd.live = true;
      nd.arena = r.arena >= 0 ? r.arena
                              : S.af.selected(s.arena);
      if (!S.af.stateful) nd.arena = 0;
      nd.t_addr = nd.md = nullptr;
      if (s.eng) {
        exp[mon::ALLOC] = 1;
        exp[mon::CCTOR] = ti(s.tix).ncores;
      }
    } else if (r.op == OP_MOVE) {
      nd = s;
      nd.live = true;
      nd.arena = r.arena >= 0 && S.af.stateful ? r.arena : s.arena;
      move_expect(nd, ns, same(nd.arena, s.arena), exp, sliced_fault);
    } else if (self) {
      // nothing happens
    } else if (r.op <= OP_CASSIGN_CR) {
      int na = S.af.copy ? s.arena : d.arena;
      if (!s.eng) {
        if (d.eng) {
          exp[mon::DEALLOC] = 1;
          exp[mon::DTOR] = ti(d.tix).ncores;
        }
        nd = s;
        nd.arena = na;
      } else if (!S.poly && d.eng && ti(0).cassign && same(d.arena, s.arena)) {
        inplace_assign = true;
        exp[mon::CASSIGN] = ti(0).ncores;
        nd.v = s.v;
        nd.cat = s.cat;
        nd.limbo = s.limbo;
        nd.arena = na;
      } else {
        exp[mon::ALLOC] = 1;
        exp[mon::CCTOR] = ti(s.tix).ncores;
        if (d.eng) {
          exp[mon::DEALLOC] = 1;
          exp[mon::DTOR] = ti(d.tix).ncores;
        }
        nd = s;
        nd.arena = na;
        nd.t_addr = nd.md = nullptr;
      }
    } else if (r.op == OP_MASSIGN) {
      int na = S.af.move ? s.arena : d.arena;
      if (d.eng) {
        exp[mon::DEALLOC] = 1;
        exp[mon::DTOR] = ti(d.tix).ncores;
      }
      nd = s;
      nd.arena = na;
      move_expect(nd, ns, same(d.arena, s.arena), exp, sliced_fault);
    } else if (r.op <= OP_SWAP_F) {
      std::swap(nd, ns);
      if (!S.af.swap) std::swap(nd.arena, ns.arena);
    } else if (r.op <= OP_VASG_ARG_R) {
      const TypeInfo& t = ti(0);
      bool rv = r.op == OP_VASG_R;
      bool arg = r.op >= OP_VASG_ARG_CL;
      nd.limbo = false;
      nd.v = r.v;
      if (d.eng) {
        inplace_assign = true;
        nd.cat = arg ? (r.op == OP_VASG_ARG_R ? CAT_ASG_R : CAT_ASG_CL) : CAT_ARG_R;
        exp[arg ? mon::VASSIGN : rv && t.own_massign ? mon::MASSIGN : mon::CASSIGN] = t.ncores;
      } else {
        nd.eng = true;
        nd.tix = 0;
        nd.t_addr = nd.md = nullptr;
        nd.cat = arg ? (r.op == OP_VASG_ARG_R ? CAT_ARG_R : CAT_ARG_CL) : CAT_ARG_R;
        exp[mon::ALLOC] = 1;
        exp[arg ? mon::VCTOR : rv && t.own_move ? mon::MCTOR : mon::CCTOR] = t.ncores;
      }
      if (t.ncores == 0) nd.cat = 0;
    } else if (r.op == OP_MUT_STAR || r.op == OP_MUT_ARROW) {
      nd.v = r.v;
      nd.limbo = false;
      nd.cat = ti(nd.tix).ncores ? CAT_MUT : 0;
      if (S.poly && ti(nd.tix).id == 212) nd.cat = CAT_MUT;
    } else if (r.op == OP_TAKE) {
      nd.limbo = true;
      ns = nd;
    } else if (r.op == OP_DESTROY) {
      nd = MSlot();
      if (d.eng) {
        exp[mon::DEALLOC] = 1;
        exp[mon::DTOR] = ti(d.tix).ncores;
      }
    }

    // signature and coverage
    Labels covl = ml | cx | L(1);
    if (alloc_op(r)) covl |= L(7);
    if (S.poly) covl |= L(3);
    if (inplace_assign) covl |= L(10);
    if (r.op > OP_LAST_MAKE) covl |= L(5) & (cx | (s.live && !s.eng ? L(5) : 0));
    std::uint64_t sig;
    {
      int k[12] = {r.op,
                   d.live ? (d.eng ? 2 + d.limbo : 1) : 0,
                   d.live && d.eng ? d.tix : -1,
                   r.op > OP_LAST_MAKE && r.op <= OP_SWAP_F ? (s.eng ? 2 + s.limbo : 1) : 0,
                   s.live && s.eng ? s.tix : -1,
                   r.tix,
                   r.arena < 0 ? 0 : 1,
                   d.live && s.live ? (d.arena == s.arena ? 1 : same(d.arena, s.arena) ? 3 : 0) : 2,
                   self,
                   0,
                   static_cast<int>(r.fault > 8 ? 8 : r.fault),
                   r.arena >= 0 && s.live ? (r.arena == s.arena ? 1 : same(r.arena, s.arena) ? 3 : 0) : 2};
      sig = mon::fnv(k, sizeof k, mon::fnv(S.name));
    }

    // ---- run
    int serial_before = mon::fc.serial;
    bool threw = false;
    int got_serial = -1;
    const char* got = "";
    mon::pending_fault = r.fault;
    mon::pending_flavour = r.flavour;
    void* dm = r.op <= OP_LAST_CTOR ? slot_mem(r.d) : mem[r.d];
    try {
      do_op(r, dm);
    } catch (const mon::Fault& f) {
      threw = true;
      got = "Fault";
      got_serial = f.serial;
    } catch (const mon::AllocFault& f) {
      threw = true;
      got = "AllocFault";
      got_serial = f.serial;
    } catch (const mon::OddFault& f) {
      threw = true;
      got = "OddFault";
      got_serial = f.serial;
    } catch (const std::exception& e) {
      threw = true;
      got = "std::exception";
    } catch (...) {
      threw = true;
      got = "unknown";
    }
    ++ops_done;
    bool fired = mon::fc.fired && mon::fc.serial == serial_before + 1;
    if (fired) mon::hist("   fault fired in %s -> %s\n", mon::fc.site, threw ? got : "no exception");
    if (fired) covl |= L(6);
    if (opt.trace || lenient) {
      // keep the model's picture of liveness only
      char oc[64];
      snprintf(oc, sizeof oc, "%s%s", threw ? got : "ok", fired ? mon::fc.site : "");
      if (r.op <= OP_LAST_CTOR) d.live = !threw;
      if (r.op == OP_DESTROY) d.live = false;
      if (r.op <= OP_LAST_CTOR && !threw) d.md = nullptr;
      resync();
      if (r.op <= OP_LAST_CTOR && threw) slot_free(r.d);
      if (r.op == OP_DESTROY) slot_free(r.d);
      trace_op(r, oc);
      if (opt.trace && (!r.fault || fired)) mon::cover_fast(L(16), sig);
      return !r.fault || fired;
    }
    if (threw) {
      if (!fired)
        bad(ml | L(6) | (ml & L(11)), "unexpected-exception",
            "operation threw (%s) although nothing it called failed", got);
      if (got_serial != mon::fc.serial)
        bad(L(6) | (ml & L(11)), "wrong-exception", "the caller received another exception (%s)", got);
    } else if (fired) {
      bad(L(6), "swallowed-exception", "an exception thrown in %s did not reach the caller",
          mon::fc.site);
    }

    if (!threw && ns.eng && ns.limbo && (r.op == OP_MOVE || r.op == OP_MASSIGN) && !self &&
        S.valueless(mem[r.s])) {  // its source is either left engaged or released
      exp[mon::DEALLOC] += 1;
      exp[mon::DTOR] += ti(s.tix).ncores;
      ns.eng = ns.limbo = false;
      ns.t_addr = ns.md = nullptr;
    }

    // ---- judge the counts
    long act[mon::NEV], off[mon::NEV];
    for (int e = 0; e < mon::NEV; ++e) {
      act[e] = mon::cnt[1][e];
      off[e] = mon::cnt[0][e];
    }
    const bool count_blocks = all_exact();
    if (!threw) {
      for (int e = 0; e < mon::NEV; ++e) {
        if ((e == mon::ALLOC || e == mon::DEALLOC) && !count_blocks) continue;
        long expect = exp[e];
        if (r.op == OP_TAKE) break;
        Labels l = ml;
        if (e == mon::ALLOC || e == mon::DEALLOC || e == mon::DTOR) {
          if (act[e] > expect && e != mon::ALLOC) l |= L(1);
          if (inplace_assign) l |= L(10);
        }
        if (inplace_assign) l |= L(10);
        if (act[e] != expect)
          bad(l, "event-count", "%s: %ld %s events on owned objects, expected %ld", op_name[r.op],
              act[e], mon::ev_name[e], expect);
        if (off[e] != 0 && e != mon::ALLOC && e != mon::DEALLOC)
          bad(l, "event-count-temporaries",
              "%s: %ld %s events on temporaries of the owned type, expected none", op_name[r.op],
              off[e], mon::ev_name[e]);
      }
    } else {
      if (count_blocks && act[mon::ALLOC] != act[mon::DEALLOC])
        bad(L(1, 6), "leak-on-failure", "%s failed after %ld allocations and %ld deallocations",
            op_name[r.op], act[mon::ALLOC], act[mon::DEALLOC]);
    }

    // ---- new model state
    if (!threw) {
      d = nd;
      if (r.op > OP_LAST_MAKE && r.op <= OP_SWAP_F && !self) s = ns;
      if (r.op == OP_DESTROY) slot_free(r.d);
      if (S.types.size() == 1 && r.op <= OP_LAST_MAKE) d.tix = 0;
    } else {
      if (r.op <= OP_LAST_CTOR) {
        d = MSlot();
        slot_free(r.d);
      }
      if (inplace_assign) {
        // the owned type's own assignment failed: its value is whatever that left
        if (mon::fc.after) {
          d.v = nd.v;
          d.cat = nd.cat;
          d.limbo = nd.limbo;
          if (r.op <= OP_CASSIGN_CR && false) s = ns;
        }
      }
      if (sliced_fault && ti(s.tix).ncores > 1) s.limbo = true;
    }
    check_all(r, ml, threw);
    if (mon::diverged) {
      resync();
      return !r.fault || fired;
    }
    if (!r.fault || fired) {
      std::string sample;
      if (mon::cover_want_sample(covl)) {
        mon::Internal g;
        sample = S.name + ": " + std::string(mon::sh->hist);
        if (sample.size() > 600) sample = sample.substr(0, 120) + " ... " + sample.substr(sample.size() - 460);
      }
      mon::Internal g;
      mon::cover(covl, sig, sample);
    }
    mon::sh->ctx = 0;
    return !r.fault || fired;
  }

  // target receives the source's object (equal allocators) or a new one made from it
  void move_expect(MSlot& nd, MSlot& ns, bool eq, long* exp, bool& sliced_fault) {
    MSlot s = ns;
    if (!s.eng) return;
    if (eq) {
      ns.eng = false;
      ns.limbo = false;
      ns.t_addr = ns.md = nullptr;
    } else {
      const TypeInfo& t = ti(s.tix);
      exp[mon::ALLOC] += 1;
      exp[t.own_move ? mon::MCTOR : mon::CCTOR] += t.ncores;
      nd.t_addr = nd.md = nullptr;
      if (t.own_move) sliced_fault = true;
      ns.limbo = true;  // still engaged, with whatever value the move left, or else valueless
    }
  }

  void do_op(const OpReq& r, void* dm) {
    switch (r.op) {
      case OP_COPY_CL:
      case OP_COPY_L:
      case OP_COPY_CR:
        S.copy(r.op, dm, r.arena, mem[r.s]);
        break;
      case OP_MOVE:
        S.move(dm, r.arena, mem[r.s]);
        break;
      case OP_CASSIGN_CL:
      case OP_CASSIGN_L:
      case OP_CASSIGN_CR:
        S.cassign(r.op, dm, mem[r.s]);
        break;
      case OP_MASSIGN:
        S.massign(dm, mem[r.s]);
        break;
      case OP_SWAP_M:
      case OP_SWAP_F:
        S.swap(r.op, dm, mem[r.s]);
        break;
      case OP_VASG_CL:
      case OP_VASG_L:
      case OP_VASG_R:
      case OP_VASG_ARG_CL:
      case OP_VASG_ARG_R:
        S.vassign(r.op, dm, r.v);
        break;
      case OP_MUT_STAR:
      case OP_MUT_ARROW:
        S.mutate(r.op, dm, r.v);
        break;
      case OP_TAKE:
        S.take(dm);
        break;
      case OP_DESTROY:
        S.destroy(dm);
        break;
      default:
        S.make(r.op, dm, r.arena, r.tix, r.v);
    }
  }

  // ------------------------------------------------------------ convenience
  bool supports(int op, int tix) const {
    if (opt.trace && op >= OP_CONV_L && op <= OP_CONV_R) return false;
    return S.supports(op, tix);
  }
  void simple(int op, int d, int s = -1, int arena = -1, int tix = 0, long v = 0) {
    OpReq r = {op, d, s < 0 ? d : s, arena, tix, v ? v : fresh(), 0, 0};
    run(r);
  }
  int any_make(int tix) const {
    if (supports(OP_ARG_R, tix)) return OP_ARG_R;
    if (supports(OP_VAL_R, tix)) return OP_VAL_R;
    return OP_DEFAULT;
  }
  void make(int i, int tix, int arena) { simple(any_make(tix), i, -1, arena, tix); }
  void make_valueless(int i, int tix, int arena, int how, int tmp) {
    make(i, tix, arena);
    if (how == 0 || how == 2) {
      simple(OP_MOVE, tmp, i);  // moved out of by a move construction
      simple(OP_DESTROY, tmp);
    } else {
      make(tmp, tix, arena);  // moved out of by a move assignment
      simple(OP_MASSIGN, tmp, i);
      simple(OP_DESTROY, tmp);
    }
    if (how == 2 && supports(OP_COPY_CL, tix)) {  // a copy of a valueless object
      simple(OP_MOVE, tmp, i);
      simple(OP_DESTROY, i);
      simple(OP_COPY_CL, i, tmp, arena);
      simple(OP_DESTROY, tmp);
    }
  }
  bool swap_ok(int a, int b) const { return S.af.swap || same(m[a].arena, m[b].arena); }
  // may a fault be injected?  (an operation declared noexcept must terminate instead)
  bool fault_ok(int op, int d, int s) const {
    if (op == OP_MASSIGN && (S.af.move || S.af.ae)) return false;
    (void)d;
    (void)s;
    return op != OP_DESTROY && op != OP_TAKE && op != OP_MUT_ARROW && op != OP_MUT_STAR;
  }
  bool legal(const OpReq& r) const {
    const MSlot& d = m[r.d];
    const MSlot& s = m[r.s];
    if (r.op <= OP_LAST_MAKE) {
      if (d.live || !supports(r.op, r.tix)) return false;
      if (r.arena < 0 && !S.af.dflt) return false;
      return true;
    }
    if (!supports(r.op, r.tix)) return false;
    if (r.op <= OP_LAST_CTOR) return !d.live && s.live;
    if (!d.live) return false;
    if (r.op <= OP_SWAP_F) {
      if (!s.live) return false;
      if (r.op >= OP_SWAP_M && !swap_ok(r.d, r.s)) return false;
      return true;
    }
    if (r.op == OP_MUT_ARROW || r.op == OP_MUT_STAR || r.op == OP_TAKE) return d.eng;
    return true;
  }
  void finish() {
    for (int i = 0; i < NSLOT; ++i)
      if (m[i].live) simple(OP_DESTROY, i);
    finish_check();
  }
  void finish_check() {
    if (opt.trace) {
      mon::reset_case();
      return;
    }
    mon::sh->op_labels = L(1);
    mon::sh->ctx = 0;
    if (mon::live_blocks() != 0 || mon::live_objs() != 0)
      bad(L(1), "leak-at-end", "after the last holder was destroyed: %s",
          mon::describe_live().c_str());
    mon::reset_case();
  }
};

// -------------------------------------------------------------------- the matrix
// A matrix case: one operation under test with prepared operands, one fault point (or none),
// followed by a fixed exercise of all the objects involved.
struct MCase {
  int op, dstate, sstate, dtix, stix, rel, fault;
};
// states: 0 engaged, 1..3 valueless in different ways, 4 moved-from but engaged (or valueless)

void enumerate(Subject& S, std::vector<MCase>& out) {
  Engine E(S);
  int nt = static_cast<int>(S.types.size());
  int narel = S.af.stateful ? 2 : 1;
  for (int op = 0; op < NOPS; ++op) {
    if (op == OP_DESTROY || op == OP_MUT_ARROW || op == OP_MUT_STAR || op == OP_TAKE) {
      for (int t = 0; t < nt; ++t)
        for (int ds = 0; ds < 5; ++ds) {
          if (!E.supports(op, t)) continue;
          if (op != OP_DESTROY && ds != 0) continue;
          MCase c = {op, ds, 0, t, t, 0, 0};
          out.push_back(c);
        }
      continue;
    }
    int maxf = 8;
    if (op <= OP_LAST_MAKE) {
      for (int t = 0; t < nt; ++t)
        for (int rel = 0; rel < 3; ++rel) {  // untagged, default arena, another arena
          if (!E.supports(op, t)) continue;
          if (rel == 0 && !S.af.dflt) continue;
          for (int f = 0; f <= maxf; ++f) {
            MCase c = {op, 0, 0, t, t, rel, f};
            out.push_back(c);
          }
        }
    } else if (op <= OP_LAST_CTOR) {
      for (int t = 0; t < nt; ++t)
        for (int ss = 0; ss < 5; ++ss)
          for (int rel = 0; rel < 4; ++rel) {  // untagged, the same, unequal, equal to the same
            if (!E.supports(op, t)) continue;
            if (rel == 3 && !E.labels()) continue;
            for (int f = 0; f <= (rel == 3 ? 1 : maxf); ++f) {
              MCase c = {op, 0, ss, t, t, rel, f};
              out.push_back(c);
            }
          }
    } else if (op <= OP_SWAP_F) {
      for (int dt = 0; dt < nt; ++dt)
        for (int k = 0; k < 3; ++k) {
          int st = k == 0 ? dt : (dt + (k == 1 ? 1 : nt / 2 + 1)) % nt;
          if (k > 0 && st == dt) continue;
          for (int ds = 0; ds < 5; ++ds)
            for (int ss = 0; ss < 5; ++ss)
              for (int rel = 0; rel < narel + 1; ++rel) {  // the same, unequal, equal to the same
                if (!E.supports(op, dt)) continue;
                if (rel == narel && (!E.labels() || k > 0 || ds % 2 || ss > 1)) continue;
                if (k > 0 && (ds == 2 || ds == 3 || ss == 2 || ss == 3)) continue;
                for (int f = 0; f <= (rel == narel ? 0 : maxf); ++f) {
                  MCase c = {op, ds, ss, dt, st, rel, f};
                  out.push_back(c);
                }
              }
        }
      for (int t = 0; t < nt; ++t)  // with itself
        for (int ds = 0; ds < 5; ++ds)
          for (int f = 0; f <= 1; ++f) {
            if (!E.supports(op, t)) continue;
            MCase c = {op, ds, 0, t, t, 9, f};
            out.push_back(c);
          }
    } else {
      for (int t = 0; t < nt; ++t)
        for (int ds = 0; ds < 5; ++ds)
          for (int rel = 0; rel < narel; ++rel)
            for (int f = 0; f <= maxf; ++f) {
              if (!E.supports(op, t)) continue;
              MCase c = {op, ds, 0, t, t, rel, f};
              out.push_back(c);
            }
    }
  }
}

void prepare(Engine& E, int slot, int state, int tix, int arena) {
  if (state == 0) {
    E.make(slot, tix, arena);
  } else if (state <= 3) {
    E.make_valueless(slot, tix, arena, state - 1, 5);
  } else {  // moved from between unequal allocators; or, failing that, by a value move
    E.make(slot, tix, arena);
    E.simple(OP_MOVE, 5, slot, arena + 7);
    E.simple(OP_DESTROY, 5);
    if (!E.m[slot].eng && !E.S.poly) {  // the source was emptied
      E.simple(OP_DESTROY, slot);
      E.make(slot, tix, arena);
      E.simple(OP_TAKE, slot);
    }
  }
}

// The same exercise for whatever is left alive: every holder must still be fully usable.
void exercise(Engine& E) {
  const int tix0 = 0;
  for (int i = 0; i < 4; ++i) {
    if (!E.m[i].live) continue;
    if (E.m[i].eng) E.simple(OP_MUT_STAR, i);
    if (E.supports(OP_COPY_CL, 0)) {
      E.simple(OP_COPY_CL, 5, i);
      if (E.m[5].eng) E.simple(OP_MUT_ARROW, 5);
      E.simple(OP_CASSIGN_CL, i, 5);
      E.simple(OP_DESTROY, 5);
    }
    if (E.supports(OP_VASG_R, 0)) E.simple(OP_VASG_R, i);
  }
  if (E.m[0].live && E.m[1].live) {
    if (E.swap_ok(0, 1)) E.simple(OP_SWAP_M, 0, 1);
    E.simple(OP_MASSIGN, 0, 1);
    if (E.supports(OP_COPY_CL, 0)) E.simple(OP_CASSIGN_CL, 1, 0);
  }
  E.make(4, tix0, 2);
  for (int i = 0; i < 4; ++i)
    if (E.m[i].live) {
      E.simple(OP_MASSIGN, i, 4);
      if (E.supports(OP_VASG_R, 0)) E.simple(OP_VASG_R, 4);
    }
}

void run_matrix_case(Subject& S, const MCase& c, long index, bool control) {
  Engine E(S);
  mon::hist_reset();
  mon::hist("%s\n", S.name.c_str());
  const int A1 = 3, A2 = 4;
  int arena_d = A1;
  bool ctor = c.op <= OP_LAST_CTOR;
  int src = 1;
  OpReq r = {c.op, 0, 0, -1, c.dtix, 0, c.fault, static_cast<int>(index % 2)};
  // bystanders
  E.make(2, c.stix, A1);
  E.make_valueless(3, c.dtix, A2, 0, 5);
  if (ctor) {
    if (c.op <= OP_LAST_MAKE) {
      r.arena = c.rel == 0 ? -1 : c.rel == 1 ? DEFAULT_ARENA : A2;
    } else {
      prepare(E, 1, c.sstate, c.stix, A1);
      r.arena = c.rel == 0 ? -1 : c.rel == 1 ? A1 : c.rel == 2 ? A2 : A1 + mon::LABEL;
      r.s = 1;
    }
  } else if (c.op <= OP_SWAP_F) {
    if (c.rel == 9) {
      prepare(E, 0, c.dstate, c.dtix, arena_d);
      r.s = 0;
      src = 0;
    } else {
      prepare(E, 0, c.dstate, c.dtix, arena_d);
      prepare(E, 1, c.sstate, c.stix, c.rel == 0 ? A1 : c.rel == 1 ? A2 : A1 + mon::LABEL);
      r.s = 1;
    }
  } else {
    prepare(E, 0, c.dstate, c.dtix, c.rel == 0 ? DEFAULT_ARENA : A2);
    r.s = 0;
  }
  (void)src;
  r.v = E.fresh();
  if (!E.legal(r) || (c.fault && !E.fault_ok(c.op, r.d, r.s))) {
    E.finish();
    return;
  }
  if (control) {
    // the same without the operation under test: does what follows fail all the same?
    if (ctor) E.make(0, c.dtix, A1);
    exercise(E);
    E.finish();
    return;
  }
  mon::sh->phase = 1;
  mon::sh->sticky = Engine::main_labels(S, r, E.m) | E.ctx_labels(r);
  bool fired = E.run(r);
  if (fired && c.fault) mon::sh->sticky = mon::sh->sticky | L(6);
  mon::sh->phase = 2;
  if (c.fault && !fired) {  // no such fault point: this case is the unfaulted one again
    E.finish();
    return;
  }
  exercise(E);
  E.finish();
}

// -------------------------------------------------------------------- random histories
void run_random_case(Subject& S, std::uint64_t seed, int len) {
  Engine E(S);
  mon::hist_reset();
  mon::hist("%s, random history, seed %llu\n", S.name.c_str(), static_cast<unsigned long long>(seed));
  mon::Rng g(seed);
  int nt = static_cast<int>(S.types.size());
  int narena = 1 + static_cast<int>(g.below(3));
  unsigned fault_pct = g.below(3) * 10;
  unsigned move_pct = g.below(60);
  for (int n = 0; n < len; ++n) {
    OpReq r = {0, 0, 0, -1, 0, 0, 0, 0};
    bool ok = false;
    for (int tries = 0; tries < 50 && !ok; ++tries) {
      if (g.chance(move_pct)) {
        static const int hot[] = {OP_MOVE, OP_MASSIGN, OP_SWAP_M, OP_SWAP_F, OP_CASSIGN_CL, OP_COPY_CL};
        r.op = hot[g.below(6)];
      } else {
        r.op = static_cast<int>(g.below(NOPS));
      }
      if (r.op == OP_DESTROY && g.chance(50)) continue;
      r.d = static_cast<int>(g.below(NSLOT));
      r.s = static_cast<int>(g.below(NSLOT));
      r.tix = static_cast<int>(g.below(static_cast<unsigned>(nt)));
      if (r.op == OP_DEFAULT && nt > 1) r.tix = 0;
      r.arena = g.chance(40) ? -1 : DEFAULT_ARENA + static_cast<int>(g.below(static_cast<unsigned>(narena)));
      if (r.arena >= 0 && E.labels() && g.chance(25)) r.arena += mon::LABEL;
      if (r.op > OP_LAST_CTOR) r.arena = -1;
      ok = E.legal(r);
    }
    if (!ok) continue;
    r.v = E.fresh();
    if (g.chance(fault_pct) && E.fault_ok(r.op, r.d, r.s)) {
      r.fault = 1 + static_cast<long>(g.below(4));
      r.flavour = static_cast<int>(g.below(2));
    }
    E.run(r);
  }
  // destroy in random order
  int order[NSLOT];
  for (int i = 0; i < NSLOT; ++i) order[i] = i;
  for (int i = NSLOT - 1; i > 0; --i)
    std::swap(order[i], order[g.below(static_cast<unsigned>(i + 1))]);
  for (int i = 0; i < NSLOT; ++i)
    if (E.m[order[i]].live) E.simple(OP_DESTROY, order[i]);
  E.finish_check();
}

// -------------------------------------------------------------------- driving
struct Job {
  int subject;
  long index;  // >= 0: matrix case; < 0: random history -(index+1)
};
std::vector<std::vector<MCase>> matrices;

void run_job(const Job& j, bool control) {
  Subject& S = *registry()[static_cast<std::size_t>(j.subject)];
  mon::sh->reported = 0;
  mon::sh->ctx = 0;
  mon::sh->phase = 0;
  mon::sh->sticky = 0;
  mon::sh->op_labels = L(1);
  if (j.index >= 0)
    run_matrix_case(S, matrices[static_cast<std::size_t>(j.subject)][static_cast<std::size_t>(j.index)],
                    j.index, control);
  else
    run_random_case(S, mon::fnv(S.name, opt.seed * 1000003 + static_cast<std::uint64_t>(-j.index)),
                    opt.random_len);
}

}  // namespace

extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_abort=0"; }

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed")
      opt.seed = strtoull(v, nullptr, 10), ++i;
    else if (a == "--shard")
      sscanf(v, "%d/%d", &opt.shard, &opt.nshards), ++i;
    else if (a == "--random")
      opt.random_cases = atol(v), ++i;
    else if (a == "--len")
      opt.random_len = atoi(v), ++i;
    else if (a == "--no-matrix")
      opt.matrix = false;
    else if (a == "--trace")
      opt.trace = true, opt.trace_file = v, ++i;
    else if (a == "--trace-hash")
      trace_hash = true;
    else if (a == "--case")
      opt.only_case = atol(v), ++i;
    else if (a == "--only-index")
      opt.only_index = atol(v), opt.has_index = true, ++i;
    else if (a == "--cov")
      opt.cov = v, ++i;
    else if (a == "--report")
      opt.report = v, ++i;
    else if (a == "--subject")
      opt.subject = v, ++i;
    else if (a == "--stop-on")
      opt.stop_on = static_cast<Labels>(strtoul(v, nullptr, 16)), ++i;
    else if (a == "--focus")
      mon::focus = static_cast<Labels>(strtoul(v, nullptr, 16)), ++i;
    else if (a == "--max-bad")
      opt.max_bad = atol(v), ++i;
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  mon::init_shared();
  std::vector<Job> jobs;
  std::vector<Subject*>& reg = registry();
  std::sort(reg.begin(), reg.end(), [](Subject* a, Subject* b) { return a->name < b->name; });
  for (std::size_t i = 1; i < reg.size(); ++i)
    if (reg[i]->name == reg[i - 1]->name) {
      fprintf(stderr, "two subjects named %s\n", reg[i]->name.c_str());
      return 2;
    }
  for (std::size_t i = 0; i < reg.size(); ++i) {
    matrices.push_back(std::vector<MCase>());
    if (opt.trace && !reg[i]->common) continue;
    if (opt.subject && reg[i]->name != opt.subject) continue;
    if (opt.matrix) enumerate(*reg[i], matrices.back());
    for (std::size_t k = 0; k < matrices.back().size(); ++k) {
      Job j = {static_cast<int>(i), static_cast<long>(k)};
      jobs.push_back(j);
    }
    for (long k = 0; k < opt.random_cases; ++k) {
      Job j = {static_cast<int>(i), -(k + 1)};
      jobs.push_back(j);
    }
  }
  if (opt.has_index) {
    std::vector<Job> one;
    for (const Job& j : jobs)
      if (j.index == opt.only_index) one.push_back(j);
    jobs.swap(one);
  }
  if (opt.nshards > 1) {
    // whole strides of jobs, so that every shard sees every subject
    std::vector<Job> mine;
    for (std::size_t i = 0; i < jobs.size(); ++i)
      if (static_cast<int>(i % static_cast<std::size_t>(opt.nshards)) == opt.shard)
        mine.push_back(jobs[i]);
    jobs.swap(mine);
  }
  FILE* rep = opt.report ? fopen(opt.report, "w") : stdout;
  if (!rep) return 2;
  if (opt.trace && opt.trace_file && *opt.trace_file) {
    trace_out = fopen(opt.trace_file, "w");
    if (!trace_out) return 2;
    setvbuf(trace_out, nullptr, _IOLBF, 1 << 16);
  }

  long bad = 0, unrelated = 0;
  std::size_t next = 0;
  std::size_t end = jobs.size();
  if (opt.only_case >= 0) {
    next = static_cast<std::size_t>(opt.only_case);
    end = next + 1;
    if (next >= jobs.size()) {
      fprintf(stderr, "no such case\n");
      return 2;
    }
  }
  std::set<long> retried;
  bool stopped = false;
  while (next < end && !stopped) {
    fflush(nullptr);
    mon::sh->cur = static_cast<long>(next);
    mon::sh->done = 0;
    mon::sh->reported = 0;
    mon::sh->hist_len = 0;
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      return 2;
    }
    if (pid == 0) {
      for (std::size_t i = next; i < end; ++i) {
        mon::sh->cur = static_cast<long>(i);
        mon::sh->progress = mon::sh->progress + 1;
        trace_h = 1469598103934665603ull;
        const char* sname = reg[static_cast<std::size_t>(jobs[i].subject)]->name.c_str();
        if (trace_out && !trace_hash) fprintf(trace_out, "%s %ld\n", sname, jobs[i].index);
        run_job(jobs[i], false);
        if (trace_out && trace_hash)
          fprintf(trace_out, "%s %ld %llx\n", sname, jobs[i].index, static_cast<unsigned long long>(trace_h));
        // keep what has been counted in case a later case kills this process
        if (opt.cov && (i + 1) % 20000 == 0) mon::cover_save(opt.cov);
        if (trace_out && !trace_hash) fflush(trace_out);
      }
      if (opt.cov) mon::cover_save(opt.cov);
      mon::sh->done = 1;
      fflush(nullptr);
      _exit(0);
    }
    bool hung = false;
    int st = wait_child(pid, 60, &hung);
    if (mon::sh->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    std::size_t at = static_cast<std::size_t>(mon::sh->cur);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 2 || WEXITSTATUS(st) == 4)) {
      fprintf(stderr, "harness error in case %zu\n", at);
      return 2;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !hung) {
      fprintf(stderr, "child killed from outside in case %zu (out of memory?)\n", at);
      return 2;
    }
    if (hung && retried.insert(static_cast<long>(at)).second) {
      next = at;  // run it once more before calling it a hang
      continue;
    }
    Labels l;
    const char* oracle;
    char text[2300];
    if (mon::sh->reported) {
      l = mon::sh->viol_labels;
      oracle = mon::sh->viol_oracle;
      snprintf(text, sizeof text, "%s", mon::sh->viol_text);
      if (!l && std::string(oracle) == "harness") {
        fprintf(stderr, "harness error: %s\n", text);
        return 2;
      }
    } else {
      // a sanitizer report, a failed assertion, terminate, a signal or a hang
      l = mon::sh->op_labels | mon::sh->ctx | L(1);
      oracle = hung ? "hang" : "crash";
      if (hung)
        snprintf(text, sizeof text, "an operation did not finish");
      else if (WIFSIGNALED(st))
        snprintf(text, sizeof text, "process died of signal %d (see the log)", WTERMSIG(st));
      else
        snprintf(text, sizeof text, "process exited with status %d (sanitizer report, see the log)",
                 WEXITSTATUS(st));
    }
    // a failure after the operation under test belongs to that operation too, unless the same
    // steps fail without it
    if (mon::sh->phase == 2 && jobs[at].index >= 0 && !trace_out) {
      Labels sticky = mon::sh->sticky;
      if (sticky & ~l) {
        fflush(nullptr);
        mon::sh->done = 0;
        std::string keep = mon::sh->hist;
        pid_t c = fork();
        if (c == 0) {
          mon::focus = 0;
          run_job(jobs[at], true);
          mon::sh->done = 1;
          _exit(0);
        }
        bool h = false;
        if (c > 0) {
          wait_child(c, 60, &h);
          if (mon::sh->done) l |= sticky;
        }
        snprintf(mon::sh->hist, sizeof mon::sh->hist, "%s", keep.c_str());
      }
    }
    if (mon::focus && !(l & mon::focus)) {
      ++unrelated;
      next = at + 1;
      if (unrelated > 20000) {
        fprintf(stderr, "too many failures outside the focus\n");
        stopped = true;
      }
      continue;
    }
    ++bad;
    if (trace_out) {
      fprintf(trace_out, "%s %ld ABNORMAL %s\n",
              reg[static_cast<std::size_t>(jobs[at].subject)]->name.c_str(), jobs[at].index, oracle);
      fflush(trace_out);
    }
    Subject& S = *reg[static_cast<std::size_t>(jobs[at].subject)];
    fprintf(rep, "{\"labels\":\"%s\",\"oracle\":", labels_str(l).c_str());
    json_str(rep, oracle);
    fprintf(rep, ",\"subject\":");
    json_str(rep, S.name.c_str());
    fprintf(rep, ",\"case\":%zu,\"index\":%ld,\"text\":", at, jobs[at].index);
    json_str(rep, text);
    fprintf(rep, ",\"history\":");
    json_str(rep, mon::sh->hist);
    fprintf(rep, "}\n");
    fflush(rep);
    if (l & opt.stop_on) stopped = true;
    if (bad >= opt.max_bad) stopped = true;
    next = at + 1;
  }
  fprintf(rep, "{\"end\":true,\"jobs\":%zu,\"subjects\":%zu,\"bad\":%ld,\"unrelated\":%ld}\n", end,
          reg.size(), bad, unrelated);
  if (rep != stdout) fclose(rep);
  return bad ? 3 : 0;
}
