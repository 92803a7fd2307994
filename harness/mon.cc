#include "mon.h"

#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <map>
#include <set>
#include <unordered_set>
#include <vector>

namespace mon {

const char* const ev_name[NEV] = {"alloc",  "dealloc", "value-ctor",  "copy-ctor", "move-ctor",
                                  "copy-assign", "move-assign", "value-assign", "dtor"};
long cnt[2][NEV];
Shared* sh;
int window, internal;
FaultCtl fc;
long pending_fault;
int pending_flavour;
Labels focus;
bool diverged;
Window::Window() {
  reset_counts();
  fault_arm(pending_fault, pending_flavour);
  pending_fault = 0;
  ++window;
}
Window::~Window() {
  --window;
  fault_disarm();
}

void init_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  sh = static_cast<Shared*>(p);
  memset(p, 0, sizeof(Shared));
}

void hist_reset() {
  sh->hist_len = 0;
  sh->hist[0] = 0;
}
void hist(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  unsigned len = sh->hist_len;
  if (len + 300 < sizeof(sh->hist)) {
    int n = vsnprintf(sh->hist + len, 299, fmt, ap);
    if (n > 298) n = 298;
    sh->hist_len = len + static_cast<unsigned>(n);
  }
  va_end(ap);
}

static void vfail(Labels l, const char* oracle, const char* fmt, va_list ap) {
  if (!sh->reported) {
    sh->viol_labels = l;
    snprintf(sh->viol_oracle, sizeof sh->viol_oracle, "%s", oracle);
    vsnprintf(sh->viol_text, sizeof sh->viol_text, fmt, ap);
    sh->reported = 1;
  }
  fflush(stdout);
  _exit(3);
}
void fail(Labels l, const char* oracle, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(l | sh->ctx, oracle, fmt, ap);
  abort();
}
void soft(Labels l, const char* oracle, const char* fmt, ...) {
  l |= sh->ctx;
  if (focus && !(l & focus)) {
    diverged = true;
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  vfail(l, oracle, fmt, ap);
  abort();
}
void fail_only(Labels l, const char* oracle, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(l, oracle, fmt, ap);
  abort();
}

// ------------------------------------------------------------------ ledger
struct Block {
  std::size_t bytes, n, size, align;
  const void* ty;
  int arena;
  bool hooked;
  long serial;
};
struct Obj {
  std::size_t size;
  int type;
  bool in;
};
struct Hooked {
  std::size_t size;
  const void* ty;
  int arena;
  bool owned;
};
typedef std::map<std::uintptr_t, Block> Blocks;
typedef std::map<std::uintptr_t, Obj> Objs;
typedef std::map<std::uintptr_t, Hooked> Hooks;
struct Ledger {
  Blocks blocks;
  Objs objs;
  Hooks hooks;
  long objs_in = 0;
  long serial = 0;
  struct Frame {
    std::uintptr_t p;
    std::size_t size;
    const void* ty;
    int arena;
  };
  std::vector<Frame> cstack, dstack;
};
static Ledger& led() {
  static Ledger* l = [] {
    Internal g;
    return new Ledger;
  }();
  return *l;
}
static std::uintptr_t u(const void* p) { return reinterpret_cast<std::uintptr_t>(p); }

static Blocks::iterator find_block(std::uintptr_t p, std::size_t size) {
  Blocks& b = led().blocks;
  Blocks::iterator it = b.upper_bound(p);
  if (it == b.begin()) return b.end();
  --it;
  if (p >= it->first && p < it->first + it->second.bytes) return it;
  (void)size;
  return b.end();
}

static void add_block(void* p, std::size_t n, std::size_t size, std::size_t align, const void* ty,
                      int arena, bool hooked) {
  Block b;
  b.bytes = n * size;
  b.n = n;
  b.size = size;
  b.align = align;
  b.ty = ty;
  b.arena = arena;
  b.hooked = hooked;
  b.serial = ++led().serial;
  led().blocks[u(p)] = b;
  if (window) ++cnt[1][ALLOC];
}

void* block_alloc(std::size_t n, std::size_t size, std::size_t align, const void* ty, int arena,
                  bool hooked) {
  fault_point("allocate", true);
  Internal g;
  void* p = nullptr;
  std::size_t al = align < 16 ? 16 : align;
  if (posix_memalign(&p, al, n * size != 0 ? n * size : 1) != 0 || !p) {
    fprintf(stderr, "harness: out of memory\n");
    _exit(4);
  }
  memset(p, 0xA5, n * size);
  add_block(p, n, size, align, ty, arena, hooked);
  return p;
}

static void check_block_free(Blocks::iterator it) {
  Objs& o = led().objs;
  Objs::iterator oi = o.lower_bound(it->first);
  if (oi != o.end() && oi->first < it->first + it->second.bytes)
    fail(L(1), "free-with-live-object",
         "a storage block was returned while an owned object (type #%d) in it was still alive",
         oi->second.type);
  Hooks& h = led().hooks;
  Hooks::iterator hi = h.lower_bound(it->first);
  while (hi != h.end() && hi->first < it->first + it->second.bytes) {
    if (hi->second.owned)
      soft(L(7), "free-without-destroy-hook",
           "an owned object constructed through its allocator's construct() was released without "
           "the allocator's destroy()");
    h.erase(hi++);
  }
}

void block_free(void* p, std::size_t n, std::size_t size, const void* ty, int arena, bool any_arena,
                bool hooked) {
  {
    Internal g;
    (void)hooked;
    Blocks::iterator it = led().blocks.find(u(p));
    if (it == led().blocks.end())
      fail(L(1), "free-unknown",
           "an allocator was asked to deallocate storage that is not a live block (double free or "
           "foreign pointer), arena %d",
           arena);
    Block& b = it->second;
    if (b.n != n || b.size != size || b.ty != ty)
      soft(L(1), "free-mismatch",
           "block of %zu x %zu bytes was deallocated as %zu x %zu bytes%s", b.n, b.size, n, size,
           b.ty != ty ? " of another type" : "");
    if (!any_arena && b.arena % LABEL != arena % LABEL)
      soft(L(1, 7), "free-wrong-allocator",
           "block obtained from allocator %d was returned through allocator %d, which does not "
           "compare equal",
           b.arena, arena);
    check_block_free(it);
    if (window) ++cnt[1][DEALLOC];
    memset(p, 0xDD, b.bytes);
    led().blocks.erase(it);
  }
  free(p);
}

BlockInfo block_of(const void* p, std::size_t size) {
  Internal g;
  BlockInfo r = {false, nullptr, 0, 0, 0};
  Blocks::iterator it = find_block(u(p), size);
  if (it == led().blocks.end()) return r;
  if (u(p) + size > it->first + it->second.bytes) return r;
  r.found = true;
  r.base = reinterpret_cast<const char*>(it->first);
  r.bytes = it->second.bytes;
  r.arena = it->second.arena;
  r.serial = it->second.serial;
  return r;
}
long live_blocks() { return static_cast<long>(led().blocks.size()); }
long live_objs_in_blocks() { return led().objs_in; }
long live_objs() { return static_cast<long>(led().objs.size()); }
std::string describe_live() {
  Internal g;
  std::string s;
  char b[128];
  for (Blocks::iterator i = led().blocks.begin(); i != led().blocks.end(); ++i) {
    snprintf(b, sizeof b, "[block #%ld arena %d %zu bytes]", i->second.serial, i->second.arena,
             i->second.bytes);
    s += b;
  }
  for (Objs::iterator i = led().objs.begin(); i != led().objs.end(); ++i) {
    snprintf(b, sizeof b, "[object type #%d%s]", i->second.type, i->second.in ? "" : " (local)");
    s += b;
  }
  return s;
}

// ------------------------------------------------------------------ hooks
void hook_construct_begin(const void* p, std::size_t size, const void* ty, int arena) {
  Internal g;
  Ledger::Frame f = {u(p), size, ty, arena};
  led().cstack.push_back(f);
}
void hook_construct_end(bool ok) {
  Internal g;
  Ledger::Frame f = led().cstack.back();
  led().cstack.pop_back();
  if (ok) {
    Hooked h = {f.size, f.ty, f.arena, false};
    led().hooks[f.p] = h;
  }
}
void hook_destroy_begin(const void* p, std::size_t size, const void* ty, int arena, bool any_arena) {
  Internal g;
  Ledger::Frame f = {u(p), size, ty, arena};
  led().dstack.push_back(f);
  Hooks::iterator it = led().hooks.find(u(p));
  if (it != led().hooks.end()) {
    if (it->second.ty != ty)
      soft(L(7), "destroy-hook-type", "allocator destroy() called for another type than construct()");
    if (!any_arena && it->second.arena % LABEL != arena % LABEL)
      soft(L(7), "destroy-hook-arena",
           "object constructed through allocator %d was destroyed through allocator %d",
           it->second.arena, arena);
    led().hooks.erase(it);
  } else {
    soft(L(7), "destroy-hook-unmatched",
         "allocator destroy() called on an address where its construct() had not put an object");
  }
}
void hook_destroy_end() {
  Internal g;
  led().dstack.pop_back();
}
void hook_expect(const void* p, const void* ty, int arena, bool any_arena, Labels l) {
  Internal g;
  Hooks::iterator it = led().hooks.find(u(p));
  if (it == led().hooks.end() || it->second.ty != ty) {
    soft(l, "construct-hook-missing",
         "the owned object was not constructed through its allocator's construct()");
    return;
  }
  if (!any_arena && it->second.arena % LABEL != arena % LABEL)
    soft(l, "construct-hook-arena",
         "the owned object was constructed through allocator %d, holder reports %d",
         it->second.arena, arena);
  it->second.owned = true;
}

// ------------------------------------------------------------------ objects
static bool covered(const std::vector<Ledger::Frame>& st, std::uintptr_t p) {
  for (std::size_t i = st.size(); i-- > 0;)
    if (p >= st[i].p && p < st[i].p + st[i].size) return true;
  return false;
}
void obj_ctor(const void* p, std::size_t size, int type, Ev ev) {
  Internal g;
  Ledger& l = led();
  if (l.objs.count(u(p)))
    fail(L(1), "construct-over-live", "an object was constructed on top of a live object");
  Blocks::iterator b = find_block(u(p), size);
  Obj o = {size, type, b != l.blocks.end()};
  if (o.in) {
    if (u(p) + size > b->first + b->second.bytes)
      fail(L(1), "object-outside-block", "an owned object reaches past the end of its block");
    if (b->second.hooked && !covered(l.cstack, u(p)))
      soft(L(7), "construct-bypasses-allocator",
           "an object in an allocator's block was constructed without the allocator's construct()");
    ++l.objs_in;
  }
  l.objs[u(p)] = o;
  if (window) ++cnt[o.in][ev];
}
void obj_dtor(const void* p, int type) {
  Internal g;
  Ledger& l = led();
  Objs::iterator it = l.objs.find(u(p));
  if (it == l.objs.end())
    fail(L(1), "destroy-dead",
         "destructor ran on something that is not a live object (double destruction?), type #%d",
         type);
  if (it->second.type != type)
    fail(L(1, 3), "destroy-wrong-type", "object of type #%d destroyed as type #%d", it->second.type,
         type);
  if (it->second.in) {
    Blocks::iterator b = find_block(u(p), it->second.size);
    if (b == l.blocks.end())
      fail(L(1), "destroy-after-free", "owned object outlived its storage block");
    if (b->second.hooked && !covered(l.dstack, u(p)) && !covered(l.cstack, u(p)))
      soft(L(7), "destroy-bypasses-allocator",
           "an object in an allocator's block was destroyed without the allocator's destroy()");
    --l.objs_in;
  }
  if (window) ++cnt[it->second.in][DTOR];
  l.objs.erase(it);
}
void obj_event(const void* p, int type, Ev ev) {
  Internal g;
  Objs::iterator it = led().objs.find(u(p));
  if (it == led().objs.end())
    fail(L(1), "use-dead", "%s on something that is not a live object, type #%d", ev_name[ev], type);
  if (it->second.type != type)
    fail(L(1, 3), "use-wrong-type", "%s: object of type #%d used as type #%d", ev_name[ev],
         it->second.type, type);
  if (window) ++cnt[it->second.in][ev];
}
bool obj_alive(const void* p, int type) {
  Internal g;
  Objs::iterator it = led().objs.find(u(p));
  return it != led().objs.end() && it->second.type == type;
}
void require_alive(const void* p, int type, const char* what) {
  if (!obj_alive(p, type))
    fail(L(1), "read-dead", "%s from something that is not a live object of type #%d", what, type);
}

// ------------------------------------------------------------------ faults
void fault_arm(long k, int flavour) {
  fc.armed = k > 0;
  fc.countdown = k;
  fc.fired = false;
  fc.flavour = flavour;
  fc.site = "";
  fc.after = false;
  fc.passed = 0;
}
void fault_disarm() { fc.armed = false; }
void fault_point(const char* site, bool alloc, bool after) {
  if (!window || internal) return;
  ++fc.passed;
  if (!fc.armed) return;
  if (--fc.countdown > 0) return;
  fc.armed = false;
  fc.fired = true;
  fc.site = site;
  fc.after = after;
  ++fc.serial;
  sh->ctx = sh->ctx | L(6);
  Internal g;  // building the exception is not an operation of the library
  if (fc.flavour == 1) throw OddFault{fc.serial};
  if (alloc) throw AllocFault(fc.serial);
  throw Fault(fc.serial);
}

void reset_counts() { memset(cnt, 0, sizeof cnt); }
void reset_case() {
  Internal g;
  led().blocks.clear();
  led().objs.clear();
  led().hooks.clear();
  led().cstack.clear();
  led().dstack.clear();
  led().objs_in = 0;
  led().serial = 0;
  window = 0;
  diverged = false;
  fault_disarm();
}

// ------------------------------------------------------------------ coverage
struct Cov {
  unsigned long long evals[32];
  std::unordered_set<std::uint64_t> sigs[32];
  std::vector<std::string> samples[32];
};
static Cov& cov() {
  static Cov* c = [] {
    Internal g;
    return new Cov();
  }();
  return *c;
}
void cover_fast(Labels l, std::uint64_t s) {
  if (focus) l &= focus;
  if (!l) return;
  Internal g;
  Cov& c = cov();
  for (int i = 1; i < 32; ++i)
    if (l >> i & 1) {
      ++c.evals[i];
      c.sigs[i].insert(s);
    }
}
bool cover_want_sample(Labels l) {
  if (focus) l &= focus;
  Cov& c = cov();
  for (int i = 1; i < 32; ++i)
    if ((l >> i & 1) && c.samples[i].size() < 3) return true;
  return false;
}
void cover(Labels l, std::uint64_t s, const std::string& sample) {
  if (focus) l &= focus;
  Internal g;
  Cov& c = cov();
  for (int i = 1; i < 32; ++i)
    if (l >> i & 1) {
      ++c.evals[i];
      bool fresh = c.sigs[i].insert(s).second;
      if (fresh && c.samples[i].size() < 3 && !sample.empty()) c.samples[i].push_back(sample);
    }
}
void cover_save(const char* path) {
  Internal g;
  Cov& c = cov();
  FILE* f = fopen(path, "a");
  if (!f) return;
  for (int i = 1; i < 32; ++i) {
    if (!c.evals[i]) continue;
    fprintf(f, "E %d %llu\n", i, c.evals[i]);
    fprintf(f, "S %d", i);
    for (std::uint64_t s : c.sigs[i]) fprintf(f, " %llx", static_cast<unsigned long long>(s));
    fprintf(f, "\n");
    for (const std::string& s : c.samples[i]) {
      std::string t = s;
      for (char& ch : t)
        if (ch == '\n') ch = ';';
      fprintf(f, "X %d %s\n", i, t.c_str());
    }
    c.evals[i] = 0;
    c.sigs[i].clear();
    c.samples[i].clear();
  }
  fclose(f);
}

// called by the replaced global operator new/delete
static void* global_new(std::size_t n, std::size_t align) {
  bool mine = window > 0 && internal == 0;
  if (mine) fault_point("operator new", true);
  void* p = nullptr;
  if (align <= 16)
    p = malloc(n ? n : 1);
  else if (posix_memalign(&p, align, n ? n : 1) != 0)
    p = nullptr;
  if (!p) {
    fprintf(stderr, "harness: out of memory\n");
    _exit(4);
  }
  if (mine) {
    Internal g;
    memset(p, 0xA5, n);
    add_block(p, 1, n, align, nullptr, ARENA_NEW, false);
  }
  return p;
}
static void global_delete(void* p, std::size_t n, bool sized, std::size_t align) {
  if (!p) return;
  if (internal == 0) {
    Internal g;
    Blocks& bs = led().blocks;
    Blocks::iterator it = bs.find(u(p));
    if (it != bs.end()) {
      Block& b = it->second;
      if (b.arena != ARENA_NEW)
        fail(L(1, 7), "delete-foreign", "a monitored allocator's block was given to operator delete");
      if (sized && n != b.bytes)
        soft(L(1), "delete-size", "block of %zu bytes deleted as %zu bytes", b.bytes, n);
      if ((align > 16 || b.align > 16) && align != b.align)
        soft(L(1), "delete-align", "block aligned to %zu deleted as aligned to %zu", b.align, align);
      check_block_free(it);
      if (window) ++cnt[1][DEALLOC];
      memset(p, 0xDD, b.bytes);
      bs.erase(it);
    }
  }
  free(p);
}
}  // namespace mon

#ifndef VT_NO_GLOBAL_NEW
void* operator new(std::size_t n) { return mon::global_new(n, 16); }
void* operator new[](std::size_t n) { return mon::global_new(n, 16); }
void operator delete(void* p) noexcept { mon::global_delete(p, 0, false, 16); }
void operator delete[](void* p) noexcept { mon::global_delete(p, 0, false, 16); }
void operator delete(void* p, std::size_t n) noexcept { mon::global_delete(p, n, true, 16); }
void operator delete[](void* p, std::size_t n) noexcept { mon::global_delete(p, n, true, 16); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return mon::global_new(n, 16);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mon::global_delete(p, 0, false, 16); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mon::global_delete(p, 0, false, 16); }
#if __cpp_aligned_new
void* operator new[](std::size_t n, std::align_val_t a) { return mon::global_new(n, static_cast<std::size_t>(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept {
  mon::global_delete(p, 0, false, static_cast<std::size_t>(a));
}
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept {
  mon::global_delete(p, n, true, static_cast<std::size_t>(a));
}
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
  try {
    return mon::global_new(n, static_cast<std::size_t>(a));
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept {
  mon::global_delete(p, 0, false, static_cast<std::size_t>(a));
}
void* operator new(std::size_t n, std::align_val_t a) {
  return mon::global_new(n, static_cast<std::size_t>(a));
}
void operator delete(void* p, std::align_val_t a) noexcept {
  mon::global_delete(p, 0, false, static_cast<std::size_t>(a));
}
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept {
  mon::global_delete(p, n, true, static_cast<std::size_t>(a));
}
#endif
#endif
