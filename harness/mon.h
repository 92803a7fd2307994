// The monitor: ledger of storage blocks and objects, event counters, fault points, reporting.
// Plain C++14.  Single-threaded (the thread workloads use their own monitor).
#ifndef VT_MON_H
#define VT_MON_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>

namespace mon {

typedef unsigned Labels;  // bit i: property C<i>
constexpr Labels L() { return 0; }
template <class... R>
constexpr Labels L(int i, R... r) {
  return (1u << i) | L(r...);
}

enum Ev { ALLOC, DEALLOC, VCTOR, CCTOR, MCTOR, CASSIGN, MASSIGN, VASSIGN, DTOR, NEV };
extern const char* const ev_name[NEV];
extern long cnt[2][NEV];  // [inside an allocator block?][event]

// ---- shared with the supervising parent process (survives a crash of the child)
struct Shared {
  volatile long cur;        // index of the case being run
  volatile long progress;   // bumped by every operation
  volatile int done;
  volatile int reported;    // a violation was reported by the monitor
  volatile Labels op_labels;  // what the operation in progress is about
  volatile Labels ctx;        // context: fault injected, alias, valueless operand, ...
  volatile int phase;       // matrix cases: 0 preparing, 1 in the operation under test, 2 after it
  volatile Labels sticky;   // what the operation under test was about
  volatile Labels viol_labels;
  char viol_oracle[64];
  char viol_text[2048];
  volatile unsigned hist_len;
  char hist[1 << 16];
};
extern Shared* sh;
void init_shared();
void hist(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hist_reset();

// Reports a violation of `l` (plus the current context labels) and ends the process.
[[noreturn]] void fail(Labels l, const char* oracle, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
// As fail for violations after which execution can go on: when `focus` is set and does not include
// the violated properties, notes that the run has diverged from the model and returns.
void soft(Labels l, const char* oracle, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
extern Labels focus;
extern bool diverged;
// As fail, without adding context labels.
[[noreturn]] void fail_only(Labels l, const char* oracle, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));

// ---- window: an operation of the library is in progress
extern int window;      // > 0: counting events and global new/delete belong to the library
extern int internal;    // > 0: monitor code is running
struct Internal {
  Internal() { ++internal; }
  ~Internal() { --internal; }
};
// Opens a window: resets the counters and arms the pending fault, if any.
struct Window {
  Window();
  ~Window();
};
extern long pending_fault;  // 0: none; k: let the k-th fault point of the next window fail
extern int pending_flavour;

// ---- blocks
template <class T>
struct Tag {
  static char x;
};
template <class T>
char Tag<T>::x;
template <class T>
const void* tag() {
  return &Tag<T>::x;
}
const int LABEL = 1000;  // arenas are compared modulo LABEL
const int ARENA_NEW = 0;  // blocks obtained from global operator new
void* block_alloc(std::size_t n, std::size_t size, std::size_t align, const void* ty, int arena,
                  bool hooked);
void block_free(void* p, std::size_t n, std::size_t size, const void* ty, int arena,
                bool any_arena, bool hooked);
// the block containing [p, p+size), or nullptr-like result
struct BlockInfo {
  bool found;
  const char* base;
  std::size_t bytes;
  int arena;
  long serial;
};
BlockInfo block_of(const void* p, std::size_t size);
long live_blocks();
long live_objs_in_blocks();
long live_objs();
std::string describe_live();

// ---- allocator construct/destroy hooks
void hook_construct_begin(const void* p, std::size_t size, const void* ty, int arena);
void hook_construct_end(bool ok);
void hook_destroy_begin(const void* p, std::size_t size, const void* ty, int arena,
                        bool any_arena);
void hook_destroy_end();
// engine: the owned object at p of type ty must have been constructed through a hook
void hook_expect(const void* p, const void* ty, int arena, bool any_arena, Labels l);

// ---- objects
void obj_ctor(const void* p, std::size_t size, int type, Ev ev);
void obj_dtor(const void* p, int type);
void obj_event(const void* p, int type, Ev ev);
bool obj_alive(const void* p, int type);
void require_alive(const void* p, int type, const char* what);

// ---- faults
struct Fault : std::runtime_error {
  int serial;
  explicit Fault(int s) : std::runtime_error("injected"), serial(s) {}
};
struct AllocFault : std::bad_alloc {
  int serial;
  explicit AllocFault(int s) : serial(s) {}
};
struct OddFault {  // not a std::exception
  int serial;
};
struct FaultCtl {
  bool armed;
  long countdown;
  bool fired;
  int serial;
  int flavour;          // 0: std::exception derived, 1: not derived from std::exception
  const char* site;     // where it fired
  bool after;           // fired after an assignment took effect
  long passed;          // fault points passed in this window
};
extern FaultCtl fc;
void fault_arm(long k, int flavour);
void fault_disarm();
void fault_point(const char* site, bool alloc = false, bool after = false);

void reset_counts();
void reset_case();  // forget the ledger; used between cases after leak checks

// ---- RNG
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  unsigned below(unsigned n) { return static_cast<unsigned>((next() >> 11) % n); }
  bool chance(unsigned pct) { return below(100) < pct; }
};
inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline std::uint64_t fnv(const std::string& s, std::uint64_t h = 1469598103934665603ull) {
  return fnv(s.data(), s.size(), h);
}

// ---- coverage, per property: how many checked operations, and which distinct ones
void cover(Labels l, std::uint64_t signature, const std::string& sample_src);
void cover_fast(Labels l, std::uint64_t signature);
bool cover_want_sample(Labels l);
void cover_save(const char* path);

}  // namespace mon
#endif
