// A program made of named cases, each run under the monitor; casemain.cc supervises.
#ifndef VT_CASES_H
#define VT_CASES_H
#include "compat.h"
#include "mon.h"

namespace vt {
struct Case {
  const char* name;
  mon::Labels labels;  // what a crash or hang in it violates
  void (*fn)(mon::Rng&);
  int repeat;  // how many times it is run, with different random numbers (scaled by --scale)
  Case* next;
};
extern Case* all_cases;
struct RegCase {
  RegCase(Case* c) {
    c->next = all_cases;
    all_cases = c;
  }
};
// counts an evaluation of the property's oracle on the given configuration
void seen(mon::Labels l, std::uint64_t signature);
template <class... Ts>
std::uint64_t sig(const char* name, Ts... ts) {
  long k[] = {static_cast<long>(ts)..., 0};
  return mon::fnv(k, sizeof k, mon::fnv(std::string(name)));
}
extern const char* case_name;
extern bool thorough;
}  // namespace vt
#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#define CASE(NAME, LABELS, REPEAT)                                                      \
  static void NAME(mon::Rng&);                                                          \
  static vt::Case VT_CAT(case_, NAME) = {#NAME, LABELS, NAME, REPEAT, nullptr};         \
  static vt::RegCase VT_CAT(reg_, NAME)(&VT_CAT(case_, NAME));                          \
  static void NAME(mon::Rng& rng)
#define REQ(LABELS, COND)                                                               \
  do {                                                                                  \
    if (!(COND)) mon::soft(LABELS, "expectation", "%s:%d: %s", __FILE__, __LINE__, #COND); \
  } while (0)
#define REQF(LABELS, COND, ...)                                                         \
  do {                                                                                  \
    if (!(COND)) mon::soft(LABELS, "expectation", __VA_ARGS__);                         \
  } while (0)
#endif
