// polymorphic over a virtual hierarchy, non-propagating and hooked allocators.
#include "subject.h"
using namespace vt;
typedef List<BaseV, V1, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13> All;
typedef List<V1, V3, V9> Few;
#define CFG(n, L, ...) \
  static Register reg_##n(make_poly<BaseV, MonAlloc<BaseV, Cfg<__VA_ARGS__>>>("BaseV", #n, L()));
//                   copy   move   swap   ae     sel    hook
CFG(fff_hook, All, false, false, false, false, false, true)
CFG(tff, Few, true, false, false, false, false, false)
CFG(ftf, Few, false, true, false, false, false, false)
CFG(fft, Few, false, false, true, false, false, false)
CFG(fff_ae, Few, false, false, false, true, false, false)
CFG(fff_nodflt, Few, false, false, false, false, false, false, false)
