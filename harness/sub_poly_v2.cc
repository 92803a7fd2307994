// polymorphic over a virtual hierarchy, propagating allocators and the standard one.
#include "subject.h"
using namespace vt;
// without V6: std::allocator ignores over-alignment before C++17
typedef List<BaseV, V1, V3, V4, V5, V7, V8, V9, V10, V11, V12, V13> All;
typedef List<V1, V4, V6> Few;
#define CFG(n, L, ...) \
  static Register reg_##n(make_poly<BaseV, MonAlloc<BaseV, Cfg<__VA_ARGS__>>>("BaseV", #n, L()));
//                   copy   move   swap   ae     sel    hook
static Register reg_s(make_poly<BaseV, std::allocator<BaseV>>("BaseV", "std", All()));
CFG(ttt_sel, Few, true, true, true, false, true, false)
CFG(ttf_sel_hook, Few, true, true, false, false, true, true)
CFG(tft, Few, true, false, true, false, false, false)
CFG(ftt, Few, false, true, true, false, false, true)
CFG(ttt_ae_hook, Few, true, true, true, true, true, true)
static Register reg_e(make_poly<BaseV, EmptyAlloc<BaseV>>("BaseV", "empty", Few()));
static Register reg_f(make_poly<BaseV, FinalAlloc<BaseV>>("BaseV", "final", Few()));
static Register reg_m(make_poly<BaseV, MinimalAlloc<BaseV>>("BaseV", "minimal", Few()));
