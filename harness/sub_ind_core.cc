// indirect over one rich type, all combinations of allocator traits.
#include "subject.h"
using namespace vt;
#define CFG(n, ...)                                                                             \
  static Register reg_##n(new IndSubject<Full, MonAlloc<Full, Cfg<__VA_ARGS__>>>("Full", #n));
//            copy   move   swap   ae     sel    hook
CFG(fff, false, false, false, false, false, false)
CFG(tff, true, false, false, false, false, false)
CFG(ftf, false, true, false, false, false, false)
CFG(fft, false, false, true, false, false, false)
CFG(tft, true, false, true, false, false, false)
CFG(ftt, false, true, true, false, true, false)
CFG(ttt, true, true, true, false, false, false)
CFG(ttf_sel, true, true, false, false, true, false)
CFG(fff_sel_hook, false, false, false, false, true, true)
CFG(ttt_hook, true, true, true, false, false, true)
CFG(fff_ae, false, false, false, true, false, false)
CFG(ttt_ae_hook, true, true, true, true, true, true)
CFG(fff_nodflt, false, false, false, false, false, false, false)
static Register reg_e(new IndSubject<Full, EmptyAlloc<Full>>("Full", "empty"));
static Register reg_f(new IndSubject<Full, FinalAlloc<Full>>("Full", "final"));
static Register reg_m(new IndSubject<Full, MinimalAlloc<Full>>("Full", "minimal"));
static Register reg_s(new IndSubject<Full, std::allocator<Full>>("Full", "std"));
