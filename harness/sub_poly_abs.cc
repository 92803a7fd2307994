// polymorphic over an abstract base.
#include "subject.h"
using namespace vt;
typedef Cfg<false, false, false, false, true, false> F;
typedef Cfg<true, true, true, false, false, true> TH;
static Register reg_f(make_poly<BaseA, MonAlloc<BaseA, F>>("BaseA", "fff_sel", List<A1, A2>()));
static Register reg_t(make_poly<BaseA, MonAlloc<BaseA, TH>>("BaseA", "ttt_hook", List<A1, A2>()));
