// polymorphic over bases without virtual destructor, bases without any virtual
// function and trivial ones.
#include "subject.h"
using namespace vt;
typedef Cfg<false, false, false, false, true, false> F;
typedef Cfg<true, true, true, false, false, true> TH;
#define BASE(B, ...)                                                                              \
  static Register reg_f_##B(make_poly<B, MonAlloc<B, F>>(#B, "fff_sel", List<__VA_ARGS__>()));    \
  static Register reg_t_##B(make_poly<B, MonAlloc<B, TH>>(#B, "ttt_hook", List<__VA_ARGS__>()));
BASE(BaseNV, BaseNV, N1, N2)
BASE(BaseN, BaseN, M1, M2, M3)
BASE(BaseF, BaseF)
BASE(BaseNC, BaseNC, C1, C2)
BASE(TBase, TBase, TDer, TDerBig, TOff)
static Register reg_s(make_poly<BaseNV, std::allocator<BaseNV>>("BaseNV", "std", List<N1, N2>()));
