// indirect over types of unusual shape.
#include "subject.h"
using namespace vt;
typedef Cfg<false, false, false, false, false, false> F;
typedef Cfg<true, true, true, false, true, true> TH;
#define TYPE(T)                                                             \
  static Register reg_f_##T(new IndSubject<T, MonAlloc<T, F>>(#T, "fff"));  \
  static Register reg_t_##T(new IndSubject<T, MonAlloc<T, TH>>(#T, "ttt_sel_hook"));
TYPE(Hostile)
TYPE(OverAligned)
TYPE(Big)
TYPE(Virt)
TYPE(Greedy)
TYPE(Convertible)
#if __cplusplus >= 201703L  // std::allocator ignores over-alignment before C++17
static Register reg_s(new IndSubject<OverAligned, std::allocator<OverAligned>>("OverAligned", "std", false));
#endif
