// indirect over plain and library types.
#include "subject.h"
using namespace vt;
typedef Cfg<false, false, false, false, false, true> F;
#define TYPE(N, ...)                                                                                 \
  typedef __VA_ARGS__ Ty_##N;                                                                        \
  static Register reg_f_##N(new IndSubject<Ty_##N, MonAlloc<Ty_##N, F>>(#__VA_ARGS__, "fff_hook"));       \
  static Register reg_s_##N(new IndSubject<Ty_##N, std::allocator<Ty_##N>>(#__VA_ARGS__, "std"));
TYPE(l, long)
TYPE(t, Triv)
TYPE(tb, TrivBig)
TYPE(e, EmptyT)
TYPE(s, std::string)
TYPE(v, std::vector<int>)
TYPE(u, std::unique_ptr<long>)
TYPE(sp, std::shared_ptr<long>)
TYPE(d, double)
TYPE(en, Enum)
TYPE(cs, Cstr)
static Register reg_fa(new IndSubject<TrivAligned, MonAlloc<TrivAligned, F>>("TrivAligned", "fff_hook"));
#if __cplusplus >= 201703L  // std::allocator ignores over-alignment before C++17
static Register reg_sa(new IndSubject<TrivAligned, std::allocator<TrivAligned>>("TrivAligned", "std", false));
#endif
