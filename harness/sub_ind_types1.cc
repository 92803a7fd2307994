// indirect over types with every mix of copy, move and assignment.
#include "subject.h"
using namespace vt;
typedef Cfg<false, false, false, false, false, false> F;
typedef Cfg<true, true, true, false, true, true> TH;
#define TYPE(T)                                                             \
  static Register reg_f_##T(new IndSubject<T, MonAlloc<T, F>>(#T, "fff"));  \
  static Register reg_t_##T(new IndSubject<T, MonAlloc<T, TH>>(#T, "ttt_sel_hook"));
TYPE(FullNX)
TYPE(CopyOnly)
TYPE(NoAssign)
TYPE(MoveOnly)
TYPE(MoveOnlyNoAssign)
TYPE(VoidAssign)
TYPE(MoveAssignOnly)
TYPE(CopyAssignOnly)
TYPE(FullNC)
TYPE(FullNCX)
