// Allocators that cannot be assigned (as std::pmr::polymorphic_allocator cannot).
#include "subject.h"
using namespace vt;
typedef Cfg<false, false, false, false, false, false, true, false> NA;
typedef Cfg<false, false, false, false, true, true, false, false> NAH;
typedef Cfg<false, false, true, false, false, false, true, false> NAS;
static Register r1(new IndSubject<Full, MonAlloc<Full, NA>>("Full", "fff_noassign"));
static Register r2(new IndSubject<CopyOnly, MonAlloc<CopyOnly, NAH>>("CopyOnly", "fff_sel_hook_nodflt_noassign"));
static Register r3(make_poly<BaseV, MonAlloc<BaseV, NA>>("BaseV", "fff_noassign", List<V1, V3, V6>()));
static Register r4(make_poly<BaseNV, MonAlloc<BaseNV, NAH>>("BaseNV", "fff_sel_hook_nodflt_noassign", List<N1, N2>()));
static Register r9(new IndSubject<Full, MonAlloc<Full, NAS>>("Full", "fft_noassign"));
static Register r10(make_poly<BaseNV, MonAlloc<BaseNV, NAS>>("BaseNV", "fft_noassign", List<N1, N2>()));
#if __cplusplus >= 201703L
static Register r5(new IndSubject<Full, PmrAlloc<Full>>("Full", "pmr", false));
static Register r6(make_poly<BaseV, PmrAlloc<BaseV>>("BaseV", "pmr", List<V1, V6, V9>(), false));
#endif
#if VT_HDR == 20
static Register r7(new IndSubject<Full, FancyAlloc<Full, false>>("Full", "fancy_fff", false));
static Register r8(new IndSubject<Full, FancyAlloc<Full, true>>("Full", "fancy_ttt", false));
#endif
