// Which implementation is under test, and the spellings that differ between them.
// VT_HDR: 14 (the *_cxx14.h headers) or 20 (indirect.h, polymorphic.h).
// VT_ORDER: 0 indirect first, 1 polymorphic first.
#ifndef VT_COMPAT_H
#define VT_COMPAT_H
#include <memory>
#include <type_traits>
#include <utility>
#ifndef VT_HDR
#error "define VT_HDR"
#endif
#ifndef VT_ORDER
#define VT_ORDER 0
#endif
#if VT_HDR == 14
#if VT_ORDER == 0
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
#else
#include "polymorphic_cxx14.h"
#include "indirect_cxx14.h"
#endif
#else
#if VT_ORDER == 0
#include "indirect.h"
#include "polymorphic.h"
#else
#include "polymorphic.h"
#include "indirect.h"
#endif
#endif

namespace vt {
#if VT_HDR == 14
using in_place = xyz::in_place_t;
template <class U>
using in_place_type = xyz::in_place_type_t<U>;
#else
using in_place = std::in_place_t;
template <class U>
using in_place_type = std::in_place_type_t<U>;
#endif
template <bool B>
using B_ = std::integral_constant<bool, B>;
}  // namespace vt
#endif
