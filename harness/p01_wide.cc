// P01: variants of more than 255 alternatives.
#include "p01.h"
using namespace vp;
namespace wide_raw {
#define NS cista::raw
#include "wide.inc"
#undef NS
}  // namespace wide_raw
namespace wide_off {
#define NS cista::offset
#include "wide.inc"
#undef NS
}  // namespace wide_off

#define RUN(ns) \
  switch (r.below(2)) { \
    case 0: return ns::round_trip_wide<NONE>(r); \
    default: return ns::round_trip_wide<INTEG>(r); \
  }
VP_SUITE_NOBALANCE(raw_wide_variants, 1) { RUN(wide_raw) }
VP_SUITE_NOBALANCE(off_wide_variants, 1) { RUN(wide_off) }
