// P04: variants of more than 255 alternatives.
#include "p04.h"
using namespace vp;
namespace wide_raw {
#define NS cista::raw
#include "wide.inc"
#undef NS
}  // namespace wide_raw
namespace wide_off {
#define NS cista::offset
#include "wide.inc"
#undef NS
}  // namespace wide_off

VP_SUITE_NOBALANCE(raw_wide_variants, 1) { wide_raw::hostile_wide(r); }
VP_SUITE_NOBALANCE(off_wide_variants, 1) { wide_off::hostile_wide(r); }
