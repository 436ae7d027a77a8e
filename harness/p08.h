#pragma once
#define VP_NO_LINKS 1
#include "mutate.h"
// parts 0 to 5 hold the relative pointer types, the others the plain ones
#if VP_PART < 6
namespace offt {
#define NSM offt
#include "p08_graph.inc"
#include "mutate.inc"
#include "p08_special.inc"
#include "p08_image.inc"
}  // namespace offt
#else
namespace rawt {
#define NSM rawt
#include "p08_graph.inc"
#include "mutate.inc"
#include "p08_special.inc"
#include "p08_image.inc"
}  // namespace rawt
#endif
