#include "p08.h"
using namespace vp;
#define TYPE(name, t, raw, weight, kind, a) \
  VP_SUITE_NOBALANCE(name, weight) { NSM::in_image<t>::run(r); }
#include "ser_parts.inc"
#if VP_PART == 0
VP_MAIN()
#endif
