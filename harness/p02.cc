#include "p02.h"
using namespace vp;
#define FULL(t, raw, a) image_facts<t, raw, a, true>::run(r)
#define RECURSIVE(t, raw, a) image_facts<t, raw, a, false>::run(r)
#define NOHASH(t, raw, a) image_facts<t, raw, a, false>::run_unversioned(r)
#define TYPE(name, t, raw, weight, kind, a) \
  VP_SUITE_NOBALANCE(name, weight) { kind(t, raw, a); }
#include "ser_parts.inc"
#if VP_PART == 0
VP_MAIN()
#endif
