#include "p01.h"
using namespace vp;
#define FULL(t, raw, a) round_trip<t, raw, true>::run(r)
#define RECURSIVE(t, raw, a) round_trip<t, raw, !std::is_same_v<t, offt::graph>>::run_no_static(r)
#define NOHASH(t, raw, a) round_trip<t, raw, true>::run_unversioned(r)
#define TYPE(name, t, raw, weight, kind, a) \
  VP_SUITE_NOBALANCE(name, weight) { kind(t, raw, a); }
#include "ser_parts.inc"
#if VP_PART == 0
VP_MAIN()
#endif
