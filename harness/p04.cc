#include "p04.h"
using namespace vp;
#define FULL(t, raw, a) hostile<t, raw>::run(r)
#define RECURSIVE(t, raw, a) hostile<t, raw>::run(r)
#define NOHASH(t, raw, a) hostile<t, raw, !std::is_same_v<t, offt::rtrees> && !std::is_same_v<t, rawt::rtrees>>::run(r)
#define TYPE(name, t, raw, weight, kind, a) \
  VP_SUITE_NOBALANCE(name, weight) { kind(t, raw, a); }
#include "ser_parts.inc"
#if VP_PART == 0
VP_MAIN()
#endif
