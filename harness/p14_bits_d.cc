// P14: wide fixed widths.
#include "bit_test.h"
using namespace vp;
VP_SUITE(bitset_1000, 1) { bitset_test<1000>::run(r); }
VP_SUITE(bitset_4160, 1) { bitset_test<4160>::run(r); }
VP_SUITE(bitset_16389, 1) { bitset_test<16389>::run(r); }
