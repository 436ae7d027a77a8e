#include "bit_test.h"
using namespace vp;
VP_SUITE(bitset_127, 1) { bitset_test<127>::run(r); }
VP_SUITE(bitset_128, 1) { bitset_test<128>::run(r); }
VP_SUITE(bitset_129, 1) { bitset_test<129>::run(r); }
VP_SUITE(bitset_192, 1) { bitset_test<192>::run(r); }
VP_SUITE(bitset_200, 1) { bitset_test<200>::run(r); }
VP_SUITE(bitset_257, 1) { bitset_test<257>::run(r); }
