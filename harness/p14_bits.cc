#include "bit_test.h"
using namespace vp;
VP_SUITE(bitset_1, 1) { bitset_test<1>::run(r); }
VP_SUITE(bitset_2, 1) { bitset_test<2>::run(r); }
VP_SUITE(bitset_13, 1) { bitset_test<13>::run(r); }
VP_SUITE(bitset_63, 1) { bitset_test<63>::run(r); }
VP_SUITE(bitset_64, 1) { bitset_test<64>::run(r); }
VP_SUITE(bitset_65, 1) { bitset_test<65>::run(r); }
VP_SUITE(bitset_100, 1) { bitset_test<100>::run(r); }
VP_MAIN()
