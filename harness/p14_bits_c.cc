#include "bit_test.h"
using namespace vp;
VP_SUITE(bitvec_raw, 5) { bitvec_test<cista::raw::bitvec>::run(r); }
VP_SUITE(bitvec_off, 5) { bitvec_test<cista::offset::bitvec>::run(r); }
VP_SUITE(bitvec_u32, 2) { bitvec_test<cista::basic_bitvec<cista::raw::vector<std::uint32_t>>>::run(r); }
