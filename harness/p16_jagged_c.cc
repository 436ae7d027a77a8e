// P16: nvec.
#include "jag_test.h"
namespace cr = cista::raw;
namespace co = cista::offset;
namespace vp {
using nkey = cista::strong<std::uint32_t, struct nkey_>;
VP_SUITE(nv2_int, 3) { nvec_test<cr::nvec<std::uint32_t, int, 2>, std::uint32_t, 2>::run(r); }
VP_SUITE(nv2_str, 3) { nvec_test<co::nvec<std::uint32_t, co::string, 2>, std::uint32_t, 2>::run(r); }
VP_SUITE(nv3_int, 3) { nvec_test<co::nvec<std::uint32_t, std::uint16_t, 3>, std::uint32_t, 3>::run(r); }
VP_SUITE(nv3_tracked, 2) {
  reset_life();
  nvec_test<cr::nvec<std::uint32_t, tracked, 3>, std::uint32_t, 3>::run(r);
  check_life(0, "end of history");
}
VP_SUITE(nv4_int, 2) { nvec_test<co::nvec<std::uint32_t, int, 4>, std::uint32_t, 4>::run(r); }
VP_SUITE(nv2_char, 1) { nvec_test<co::nvec<std::uint32_t, char, 2>, std::uint32_t, 2>::run(r); }
VP_SUITE(nv3_strong, 2) { nvec_test<cr::nvec<nkey, std::uint64_t, 3>, nkey, 3>::run(r); }
}  // namespace vp
