// P16: vecvec.
#include "jag_test.h"
namespace cr = cista::raw;
namespace co = cista::offset;
namespace vp {
using skey = cista::strong<std::uint32_t, struct skey_>;
VP_SUITE(vv_int_raw, 3) { vecvec_test<cr::vecvec<std::uint32_t, int>, std::uint32_t>::run(r); }
VP_SUITE(vv_char_off, 4) { vecvec_test<co::vecvec<std::uint32_t, char>, std::uint32_t>::run(r); }
VP_SUITE(vv_u64_strong, 3) { vecvec_test<cr::vecvec<skey, std::uint64_t>, skey>::run(r); }
VP_SUITE(vv_str_off, 4) { vecvec_test<co::vecvec<std::uint32_t, co::string>, std::uint32_t>::run(r); }
VP_SUITE(vv_str_strong_raw, 3) { vecvec_test<cr::vecvec<skey, cr::string>, skey>::run(r); }
}  // namespace vp
VP_MAIN()
