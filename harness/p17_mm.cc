// P17: mutable_fws_multimap.
#include "mm_test.h"
namespace cr = cista::raw;
namespace co = cista::offset;
namespace vp {
using skey = cista::strong<std::uint32_t, struct mm_skey_>;
VP_SUITE(mm_int_raw, 4) { mm_test<cr::mutable_fws_multimap<std::uint32_t, int>, std::uint32_t, 20, 200>::run(r); }
VP_SUITE(mm_pod_off, 3) { mm_test<co::mutable_fws_multimap<std::uint32_t, pod>, std::uint32_t, 20, 200>::run(r); }
VP_SUITE(mm_strong, 3) { mm_test<co::mutable_fws_multimap<skey, std::uint16_t>, skey, 20, 200>::run(r); }
VP_SUITE(mm_limit3, 3) { mm_test<cr::mutable_fws_multimap<std::uint32_t, std::uint64_t, 3>, std::uint32_t, 3, 200>::run(r); }
VP_SUITE(mm_limit0, 1) { mm_test<co::mutable_fws_multimap<std::uint32_t, char, 0>, std::uint32_t, 0, 200>::run(r); }
VP_SUITE(mm_steady_raw, 1) { mm_steady<cr::mutable_fws_multimap<std::uint32_t, int>>(r); }
}  // namespace vp
VP_MAIN()
