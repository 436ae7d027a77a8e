// P17: multimaps with other index types, paged storage.
#include "mm_test.h"
namespace cr = cista::raw;
namespace co = cista::offset;
namespace vp {
VP_SUITE(mm_u64, 2) { mm_test<co::mutable_fws_multimap<std::uint64_t, int, 6>, std::uint64_t, 6, 200>::run(r); }
VP_SUITE(paged_int, 3) { paged_run<cista::paged<cr::vector<int>>>(r); }
VP_SUITE(paged_char, 2) { paged_run<cista::paged<co::vector<char>>>(r); }
VP_SUITE(paged_pod, 1) { paged_run<cista::paged<co::vector<pod>>>(r); }
VP_SUITE(paged_steady_int, 1) { paged_steady<cista::paged<cr::vector<std::uint32_t>>>(r); }
VP_SUITE(paged_u64, 1) { paged_run<cista::paged<co::vector<std::uint64_t>, std::uint64_t>>(r); }
// Every capacity up to the largest one is reached, recycled and cleared.
VP_SUITE(paged_max32, 2) { paged_run<cista::paged<cr::vector<std::uint32_t>, std::uint32_t, std::uint16_t, 4, 32>>(r); }
VP_SUITE(paged_max64_small_size, 1) { paged_run<cista::paged<co::vector<std::uint16_t>, std::uint32_t, std::uint8_t, 8, 64>>(r); }
}  // namespace vp
