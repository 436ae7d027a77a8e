#include "hash_test.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;
VP_SUITE(set_u64_high, 3) { hash_test<co::hash_set<std::uint64_t, h_high<std::uint64_t>>, false>::run(r); }
VP_SUITE(set_u64_tag, 3) { hash_test<cr::hash_set<std::uint64_t, h_tag<std::uint64_t>>, false>::run(r); }
VP_SUITE(set_u8, 2) { hash_test<co::hash_set<std::uint8_t>, false>::run(r); }
VP_SUITE(map_u64_ident, 2) { hash_test<cr::hash_map<std::uint64_t, pod, h_ident<std::uint64_t>>, true>::run(r); }
VP_SUITE(churn_low2, 1) { hash_test<cr::hash_set<std::uint64_t, h_low2<std::uint64_t>>, false>::churn(r); }
VP_SUITE(churn_ident, 1) { hash_test<co::hash_set<std::uint64_t, h_ident<std::uint64_t>>, false>::churn(r); }
