// P09: integer keys under hash functions of every quality.
#include "hash_test.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;

VP_SUITE(map_int_raw, 6) { hash_test<cr::hash_map<int, int>, true>::run(r); }
VP_SUITE(map_int_off, 6) { hash_test<co::hash_map<int, int>, true>::run(r); }
VP_SUITE(map_u64_const, 2) { hash_test<co::hash_map<std::uint64_t, int, h_const<std::uint64_t>>, true>::run(r); }
VP_SUITE(map_u64_low2, 3) { hash_test<cr::hash_map<std::uint64_t, std::uint64_t, h_low2<std::uint64_t>>, true>::run(r); }
VP_SUITE(churn_int, 1) { hash_test<cr::hash_map<int, int>, true>::churn(r); }
VP_SUITE(churn_const, 1) { hash_test<co::hash_map<std::uint64_t, int, h_const<std::uint64_t>>, true>::churn(r); }

VP_MAIN()
