// P09: tables with many entries.
#include "hash_test.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;
VP_SUITE(large_int_raw, 1) { hash_test<cr::hash_map<int, int>, true>::run_large(r); }
VP_SUITE(large_u64_off, 1) { hash_test<co::hash_map<std::uint64_t, int>, true>::run_large(r); }
VP_SUITE(large_u64_ident, 1) { hash_test<co::hash_map<std::uint64_t, std::uint64_t, h_ident<std::uint64_t>>, true>::run_large(r); }
VP_SUITE(large_str_off, 1) { hash_test<co::hash_map<co::string, int>, true>::run_large(r); }
VP_SUITE(large_set_str_raw, 1) { hash_test<cr::hash_set<cr::string>, false>::run_large(r); }
VP_SUITE(large_tracked, 1) {
  reset_life();
  hash_test<cr::hash_map<tracked, tracked>, true>::run_large(r);
  check_life(0, "end of history");
}
