// P09: non-trivial keys and values.
#include "hash_test.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;
VP_SUITE(map_str_raw, 4) { hash_test<cr::hash_map<cr::string, cr::string>, true>::run(r); }
VP_SUITE(map_str_off, 4) { hash_test<co::hash_map<co::string, int>, true>::run(r); }
VP_SUITE(set_str_off, 3) { hash_test<co::hash_set<co::string>, false>::run(r); }
VP_SUITE(map_tracked, 4) {
  reset_life();
  hash_test<cr::hash_map<tracked, tracked>, true>::run(r);
  check_life(0, "end of history");
}
VP_SUITE(set_tracked, 3) {
  reset_life();
  hash_test<co::hash_set<tracked, h_low2<tracked>>, false>::run(r);
  check_life(0, "end of history");
}
VP_SUITE(map_pod_key, 3) { hash_test<co::hash_map<pod, co::vector<int>>, true>::run(r); }
