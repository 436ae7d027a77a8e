// P10: vectors vs std::vector, elements with non-trivial lifetime.
#include "vec_test.h"

namespace cr = cista::raw;
namespace co = cista::offset;

VP_SUITE(v_tracked_raw, 4) {
  reset_life();
  vec_test<cr::vector<tracked>>::run(r);
  check_life(0, "end of history");
}
VP_SUITE(v_tracked_off, 4) {
  reset_life();
  vec_test<co::vector<tracked>>::run(r);
  check_life(0, "end of history");
}
VP_SUITE(v_str_raw, 3) { vec_test<cr::vector<cr::string>>::run(r); }
VP_SUITE(v_str_off, 4) { vec_test<co::vector<co::string>>::run(r); }
