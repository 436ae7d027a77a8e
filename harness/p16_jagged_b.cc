// P16: vecvec with lifetimes and other size types, multimap, matrix.
#include "jag_test.h"
namespace cr = cista::raw;
namespace co = cista::offset;
namespace vp {
using skey8 = cista::strong<std::uint16_t, struct skey8_>;
VP_SUITE(vv_tracked, 4) {
  reset_life();
  vecvec_test<co::vecvec<std::uint32_t, tracked>, std::uint32_t>::run(r);
  check_life(0, "end of history");
}
VP_SUITE(vv_u64index, 2) { vecvec_test<cr::vecvec<std::uint64_t, pod>, std::uint64_t>::run(r); }
VP_SUITE(vv_std, 2) {
  vecvec_test<cista::basic_vecvec<std::uint32_t, std::vector<int>, std::vector<std::uint32_t>>, std::uint32_t>::run(r);
}
VP_SUITE(fws_int, 2) { fws_test<cr::fws_multimap<std::uint32_t, int>>::run(r); }
VP_SUITE(fws_str, 2) { fws_test<co::fws_multimap<std::uint32_t, co::string>>::run(r); }
VP_SUITE(fws_u64, 1) { fws_test<co::fws_multimap<std::uint64_t, std::uint8_t>>::run(r); }
VP_SUITE(mat_int, 2) { matrix_run<cr::flat_matrix<int>>(r, [](auto a, auto b, int x) { return cr::make_flat_matrix<int>(a, b, x); }); }
VP_SUITE(mat_char, 1) { matrix_run<co::flat_matrix<char>>(r, [](auto a, auto b, char x) { return co::make_flat_matrix<char>(a, b, x); }); }
VP_SUITE(mat_str, 2) { matrix_run<co::flat_matrix<co::string>>(r, [](auto a, auto b, co::string const& x) { return co::make_flat_matrix<co::string>(a, b, x); }); }
}  // namespace vp
