// P17: paged_vecvec.
#include "mm_test.h"
namespace cr = cista::raw;
namespace co = cista::offset;
namespace vp {
using pkey = cista::strong<std::uint32_t, struct pv_key_>;
template <template <typename> typename Vec, typename T, typename K>
using pvv = cista::paged_vecvec<Vec<cista::page<std::uint32_t, std::uint16_t>>, cista::paged<Vec<T>>, K>;
template <typename T> using rv = cr::vector<T>;
template <typename T> using ov = co::vector<T>;
VP_SUITE(pvv_int, 3) { pvv_test<pvv<rv, int, std::uint32_t>, std::uint32_t>::run(r); }
VP_SUITE(pvv_u64, 3) { pvv_test<pvv<ov, std::uint64_t, std::uint32_t>, std::uint32_t>::run(r); }
VP_SUITE(pvv_char, 3) { pvv_test<pvv<ov, char, std::uint32_t>, std::uint32_t>::run(r); }
VP_SUITE(pvv_strong, 2) { pvv_test<pvv<rv, std::uint16_t, pkey>, pkey>::run(r); }
template <typename T>
using pvv32 = cista::paged_vecvec<ov<cista::page<std::uint32_t, std::uint16_t>>, cista::paged<ov<T>, std::uint32_t, std::uint16_t, 4, 32>, std::uint32_t>;
VP_SUITE(pvv_max32, 3) { pvv_test<pvv32<std::uint32_t>, std::uint32_t>::run(r); }
}  // namespace vp
