// P10: vectors vs std::vector, trivially copyable elements.
#include "vec_test.h"

template <typename K, typename V>
using rmap = cista::raw::vector_map<K, V>;
using k8 = cista::strong<std::uint8_t, struct k8_>;
using k16 = cista::strong<std::uint16_t, struct k16_>;

VP_SUITE(v_int_raw, 6) { vec_test<cista::raw::vector<int>>::run(r); }
VP_SUITE(v_int_off, 6) { vec_test<cista::offset::vector<int>>::run(r); }
VP_SUITE(v_u8_off, 3) { vec_test<cista::offset::vector<unsigned char>>::run(r); }
VP_SUITE(v_pod_raw, 3) { vec_test<cista::raw::vector<pod>>::run(r); }
VP_SUITE(v_dbl_off, 2) { vec_test<cista::offset::vector<double>>::run(r); }
VP_SUITE(v_idx, 2) { vec_test<cista::offset::indexed_vector<std::uint64_t>>::run(r); }
VP_SUITE(v_map8, 3) { vec_test<rmap<k8, int>>::run(r); }
VP_SUITE(v_map16, 2) { vec_test<cista::offset::vector_map<k16, short>>::run(r); }

VP_MAIN()
