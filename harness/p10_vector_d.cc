// P10: vectors whose sizes take eight bytes.
#include "vec_test.h"

namespace {
template <typename T>
using rv64 = cista::basic_vector<T, cista::raw::ptr, false, std::uint64_t>;
template <typename T>
using ov64 = cista::basic_vector<T, cista::offset::ptr, false, std::uint64_t>;

// sizes no memory can hold are refused, without a change
template <typename V>
void impossible(rng& r) {
  using T = typename V::value_type;
  V v;
  std::vector<T> m;
  for (auto n = r.below(20); n != 0U; --n) {
    auto const x = static_cast<T>(r.value());
    v.push_back(x);
    m.push_back(x);
  }
  for (int k = 0; k != 6; ++k) {
    auto const most = std::numeric_limits<std::uint64_t>::max() / sizeof(T);
    auto const d = r.below(20);
    std::uint64_t const sizes[] = {std::numeric_limits<std::uint64_t>::max() - d, most + 1U + d, (std::uint64_t{1} << 63U) + d, (std::uint64_t{1} << 62U) + d,
                                   (std::uint64_t{1} << 61U) + d, (std::uint64_t{1} << 60U) + d};
    auto const n = sizes[r.below(6)];
    auto const how = r.below(3);
    op("%s(%llu)", how == 0 ? "reserve" : how == 1 ? "resize" : "resize with a value", static_cast<unsigned long long>(n));
    bool thrown = false;
    try {
      if (how == 0) v.reserve(n); else if (how == 1) v.resize(n); else v.resize(n, T{});
    } catch (std::exception const&) {
      thrown = true;
    }
    VP_CHECK(thrown, "accepted", "room for %llu elements of %zu bytes", static_cast<unsigned long long>(n), sizeof(T));
    VP_CHECK(v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin()), "changed", "a refused size changed the vector");
    ev("impossible_size");
    v.push_back(T{});
    m.push_back(T{});
    distinct(mix(n, how));
  }
}
}  // namespace

VP_SUITE(v_size64_raw, 2) { vec_test<rv64<std::int64_t>>::run(r); }
VP_SUITE(v_size64_off, 2) { vec_test<ov64<short>>::run(r); }
#ifndef VP_VALGRIND  // (which reports such sizes)
VP_SUITE(v_impossible_raw, 1) { impossible<rv64<std::int64_t>>(r); }
VP_SUITE(v_impossible_off, 1) { impossible<ov64<std::uint16_t>>(r); }
#endif
