// P12: variants with very many alternatives.
#include <utility>
#include "common.h"
#include "cista/containers/variant.h"
#include "cista/hashing.h"
using namespace vp;

namespace {
template <std::size_t I>
struct nth {
  int v{static_cast<int>(I)};
  friend bool operator==(nth const& a, nth const& b) { return a.v == b.v; }
  friend bool operator!=(nth const& a, nth const& b) { return a.v != b.v; }
  friend bool operator<(nth const& a, nth const& b) { return a.v < b.v; }
  friend bool operator>(nth const& a, nth const& b) { return a.v > b.v; }
  friend bool operator<=(nth const& a, nth const& b) { return a.v <= b.v; }
  friend bool operator>=(nth const& a, nth const& b) { return a.v >= b.v; }
  friend int which(nth const&) { return static_cast<int>(I); }
};

template <typename V, std::size_t N, std::size_t... I>
void many_alternatives(rng& r, std::index_sequence<I...>) {
  static_assert(cista::variant_size_v<V> == N);
  auto const val = static_cast<int>(r.below(10000));
  std::vector<V> all;
  (all.emplace_back(nth<I>{val}), ...);
  std::size_t const idx[] = {I...};
  for (std::size_t k = 0; k != all.size(); ++k) {
    auto& v = all[k];
    VP_CHECK(v.valid() && v.index() == idx[k], "index", "alternative %zu of %zu reports index %zu", idx[k], N, v.index());
    int calls = 0, seen = -1, type = -1;
    v.apply([&](auto&& x) { ++calls; seen = x.v; type = which(x); });
    VP_CHECK(calls == 1 && seen == val && type == static_cast<int>(idx[k]), "visit", "alternative %zu of %zu: %d calls, as %d, value %d instead of %d", idx[k], N, calls, type, seen, val);
    V const c{v};
    calls = 0;
    c.apply([&](auto&& x) { ++calls; type = which(x); });
    VP_CHECK(calls == 1 && type == static_cast<int>(idx[k]) && c.index() == idx[k] && c == v && !(c != v) && c.hash() == v.hash(), "copy", "alternative %zu of %zu", idx[k], N);
    for (std::size_t j = 0; j != all.size(); ++j) {
      auto const& o = all[j];
      VP_CHECK((v == o) == (k == j) && (v < o) == (idx[k] < idx[j]) && (v > o) == (idx[k] > idx[j]), "order", "alternatives %zu and %zu of %zu", idx[k], idx[j], N);
    }
    V w{all[r.below(all.size())]};
    w = v;
    VP_CHECK(w == v && w.index() == idx[k], "assign", "alternative %zu of %zu", idx[k], N);
    V e;
    VP_CHECK(!e.valid() && !(e == v), "empty", "no value");
    e.swap(w);
    VP_CHECK(e == v && !w.valid(), "swap", "alternative %zu of %zu swapped with nothing", idx[k], N);
    ev("many_alternatives");
    distinct(mix(N, idx[k]));
  }
  ([&] {
    auto const& v = all[r.below(all.size())];
    VP_CHECK(cista::holds_alternative<nth<I>>(v) == (v.index() == I) && (cista::get_if<I>(v) != nullptr) == (v.index() == I), "holds", "alternative %zu of %zu", I, N);
  }(), ...);
}
template <typename S> struct variant_of;
template <std::size_t... I> struct variant_of<std::index_sequence<I...>> { using type = cista::variant<nth<I>...>; };
template <std::size_t N> using variant_with = typename variant_of<std::make_index_sequence<N>>::type;


// (every use of such a variant takes long to compile)
template <typename V, std::size_t N, std::size_t... I>
void too_many_alternatives(rng& r, std::index_sequence<I...>) {
  static_assert(cista::variant_size_v<V> == N);
  auto const val = static_cast<int>(r.below(10000));
  ([&] {
    V v{nth<I>{val}};
    VP_CHECK(v.valid() && v.index() == I, "index", "alternative %zu of %zu reports index %zu", I, N, v.index());
    V c{v};
    int calls = 0, seen = -1, type = -1;
    c.apply([&](auto&& x) { ++calls; seen = x.v; type = which(x); });
    VP_CHECK(calls == 1 && seen == val && type == static_cast<int>(I), "visit", "alternative %zu of %zu: %d calls, as %d, value %d instead of %d", I, N, calls, type, seen, val);
    VP_CHECK(c.index() == I && cista::holds_alternative<nth<I>>(c) && cista::get_if<I>(c) != nullptr, "copy", "alternative %zu of %zu", I, N);
    V const d;
    VP_CHECK(!d.valid() && cista::get_if<I>(d) == nullptr && !cista::holds_alternative<nth<I>>(d), "empty", "alternative %zu of %zu", I, N);
    ev("too_many_alternatives");
    distinct(mix(N, I));
  }(), ...);
}
}  // namespace

#if VP_PART == 0
VP_SUITE(variant_33, 1) { many_alternatives<variant_with<33>, 33>(r, std::index_sequence<0, 1, 14, 15, 16, 17, 30, 31, 32>{}); }
#else
VP_SUITE(variant_257, 1) { too_many_alternatives<variant_with<257>, 257>(r, std::index_sequence<0, 16, 254, 255, 256>{}); }
#endif
