// P12: members that can only be moved.
#include <variant>
#include "elems.h"
#include "cista/hashing.h"
#include "cista/containers/tuple.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;

namespace {
// tuples, pairs and variants that hold owning pointers
template <typename P>
void move_only(rng& r) {
  reset_life();
  {
    using tup = cista::tuple<P, std::uint8_t, P>;
    using var = cista::variant<int, P, std::uint64_t>;
    static constexpr std::size_t N = 3;
    tup t[N];
    int mt[N][2];  // (-1: nothing)
    std::uint8_t mb[N];
    var v[N];
    int mv[N];  // (>= 0: pointer, -1: empty pointer, -2: a number, -3: no value)
    std::uint64_t mn[N]{};
    for (std::size_t i = 0; i != N; ++i) { mt[i][0] = mt[i][1] = -1; mb[i] = 0; mv[i] = -3; }
    auto const make = [](int const x) { return P{new tracked{x}}; };
    for (auto k = 1 + r.below(40); k != 0U; --k) {
      auto const i = r.below(N), j = r.below(N);
      auto const c = r.below(10);
      auto const x = static_cast<int>(r.below(1000));
      op("op%d %d %d", (int)c, (int)i, (int)j);
      switch (c) {
        case 0: t[i] = tup{make(x), static_cast<std::uint8_t>(x), make(x + 1)}; mt[i][0] = x; mt[i][1] = x + 1; mb[i] = static_cast<std::uint8_t>(x); ev("tuple_of_pointers"); break;
        case 1:
          if (i != j) {
            t[i] = std::move(t[j]);
            for (int z = 0; z != 2; ++z) { mt[i][z] = mt[j][z]; mt[j][z] = -1; }
            mb[i] = mb[j];
          }
          break;
        case 2: { tup n{std::move(t[i])}; VP_CHECK(!cista::get<0>(t[i]) && !cista::get<2>(t[i]), "moved-from", "a moved from tuple still owns"); t[i] = std::move(n); break; }
        case 3: cista::get<2>(t[i]) = make(x); mt[i][1] = x; break;
        case 4: {
          P p{std::move(cista::get<0>(std::move(t[i])))};
          VP_CHECK((p ? p->get() : -1) == mt[i][0], "get", "of a temporary");
          mt[i][0] = -1;
          break;
        }
        case 5: v[i] = make(x); mv[i] = x; ev("variant_of_pointers"); break;
        case 6: v[i] = std::uint64_t{static_cast<std::uint64_t>(x)}; mv[i] = -2; mn[i] = static_cast<std::uint64_t>(x); break;
        case 7:
          if (i != j) {
            v[i] = std::move(v[j]);
            mv[i] = mv[j];
            mn[i] = mn[j];
            if (mv[j] >= 0) mv[j] = -1;
          }
          break;
        case 8: { var n{std::move(v[i])}; v[i] = std::move(n); break; }
        default: v[i].template emplace<P>(make(x)); mv[i] = x; break;
      }
      std::size_t live = 0;
      for (std::size_t z = 0; z != N; ++z) {
        auto const& a = cista::get<0>(t[z]);
        auto const& b = cista::get<2>(t[z]);
        VP_CHECK((a ? a->get() : -1) == mt[z][0] && (b ? b->get() : -1) == mt[z][1] && cista::get<1>(t[z]) == mb[z], "value", "tuple %zu", z);
        live += (mt[z][0] >= 0) + (mt[z][1] >= 0);
        auto const* p = cista::get_if<P>(v[z]);
        VP_CHECK(v[z].valid() == (mv[z] != -3) && (p != nullptr) == (mv[z] >= -1), "alternative", "variant %zu", z);
        if (p != nullptr) VP_CHECK((*p ? (*p)->get() : -1) == mv[z], "value", "variant %zu", z);
        if (mv[z] == -2) VP_CHECK(cista::get<std::uint64_t>(v[z]) == mn[z], "value", "variant %zu", z);
        live += mv[z] >= 0;
      }
      check_life(live, "members that can only be moved");
      distinct(mix(live, static_cast<std::uint64_t>(mv[0] + 4) * 7U + static_cast<std::uint64_t>(mt[0][0] + 1)));
    }
  }
  check_life(0, "members that can only be moved, end");
}
}  // namespace

VP_SUITE(move_only_raw, 2) { move_only<cr::unique_ptr<tracked>>(r); }
VP_SUITE(move_only_off, 2) { move_only<co::unique_ptr<tracked>>(r); }
VP_SUITE(visit_temporary, 1) {
  auto const x = static_cast<int>(r.below(1000));
  int calls = 0, seen = -1;
  std::visit([&](auto&& y) { ++calls; if constexpr (std::is_same_v<std::decay_t<decltype(y)>, int>) seen = y; }, cista::variant<co::string, int>{x});
  VP_CHECK(calls == 1 && seen == x, "visit", "std::visit of a temporary: %d calls, %d instead of %d", calls, seen, x);
  distinct(static_cast<std::uint64_t>(x));
}
