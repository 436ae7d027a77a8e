// P14: millions of bits, few of them set.
#include <atomic>
#include <set>

#include "cista/containers/bitvec.h"
#include "cista/containers/vector.h"
#include "common.h"
using namespace vp;
namespace {
template <typename B>
struct huge_test {
  using model = std::set<std::size_t>;
  static void judge(rng& r, B const& b, model const& m, std::size_t const n, char const* what) {
    VP_CHECK(b.size() == n, "size", "%s: %zu bits instead of %zu", what, static_cast<std::size_t>(b.size()), n);
    VP_CHECK(b.count() == m.size() && b.any() == !m.empty() && b.none() == m.empty(), "count", "%s: %zu bits are set according to count(), expected %zu", what, b.count(), m.size());
    auto it = m.begin();
    b.for_each_set_bit([&](std::size_t const i) {
      VP_CHECK(it != m.end() && *it == i, "set-bits", "%s: bit %zu of %zu visited, expected %lld", what, i, n, it == m.end() ? -1LL : static_cast<long long>(*it));
      ++it;
    });
    VP_CHECK(it == m.end(), "set-bits", "%s: bit %zu of %zu not visited", what, *it, n);
    for (auto k = 0; k != 6; ++k) {
      auto const from = r.chance(1, 6) || m.empty() ? r.below(n) : std::min(n - 1U, *std::next(m.begin(), static_cast<std::ptrdiff_t>(r.below(m.size()))) + (r.coin() ? 1U : 0U));
      auto const e = m.lower_bound(from);
      auto const g = b.next_set_bit(static_cast<typename B::size_type>(from));
      VP_CHECK(g.has_value() == (e != m.end()) && (!g.has_value() || *g == *e), "next-set-bit", "%s: the bit set after %zu is %lld according to next_set_bit()", what, from, g.has_value() ? static_cast<long long>(*g) : -1LL);
      VP_CHECK(b.test(static_cast<typename B::size_type>(from)) == (m.count(from) != 0U), "test", "%s: test(%zu)", what, from);
    }
    ev("huge_judged");
  }
  static void run(rng& r) {
    auto n = 4000000U + r.below(5000000U);
    if (r.coin()) n = n / 64U * 64U + r.below(3);
    op("%llu bits", static_cast<unsigned long long>(n));
    B v[2];
    model m[2];
    auto const spot = [&]() -> std::size_t { return r.chance(1, 3) ? n - 1U - r.below(130) : r.chance(1, 3) ? std::min<std::size_t>(n - 1U, 4194304U - 3U + r.below(6)) : r.below(n); };
    auto const fill = [&](unsigned const w) {
      for (auto k = 3U + r.below(30); k != 0U; --k) {
        auto const i = spot();
        auto const on = !r.chance(1, 5);
        v[w].set(static_cast<typename B::size_type>(i), on);
        if (on) m[w].insert(i); else m[w].erase(i);
      }
    };
    for (auto w = 0U; w != 2U; ++w) {
      v[w].resize(static_cast<typename B::size_type>(n));
      fill(w);
      judge(r, v[w], m[w], n, "set");
    }
    for (auto steps = 4U + r.below(5); steps != 0U; --steps) {
      auto const w = static_cast<unsigned>(r.below(2));
      auto& a = v[w];
      auto& x = m[w];
      auto const& y = m[1U - w];
      model z;
      char const* what = "set";
      switch (r.below(9)) {
        case 0: fill(w); z = x; break;
        case 1: what = "or"; a |= v[1U - w]; z = x; z.insert(y.begin(), y.end()); break;
        case 2: what = "and"; if (r.coin()) { a |= v[1U - w]; x.insert(y.begin(), y.end()); fill(w); } a &= v[1U - w]; for (auto const i : x) if (y.count(i) != 0U) z.insert(i); break;
        case 3: what = "xor"; a ^= v[1U - w]; for (auto const i : x) if (y.count(i) == 0U) z.insert(i); for (auto const i : y) if (x.count(i) == 0U) z.insert(i); break;
        case 4: { what = "shift right"; auto const s = r.coin() ? r.below(300) : r.below(n); a >>= s; for (auto const i : x) if (i >= s) z.insert(i - s); break; }
        case 5: { what = "shift left"; auto const s = r.coin() ? r.below(300) : r.below(n); a <<= s; for (auto const i : x) if (i + s < n) z.insert(i + s); break; }
        case 6: { 
          what = "complement";
          auto const c = ~a;
          VP_CHECK(c.count() == n - x.size(), "complement", "%zu bits of %zu set, %zu in the complement", x.size(), static_cast<std::size_t>(n), c.count());
          for (auto const i : x) VP_CHECK(!c.test(static_cast<typename B::size_type>(i)), "complement", "bit %zu is set in the complement as well", i);
          a = ~c;
          z = x;
          break;
        }
        case 7: {
          what = "claim";
          std::atomic_size_t next{0U};
          for (auto const i : x) {
            auto const g = a.get_next(next);
            VP_CHECK(g.has_value() && *g == i, "get-next", "get_next() gave %lld instead of %zu", g.has_value() ? static_cast<long long>(*g) : -1LL, i);
          }
          VP_CHECK(!a.get_next(next).has_value(), "get-next", "get_next() gave one bit too many");
          z = x;
          break;
        }
        default: {
          what = "resize";
          auto const to = r.coin() ? n - r.below(200) : n + r.below(3000000U);
          for (auto k = 0U; k != 2U; ++k) {
            v[k].resize(static_cast<typename B::size_type>(to));
            m[k].erase(m[k].lower_bound(to), m[k].end());
          }
          n = to;
          z = x;
        }
      }
      x = z;
      op("%s", what);
      judge(r, a, x, n, what);
      VP_CHECK((v[0] == v[1]) == (m[0] == m[1]), "equality", "bit vectors of %zu bits %s compare equal", static_cast<std::size_t>(n), m[0] == m[1] ? "do not" : "do");
      auto const ra = m[0].rbegin(), rb = m[1].rbegin();
      auto const less = std::lexicographical_compare(ra, m[0].rend(), rb, m[1].rend());
      VP_CHECK((v[0] < v[1]) == less, "order", "bit vectors of %zu bits: order", static_cast<std::size_t>(n));
      auto h = mix(n, x.size());
      for (auto const i : x) h = mix(h, i);
      distinct(h);
    }
  }
};
}  // namespace
VP_SUITE(huge_raw, 1) { huge_test<cista::raw::bitvec>::run(r); }
VP_SUITE(huge_off, 1) { huge_test<cista::offset::bitvec>::run(r); }
VP_SUITE(huge_u32, 1) { huge_test<cista::basic_bitvec<cista::raw::vector<std::uint32_t>>>::run(r); }
VP_MAIN()
