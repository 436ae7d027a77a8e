// P14: bit containers against an array of booleans.
#pragma once
#include <sstream>
#include "common.h"
#include "cista/containers/bitset.h"
#include "cista/containers/bitvec.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"

namespace vp {
using bools = std::vector<bool>;

inline std::string to_str(bools const& m) {
  std::string s;
  for (std::size_t i = m.size(); i != 0; --i) s += m[i - 1] ? '1' : '0';
  return s;
}
inline std::uint64_t hash_bools(bools const& m) {
  std::uint64_t h = m.size();
  for (auto const b : m) h = (h ^ b) * 1099511628211ULL;
  return h;
}
inline bools shl(bools const& m, std::size_t n) {
  bools r(m.size());
  for (std::size_t i = n; i < m.size(); ++i) r[i] = m[i - n];
  return r;
}
inline bools shr(bools const& m, std::size_t n) {
  bools r(m.size());
  for (std::size_t i = 0; n < m.size() && i + n < m.size(); ++i) r[i] = m[i + n];
  return r;
}
inline bool less(bools const& a, bools const& b) {  // as binary numbers of equal width
  for (std::size_t i = a.size(); i != 0; --i)
    if (a[i - 1] != b[i - 1]) return b[i - 1];
  return false;
}
inline bools gen_bools(rng& r, std::size_t n) {
  bools m(n);
  auto const mode = r.below(5);
  for (std::size_t i = 0; i < n; ++i)
    m[i] = mode == 0 ? false : mode == 1 ? true : mode == 2 ? r.chance(1, 30) : r.coin();
  return m;
}
inline std::size_t gen_shift(rng& r, std::size_t n) {
  switch (r.below(6)) {
    case 0: return 64 * r.below(n / 64 + 2);
    case 1: return n;
    case 2: return n + r.below(100);
    case 3: return n == 0 ? 0 : n - 1;
    default: return r.below(n + 1);
  }
}

template <typename B>
void check_common(B const& b, bools const& m, char const* w) {
  auto const n = m.size();
  VP_CHECK(b.size() == n, "size", "%s: size %zu, model %zu", w, (std::size_t)b.size(), n);
  std::size_t cnt = 0;
  for (std::size_t i = 0; i < n; ++i) {
    cnt += m[i];
    VP_CHECK(b.test(i) == m[i] && b[i] == m[i], "test", "%s: bit %zu of %zu", w, i, n);
  }
  for (std::size_t i = n; i < n + 3; ++i) VP_CHECK(!b.test(i), "beyond", "%s: test(%zu) of %zu bits", w, i, n);
  VP_CHECK(b.count() == cnt, "count", "%s: count %zu, model %zu (width %zu)", w, b.count(), cnt, n);
  VP_CHECK(b.any() == (cnt != 0) && b.none() == (cnt == 0), "any", "%s: any/none (width %zu)", w, n);
  std::size_t seen = 0, last = 0;
  bool first = true;
  b.for_each_set_bit([&](std::size_t const i) {
    VP_CHECK(i < n && m[i], "enumerate", "%s: enumeration reports bit %zu of %zu", w, i, n);
    VP_CHECK(first || i > last, "enumerate-order", "%s: enumeration order", w);
    first = false;
    last = i;
    ++seen;
  });
  VP_CHECK(seen == cnt, "enumerate", "%s: enumerated %zu of %zu", w, seen, cnt);
  distinct(hash_bools(m));
}

template <typename B>
void check_order(B const& a, bools const& ma, B const& b, bools const& mb) {
  auto const eq = ma == mb;
  VP_CHECK((a == b) == eq && (a != b) == !eq, "eq", "equality");
  VP_CHECK(cista::equal_to<B>{}(a, b) == eq || ma.size() != mb.size(), "equal_to", "equal_to differs from ==");
  if (eq) VP_CHECK(cista::hashing<B>{}(a) == cista::hashing<B>{}(b), "hash", "equal bit arrays hash differently (width %zu)", ma.size());
  if (ma.size() == mb.size()) {
    VP_CHECK((a < b) == less(ma, mb) && (a > b) == less(mb, ma) && (a <= b) == !less(mb, ma) && (a >= b) == !less(ma, mb), "order", "order (width %zu)", ma.size());
  }
}

template <std::size_t N>
struct bitset_test {
  using B = cista::bitset<N>;
  static void check(B const& b, bools const& m, char const* w) {
    check_common(b, m, w);
    VP_CHECK(b.to_string() == to_str(m), "to_string", "%s", w);
  }
  static void run(rng& r) {
    B b[3];
    bools m[3] = {bools(N), bools(N), bools(N)};
    auto const steps = 1 + r.below(N > 8000 ? 3 : N > 512 ? 8 : 25);
    ev("bitset_width_cases");
    for (std::size_t k = 0; k < steps; ++k) {
      auto const i = r.below(3), j = r.below(3);
      auto const c = r.below(19);
      auto const sh = gen_shift(r, N);
      op("op%d %d %d sh%zu", (int)c, (int)i, (int)j, sh);
      auto const bit = r.below(N);
      switch (c) {
        case 0: case 1: b[i].set(bit); m[i][bit] = true; break;
        case 2: b[i].set(bit, false); m[i][bit] = false; break;
        case 3: b[i].reset(); m[i].assign(N, false); ev("reset"); break;
        case 4: {
          auto const n = r.below(N + 20);
          auto const s = to_str(gen_bools(r, n));
          b[i].set(std::string_view{s});
          for (std::size_t x = 0; x < std::min(N, n); ++x) m[i][x] = s[n - 1 - x] == '1';
          ev("set_string");
          break;
        }
        case 5: { m[i] = gen_bools(r, N); b[i] = B{std::string_view{to_str(m[i])}}; break; }
        case 6: b[i] = ~b[j]; { auto t = m[j]; t.flip(); m[i] = t; } ev("complement"); break;
        case 7: { auto const& x = b[i] &= b[j]; (void)x; for (std::size_t q = 0; q < N; ++q) m[i][q] = m[i][q] && m[j][q]; ev("and"); break; }
        case 8: b[i] |= b[j]; for (std::size_t q = 0; q < N; ++q) m[i][q] = m[i][q] || m[j][q]; ev("or"); break;
        case 9: b[i] ^= b[j]; for (std::size_t q = 0; q < N; ++q) m[i][q] = m[i][q] != m[j][q]; ev("xor"); break;
        case 10: { auto const t = b[i] & b[j]; auto const u = b[i] | b[j]; auto const v = b[i] ^ b[j];
          bools mt(N), mu(N), mv(N);
          for (std::size_t q = 0; q < N; ++q) { mt[q] = m[i][q] && m[j][q]; mu[q] = m[i][q] || m[j][q]; mv[q] = m[i][q] != m[j][q]; }
          check(t, mt, "&"); check(u, mu, "|"); check(v, mv, "^"); break; }
        case 11: b[i] >>= sh; m[i] = shr(m[i], sh); ev("shift_right"); break;
        case 12: b[i] <<= sh; m[i] = shl(m[i], sh); ev("shift_left"); break;
        case 13: { auto const t = b[i] >> sh; check(t, shr(m[i], sh), ">>"); b[j] = t; m[j] = shr(m[i], sh); break; }
        case 14: { auto const t = b[i] << sh; check(t, shl(m[i], sh), "<<"); b[j] = t; m[j] = shl(m[i], sh); break; }
        case 15: b[i] = B::max(); m[i].assign(N, true); ev("max"); break;
        case 16: b[i] = b[j]; m[i] = m[j]; break;
        case 17: { std::ostringstream o; o << b[i]; VP_CHECK(o.str() == to_str(m[i]), "print", "print"); break; }
        default: std::swap(b[i], b[j]); std::swap(m[i], m[j]); break;
      }
      for (std::size_t x = 0; x < 3; ++x) check(b[x], m[x], "after op");
      check_order(b[i], m[i], b[j], m[j]);
    }
  }
};

template <typename B>
struct bitvec_test {
  static constexpr std::size_t W = B::bits_per_block;
  static void check(B const& b, bools const& m, char const* w) {
    check_common(b, m, w);
    auto const n = m.size();
    VP_CHECK(b.empty() == (n == 0), "empty", "%s", w);
    VP_CHECK(b.str() == to_str(m), "str", "%s", w);
    // next set bit from every position (ascending model scan)
    std::size_t nxt = n;
    std::size_t const stride = n < 2000U ? 1U : n / 512U;
    for (std::size_t i = n + 2; i-- > 0;) {
      if (i < n && m[i]) nxt = i;
      if (i % stride != 0 && !(i < n && m[i] && i % 7 == 0) && i + 130 < n) continue;
      auto const x = b.next_set_bit(i);
      if (i >= n || nxt == n) VP_CHECK(!x.has_value(), "next_set_bit", "%s: next_set_bit(%zu) of %zu reports %zu, none left", w, i, n, (std::size_t)*x);
      else VP_CHECK(x.has_value() && *x == nxt, "next_set_bit", "%s: next_set_bit(%zu) of %zu reports %zd, expected %zu", w, i, n, x.has_value() ? (ssize_t)*x : -1, nxt);
    }
    std::atomic_size_t cursor{0};
    std::size_t cnt = 0;
    for (std::optional<typename B::size_type> x; (x = b.get_next(cursor)).has_value();) {
      VP_CHECK(*x < n && m[*x], "get_next", "%s: get_next reports %zu", w, (std::size_t)*x);
      VP_CHECK(++cnt <= n, "get_next", "%s: get_next repeats", w);
    }
    VP_CHECK(cnt == b.count(), "get_next", "%s: get_next visits %zu of %zu", w, cnt, b.count());
  }
  static bool& wide() {  // a few histories have more blocks than narrower index types count
    static bool b = false;
    return b;
  }
  static std::size_t gen_width(rng& r) {
    if (wide()) return r.chance(1, 3) ? W * (r.big(70000) / W) : r.big(140000);
    switch (r.below(6)) {
      case 0: return r.below(4);
      case 1: return W * r.below(5);
      case 2: return W * (1 + r.below(4)) - 1 + r.below(3);
      default: return r.below(4 * W + 20);
    }
  }
  static void run(rng& r) {
    B b[3];
    bools m[3];
    wide() = r.chance(1, 150);
    if (wide()) ev("wide_history");
    auto const width = gen_width(r);
    for (int x = 0; x < 3; ++x) { b[x].resize(width); m[x].assign(width, false); }
    auto const steps = 1 + r.below(wide() ? 6 : 25);
    for (std::size_t k = 0; k < steps; ++k) {
      auto const i = r.below(3), j = r.below(3);
      auto const c = r.below(22);
      auto const N = m[i].size();
      auto const same = N == m[j].size();
      auto const sh = gen_shift(r, N);
      op("op%d %d %d width%zu sh%zu", (int)c, (int)i, (int)j, N, sh);
      auto const bit = r.below(N);
      switch (c) {
        case 0: case 1: if (N) { b[i].set(bit); m[i][bit] = true; } break;
        case 2: if (N) { b[i].set(bit, false); m[i][bit] = false; } break;
        case 3: if constexpr (W == 64) if (N) { auto const v = r.coin(); b[i].template set<true>(bit, v); m[i][bit] = v; ev("atomic_set"); } break;
        case 4: b[i].reset(); m[i].assign(N, false); ev("reset"); break;
        case 5: { m[i] = gen_bools(r, gen_width(r)); auto const s = to_str(m[i]); if (r.coin()) b[i].set(std::string_view{s}); else b[i] = B{std::string_view{s}}; ev("set_string"); break; }
        case 6: { auto const n = gen_width(r); op("resize %zu", n); b[i].resize(n); m[i].resize(n, false); ev(n < N ? "shrink" : "grow"); break; }
        case 7: b[i].one_out(); m[i].assign(N, true); ev("one_out"); break;
        case 8: b[i].zero_out(); m[i].assign(N, false); break;
        case 9: b[i] = ~b[j]; { auto t = m[j]; t.flip(); m[i] = t; } ev("complement"); break;
        case 10: if (same) { b[i] &= b[j]; for (std::size_t q = 0; q < N; ++q) m[i][q] = m[i][q] && m[j][q]; ev("and"); } break;
        case 11: if (same) { b[i] |= b[j]; for (std::size_t q = 0; q < N; ++q) m[i][q] = m[i][q] || m[j][q]; ev("or"); } break;
        case 12: if (same) { b[i] ^= b[j]; for (std::size_t q = 0; q < N; ++q) m[i][q] = m[i][q] != m[j][q]; ev("xor"); } break;
        case 13: if (same) { auto const t = b[i] & b[j]; auto const u = b[i] | b[j]; auto const v = b[i] ^ b[j];
          bools mt(N), mu(N), mv(N);
          for (std::size_t q = 0; q < N; ++q) { mt[q] = m[i][q] && m[j][q]; mu[q] = m[i][q] || m[j][q]; mv[q] = m[i][q] != m[j][q]; }
          check(t, mt, "&"); check(u, mu, "|"); check(v, mv, "^"); } break;
        case 14: b[i] >>= sh; m[i] = shr(m[i], sh); ev("shift_right"); break;
        case 15: b[i] <<= sh; m[i] = shl(m[i], sh); ev("shift_left"); break;
        case 16: { auto const t = b[i] >> sh; check(t, shr(m[i], sh), ">>"); break; }
        case 17: { auto const t = b[i] << sh; check(t, shl(m[i], sh), "<<"); break; }
        case 18: { auto const n = gen_width(r); b[i] = B::max(n); m[i].assign(n, true); ev("max"); break; }
        case 19: b[i] = b[j]; m[i] = m[j]; break;
        case 20: { std::ostringstream o; o << b[i]; VP_CHECK(o.str() == to_str(m[i]), "print", "print"); break; }
        default: {
          B t{std::move(b[i])};
          check(t, m[i], "moved");
          b[i] = std::move(t);
          break;
        }
      }
      for (std::size_t x = 0; x < 3; ++x) check(b[x], m[x], "after op");
      check_order(b[i], m[i], b[j], m[j]);
    }
  }
};
}  // namespace vp
