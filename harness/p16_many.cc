// P16: very many buckets, very wide matrices.
#include <vector>

#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/vecvec.h"
#include "common.h"
using namespace vp;
namespace {
std::uint64_t word(std::uint64_t const tag, std::uint64_t const i) { return mix(tag * 0x9E3779B97F4A7C15ULL, i); }

template <typename V>
void matrix_many(rng& r) {
  using T = typename V::value_type;
  using S = typename V::size_type;
  V v;
  std::vector<T> m;
  std::size_t rows = 0U, cols = 0U;
  auto const tag = r.next();
  auto const judge = [&](char const* what) {
    VP_CHECK(v.n_rows_ == rows && v.n_columns_ == cols && v.entries_.size() == rows * cols, "matrix-shape", "%s: shape of the matrix", what);
    auto const& c = v;
    for (std::size_t i = 0U; i != rows; ++i) {
      auto const cr = c[static_cast<S>(i)];
      auto row = v.at(static_cast<S>(i));
      auto it = cr.begin();
      auto it2 = row.begin();
      for (std::size_t j = 0U; j != cols; ++j, ++it, ++it2) {
        auto const want = m[i * cols + j];
        VP_CHECK(v(static_cast<S>(i), static_cast<S>(j)) == want && cr[static_cast<S>(j)] == want && row[static_cast<S>(j)] == want && *it == want && *it2 == want, "matrix-entry", "%s: entry (%zu, %zu) of %zu x %zu", what, i, j, rows, cols);
      }
      VP_CHECK(it == cr.end() && it2 == row.end(), "matrix-row", "%s: row %zu of %zu x %zu", what, i, rows, cols);
    }
    ev("wide_matrix_judged");
  };
  for (auto k = 2U + r.below(2); k != 0U; --k) {
    rows = 1U + r.below(8), cols = r.coin() ? 65534U + r.below(5) : 60000U + r.below(80000);
    if (r.chance(1, 3)) std::swap(rows, cols);
    op("%zu x %zu", rows, cols);
    v.resize(static_cast<S>(rows), cols);
    m.resize(rows * cols);
    judge("resized");
    for (auto n = 2000U; n != 0U; --n) {
      auto const i = r.coin() ? rows - 1U : r.below(rows), j = r.below(cols);
      auto const x = static_cast<T>(word(tag, n + k));
      switch (r.below(3)) {
        case 0: v(static_cast<S>(i), static_cast<S>(j)) = x; break;
        case 1: v[static_cast<S>(i)][static_cast<S>(j)] = x; break;
        default: *(v[static_cast<S>(i)].begin() + static_cast<std::ptrdiff_t>(j)) = x;
      }
      m[i * cols + j] = x;
    }
    judge("written");
  }
  distinct(mix(tag, rows * 1000003U + cols));
}

template <typename V>
void vv_many(rng& r) {
  using T = typename V::data_value_type;
  using S = std::uint32_t;
  V v;
  std::vector<std::vector<T>> m;
  auto const tag = r.next();
  auto const n = r.coin() ? 65534U + r.below(5) : 65000U + r.below(50000);
  for (std::size_t b = 0U; b != n; ++b) {
    m.emplace_back();
    for (std::size_t i = word(tag, b) % 4U; i != 0U; --i) m.back().push_back(static_cast<T>(word(tag + b, i)));
    v.emplace_back(m.back());
  }
  op("%zu buckets", static_cast<std::size_t>(n));
  auto const judge = [&](char const* what) {
    auto const& c = v;
    VP_CHECK(c.size() == m.size(), "size", "%s: %zu buckets instead of %zu", what, static_cast<std::size_t>(c.size()), m.size());
    std::size_t b = 0U;
    for (auto const& bucket : c) {
      VP_CHECK(bucket.size() == m[b].size() && std::equal(bucket.begin(), bucket.end(), m[b].begin()), "bucket", "%s: bucket %zu of %zu (iterated)", what, b, m.size());
      auto const x = c[static_cast<S>(b)];
      VP_CHECK(x.size() == m[b].size() && std::equal(x.begin(), x.end(), m[b].begin()), "bucket", "%s: bucket %zu of %zu", what, b, m.size());
      ++b;
    }
    VP_CHECK(b == m.size(), "size", "%s: %zu of %zu buckets iterated", what, b, m.size());
    ev("many_buckets_judged");
  };
  judge("filled");
  for (auto k = 12U; k != 0U; --k) {
    auto const b = static_cast<std::size_t>(r.coin() ? r.below(10) : r.below(m.size()));
    auto const x = static_cast<T>(word(tag, k));
    char const* what = "push_back";
    switch (r.below(4)) {
      case 0: v[static_cast<S>(b)].push_back(x); m[b].push_back(x); break;
      case 1: { what = "grow"; auto const to = m[b].size() + 1U + r.below(5); v[static_cast<S>(b)].grow(static_cast<S>(to), x); m[b].resize(to, x); break; }
      case 2: { what = "resize"; auto const to = m.size() + r.below(3000); v.resize(static_cast<S>(to)); m.resize(to); break; }
      default: { what = "append"; m.emplace_back(m[b]); v.emplace_back(m[b]); break; }
    }
    op("%s bucket %zu", what, b);
    if (k % 3U == 0U) judge(what);
  }
  judge("changed");
  distinct(mix(tag, n));
}

template <typename V>
void fws_many(rng& r) {
  V v;
  std::vector<std::vector<std::uint16_t>> m;
  auto const tag = r.next();
  auto const n = 65530U + r.below(30000);
  for (std::size_t b = 0U; b != n; ++b) {
    m.emplace_back();
    for (std::size_t i = word(tag, b) % 5U; i != 0U; --i) {
      m.back().push_back(static_cast<std::uint16_t>(word(tag + b, i)));
      v.push_back(m.back().back());
    }
    v.finish_key();
  }
  v.finish_map();
  op("%zu keys", static_cast<std::size_t>(n));
  auto const& c = v;
  VP_CHECK(c.index_size() == m.size() + 1U, "size", "%zu keys instead of %zu", static_cast<std::size_t>(c.index_size()), m.size());
  std::size_t b = 0U;
  for (auto const& e : c) {
    if (b == m.size()) break;
    VP_CHECK(e.size() == m[b].size() && std::equal(e.begin(), e.end(), m[b].begin()), "bucket", "entries of key %zu (iterated)", b);
    ++b;
  }
  for (b = 0U; b != m.size(); ++b) {
    auto const e = c[static_cast<std::uint32_t>(b)];
    VP_CHECK(e.size() == m[b].size() && std::equal(e.begin(), e.end(), m[b].begin()), "bucket", "entries of key %zu", b);
  }
  ev("many_keys_judged");
  distinct(mix(tag, n));
}

template <typename V>
void nv_many(rng& r) {
  V v;
  std::vector<std::vector<std::vector<std::uint16_t>>> m;
  auto const tag = r.next();
  auto const n = 22000U + r.below(30000);  // (3 inner ones each)
  for (std::size_t a = 0U; a != n; ++a) {
    m.emplace_back(word(tag, a) % 6U);
    for (std::size_t b = 0U; b != m.back().size(); ++b) {
      for (std::size_t i = word(tag + a, b) % 4U; i != 0U; --i) m.back()[b].push_back(static_cast<std::uint16_t>(word(tag + a + b, i)));
    }
    v.emplace_back(m.back());
  }
  op("%zu entries", static_cast<std::size_t>(n));
  VP_CHECK(v.size() == m.size(), "size", "%zu entries instead of %zu", static_cast<std::size_t>(v.size()), m.size());
  for (std::size_t a = 0U; a != n; ++a) {
    VP_CHECK(v.size(static_cast<std::uint32_t>(a)) == m[a].size(), "size", "entry %zu has %zu parts instead of %zu", a, static_cast<std::size_t>(v.size(static_cast<std::uint32_t>(a))), m[a].size());
    for (std::size_t b = 0U; b != m[a].size(); ++b) {
      auto const x = v.at(static_cast<std::uint32_t>(a), static_cast<std::uint32_t>(b));
      VP_CHECK(x.size() == m[a][b].size() && std::equal(x.begin(), x.end(), m[a][b].begin()), "bucket", "part %zu of entry %zu", b, a);
    }
  }
  ev("many_entries_judged");
  distinct(mix(tag, n));
}
}  // namespace
VP_SUITE(matrix_wide_raw, 2) { matrix_many<cista::raw::flat_matrix<std::uint16_t>>(r); }
VP_SUITE(matrix_wide_off, 2) { matrix_many<cista::offset::flat_matrix<std::uint64_t>>(r); }
VP_SUITE(vv_many_raw, 2) { vv_many<cista::raw::vecvec<std::uint32_t, std::uint16_t>>(r); }
VP_SUITE(vv_many_off, 2) { vv_many<cista::offset::vecvec<std::uint32_t, std::uint64_t>>(r); }
VP_SUITE(fws_many, 1) { fws_many<cista::offset::fws_multimap<std::uint32_t, std::uint16_t>>(r); }
VP_SUITE(nv_many, 1) { nv_many<cista::raw::nvec<std::uint32_t, std::uint16_t, 2U>>(r); }
VP_MAIN()
