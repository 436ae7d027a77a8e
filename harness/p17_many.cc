// P17: storage of millions of elements.
#include <vector>

#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vector.h"
#include "common.h"
using namespace vp;
namespace {
std::uint64_t word(std::uint64_t const tag, std::uint64_t const i) { return mix(tag * 0x9E3779B97F4A7C15ULL, i); }

template <typename P>
void paged_many(rng& r) {
  using T = typename P::value_type;
  struct live { typename P::page_t p; std::uint64_t tag; };
  P p;
  std::vector<live> pages;
  auto const fill = [&](live& l, std::size_t const from) {
    auto* const d = p.data(l.p);
    for (std::size_t i = from; i < l.p.size(); ++i) d[i] = static_cast<T>(word(l.tag, i));
  };
  auto const judge = [&](char const* what) {
    std::vector<std::pair<std::uint64_t, std::uint64_t>> at;
    for (auto const& l : pages) {
      VP_CHECK(std::uint64_t{l.p.start_} + l.p.capacity_ <= p.data_.size() && l.p.size() <= l.p.capacity_, "page-range", "%s: a page of %zu elements at %zu reaches behind the %zu stored", what, static_cast<std::size_t>(l.p.capacity_), static_cast<std::size_t>(l.p.start_), static_cast<std::size_t>(p.data_.size()));
      at.emplace_back(l.p.start_, l.p.capacity_);
      auto const* const d = p.data(l.p);
      for (std::size_t i = 0U; i != l.p.size(); ++i) VP_CHECK(d[i] == static_cast<T>(word(l.tag, i)), "page-content", "%s: element %zu of the page of %zu elements at %zu changed", what, i, static_cast<std::size_t>(l.p.size()), static_cast<std::size_t>(l.p.start_));
    }
    std::sort(at.begin(), at.end());
    for (std::size_t i = 1U; i < at.size(); ++i) VP_CHECK(at[i - 1U].first + at[i - 1U].second <= at[i].first, "page-overlap", "%s: pages at %llu and %llu overlap", what, static_cast<unsigned long long>(at[i - 1U].first), static_cast<unsigned long long>(at[i].first));
    ev("many_judged");
  };
  auto tag = r.next();
  auto const n = 36U + r.below(60);
  op("%llu pages", static_cast<unsigned long long>(n));
  auto const size = [&]() { return static_cast<typename P::page_size_type>(r.chance(1, 5) ? 1U + r.below(300) : 16385U + r.below(16384)); };
  for (auto k = 0U; k != n; ++k) {
    pages.push_back({p.create_page(size()), ++tag});
    fill(pages.back(), 0U);
  }
  judge("created");
  for (auto k = 10U + r.below(20); k != 0U; --k) {
    auto const i = static_cast<std::size_t>(r.below(pages.size()));
    switch (r.below(3)) {
      case 0: p.free_page(pages[i].p); pages.erase(pages.begin() + static_cast<std::ptrdiff_t>(i)); break;
      case 1: pages.push_back({p.create_page(size()), ++tag}); fill(pages.back(), 0U); break;
      default: {
        auto const old = pages[i].p.size();
        pages[i].p = p.resize_page(pages[i].p, size());
        fill(pages[i], std::min<std::size_t>(old, pages[i].p.size()));
      }
    }
  }
  judge("recycled");
  if (p.data_.size() > 1048576U) ev("over_a_million_elements");
  distinct(mix(tag, p.data_.size()));
}

template <typename V>
void mm_many(rng& r) {
  using S = typename V::size_type;
  using T = typename V::value_type;
  V v;
  auto const tag = r.next();
  auto const n = 3U + r.below(5);
  std::vector<std::size_t> sizes(n);
  for (std::size_t b = 0U; b != n; ++b) {
    sizes[b] = r.chance(1, 3) ? r.below(50) : r.chance(1, 3) ? 1040000U + r.below(20000) : 60000U + r.below(300000);
    auto bucket = v[static_cast<S>(b)];
    if (r.coin()) bucket.reserve(static_cast<S>(sizes[b]));
    for (std::size_t i = 0U; i != sizes[b]; ++i) bucket.push_back(static_cast<T>(word(tag + b, i)));
    op("bucket %zu: %zu entries", b, sizes[b]);
  }
  auto const judge = [&](char const* what) {
    std::size_t all = 0U;
    for (std::size_t b = 0U; b != n; ++b) {
      auto const bucket = v[static_cast<S>(b)];
      VP_CHECK(bucket.size() == sizes[b], "bucket-size", "%s: bucket %zu has %zu entries instead of %zu", what, b, static_cast<std::size_t>(bucket.size()), sizes[b]);
      all += sizes[b];
      std::size_t i = 0U;
      for (auto const& x : bucket) {
        VP_CHECK(x == static_cast<T>(word(tag + b, i)), "bucket-content", "%s: entry %zu of bucket %zu changed", what, i, b);
        ++i;
      }
      VP_CHECK(i == sizes[b], "bucket-content", "%s: %zu entries of %zu seen", what, i, sizes[b]);
    }
    VP_CHECK(v.element_count() == all, "element-count", "%s: %zu entries counted instead of %zu", what, static_cast<std::size_t>(v.element_count()), all);
    if (v.data_size() > 1048576U) ev("over_a_million_elements");
    ev("many_judged");
  };
  judge("filled");
  for (auto k = 3U; k != 0U; --k) {
    auto const b = static_cast<std::size_t>(r.below(n));
    auto bucket = v[static_cast<S>(b)];
    switch (r.below(3)) {
      case 0: v.erase(static_cast<S>(b)); sizes[b] = 0U; break;
      case 1: {
        auto const to = sizes[b] / 2U;
        bucket.erase(std::next(bucket.begin(), static_cast<std::ptrdiff_t>(to)), bucket.end());
        sizes[b] = to;
        break;
      }
      default: for (auto m = 5000U + r.below(90000); m != 0U; --m) bucket.push_back(static_cast<T>(word(tag + b, sizes[b]++)));
    }
    judge("changed");
  }
  distinct(mix(tag, v.data_size()));
}

template <typename V>
void pvv_many(rng& r) {
  using T = typename V::data_value_type;
  V v;
  auto const tag = r.next();
  auto const n = 66000U + r.below(60000);
  std::vector<std::uint32_t> sizes(n);
  std::vector<T> x;
  for (std::size_t b = 0U; b != n; ++b) {
    sizes[b] = static_cast<std::uint32_t>(1U + (word(tag, b) & 7U) * (word(tag, b) & 7U));
    x.clear();
    for (std::size_t i = 0U; i != sizes[b]; ++i) x.push_back(static_cast<T>(word(tag + b, i)));
    v.emplace_back(x);
  }
  op("%llu buckets", static_cast<unsigned long long>(n));
  auto const judge = [&](char const* what) {
    VP_CHECK(v.size() == n, "size", "%s: %zu buckets instead of %zu", what, static_cast<std::size_t>(v.size()), static_cast<std::size_t>(n));
    for (std::size_t b = 0U; b != n; ++b) {
      auto const bucket = std::as_const(v)[static_cast<std::uint32_t>(b)];
      VP_CHECK(bucket.size() == sizes[b], "bucket-size", "%s: bucket %zu has %zu entries instead of %u", what, b, static_cast<std::size_t>(bucket.size()), sizes[b]);
      std::size_t i = 0U;
      for (auto const& y : bucket) {
        VP_CHECK(y == static_cast<T>(word(tag + b, i)), "bucket-content", "%s: entry %zu of bucket %zu changed", what, i, b);
        ++i;
      }
    }
    ev("many_judged");
  };
  judge("filled");
  for (auto k = 30000U; k != 0U; --k) {
    auto const b = static_cast<std::size_t>(r.below(n));
    v[static_cast<std::uint32_t>(b)].push_back(static_cast<T>(word(tag + b, sizes[b])));
    ++sizes[b];
  }
  judge("changed");
  distinct(mix(tag, n));
}
}  // namespace
VP_SUITE(paged_many_raw, 3) { paged_many<cista::paged<cista::raw::vector<std::uint16_t>>>(r); }
VP_SUITE(paged_many_off, 3) { paged_many<cista::paged<cista::offset::vector<std::uint32_t>>>(r); }
VP_SUITE(mm_many_raw, 1) { mm_many<cista::raw::mutable_fws_multimap<std::uint32_t, std::uint16_t, 21>>(r); }
VP_SUITE(mm_many_off, 1) { mm_many<cista::offset::mutable_fws_multimap<std::uint32_t, std::uint32_t, 24>>(r); }
VP_SUITE(pvv_many, 1) { pvv_many<cista::paged_vecvec<cista::raw::vector<cista::page<std::uint32_t, std::uint16_t>>, cista::paged<cista::raw::vector<std::uint16_t>>, std::uint32_t>>(r); }
VP_MAIN()
