// P17: growable multimaps and paged storage against vectors of vectors.
#pragma once
#include <algorithm>
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vector.h"
#include "jag_test.h"

namespace vp {

struct extent {
  std::uintptr_t a, b;
  std::size_t owner;
};
// No two live storage ranges overlap.
inline void check_disjoint(std::vector<extent> e, std::uintptr_t lo, std::uintptr_t hi, char const* w) {
  std::sort(begin(e), end(e), [](auto const& x, auto const& y) { return x.a < y.a; });
  for (std::size_t i = 0; i < e.size(); ++i) {
    VP_CHECK(e[i].a >= lo && e[i].b <= hi, "storage-range", "%s: bucket %zu leaves the data", w, e[i].owner);
    if (i != 0) VP_CHECK(e[i - 1].b <= e[i].a, "storage-overlap", "%s: buckets %zu and %zu share storage", w, e[i - 1].owner, e[i].owner);
  }
}

template <typename V, typename K, std::size_t Log2Max, std::size_t MaxKeys>
struct mm_test {
  using T = typename V::value_type;
  using E = elem<T>;
  using M = typename E::model;
  using S = typename V::size_type;
  V v;
  std::vector<std::vector<M>> m;
  static constexpr std::size_t MAXB = std::size_t{1} << Log2Max;
  static K key(std::size_t i) { return K{static_cast<S>(i)}; }

  void check(rng& r, char const* w) {
    auto const& c = v;
    VP_CHECK((std::size_t)v.size() == m.size() && v.empty() == m.empty(), "size", "%s: size %zu, model %zu", w, (std::size_t)v.size(), m.size());
    std::size_t total = 0;
    std::vector<extent> ext;
    for (std::size_t i = 0; i < m.size(); ++i) {
      total += m[i].size();
      auto b = v.at(key(i));
      VP_CHECK(b.capacity() >= b.size(), "capacity", "%s: bucket %zu", w, i);
      if (b.capacity() != 0) {
        auto const a = reinterpret_cast<std::uintptr_t>(&*b.begin());
        ext.push_back({a, a + b.capacity() * sizeof(T), i});
      }
    }
    VP_CHECK((std::size_t)v.element_count() == total, "element_count", "%s: element_count %zu, model %zu", w, (std::size_t)v.element_count(), total);
    auto const lo = reinterpret_cast<std::uintptr_t>(c.data().begin()), hi = reinterpret_cast<std::uintptr_t>(c.data().end());
    check_disjoint(std::move(ext), lo, hi, w);
    auto judge = [&](auto&& b, std::size_t i, char const* x) {
      VP_CHECK((std::size_t)b.index() == i, "index", "%s: bucket reports index %zu, is %zu", x, (std::size_t)b.index(), i);
      check_bucket<T>(b, m[i], x, m.size());
    };
    check_proxy_iteration(c.begin(), c.end(), m.size(), r, judge);
    check_difference(c.begin(), c.end(), m.size(), r);
    check_difference(v.begin(), v.end(), m.size(), r);
    {
      std::size_t i = m.size();
      for (auto it = v.end(); it != v.begin(); --it) --i;
      VP_CHECK(i == 0, "iteration", "backward");
      for (auto it = v.begin(); it < v.end(); it++) { VP_CHECK((std::size_t)(*it).size() == m[i].size(), "iteration", "bucket %zu", i); ++i; }
      VP_CHECK(i == m.size(), "iteration", "%zu of %zu", i, m.size());
      i = 0;
      for (auto&& b : v) { VP_CHECK((std::size_t)b.size() == m[i].size(), "iteration", "range for bucket %zu", i); ++i; }
      VP_CHECK(i == m.size(), "iteration", "range for");
    }
    if (!m.empty()) {
      auto const i = r.below(m.size());
      judge(v[key(i)], i, "[]");
      judge(c[key(i)], i, "c[]");
      judge(v.at(key(i)), i, "at");
      judge(c.at(key(i)), i, "c.at");
      judge(v.front(), 0, "front");
      judge(c.back(), m.size() - 1, "back");
      judge(v.begin()[static_cast<int>(i)], i, "begin()[i]");
      judge(v.back(), m.size() - 1, "back");
      judge(c.front(), 0, "const front");
      judge(c.begin()[static_cast<int>(i)], i, "const begin()[i]");
      auto const fixed = c.begin() + static_cast<int>(i);
      judge(fixed[0], i, "const iterator [0]");
      judge(fixed.operator->(), i, "const ->");
      auto moving = v.begin() + static_cast<int>(i);
      judge(moving.operator->(), i, "->");
      judge(*moving--, i, "post decrement");
      judge(*++moving, i, "pre increment");
      judge(*moving++, i, "post increment");
      VP_CHECK(moving - v.begin() == static_cast<int>(i) + 1, "iteration", "post increment");
      {
        auto const x = v.begin() + static_cast<int>(i), y = v.begin() + static_cast<int>(r.below(m.size()));
        auto const cmp = x - y;
        VP_CHECK((x < y) == (cmp < 0) && (x <= y) == (cmp <= 0) && (x > y) == (cmp > 0) && (x >= y) == (cmp >= 0) && (x == y) == (cmp == 0) && (x != y) == (cmp != 0), "order", "iterators %d apart", cmp);
      }
      auto b = v.at(key(i));
      auto const& cb = b;
      for (std::size_t k = 0; k < m[i].size(); k += 1 + m[i].size() / 4) {
        VP_CHECK(&v.data()[b.data_index(static_cast<S>(k))] == &b[static_cast<S>(k)], "data_index", "%zu", k);
        VP_CHECK((std::size_t)cb.bucket_index(cb.begin() + static_cast<std::ptrdiff_t>(k)) == k, "bucket_index", "%zu", k);
      }
      if (r.chance(1, 3)) VP_CHECK(throws([&] { (void)cb.bucket_index(cb.end()); }), "bucket_index", "bucket_index(end) does not throw");
    }
    {
      std::size_t i = 0;
      for (auto it = begin(v), last = end(v); it != last; ++it, ++i) VP_CHECK(i < m.size() && (std::size_t)(*it).size() == m[i].size(), "iteration", "free begin and end");
      VP_CHECK(i == m.size() && end(c) - begin(c) == static_cast<int>(i), "iteration", "free begin and end");
      for (i = 0; i < m.size(); i += 1U + m.size() / 5U) {
        auto const b = v.at(key(i));
        auto const cb = c.at(key(i));
        VP_CHECK((std::size_t)(b.cend() - b.cbegin()) == m[i].size() && (std::size_t)(cb.cend() - cb.cbegin()) == m[i].size(), "iteration", "cbegin and cend");
        if (!m[i].empty()) VP_CHECK(&b.front() == &*b.cbegin() && &cb.front() == &*cb.cbegin() && &b.back() == &*std::prev(b.cend()) && &cb.back() == &b.back() && &b.at(0U) == &cb[0U], "front", "bucket %zu", i);
      }
      VP_CHECK(v.max_entries_per_bucket() == MAXB && v.max_entries_per_bucket_log2() == Log2Max, "limit", "the limit of a bucket");
      auto bytes = v.index_.allocated_size_ * sizeof(v.index_[0]) + v.data_.allocated_size_ * sizeof(T);
      for (auto const& f : v.free_buckets_) bytes += f.allocated_size_ * sizeof(v.index_[0]);
      VP_CHECK(v.allocated_size() == bytes && bytes >= m.size() * sizeof(v.index_[0]) + total * sizeof(T), "allocated_size", "%zu bytes, expected %zu", (std::size_t)v.allocated_size(), (std::size_t)bytes);
    }
    if (r.chance(1, 3)) VP_CHECK(throws([&] { (void)v.at(key(m.size())); }) && throws([&] { (void)c.at(key(m.size())); }), "at", "at(size) does not throw");
    distinct(hash_nested<T>(m));
  }

  static void run(rng& r) {
    mm_test a, b;
    auto const large = start_large<T>(r, 150);
    auto const max_keys = large ? 70000U : MaxKeys;
    auto const steps = 1 + r.below(large ? 14 : 70);
    for (std::size_t k = 0; k < steps; ++k) {
      auto const n = a.m.size();
      auto const i = n == 0 ? 0 : r.below(n);
      auto const c = r.below(30);
      op("op%d n%zu i%zu(%zu)", (int)c, n, i, n == 0 ? 0 : a.m[i].size());
      // an operation that exceeds the bucket limit throws and changes nothing
      auto fits = [&](std::size_t s) { return s <= MAXB; };
      switch (c) {
        case 0: case 1: {  // create by index
          auto const j = large ? r.big(max_keys) : r.below(n + 4);
          if (j >= max_keys) break;
          if (r.coin()) (void)a.v[key(j)];
          else (void)a.v.get_or_create(key(j));
          if (j >= n) a.m.resize(j + 1);
          ev("create");
          break;
        }
        case 2: if (n < max_keys) { auto x = a.v.emplace_back(); VP_CHECK(x.empty() && (std::size_t)x.index() == n, "emplace_back", "new bucket"); a.m.emplace_back(); ev("create"); } break;
        case 3: case 4: case 5: case 6: case 7: case 8:
          if (n != 0) {
            auto const x = E::gen(r);
            auto const y = E::make(x);
            auto bk = a.v[key(i)];
            if (!fits(a.m[i].size() + 1)) {
              VP_CHECK(throws([&] { bk.push_back(y); }), "bucket-limit", "bucket of %zu elements grew past the limit", a.m[i].size());
              ev("bucket_limit");
              break;
            }
            auto const d = r.coin() ? bk.push_back(y) : bk.emplace_back(y);
            VP_CHECK(E::eq(a.v.data()[d], x), "push_back", "returned index does not name the new element");
            a.m[i].push_back(x);
            ev("push_back");
          }
          break;
        case 9: case 10:
          if (n != 0) {
            auto const x = E::gen(r);
            auto const p = r.below(a.m[i].size() + 1);
            auto bk = a.v[key(i)];
            if (!fits(a.m[i].size() + 1)) {
              VP_CHECK(throws([&] { bk.insert(bk.begin() + p, E::make(x)); }), "bucket-limit", "insert grew past the limit");
              ev("bucket_limit");
              break;
            }
            auto const y = E::make(x);
            auto const it = r.coin() ? bk.insert(bk.begin() + p, y) : bk.insert(bk.begin() + p, E::make(x));
            VP_CHECK((std::size_t)(it - bk.begin()) == p && E::eq(*it, x), "insert", "returned position");
            a.m[i].insert(a.m[i].begin() + p, x);
            ev("insert");
          }
          break;
        case 11:
          if (n != 0) {
            auto const s = large ? take_large(r, 70000) : r.below(std::min<std::size_t>(MAXB + 2, 40));
            auto bk = a.v[key(i)];
            if (!fits(s)) { VP_CHECK(throws([&] { bk.reserve(static_cast<S>(s)); }), "bucket-limit", "reserve past the limit"); break; }
            bk.reserve(static_cast<S>(s));
            VP_CHECK(bk.capacity() >= s, "reserve", "capacity %zu after reserve(%zu)", (std::size_t)bk.capacity(), s);
            ev("reserve");
          }
          break;
        case 12: case 13:
          if (n != 0) {
            auto const s = large ? take_large(r, 70000) : r.below(std::min<std::size_t>(MAXB + 2, 20));
            auto bk = a.v[key(i)];
            auto const x = E::gen(r);
            if (!fits(s)) { VP_CHECK(throws([&] { bk.resize(static_cast<S>(s), E::make(x)); }), "bucket-limit", "resize past the limit"); break; }
            bk.resize(static_cast<S>(s), E::make(x));
            a.m[i].resize(s, x);
            ev("resize");
          }
          break;
        case 14: if (n != 0) { a.v[key(i)].pop_back(); if (!a.m[i].empty()) a.m[i].pop_back(); ev("pop_back"); } break;
        case 15: if (n != 0) { a.v[key(i)].clear(); a.m[i].clear(); ev("bucket_clear"); } break;
        case 16: case 17:
          if (n != 0 && !a.m[i].empty()) {
            auto const p = r.below(a.m[i].size());
            auto bk = a.v[key(i)];
            auto const it = bk.erase(bk.begin() + p);
            a.m[i].erase(a.m[i].begin() + p);
            VP_CHECK((std::size_t)(it - bk.begin()) == p, "erase", "returned position %td, erased at %zu of %zu", it - bk.begin(), p, a.m[i].size() + 1);
            ev("erase");
          }
          break;
        case 18:
          if (n != 0) {
            auto const p = r.below(a.m[i].size() + 1), q = p + r.below(a.m[i].size() - p + 1);
            auto bk = a.v[key(i)];
            auto const it = bk.erase(bk.begin() + p, bk.begin() + q);
            a.m[i].erase(a.m[i].begin() + p, a.m[i].begin() + q);
            VP_CHECK((std::size_t)(it - bk.begin()) == p, "erase", "returned position %td of range erase at %zu", it - bk.begin(), p);
            ev("erase_range");
          }
          break;
        case 19: case 20: {  // release a whole bucket
          auto const j = r.below(n + 1);
          a.v.erase(key(j));
          if (j < n) a.m[j].clear();
          ev("release");
          break;
        }
        case 21:  // own element appended / inserted
          if (n != 0) {
            auto const j = r.below(n);
            if (!a.m[j].empty() && fits(a.m[i].size() + 1)) {
              auto const q = r.below(a.m[j].size());
              auto const x = a.m[j][q];
              auto bk = a.v[key(i)];
              auto src = a.v[key(j)];
              switch (r.below(3)) {
                case 0: bk.push_back(src[static_cast<S>(q)]); a.m[i].push_back(x); break;
                case 1: bk.emplace_back(src[static_cast<S>(q)]); a.m[i].push_back(x); break;
                default: {
                  auto const p = r.below(a.m[i].size() + 1);
                  bk.insert(bk.begin() + p, src[static_cast<S>(q)]);
                  a.m[i].insert(a.m[i].begin() + p, x);
                }
              }
              ev("alias");
            }
          }
          break;
        case 22: b.v = a.v; b.m = a.m; ev("copy"); break;
        case 23: a.v = std::move(b.v); a.m = b.m; b.v = V{}; b.m.clear(); ev("move"); break;
        case 24: std::swap(a.v, b.v); std::swap(a.m, b.m); ev("swap"); break;
        case 25: if (r.chance(1, 5)) { a.v.clear(); a.m.clear(); ev("clear"); } break;
        case 26: if (r.chance(1, 4)) a.v.reserve(static_cast<S>(r.below(20)), static_cast<S>(r.below(100))); break;
        case 27: {  // fill one bucket to force growth in the middle
          if (n == 0) break;
          auto const cnt = large ? take_large(r, 70000) : r.below(std::min<std::size_t>(MAXB, 70));
          for (std::size_t q = 0; q < cnt && a.m[i].size() < MAXB; ++q) {
            auto const x = E::gen(r);
            a.v[key(i)].push_back(E::make(x));
            a.m[i].push_back(x);
          }
          ev("fill");
          break;
        }
        default:
          if (n != 0 && !a.m[i].empty()) {
            auto const j = r.below(a.m[i].size());
            auto const x = E::gen(r);
            if (r.coin()) a.v[key(i)][static_cast<S>(j)] = E::make(x);
            else a.v.at(key(i)).at(static_cast<S>(j)) = E::make(x);
            a.m[i][j] = x;
            ev("write");
          }
      }
      a.check(r, "a");
    }
    b.check(r, "b");
  }
};

// ------------------------------------------------------------ paged_vecvec
template <typename D, typename S, typename PS, PS Min, PS Max>
constexpr std::size_t page_limit(cista::paged<D, S, PS, Min, Max> const*) { return Max; }

template <typename V, typename K>
struct pvv_test {
  using T = typename V::data_value_type;
  using E = elem<T>;
  using M = typename E::model;
  V v;
  std::vector<std::vector<M>> m;
  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }

  void check(rng& r, char const* w) {
    auto const& c = v;
    VP_CHECK((std::size_t)v.size() == m.size() && v.empty() == m.empty(), "size", "%s: size %zu, model %zu", w, (std::size_t)v.size(), m.size());
    std::vector<extent> ext;
    for (std::size_t i = 0; i < m.size(); ++i) {
      auto const& p = v.page(key(i));
      VP_CHECK(p.capacity_ >= p.size_, "capacity", "%s: page %zu", w, i);
      if (p.capacity_ != 0) {
        auto const a = reinterpret_cast<std::uintptr_t>(c.data(key(i)));
        ext.push_back({a, a + p.capacity_ * sizeof(T), i});
      }
    }
    auto const lo = reinterpret_cast<std::uintptr_t>(v.paged_.data_.begin()), hi = reinterpret_cast<std::uintptr_t>(v.paged_.data_.end());
    check_disjoint(std::move(ext), lo, hi, w);
    std::size_t n = 0;
    for (auto&& b : v) { check_bucket<T>(b, m[n], "range for", m.size()); ++n; }
    VP_CHECK(n == m.size(), "iteration", "%s", w);
    check_proxy_iteration(c.begin(), c.end(), m.size(), r, [&](auto&& b, std::size_t i, char const* x) { check_bucket<T>(b, m[i], x, m.size()); });
    check_proxy_iteration(v.begin(), v.end(), m.size(), r, [&](auto&& b, std::size_t i, char const* x) { VP_CHECK((std::size_t)b.size() == m[i].size(), "size", "%s", x); });
    check_difference(c.begin(), c.end(), m.size(), r);
    check_difference(v.begin(), v.end(), m.size(), r);
    if (!m.empty()) {
      auto const i = r.below(m.size());
      check_bucket<T>(v[key(i)], m[i], "[]");
      check_bucket<T>(c.at(key(i)), m[i], "at");
      check_bucket<T>(v.front(), m.front(), "front");
      check_bucket<T>(c.back(), m.back(), "back");
      check_bucket<T>(c.front(), m.front(), "const front");
      check_bucket<T>(v.back(), m.back(), "back");
      check_bucket<T>(*v[key(i)], m[i], "*");
      check_bucket<T>(*c[key(i)], m[i], "const *");
      auto const fixed = v[key(i)];
      check_bucket<T>(*fixed, m[i], "* of a const bucket");
      typename V::const_bucket const conv = fixed;
      check_bucket<T>(conv, m[i], "converted");
      if (!m[i].empty()) VP_CHECK(E::eq(fixed.front(), m[i].front()) && E::eq(fixed.back(), m[i].back()) && E::eq(conv.front(), m[i].front()) && E::eq(conv.back(), m[i].back()), "front", "const bucket %zu", i);
      VP_CHECK(end(v) - begin(v) == (std::ptrdiff_t)m.size() && end(c) - begin(c) == (std::ptrdiff_t)m.size(), "difference", "free begin and end");
      if constexpr (std::is_same_v<T, char>) {
        auto const s = std::string(m[i].begin(), m[i].end());
        VP_CHECK(c[key(i)].view() == s && v[key(i)].view() == s, "view", "-");
      }
    }
    if (r.chance(1, 3)) VP_CHECK(throws([&] { (void)v.at(key(m.size())); }) && throws([&] { (void)c.at(key(m.size() + 1)); }), "at", "at(size) does not throw");
    distinct(hash_nested<T>(m));
  }

  static void run(rng& r) {
    pvv_test a, b;
    auto const large = start_large<T>(r, 200);
    if (large) large_room() = 0;  // (of pages; their sizes are limited)
    auto const steps = 1 + r.below(large ? 10 : 60);
    constexpr auto lim = page_limit(static_cast<decltype(a.v.paged_)*>(nullptr));
    auto big = lim == 32768 && r.chance(1, 40);  // reach page capacity limits once in a while
    for (std::size_t k = 0; k < steps; ++k) {
      auto const n = a.m.size();
      auto const i = n == 0 ? 0 : r.below(n);
      auto const c = r.below(24);
      op("op%d n%zu i%zu(%zu)", (int)c, n, i, n == 0 ? 0 : a.m[i].size());
      switch (c) {
        case 0: case 1: case 2: {
          auto const x = gen_list<T>(r, 20);
          auto src = make_list<T>(x);
          a.v.emplace_back(src);
          a.m.push_back(x);
          ev("append");
          break;
        }
        case 3: {
          auto const x = E::gen(r), y = E::gen(r), z = E::gen(r);
          a.v.emplace_back({E::make(x), E::make(y), E::make(z)});
          a.m.push_back({x, y, z});
          break;
        }
        case 4: {  // any range convertible to the element type
          auto const x = gen_list<T>(r, 9);
          std::list<T> l;
          for (auto const& e : x) l.push_back(E::make(e));
          a.v.emplace_back(l);
          a.m.push_back(x);
          ev("append_list");
          if constexpr (std::is_arithmetic_v<T>) {
            std::vector<short> s;
            std::vector<M> y;
            for (std::size_t q = 0; q < r.below(12); ++q) { s.push_back(static_cast<short>(r.below(100))); y.push_back(static_cast<M>(s.back())); }
            a.v.emplace_back(s);
            a.m.push_back(y);
            ev("append_converting");
          }
          break;
        }
        case 5:
          for (std::size_t q = large ? r.big(70000) : 1; q != 0; --q) { a.v.emplace_back_empty(); a.m.emplace_back(); }
          ev("append_empty");
          break;
        case 6: case 7: case 8: case 9:
          if (n != 0) {
            auto const x = E::gen(r);
            auto const cnt = r.chance(1, 6) ? r.below(60) : 1;
            for (std::size_t q = 0; q < cnt; ++q) {
              if (a.m[i].size() == lim) {
                VP_CHECK(throws([&] { a.v[key(i)].push_back(E::make(x)); }), "page-limit", "a page grew past the limit of %zu", lim);
                ev("small_limit_refused");
                break;
              }
              a.v[key(i)].push_back(E::make(x));
              a.m[i].push_back(x);
            }
            if (a.m[i].size() > lim / 2) ev("largest_pages");
            ev("push_back");
          }
          break;
        case 10: case 11:
          if (n != 0) {
            auto const x = E::gen(r);
            auto const p = r.below(a.m[i].size() + 1);
            auto bk = a.v[key(i)];
            if (a.m[i].size() == lim) {
              VP_CHECK(throws([&] { bk.insert(bk.begin() + p, E::make(x)); }), "page-limit", "a page grew past the limit of %zu", lim);
              break;
            }
            auto const it = bk.insert(bk.begin() + p, E::make(x));
            VP_CHECK((std::size_t)(it - bk.begin()) == p, "insert", "returned position %td, inserted at %zu", it - bk.begin(), p);
            a.m[i].insert(a.m[i].begin() + p, x);
            ev("insert");
          }
          break;
        case 12: {
          auto const x = gen_list<T>(r, 12);
          auto const p = r.below(n + 1);
          a.v.insert(key(p), make_list<T>(x));
          a.m.insert(a.m.begin() + p, x);
          ev("insert_bucket");
          break;
        }
        case 13: {
          auto const s = r.coin() ? n + r.below(3) : r.below(n + 1);
          a.v.resize(s);
          a.m.resize(s);
          ev(s < n ? "recycle" : "resize_grow");
          break;
        }
        case 14: if (r.chance(1, 5)) { a.v.clear(); a.m.clear(); ev("clear"); } break;
        case 15: b.v = a.v; b.m = a.m; ev("copy"); break;
        case 16: a.v = std::move(b.v); a.m = b.m; b.v = V{}; b.m.clear(); ev("move"); break;
        case 17: std::swap(a.v, b.v); std::swap(a.m, b.m); ev("swap"); break;
        case 18:
          if (n != 0) {
            auto const j = r.below(n);
            if (!a.m[j].empty() && a.m[i].size() != lim) {
              auto const q = r.below(a.m[j].size());
              auto const x = a.m[j][q];
              a.v[key(i)].push_back(a.v[key(j)][q]);
              a.m[i].push_back(x);
              ev("alias");
            }
          }
          break;
        case 19:  // an own bucket appended
          if (n != 0) {
            if (r.coin()) a.v.emplace_back(a.v[key(i)]);
            else a.v.emplace_back(std::as_const(a.v)[key(i)]);
            auto const x = a.m[i];
            a.m.push_back(x);
            ev("append_bucket");
          }
          break;
        case 20: case 21:
          if (n != 0 && !a.m[i].empty()) {
            auto const j = r.below(a.m[i].size());
            auto const x = E::gen(r);
            switch (r.below(3)) {
              case 0: a.v[key(i)][j] = E::make(x); break;
              case 1: a.v.at(key(i)).at(j) = E::make(x); break;
              default: *(a.v[key(i)].begin() + j) = E::make(x);
            }
            a.m[i][j] = x;
            ev("write");
          }
          break;
        case 22:
          if (big && n != 0) {  // page capacity limit: refused, nothing changes
            big = false;
            auto const max = std::size_t{1} << 15U;
            std::vector<T> x(max, E::make(E::gen(r)));
            std::vector<M> y;
            for (auto const& e : x) y.push_back(e);
            a.v.emplace_back(x);
            VP_CHECK((std::size_t)a.v.back().size() == max, "page-limit", "largest page");
            VP_CHECK(throws([&] { a.v.back().push_back(x[0]); }), "page-limit", "a page grew past the limit");
            VP_CHECK((std::size_t)a.v.back().size() == max && std::equal(a.v.back().begin(), a.v.back().end(), x.begin()), "page-limit", "refused growth changed the page");
            a.m.push_back(y);
            for (auto const over : {max + 1, std::size_t{65536}, std::size_t{65536} + 5U}) {
              std::vector<T> z(over, x[0]);
              VP_CHECK(throws([&] { a.v.emplace_back(z); }), "page-limit", "a bucket of %zu elements was accepted", over);
              VP_CHECK(throws([&] { a.v.insert(key(0), z); }), "page-limit", "a bucket of %zu elements was accepted", over);
            }
            VP_CHECK((std::size_t)a.v.size() == a.m.size(), "page-limit", "refused append changed the size");
            a.v.resize(a.m.size() - 1);
            a.m.pop_back();
            ev("page_limit");
          }
          break;
        default:
          if (n != 0) {
            auto bk = a.v[key(i)];
            std::reverse(bk.begin(), bk.end());
            std::reverse(a.m[i].begin(), a.m[i].end());
          }
      }
      a.check(r, "a");
    }
    b.check(r, "b");
  }
};

// -------------------------------------------------------------------- paged
template <typename P>
void paged_run(rng& r) {
  using T = typename P::value_type;
  using E = elem<T>;
  using M = typename E::model;
  using page = typename P::page_t;
  P p;
  struct entry { page pg; std::vector<M> m; };
  std::vector<entry> live;
  std::size_t peak_live = 0;
  auto fill = [&](entry& e, std::size_t from) {
    for (std::size_t q = from; q < e.pg.size(); ++q) {
      auto const x = E::gen(r);
      p.data(e.pg)[q] = E::make(x);
      e.m.push_back(x);
    }
  };
  auto const steps = 1 + r.below(120);
  constexpr auto lim = page_limit(static_cast<P*>(nullptr));
  for (std::size_t k = 0; k < steps; ++k) {
    auto const c = r.below(10);
    auto const s = r.size(r.chance(1, 10) ? 400 : 30);
    op("op%d s%zu live%zu", (int)c, s, live.size());
    if (s > lim) {
      using ps = typename P::page_size_type;
      if (s <= std::numeric_limits<ps>::max()) {
        VP_CHECK(throws([&] { p.create_page(static_cast<ps>(s)); }), "page-limit", "a page of %zu elements (limit %zu) was handed out", s, lim);
        if (!live.empty() && live[0].pg.capacity_ < s) VP_CHECK(throws([&] { p.resize_page(live[0].pg, static_cast<ps>(s)); }), "page-limit", "a page grew to %zu (limit %zu)", s, lim);
        ev("small_limit_refused");
      }
    } else if (c < 4 || live.empty()) {
      if (s > lim / 2) ev("largest_pages");
      entry e{p.create_page(static_cast<typename P::page_size_type>(s)), {}};
      VP_CHECK(e.pg.size() == s && e.pg.capacity_ >= s && e.pg.valid(), "create", "page of %zu: size %zu capacity %zu", s, (std::size_t)e.pg.size(), (std::size_t)e.pg.capacity_);
      fill(e, 0);
      live.push_back(e);
      ev("page_create");
    } else if (c < 7) {
      auto const i = r.below(live.size());
      auto& e = live[i];
      e.pg = p.resize_page(e.pg, static_cast<typename P::page_size_type>(s));
      VP_CHECK(e.pg.size() == s && e.pg.capacity_ >= s, "resize", "page of %zu: size %zu capacity %zu", s, (std::size_t)e.pg.size(), (std::size_t)e.pg.capacity_);
      if (e.m.size() > s) e.m.resize(s);
      for (std::size_t q = 0; q < e.m.size(); ++q) VP_CHECK(E::eq(p.data(e.pg)[q], e.m[q]), "resize-content", "element %zu of the resized page", q);
      fill(e, e.m.size());
      ev("page_resize");
    } else if (c < 9) {
      auto const i = r.below(live.size());
      p.free_page(live[i].pg);
      live.erase(live.begin() + i);
      ev("page_free");
    } else if (r.chance(1, 6)) {
      p.clear();
      live.clear();
      peak_live = 0;
    } else {
      P x{p};
      p = P{};
      p = std::move(x);
    }
    std::vector<extent> ext;
    std::size_t cap = 0;
    for (std::size_t i = 0; i < live.size(); ++i) {
      auto const a = reinterpret_cast<std::uintptr_t>(p.data(live[i].pg));
      ext.push_back({a, a + live[i].pg.capacity_ * sizeof(T), i});
      cap += live[i].pg.capacity_;
      for (std::size_t q = 0; q < live[i].m.size(); ++q)
        VP_CHECK(E::eq(std::as_const(p).data(live[i].pg)[q], live[i].m[q]), "page-content", "page %zu element %zu", i, q);
      VP_CHECK(p.begin(live[i].pg) == p.data(live[i].pg), "page-begin", "-");
    }
    peak_live = std::max(peak_live, cap);
    if (!ext.empty()) check_disjoint(std::move(ext), reinterpret_cast<std::uintptr_t>(p.data_.begin()), reinterpret_cast<std::uintptr_t>(p.data_.end()), "pages");
    distinct(mix(live.size() * 1000003U + cap, (std::size_t)p.data_.size()));
  }
}
// Storage of freed pages is handed out again: no growth under steady load.
template <typename P>
void paged_steady(rng& r) {
  P p;
  auto const s = 1 + r.below(60), n = 1 + r.below(10);
  std::vector<typename P::page_t> pages;
  std::size_t size = 0;
  for (int round = 0; round < 6; ++round) {
    for (std::size_t i = 0; i < n; ++i) pages.push_back(p.create_page(static_cast<typename P::page_size_type>(s)));
    if (round == 0) size = p.data_.size();
    VP_CHECK(p.data_.size() == size, "recycle", "round %d of %zu pages of %zu: storage grew from %zu to %zu", round, n, s, size, (std::size_t)p.data_.size());
    while (!pages.empty()) {
      auto const i = r.below(pages.size());
      p.free_page(pages[i]);
      pages.erase(pages.begin() + i);
    }
  }
  ev("steady_pages");
  distinct(mix(s, n));
}
template <typename V>
void mm_steady(rng& r) {
  using S = typename V::size_type;
  V v;
  auto const n = 1 + r.below(8), s = 1 + r.below(40);
  std::size_t size = 0;
  for (int round = 0; round < 5; ++round) {
    for (std::size_t i = 0; i < n; ++i) v[static_cast<S>(i)].reserve(static_cast<S>(s));
    if (round == 0) size = v.data_size();
    VP_CHECK(v.data_size() == size, "recycle", "round %d: storage grew from %zu to %zu", round, size, (std::size_t)v.data_size());
    for (std::size_t i = 0; i < n; ++i) v.erase(static_cast<S>(i));
    VP_CHECK(v.element_count() == 0, "element_count", "-");
  }
  ev("steady_buckets");
  distinct(mix(s, n));
}

}  // namespace vp
