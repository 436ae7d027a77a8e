// P16: jagged arrays and flat matrices against nested std::vectors.
#pragma once
#include <list>
#include <sstream>
#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/vecvec.h"
#include "cista/strong.h"
#include "elems.h"

namespace vp {

template <typename F>
bool throws(F&& f) {
  try {
    f();
  } catch (std::exception const&) {
    return true;
  }
  return false;
}

// A few histories use sizes beyond the range of narrower index types; elements
// they may still add.
inline std::size_t& large_room() {
  static std::size_t n = 0;
  return n;
}
inline std::size_t& throw_calls() {
  static std::size_t n = 0;
  return n;
}
inline std::size_t take_large(rng& r, std::size_t max) {
  auto const n = std::min(r.big(max), large_room());
  large_room() -= n;
  return n;
}
template <typename T>
bool start_large(rng& r, unsigned one_in) {
  auto const l = r.chance(1, one_in);
  throw_calls() = r.below(7);
  large_room() = l ? (std::is_trivially_copyable_v<T> ? 150000U : 9000U) : 0U;
  if (l) ev("large_history");
  return l;
}
// the checks that have to throw are costly, some of the judged buckets get them
inline bool judge_throws(std::size_t n_buckets) {
  return ++throw_calls() % (n_buckets < 300U ? 7U : 127U) == 1U;
}

template <typename T>
std::vector<typename elem<T>::model> gen_list(rng& r, std::size_t max) {
  std::vector<typename elem<T>::model> m;
  auto const n = r.chance(1, 4) ? 0 : large_room() != 0 && r.chance(1, 8) ? take_large(r, 80000) : r.below(max + 1);
  for (std::size_t i = 0; i < n; ++i) m.push_back(elem<T>::gen(r));
  return m;
}
template <typename T>
std::vector<T> make_list(std::vector<typename elem<T>::model> const& m) {
  std::vector<T> v;
  v.reserve(m.size());
  for (auto const& x : m) v.push_back(elem<T>::make(x));
  return v;
}
template <typename T, typename C>
std::uint64_t hash_nested(C const& c) {
  std::uint64_t h = c.size() * 77U + 5U;
  std::size_t n = 0;
  for (auto const& x : c) {
    if (++n > 24) break;
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, typename elem<T>::model>) h = mix(h, elem<T>::h(x));
    else h = mix(h, hash_nested<T>(x));
  }
  return h;
}

// A bucket's contents through every accessor it has.
template <typename T, typename B, typename M>
void check_bucket(B&& b, M const& m, char const* w, std::size_t n_buckets = 0) {
  using E = elem<T>;
  VP_CHECK((std::size_t)b.size() == m.size(), "bucket-size", "%s: bucket size %zu, model %zu", w, (std::size_t)b.size(), m.size());
  VP_CHECK(b.empty() == m.empty(), "bucket-empty", "%s", w);
  std::size_t i = 0;
  for (auto const& x : b) {
    VP_CHECK(i < m.size(), "bucket-iteration", "%s: iteration longer than the bucket", w);
    VP_CHECK(E::eq(x, m[i]), "bucket-content", "%s: element %zu of %zu", w, i, m.size());
    ++i;
  }
  VP_CHECK(i == m.size(), "bucket-iteration", "%s: iterated %zu of %zu", w, i, m.size());
  VP_CHECK((std::size_t)std::distance(b.begin(), b.end()) == m.size(), "bucket-distance", "%s", w);
  VP_CHECK((std::size_t)std::distance(begin(b), end(b)) == m.size(), "bucket-adl", "%s", w);
  if (!m.empty()) {
    VP_CHECK(E::eq(b.front(), m.front()) && E::eq(b.back(), m.back()), "bucket-front-back", "%s", w);
    for (std::size_t k = 0; k < m.size(); k += 1 + m.size() / 5)
      VP_CHECK(E::eq(b[k], m[k]) && E::eq(b.at(k), m[k]), "bucket-index", "%s: [%zu]", w, k);
    VP_CHECK(E::eq(b[m.size() - 1], m.back()), "bucket-index", "%s: last", w);
  }
  // the same bucket, not to be changed through
  auto const& cb = b;
  VP_CHECK((std::size_t)cb.size() == m.size() && cb.empty() == m.empty(), "bucket-size", "%s: const bucket", w);
  VP_CHECK((std::size_t)std::distance(cb.begin(), cb.end()) == m.size() && (std::size_t)std::distance(begin(cb), end(cb)) == m.size(), "bucket-distance", "%s: const bucket", w);
  if (!m.empty()) {
    VP_CHECK(E::eq(*cb.begin(), m.front()) && E::eq(*begin(cb), m.front()) && E::eq(*std::prev(cb.end()), m.back()) && E::eq(*std::prev(end(cb)), m.back()), "bucket-content", "%s: const bucket", w);
    for (std::size_t k = 0; k < m.size(); k += 1 + m.size() / 3)
      VP_CHECK(E::eq(cb[k], m[k]) && E::eq(cb.at(k), m[k]), "bucket-index", "%s: const [%zu]", w, k);
  }
  if (!judge_throws(n_buckets)) return;
  VP_CHECK(throws([&] { (void)cb.at(m.size()); }) && throws([&] { (void)cb.at(~std::size_t{0}); }), "bucket-at", "%s: const at(size) does not throw", w);
  VP_CHECK(throws([&] { (void)b.at(m.size()); }), "bucket-at", "%s: at(size) does not throw", w);
  VP_CHECK(throws([&] { (void)b.at(m.size() + 7); }), "bucket-at", "%s: at(size+7) does not throw", w);
}

// Random access arithmetic of proxy iterators over n buckets.
template <typename It, typename Judge>
void check_proxy_iteration(It first, It last, std::size_t n, rng& r, Judge&& judge) {
  std::size_t i = 0;
  for (auto it = first; it != last; ++it, ++i) {
    VP_CHECK(i < n, "iteration", "forward iteration longer than %zu", n);
    judge(*it, i, "forward");
  }
  VP_CHECK(i == n, "iteration", "forward iteration %zu of %zu", i, n);
  for (auto it = last; it != first;) {
    VP_CHECK(i > 0, "iteration", "backward iteration longer than %zu", n);
    --it;
    --i;
    judge(*it, i, "backward");
  }
  VP_CHECK(i == 0, "iteration", "backward iteration");
  if (n == 0) return;
  auto const a = r.below(n), b = r.below(n);
  auto const da = static_cast<std::ptrdiff_t>(a), db = static_cast<std::ptrdiff_t>(b);
  auto x = first + da;
  judge(*x, a, "first + a");
  judge(*(last - (static_cast<std::ptrdiff_t>(n) - da)), a, "last - (n-a)");
  x += db - da;
  judge(*x, b, "+=");
  x -= db - da;
  judge(*x, a, "-=");
  VP_CHECK(x == first + da && !(x != first + da), "iteration", "equality");
}
template <typename It>
void check_difference(It first, It last, std::size_t n, rng& r) {
  VP_CHECK(static_cast<std::ptrdiff_t>(last - first) == (std::ptrdiff_t)n, "difference", "last - first");
  VP_CHECK(static_cast<std::ptrdiff_t>(first - last) == -(std::ptrdiff_t)n, "difference", "first - last is %lld, not -%zu",
           (long long)(first - last), n);
  if (n == 0) return;
  auto const a = static_cast<std::ptrdiff_t>(r.below(n)), b = static_cast<std::ptrdiff_t>(r.below(n));
  VP_CHECK(static_cast<std::ptrdiff_t>((first + a) - (first + b)) == a - b, "difference", "(first+%td)-(first+%td)", a, b);
}

// ------------------------------------------------------------------- vecvec
template <typename V, typename K>
struct vecvec_test {
  using T = typename V::data_value_type;
  using E = elem<T>;
  using M = typename E::model;
  using NM = std::vector<std::vector<M>>;
  V v;
  NM m;

  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }

  void check(rng& r, char const* w) {
    auto const& c = v;
    VP_CHECK((std::size_t)v.size() == m.size(), "size", "%s: size %zu, model %zu", w, (std::size_t)v.size(), m.size());
    VP_CHECK(v.empty() == m.empty(), "empty", "%s: empty() with %zu buckets", w, m.size());
    std::size_t total = 0;
    for (auto const& x : m) total += x.size();
    VP_CHECK((std::size_t)v.data_.size() == total, "data-size", "%s: %zu elements stored, buckets hold %zu", w, (std::size_t)v.data_.size(), total);
    check_proxy_iteration(c.begin(), c.end(), m.size(), r, [&](auto&& b, std::size_t i, char const* x) { check_bucket<T>(b, m[i], x, m.size()); });
    check_proxy_iteration(v.begin(), v.end(), m.size(), r, [&](auto&& b, std::size_t i, char const* x) {
      VP_CHECK((std::size_t)b.size() == m[i].size(), "bucket-size", "%s", x);
      if (!m[i].empty()) VP_CHECK(E::eq(b.front(), m[i].front()) && E::eq(b.back(), m[i].back()), "bucket-content", "%s", x);
    });
    check_difference(c.begin(), c.end(), m.size(), r);
    check_difference(v.begin(), v.end(), m.size(), r);
    std::size_t n = 0;
    for (auto&& b : v) { check_bucket<T>(b, m[n], "range for", m.size()); ++n; }
    if (!m.empty()) {
      check_bucket<T>(v.front(), m.front(), "front");
      check_bucket<T>(c.front(), m.front(), "front");
      check_bucket<T>(v.back(), m.back(), "back");
      check_bucket<T>(c.back(), m.back(), "back");
    } else {
      VP_CHECK(throws([&] { (void)v.front(); }) && throws([&] { (void)c.back(); }), "front", "front of an empty jagged array does not throw");
    }
    for (int k = 0; k < 3; ++k) {
      auto const i = r.below(m.size() + 3);
      if (i < m.size()) {
        check_bucket<T>(v[key(i)], m[i], "[]");
        check_bucket<T>(c[key(i)], m[i], "c[]");
        check_bucket<T>(v.at(key(i)), m[i], "at");
        check_bucket<T>(c.at(key(i)), m[i], "c.at");
        auto const cb = c[key(i)];
        VP_CHECK(cb.data() == (m[i].empty() ? nullptr : &cb[0]) && data(cb) == cb.data(), "data", "const bucket data()");
        auto b = v[key(i)];
        VP_CHECK(b.data() == cb.data() && data(b) == cb.data() && (std::size_t)size(b) == m[i].size(), "data", "bucket data()");
        auto rit = cb.rbegin();
        for (std::size_t x = m[i].size(); x != 0; --x, ++rit) VP_CHECK(E::eq(*rit, m[i][x - 1]), "reverse", "element %zu", x - 1);
        VP_CHECK(rit == cb.rend(), "reverse", "length");
        if constexpr (std::is_same_v<T, char>) {
          auto const s = std::string(m[i].begin(), m[i].end());
          VP_CHECK(cb.view() == s && b.view() == s, "view", "view");
        }
      } else {
        VP_CHECK(throws([&] { (void)v.at(key(i)); }), "at", "at(%zu) of %zu buckets does not throw", i, m.size());
        VP_CHECK(throws([&] { (void)c.at(key(i)); }), "at", "const at(%zu) of %zu buckets does not throw", i, m.size());
      }
    }
    distinct(hash_nested<T>(m));
  }

  static void run(rng& r) {
    vecvec_test a, b;
    auto const large = sizeof(cista::base_t<K>) > 2U && start_large<T>(r, 150);
    auto const steps = 1 + r.below(large ? 12 : 40);
    for (std::size_t k = 0; k < steps; ++k) {
      auto const n = a.m.size();
      auto const i = n == 0 ? 0 : r.below(n);
      auto const c = r.below(22);
      op("op%d n%zu i%zu", (int)c, n, i);
      switch (c) {
        case 0: case 1: case 2: {  // append a temporary range
          auto x = gen_list<T>(r, 8);
          a.v.emplace_back(make_list<T>(x));
          a.m.push_back(x);
          ev("append");
          break;
        }
        case 3: {  // append a named range, which keeps its elements
          auto x = gen_list<T>(r, 8);
          auto src = make_list<T>(x);
          a.v.emplace_back(src);
          for (std::size_t q = 0; q < x.size(); ++q) VP_CHECK(E::eq(src[q], x[q]), "source-changed", "appending a named range changed it");
          auto const csrc = make_list<T>(x);
          a.v.emplace_back(csrc);
          a.m.push_back(x);
          a.m.push_back(x);
          ev("append_lvalue");
          break;
        }
        case 4: {
          auto x = gen_list<T>(r, 8);
          std::list<T> l;
          for (auto const& e : x) l.push_back(E::make(e));
          a.v.emplace_back(l);
          a.m.push_back(x);
          ev("append_list");
          break;
        }
        case 5: {
          auto const n = r.below(5);
          auto const x = E::gen(r), y = E::gen(r), z = E::gen(r);
          auto const mk = [](M const& q) { return E::make(q); };
          if (n == 0) a.v.emplace_back(std::initializer_list<T>{}), a.m.push_back({});
          else if (n == 1) a.v.emplace_back(std::initializer_list<T>{mk(x)}), a.m.push_back({x});
          else if (n == 2) a.v.emplace_back({mk(x), mk(y)}), a.m.push_back({x, y});
          else if (n == 3) a.v.emplace_back({mk(x), mk(y), mk(z)}), a.m.push_back({x, y, z});
          else a.v.emplace_back({mk(x), mk(y), mk(z), mk(x), mk(y), mk(z)}), a.m.push_back({x, y, z, x, y, z});
          ev("append_init_list");
          break;
        }
        case 6: {
          auto const s = large && r.coin() ? take_large(r, 70000) : r.below(9);
          auto bk = a.v.add_back_sized(s);
          VP_CHECK((std::size_t)bk.size() == s, "add_back_sized", "size");
          std::vector<M> x;
          for (std::size_t q = 0; q < s; ++q) {
            if constexpr (std::is_arithmetic_v<T>) VP_CHECK(bk[q] == T{}, "add_back_sized", "new elements are value initialised");
            x.push_back(E::gen(r));
            bk[q] = E::make(x.back());
          }
          a.m.push_back(x);
          ev("add_back_sized");
          break;
        }
        case 7: case 8:
          if (n != 0) {
            auto const j = r.coin() ? i : n - 1;
            auto const x = E::gen(r);
            a.v[key(j)].push_back(E::make(x));
            a.m[j].push_back(x);
            ev("bucket_push_back");
          }
          break;
        case 9:
          if (n != 0) {
            auto const x = E::gen(r);
            auto const grow = large && r.coin() ? take_large(r, 70000) : r.below(5);
            a.v[key(i)].grow(a.m[i].size() + grow, E::make(x));
            a.m[i].insert(a.m[i].end(), grow, x);
            ev("bucket_grow");
            if (!a.m[i].empty()) {
              VP_CHECK(throws([&] { a.v[key(i)].grow(a.m[i].size() - 1); }), "grow", "shrinking grow does not throw");
            }
          }
          break;
        case 10: case 11:
          if (n != 0 && !a.m[i].empty()) {
            auto const j = r.below(a.m[i].size());
            auto const x = E::gen(r);
            switch (r.below(4)) {
              case 0: a.v[key(i)][j] = E::make(x); break;
              case 1: a.v.at(key(i)).at(j) = E::make(x); break;
              case 2: *(a.v[key(i)].begin() + j) = E::make(x); break;
              default: (*(a.v.begin() + i))[j] = E::make(x); break;
            }
            a.m[i][j] = x;
            ev("write");
          }
          break;
        case 12: {  // resize
          auto const s = r.coin() ? n + (large ? r.big(70000) : r.below(4)) : r.below(n + 1);
          a.v.resize(s);
          a.m.resize(s);
          ev(s < n ? "resize_shrink" : "resize_grow");
          break;
        }
        case 13: if (r.chance(1, 4)) { a.v.clear(); a.m.clear(); ev("clear"); } break;
        case 14: b.v = a.v; b.m = a.m; ev("copy"); break;
        case 15: a.v = std::move(b.v); a.m = b.m; b.v = V{}; b.m.clear(); ev("move"); break;
        case 16: std::swap(a.v, b.v); std::swap(a.m, b.m); ev("swap"); break;
        case 17: { V x{a.v}; vecvec_test t; t.v = std::move(x); t.m = a.m; t.check(r, "copy"); break; }
        case 18:  // an own element appended to a bucket
          if (n != 0) {
            auto const j = r.below(n);
            if (!a.m[j].empty()) {
              auto const q = r.below(a.m[j].size());
              auto const x = a.m[j][q];
              if (r.coin()) {
                a.v[key(i)].push_back(a.v[key(j)][q]);
                a.m[i].push_back(x);
              } else {
                auto const g = 1 + r.below(3);
                a.v[key(i)].grow(a.m[i].size() + g, a.v[key(j)][q]);
                a.m[i].insert(a.m[i].end(), g, x);
              }
              ev("alias_push_back");
            }
          }
          break;
        case 19:  // a bucket of another jagged array appended
          if (!b.m.empty()) {
            auto const j = r.below(b.m.size());
            if (r.coin()) a.v.emplace_back(b.v[key(j)]);
            else a.v.emplace_back(std::as_const(b.v)[key(j)]);
            a.m.push_back(b.m[j]);
            b.check(r, "source of an appended bucket");
            ev("append_bucket");
          }
          if (!a.m.empty()) {  // one of its own buckets
            auto const j = r.below(a.m.size());
            switch (r.below(3)) {
              case 0: a.v.emplace_back(a.v[key(j)]); break;
              case 1: a.v.emplace_back(std::as_const(a.v)[key(j)]); break;
              default: { auto const bu = a.v[key(j)]; a.v.emplace_back(bu); }
            }
            auto const x = a.m[j];
            a.m.push_back(x);
            ev("append_own_bucket");
          }
          break;
        case 20:
          if constexpr (std::is_same_v<T, char>) {
            auto const s = gen_string(r, 12);
            if (r.coin()) a.v.emplace_back(s.c_str()); else a.v.emplace_back(std::string_view{s});
            a.m.push_back(std::vector<M>(s.begin(), s.end()));
            ev("append_text");
          }
          break;
        default:
          if (n != 0) {
            auto bk = a.v[key(i)];
            std::reverse(bk.begin(), bk.end());
            std::reverse(a.m[i].begin(), a.m[i].end());
          }
      }
      a.check(r, "a");
    }
    b.check(r, "b");
  }
};

// --------------------------------------------------------------------- nvec
template <typename M, std::size_t N>
struct nest { using type = std::vector<typename nest<M, N - 1>::type>; };
template <typename M>
struct nest<M, 0> { using type = M; };

template <typename V, typename K, std::size_t N>
struct nvec_test {
  using T = typename V::data_value_type;
  using E = elem<T>;
  using M = typename E::model;
  using entry = typename nest<M, N>::type;
  using src = typename nest<T, N>::type;
  V v;
  std::vector<entry> m;

  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }
  template <std::size_t L>
  static typename nest<M, L>::type gen(rng& r) {
    if constexpr (L == 0) return E::gen(r);
    else {
      typename nest<M, L>::type x;
      auto const n = r.chance(1, 4) ? 0 : r.below(5);
      for (std::size_t i = 0; i < n; ++i) x.push_back(gen<L - 1>(r));
      return x;
    }
  }
  template <std::size_t L>
  static typename nest<T, L>::type mk(typename nest<M, L>::type const& x) {
    if constexpr (L == 0) return E::make(x);
    else {
      typename nest<T, L>::type y;
      for (auto const& e : x) y.push_back(mk<L - 1>(e));
      return y;
    }
  }
  template <std::size_t L>
  static bool same(typename nest<T, L>::type const& y, typename nest<M, L>::type const& x) {
    if constexpr (L == 0) return E::eq(y, x);
    else {
      if (x.size() != y.size()) return false;
      for (std::size_t i = 0; i < x.size(); ++i)
        if (!same<L - 1>(y[i], x[i])) return false;
      return true;
    }
  }
  template <std::size_t L, typename B>
  static void judge(B&& b, typename nest<M, L>::type const& x, rng& r, char const* w) {
    VP_CHECK((std::size_t)b.size() == x.size(), "meta-size", "%s: level %zu holds %zu, model %zu", w, L, (std::size_t)b.size(), x.size());
    if constexpr (L == 1) {
      check_bucket<T>(b, x, w);
      if constexpr (!std::is_const_v<std::remove_pointer_t<decltype(&b[0])>>) {
        VP_CHECK((std::size_t)size(b) == x.size() && (x.empty() || data(b) == &b[0]), "bucket-data", "%s", w);
        if constexpr (std::is_same_v<T, char>) {
          VP_CHECK(b.view() == std::string(x.begin(), x.end()), "view", "%s: view", w);
          cista::const_bucket<decltype(v.data_), std::decay_t<decltype(v.index_[0])>, std::uint32_t> const c = b;
          VP_CHECK(c.view() == std::string(x.begin(), x.end()), "view", "%s: const view", w);
        }
      }
    } else {
      check_proxy_iteration(b.begin(), b.end(), x.size(), r, [&](auto&& c, std::size_t i, char const* ww) {
        if (ww[0] == 'f' && ww[1] == 'o') judge<L - 1>(c, x[i], r, ww);
        else light<L - 1>(c, x[i], ww);
      });
      std::size_t n = 0;
      for (auto&& c : b) { light<L - 1>(c, x[n], "range for"); ++n; }
      VP_CHECK(n == x.size(), "meta-iteration", "%s", w);
      n = 0;
      for (auto it = begin(b), e = end(b); it != e; ++it) { light<L - 1>(*it, x[n], "free begin and end"); ++n; }
      VP_CHECK(n == x.size(), "meta-iteration", "%s", w);
      auto const& cb = b;
      VP_CHECK((std::size_t)cb.size() == x.size(), "meta-size", "%s: const", w);
      n = 0;
      for (auto it = begin(cb), e = end(cb); it != e; ++it) { light<L - 1>(*it, x[n], "const begin and end"); ++n; }
      VP_CHECK(n == x.size(), "meta-iteration", "%s: const", w);
      check_proxy_iteration(cb.begin(), cb.end(), x.size(), r, [&](auto&& c, std::size_t i, char const* ww) { light<L - 1>(c, x[i], ww); });
      auto same = *cb;
      light<L>(same, x, "what a bucket refers to");
      if constexpr (L == 2U) check_difference(b.begin(), b.end(), x.size(), r);
    }
  }
  // first leaf only
  template <std::size_t L, typename B>
  static void light(B&& b, typename nest<M, L>::type const& x, char const* w) {
    VP_CHECK((std::size_t)b.size() == x.size(), "meta-size", "%s: level %zu holds %zu, model %zu", w, L, (std::size_t)b.size(), x.size());
    if (x.empty()) return;
    if constexpr (L == 1) VP_CHECK(E::eq(b.front(), x.front()) && E::eq(b.back(), x.back()), "meta-content", "%s", w);
    else { light<L - 1>(*b.begin(), x.front(), w); light<L - 1>(b[x.size() - 1], x.back(), w); }
  }
  // at/size with full and partial index lists
  template <typename C, std::size_t L, typename X, typename... Is>
  static void judge_at(C& c, X const& x, rng& r, Is... is) {
    // x: the entry at indices is...; L levels remain
    if constexpr (L == 1) {
      check_bucket<T>(c.at(is...), x, "at");
      ev("at_full");
    } else {
      for (std::size_t i = 0; i < x.size(); i += 1 + r.below(2)) judge_at<C, L - 1>(c, x[i], r, is..., static_cast<unsigned>(i));
      if constexpr (L == 2) {
        VP_CHECK(throws([&] { (void)c.at(is..., static_cast<unsigned>(x.size())); }), "nvec-at", "at(.., size) does not throw (%zu entries)", x.size());
        VP_CHECK(throws([&] { (void)c.at(is..., static_cast<unsigned>(x.size() + 3)); }), "nvec-at", "at(.., size+3) does not throw");
        ev("at_out_of_range");
      }
    }
    VP_CHECK((std::size_t)c.size(is...) == x.size(), "nvec-size", "size(%zu indices) is %zu, model %zu", sizeof...(Is), (std::size_t)c.size(is...), x.size());
  }
  template <typename F, std::size_t... I>
  static void with_zeros(F&& f, K first, std::index_sequence<I...>) { f(first, (static_cast<void>(I), 0U)...); }

  void check(rng& r, char const* w) {
    auto const& c = v;
    VP_CHECK((std::size_t)c.size() == m.size(), "size", "%s: size %zu, model %zu", w, (std::size_t)c.size(), m.size());
    check_proxy_iteration(c.begin(), c.end(), m.size(), r, [&](auto&& b, std::size_t i, char const* x) { light<N>(b, m[i], x); });
    check_proxy_iteration(v.begin(), v.end(), m.size(), r, [&](auto&& b, std::size_t i, char const* x) { light<N>(b, m[i], x); });
    for (std::size_t i = 0; i < m.size(); ++i) {
      if (r.coin()) judge<N>(c[key(i)], m[i], r, "[]");
      else judge<N>(v[key(i)], m[i], r, "[]");
    }
    if (!m.empty()) {
      light<N>(*c.front(), m.front(), "front");
      light<N>(*c.back(), m.back(), "back");
      light<N>(*v.front(), m.front(), "front");
      light<N>(*v.back(), m.back(), "back");
      auto const i = r.below(m.size());
      judge_at<V const, N>(c, m[i], r, key(i));
      judge_at<V, N>(v, m[i], r, key(i));
    }
    for (std::size_t d = 0; d < 2; ++d) {
      with_zeros([&](auto... is) {
        VP_CHECK(throws([&] { (void)c.at(is...); }) && throws([&] { (void)v.at(is...); }), "nvec-at", "at(size+%zu, ..) does not throw (%zu entries)", d, m.size());
      }, key(m.size() + d), std::make_index_sequence<N - 1>{});
      VP_CHECK(throws([&] { (void)c.size(key(m.size() + d)); }), "nvec-size", "size(size+%zu) does not throw", d);
    }
    distinct(hash_nested<T>(m));
  }
  template <std::size_t L, typename B>
  static void write(B&& b, typename nest<M, L>::type& x, rng& r) {
    if (x.empty()) return;
    auto const i = r.below(x.size());
    if constexpr (L == 1) {
      x[i] = E::gen(r);
      switch (r.below(3)) {
        case 0: b[i] = E::make(x[i]); break;
        case 1: b.at(i) = E::make(x[i]); break;
        default: *(b.begin() + i) = E::make(x[i]);
      }
      ev("write");
    } else if (r.coin()) write<L - 1>(b[i], x[i], r);
    else write<L - 1>(*(b.begin() + i), x[i], r);
  }

  static void run(rng& r) {
    large_room() = 0;
    throw_calls() = r.below(7);
    nvec_test a, b;
    auto const steps = 1 + r.below(14);
    for (std::size_t k = 0; k < steps; ++k) {
      auto const c = r.below(11);
      op("op%d n%zu", (int)c, a.m.size());
      switch (c) {
        case 0: case 1: case 2: case 3: {
          auto const x = gen<N>(r);
          if (r.coin()) a.v.emplace_back(mk<N>(x));
          else {
            auto y = mk<N>(x);
            a.v.emplace_back(y);
            VP_CHECK((same<N>(y, x)), "source-changed", "appending a named range changed it");
            ev("append_lvalue");
          }
          a.m.push_back(x);
          ev("append");
          break;
        }
        case 4: case 5:
          if (!a.m.empty()) {
            auto const i = r.below(a.m.size());
            write<N>(a.v[key(i)], a.m[i], r);
          }
          break;
        case 6: b.v = a.v; b.m = a.m; ev("copy"); break;
        case 7: a.v = std::move(b.v); a.m = b.m; b.v = V{}; b.m.clear(); ev("move"); break;
        case 8: std::swap(a.v, b.v); std::swap(a.m, b.m); ev("swap"); break;
        case 9:  // a range of its own or of another one
          for (auto* o : {&a, &b}) {
            if (o->m.empty()) continue;
            auto const j = r.below(o->m.size());
            if (r.coin()) a.v.emplace_back(o->v[key(j)]);
            else a.v.emplace_back(std::as_const(o->v)[key(j)]);
            auto const x = o->m[j];
            a.m.push_back(x);
            ev("append_own_range");
          }
          break;
        default: { nvec_test t; t.v = a.v; t.m = a.m; if (!t.m.empty()) write<N>(t.v[key(0)], t.m[0], r); t.check(r, "copy"); }
      }
      a.check(r, "a");
    }
    b.check(r, "b");
  }
};

// ------------------------------------------------------------- fws_multimap
template <typename V>
struct fws_test {
  using T = typename V::value_t;
  using I = typename V::index_t;
  using E = elem<T>;
  using M = typename E::model;
  static void judge(V const& v, std::vector<std::vector<M>> const& m, rng& r) {
    std::size_t total = 0;
    for (auto const& x : m) total += x.size();
    VP_CHECK(v.finished(), "finished", "-");
    VP_CHECK(v.data_size() == total, "data_size", "%zu, model %zu", (std::size_t)v.data_size(), total);
    VP_CHECK(v.index_size() == m.size() + 1, "index_size", "%zu for %zu keys", (std::size_t)v.index_size(), m.size());
    auto jb = [&](auto const& e, std::size_t i, char const* w) {
      VP_CHECK(e.size() == m[i].size() && e.empty() == m[i].empty(), "entry-size", "%s: entry %zu", w, i);
      std::size_t q = 0;
      for (auto const& x : e) {
        VP_CHECK(q < m[i].size() && E::eq(x, m[i][q]), "entry-content", "%s: entry %zu element %zu", w, i, q);
        VP_CHECK(E::eq(e[static_cast<I>(q)], m[i][q]), "entry-index", "%s", w);
        VP_CHECK(&v.data_[e.data_index(static_cast<I>(q))] == &x, "data_index", "%s", w);
        ++q;
      }
      VP_CHECK(q == m[i].size() && (std::size_t)(e.cend() - e.cbegin()) == q, "entry-iteration", "%s", w);
    };
    for (std::size_t i = 0; i < m.size(); ++i) jb(v[static_cast<I>(i)], i, "[]");
    check_proxy_iteration(v.begin(), v.end(), m.size(), r, jb);
    check_difference(v.begin(), v.end(), m.size(), r);
    std::size_t n = 0;
    for (auto it = begin(v), last = end(v); it != last; ++it, ++n) {
      auto const entry = *it;
      VP_CHECK(n < m.size() && (std::size_t)std::distance(begin(entry), end(entry)) == m[n].size(), "entry-adl", "free begin and end: entry %zu", n);
    }
    VP_CHECK(n == m.size() && v.cend() - v.cbegin() == static_cast<int>(n), "entry-adl", "free begin and end: %zu of %zu", n, m.size());
    auto const b = v.begin(), e = v.end();
    VP_CHECK((b < e) == !m.empty() && !(b > e) && b <= e && (b >= e) == m.empty(), "order", "iterator order");
    distinct(hash_nested<T>(m));
  }
  static void run(rng& r) {
    V v;
    std::vector<std::vector<M>> m;
    auto const large = start_large<T>(r, 120);
    auto const n = large ? r.big(70000) : r.size(30);
    if (r.coin()) v.reserve_index(static_cast<I>(n));
    VP_CHECK(!(v.begin() != v.end()), "empty", "a new multimap has entries");
    for (std::size_t i = 0; i < n; ++i) {
      VP_CHECK(v.current_key() == static_cast<I>(i), "current_key", "-");
      auto const x = gen_list<T>(r, 6);
      for (auto const& e : x) {
        if (r.coin()) v.push_back(E::make(e));
        else v.emplace_back(E::make(e));
      }
      v.finish_key();
      m.push_back(x);
      if (n < 100 || x.size() > 100) op("key %zu with %zu", i, x.size());
    }
    VP_CHECK(!v.finished(), "finished", "-");
    v.finish_map();
    judge(v, m, r);
    ev("fws_finished");
    V c{v};
    judge(c, m, r);
    V d{std::move(v)};
    judge(d, m, r);
    c = V{};
    c = d;
    judge(c, m, r);
  }
};

// -------------------------------------------------------------- flat_matrix
template <typename V, typename Make>
void matrix_run(rng& r, Make&& make) {
  using T = typename V::value_type;
  using E = elem<T>;
  using M = typename E::model;
  V v;
  std::vector<M> m;  // row major
  std::size_t rows = 0, cols = 0;
  auto const large = start_large<T>(r, 150);
  auto const dims = [&] {
    rows = r.below(7), cols = r.below(7);
    if (large && r.coin()) {
      auto const n = r.big(std::is_trivially_copyable_v<T> ? 90000 : 4000);
      rows = r.chance(1, 3) ? 1 : r.coin() ? n : 1 + r.below(400);
      cols = rows == n ? 1 : n / rows;
    }
  };
  auto check = [&](V& x, char const* w) {
    auto const& c = x;
    VP_CHECK(c.n_rows_ == rows && c.n_columns_ == cols && c.entries_.size() == rows * cols, "dims", "%s", w);
    for (std::size_t i = 0; i < rows; ++i) {
      for (std::size_t j = 0; j < cols; ++j) {
        auto const& e = m[i * cols + j];
        VP_CHECK(E::eq(c[i][j], e) && E::eq(x[i][j], e) && E::eq(x(i, j), e) && E::eq(c.at(i)[j], e) && E::eq(x.at(i)[j], e), "entry", "%s: (%zu,%zu) of %zux%zu", w, i, j, rows, cols);
      }
      std::size_t j = 0;
      for (auto const& y : c[i]) { VP_CHECK(j < cols && E::eq(y, m[i * cols + j]), "row", "%s: row %zu element %zu", w, i, j); ++j; }
      VP_CHECK(j == cols, "row", "%s: row length %zu of %zu", w, j, cols);
      j = 0;
      for (auto& y : x[i]) { VP_CHECK(j < cols && E::eq(y, m[i * cols + j]), "row", "%s: row %zu element %zu", w, i, j); ++j; }
      VP_CHECK(j == cols, "row", "%s: row length %zu of %zu", w, j, cols);
      auto row = x[i];
      auto const fixed = x[i];
      auto const crow = c[i];
      auto const same = [&](auto first, auto last) {
        VP_CHECK((std::size_t)std::distance(first, last) == cols && (cols == 0 || (&*first == &x(i, 0) && &*std::prev(last) == &x(i, cols - 1))), "row", "%s: row %zu", w, i);
      };
      same(begin(row), end(row));
      same(begin(fixed), end(fixed));
      same(fixed.begin(), fixed.end());
      same(begin(crow), end(crow));
    }
    VP_CHECK(throws([&] { (void)c.at(rows); }) && throws([&] { (void)x.at(rows + 2); }), "matrix-at", "%s: at(rows) does not throw", w);
    std::uint64_t h = mix(rows, cols);
    for (std::size_t i = 0; i < m.size() && i < 20; ++i) h = mix(h, E::h(m[i]));
    distinct(h);
  };
  auto const steps = 1 + r.below(15);
  for (std::size_t k = 0; k < steps; ++k) {
    auto const c = r.below(9);
    op("op%d %zux%zu", (int)c, rows, cols);
    switch (c) {
      case 0: {
        dims();
        auto const x = E::gen(r);
        v = make(rows, cols, E::make(x));
        m.assign(rows * cols, x);
        ev("matrix_make");
        break;
      }
      case 1: {  // the entries keep their row major order
        dims();
        auto const old = m.size();
        v.resize(rows, cols);
        m.resize(rows * cols);
        for (std::size_t i = old; i < m.size(); ++i) {
          if constexpr (std::is_arithmetic_v<T>) VP_CHECK(v.entries_[i] == T{}, "resize", "new entries are value initialised");
          m[i] = E::gen(r);
          v.entries_[i] = E::make(m[i]);
        }
        ev("matrix_resize");
        break;
      }
      case 2: { auto const x = E::gen(r); v.reset(E::make(x)); m.assign(m.size(), x); ev("matrix_reset"); break; }
      case 3: { V x{v}; check(x, "copy"); break; }
      case 4: { V x{std::move(v)}; v = x; check(x, "move"); break; }
      case 5: {
        // dimensions whose product no index can represent are refused and change nothing
        VP_CHECK(throws([&] { V x; x.resize(65536U, 65536U); }), "overflow", "a 65536 x 65536 matrix silently has no entries");
        VP_CHECK(throws([&] { (void)make(65536U, 65537U, E::make(E::gen(r))); }), "overflow", "a 65536 x 65537 matrix silently has too few entries");
        VP_CHECK(throws([&] { v.resize(3U, 0x55555556ULL); }), "overflow", "resize overflow");
        ev("matrix_overflow");
        break;
      }
      default:
        if (!m.empty()) {
          auto const i = r.below(rows), j = r.below(cols);
          m[i * cols + j] = E::gen(r);
          auto const& e = m[i * cols + j];
          switch (r.below(4)) {
            case 0: v[i][j] = E::make(e); break;
            case 1: v(i, j) = E::make(e); break;
            case 2: v.at(i)[j] = E::make(e); break;
            default: *(v[i].begin() + j) = E::make(e);
          }
          ev("write");
        }
    }
    check(v, "matrix");
  }
}

}  // namespace vp
