// P21: hashing and equality against an independent description of the value.
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#include "refl.h"

namespace vp {

inline std::uint64_t any_seed(rng& r) { return r.chance(1, 3) ? static_cast<std::uint64_t>(cista::BASE_HASH) : r.value(); }

template <typename T>
cista::hash_t hash_of(T const& t, cista::hash_t const seed) { return cista::hashing<T>{}(t, seed); }
template <typename A, typename B>
bool equal(A const& a, B const& b) { return cista::equal_to<A>{}(a, b); }

// (sampled by design: only equal values say something about its hashes)
#if defined(CISTA_WYHASH_FASTEST)
constexpr auto const hash_separates = false;
#else
constexpr auto const hash_separates = true;
#endif

template <typename T, typename = void>
struct has_buckets : std::false_type {};
template <typename T>
struct has_buckets<T, std::void_t<decltype(std::declval<T&>().bucket_count())>> : std::true_type {};

template <typename T>
void value_suite(rng& r, char const* name) {
  auto pa = std::make_unique<T>();
  auto pb = std::make_unique<T>();
  auto pc = std::make_unique<T>();
  auto &a = *pa, &b = *pb, &c = *pc;
  Q<T>::gen(r, a);
  Q<T>::remake(r, a, b);
  Q<T>::remake(r, a, c);
  auto const ta = Q<T>::text(a);
  op("%s %.300s", name, ta.c_str());
  distinct(fnv(ta.data(), ta.size(), fnv(name, std::strlen(name))));
  VP_CHECK(Q<T>::text(b) == ta && Q<T>::text(c) == ta, "harness", "%s: remade value differs", name);
  // (FNV stays at zero for zeros and small seeds may cancel small numbers: algorithm, not defect)
  auto const seed = r.coin() ? static_cast<std::uint64_t>(cista::BASE_HASH) : r.next() | 1ULL << 63U;
  auto const judge_equal = [&](T const& x, T const& y, char const* what) {
    VP_CHECK(equal(x, y), "equal-values", "%s: %s are not equal_to each other", name, what);
    VP_CHECK(hash_of(x, seed) == hash_of(y, seed), "equal-hash", "%s: %s hash differently (seed %llu)", name, what, static_cast<unsigned long long>(seed));
    VP_CHECK(cista::hashing<T>{}(x) == cista::hashing<T>{}(y), "equal-hash", "%s: %s hash differently", name, what);
    VP_CHECK(cista::build_hash(x, seed) == cista::build_hash(y, seed), "equal-build-hash", "%s: build_hash of %s differs", name, what);
    ev("equal_values");
  };
  judge_equal(a, a, "a value and itself");
  judge_equal(a, b, "a value and the same made differently");
  judge_equal(b, a, "a value and the same made differently");
  judge_equal(b, c, "two remade values");
  auto copy = a;
  judge_equal(a, copy, "a value and its copy");
  auto const judge_unequal = [&](T const& x, T const& y) {
    auto const tx = Q<T>::text(x), ty = Q<T>::text(y);
    if (tx == ty) { judge_equal(x, y, "values made independently"); return; }
    VP_CHECK(!equal(x, y) && !equal(y, x), "unequal-values", "%s: %.200s and %.200s are equal_to each other", name, tx.c_str(), ty.c_str());
    ev("unequal_values");
    if (hash_separates && flat(x) != flat(y)) {
      VP_CHECK(hash_of(x, seed) != hash_of(y, seed), "unequal-hash", "%s: %.200s and %.200s hash equally", name, tx.c_str(), ty.c_str());
      ev("unequal_hashes");
    }
  };
  for (auto k = 0; k != 3; ++k) {
    Q<T>::change(r, c);
    judge_unequal(a, c);
    judge_unequal(b, c);
    Q<T>::remake(r, c, b);
    judge_equal(b, c, "a changed value and the same made anew");
    Q<T>::remake(r, a, b);
    judge_equal(a, b, "a value and the same remade after a change");
  }
  Q<T>::gen(r, b);
  judge_unequal(a, b);
}

}  // namespace vp
