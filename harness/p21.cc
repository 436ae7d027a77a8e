#include "p21.h"
#include "hash_ref.h"
#include <deque>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/vecvec.h"

using namespace vp;

#ifndef VP_PART
#define VP_PART 0
#endif

#if VP_PART == 0
// ------------------------------------------------------------ bytes and bits
namespace {
template <typename T>
void combine(rng& r) {
  T v{};
  Q<T>::gen(r, v);
  auto const seed = any_seed(r);
#if defined(CISTA_XXH3) || defined(CISTA_WYHASH) || defined(CISTA_WYHASH_FASTEST)
  auto const want = hash_ref(&v, sizeof(v), seed);
#else
  auto const want = (seed ^ static_cast<std::uint64_t>(v)) * 1099511628211ULL;
#endif
  VP_CHECK(cista::hash_combine(seed, v) == want, "hash-combine", "hash_combine of a number of %zu bytes is not the algorithm's", sizeof(T));
  VP_CHECK(cista::hash_combine(seed, v, v) == cista::hash_combine(want, v), "hash-combine", "hash_combine of several is not the chain of each");
  ev("combined");
}
template <typename T>
unsigned naive_low(T const v) { for (auto i = 0U; i != sizeof(T) * 8U; ++i) if (((v >> i) & 1U) != 0U) return i; return sizeof(T) * 8U; }
template <typename T>
unsigned naive_high(T const v) { for (auto i = 0U; i != sizeof(T) * 8U; ++i) if (((v >> (sizeof(T) * 8U - 1U - i)) & 1U) != 0U) return i; return sizeof(T) * 8U; }
template <typename T>
void bits(rng& r) {
  auto const v = static_cast<T>(r.value());
  if constexpr (sizeof(T) >= 4U) {
    VP_CHECK(cista::trailing_zeros(v) == naive_low(v), "trailing-zeros", "trailing_zeros(%llx) = %u", static_cast<unsigned long long>(v), cista::trailing_zeros(v));
    VP_CHECK(cista::leading_zeros(v) == naive_high(v), "leading-zeros", "leading_zeros(%llx) = %u", static_cast<unsigned long long>(v), cista::leading_zeros(v));
  }
  if (v != 0U) VP_CHECK(cista::constexpr_trailing_zeros(v) == naive_low(v), "trailing-zeros", "constexpr_trailing_zeros(%llx)", static_cast<unsigned long long>(v));
  auto n = 0U;
  for (auto i = 0U; i != sizeof(T) * 8U; ++i) n += static_cast<unsigned>((v >> i) & 1U);
  VP_CHECK(cista::popcount(v) == n, "popcount", "popcount(%llx)", static_cast<unsigned long long>(v));
  auto const top = static_cast<T>(T{1} << (sizeof(T) * 8U - 1U));
  if (v != 0U && v <= top) {
    T want = 1U;
    while (want < v) want = static_cast<T>(want << 1U);
    VP_CHECK(cista::next_power_of_two(v) == want, "power-of-two", "next_power_of_two(%llu) = %llu", static_cast<unsigned long long>(v), static_cast<unsigned long long>(cista::next_power_of_two(v)));
  }
  ev("bit_helpers");
}
}  // namespace

VP_SUITE(bytes, 8) {
  static std::size_t const edges[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 130, 191, 192, 193, 239, 240, 241, 242, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1088, 2047, 2048, 2049};
  for (auto k = 0; k != 12; ++k) {
    auto const n = r.coin() ? edges[r.below(sizeof(edges) / sizeof(edges[0]))] : r.chance(1, 40) ? r.below(70000) : r.below(600);
    auto const shift = r.below(9);
    auto const seed = any_seed(r);
    // nothing beyond the bytes may be read: they end where the block ends
    std::unique_ptr<char[]> block{new char[n + shift]};
    auto* p = block.get() + shift;
    auto const style = r.below(4);
    for (std::size_t i = 0; i != n; ++i) p[i] = static_cast<char>(style == 0U ? 0 : style == 1U ? 255 : r.next() >> 20U);
    auto const want = hash_ref(p, n, seed);
    op("%zu bytes seed %llx", n, static_cast<unsigned long long>(seed));
    distinct(mix(want, n));
    VP_CHECK(cista::hash(std::string_view{p, n}, seed) == want, "bytes", "hash of %zu bytes is not the published one (seed %llx)", n, static_cast<unsigned long long>(seed));
    VP_CHECK(cista::hash(std::string_view{p, n}) == hash_ref(p, n, cista::BASE_HASH), "bytes", "hash of %zu bytes with the default seed is not the published one", n);
    ev("byte_strings");
    std::vector<std::uint8_t> v(reinterpret_cast<std::uint8_t*>(p), reinterpret_cast<std::uint8_t*>(p) + n);
    VP_CHECK(cista::hash(v, seed) == (n == 0U ? seed : want), "bytes", "hash of a buffer of %zu bytes differs from that of the bytes", n);
    std::string s(p, n);
    VP_CHECK(cista::hash(s, seed) == (n == 0U ? seed : want), "bytes", "hash of a string of %zu bytes differs from that of the bytes", n);
    if (n != 0U && hash_separates) {
      auto const i = r.below(n);
      p[i] = static_cast<char>(p[i] ^ (1U << r.below(8)));
      VP_CHECK(cista::hash(std::string_view{p, n}, seed) != want, "bytes-separate", "changing bit in byte %zu of %zu does not change the hash", static_cast<std::size_t>(i), n);
      ev("bit_changes");
    }
  }
  auto const seed = any_seed(r);
  VP_CHECK(cista::hash("a literal", seed) == hash_ref("a literal", 9, seed) && cista::hash("x", seed) == hash_ref("x", 1, seed), "bytes", "hash of a literal is not that of its characters");
  char const embedded[] = "a\0b";
  VP_CHECK(cista::hash(embedded, seed) == hash_ref(embedded, 3, seed), "bytes", "hash of a literal is not that of its characters");
}

VP_SUITE(combining, 3) {
  combine<std::uint8_t>(r); combine<std::int8_t>(r); combine<std::uint16_t>(r); combine<std::int32_t>(r);
  combine<std::uint32_t>(r); combine<std::int64_t>(r); combine<std::uint64_t>(r); combine<bool>(r); combine<refl::e32>(r);
}

VP_SUITE(bit_arithmetic, 3) {
  for (auto k = 0; k != 40; ++k) { bits<std::uint64_t>(r); bits<std::uint32_t>(r); bits<std::uint16_t>(r); bits<std::uint8_t>(r); }
  for (auto k = 0; k != 5; ++k) {
    auto const size = static_cast<unsigned>(1U + (r.coin() ? r.below(5) : r.below(3000)));
    auto const total = r.chance(1, 6) ? 0U : r.below(size * 20U);
    std::size_t at = 0U;
    std::vector<unsigned> parts;
    cista::chunk(size, total, [&](std::size_t const from, unsigned const n) {
      VP_CHECK(from == at && n != 0U && n <= size, "chunk", "chunk at %zu of %u, expected at %zu with at most %u", from, n, at, size);
      VP_CHECK(n == size || from + n == total, "chunk", "a chunk which is not the last is not full");
      at += n;
    });
    VP_CHECK(at == total, "chunk", "chunks cover %zu of %zu", at, static_cast<std::size_t>(total));
    ev("chunked");
  }
}
#endif

#if VP_PART == 1
// ------------------------------------------------------------ scalars and strings
VP_SUITE(scalars, 6) {
  switch (r.below(12)) {
    case 0: value_suite<std::uint8_t>(r, "uint8"); break;
    case 1: value_suite<std::int16_t>(r, "int16"); break;
    case 2: value_suite<std::uint32_t>(r, "uint32"); break;
    case 3: value_suite<std::int64_t>(r, "int64"); break;
    case 4: value_suite<bool>(r, "bool"); break;
    case 5: value_suite<float>(r, "float"); break;
    case 6: value_suite<double>(r, "double"); break;
    case 7: value_suite<refl::e8>(r, "enum8"); break;
    case 8: value_suite<refl::e64>(r, "enum64"); break;
    case 9: value_suite<refl::id_a>(r, "strong"); value_suite<refl::id_s>(r, "strong64"); break;
    case 10: value_suite<refl::millis>(r, "duration"); break;
    default: value_suite<refl::instant>(r, "time_point"); break;
  }
}
VP_SUITE(strings, 6) {
  switch (r.below(5)) {
    case 0: value_suite<std::string>(r, "std::string"); break;
    case 1: value_suite<refl::ostring>(r, "offset::string"); break;
    case 2: value_suite<refl::rstring>(r, "raw::string"); break;
    default: value_suite<refl::cstr>(r, "cstring"); break;
  }
}
VP_SUITE(sequences, 8) {
  switch (r.below(10)) {
    case 0: value_suite<refl::ovec>(r, "vector"); break;
    case 1: value_suite<refl::ovecs>(r, "vector<string>"); break;
    case 2: value_suite<cista::raw::vector<double>>(r, "raw::vector<double>"); break;
    case 3: value_suite<cista::offset::vector<cista::offset::vector<cista::offset::string>>>(r, "vector<vector<string>>"); break;
    case 4: value_suite<std::vector<std::uint16_t>>(r, "std::vector"); break;
    case 5: value_suite<std::array<std::uint32_t, 4U>>(r, "array"); break;
    case 6: value_suite<cista::array<cista::offset::string, 3U>>(r, "array<string>"); break;
    case 7: value_suite<std::vector<std::string>>(r, "std::vector<std::string>"); break;
    case 8: value_suite<refl::slist>(r, "std::list"); break;
    default: value_suite<cista::offset::vector<refl::id_a>>(r, "vector<strong>"); break;
  }
}
#endif

#if VP_PART == 2
// ------------------------------------------------------------ products, sums, bits
namespace {
struct plain { std::uint32_t a{}; std::int8_t b{}; cista::offset::string c; double d{}; auto vp_members() { return std::tie(a, b, c, d); } };
struct nested { plain p; cista::offset::vector<plain> v; refl::e8 e{}; auto vp_members() { return std::tie(p, v, e); } };
class listed {
public:
  auto cista_members() { return std::tie(x_, y_, z_); }
  auto vp_members() { return std::tie(x_, y_, z_); }
private:
  std::uint16_t x_{};
  cista::offset::string y_;
  std::int64_t z_{};
};
struct single { std::uint64_t only{}; auto vp_members() { return std::tie(only); } };
struct ordered { std::uint16_t a{}; std::string b; std::int32_t c{}; CISTA_COMPARABLE() auto vp_members() { return std::tie(a, b, c); } };
struct ordered_friend { std::int8_t a{}; refl::ostring b; refl::e32 c{}; double d{}; CISTA_FRIEND_COMPARABLE(ordered_friend) auto vp_members() { return std::tie(a, b, c, d); } };
}  // namespace
#include "refl_test.h"
VP_SUITE(structures, 8) {
  switch (r.below(8)) {
    case 0: case 1: value_suite<plain>(r, "struct"); break;
    case 2: value_suite<nested>(r, "nested struct"); break;
    case 3: value_suite<listed>(r, "listing struct"); break;
    case 4: value_suite<single>(r, "single"); break;
    case 5: value_suite<cista::offset::vector<single>>(r, "vector<single>"); break;
    default: value_suite<cista::offset::vector<nested>>(r, "vector<nested>"); break;
  }
}
VP_SUITE(ordering, 4) { if (r.coin()) compare_suite<ordered>(r); else compare_suite<ordered_friend>(r); }
VP_SUITE(products_and_sums, 8) {
  switch (r.below(10)) {
    case 0: value_suite<refl::pair_is>(r, "pair"); break;
    case 1: value_suite<refl::pair_si>(r, "std::pair"); break;
    case 2: value_suite<cista::pair<refl::pair_is, std::uint32_t>>(r, "pair<pair>"); break;
    case 3: value_suite<refl::stup>(r, "std::tuple"); break;
    case 4: value_suite<std::pair<std::string, refl::pair_si>>(r, "std::pair<std::pair>"); break;
    case 5: value_suite<refl::var>(r, "variant"); break;
    case 6: value_suite<refl::svar>(r, "std::variant"); break;
    case 7: value_suite<refl::opt>(r, "std::optional"); break;
    case 8: value_suite<cista::offset::vector<refl::var>>(r, "vector<variant>"); break;
    default: value_suite<std::optional<std::string>>(r, "optional<string>"); break;
  }
}
VP_SUITE(bit_sets, 3) {
  switch (r.below(4)) {
    case 0: value_suite<cista::bitset<3>>(r, "bitset<3>"); break;
    case 1: value_suite<cista::bitset<70>>(r, "bitset<70>"); break;
    case 2: value_suite<cista::offset::bitvec>(r, "bitvec"); break;
    default: value_suite<cista::offset::vector<cista::offset::bitvec>>(r, "vector<bitvec>"); break;
  }
}
#endif

#if VP_PART == 3
// ------------------------------------------------------------ tables
namespace {
// bring their own hash (as a member, as std::hash) and equality; what else they hold does not matter
class member_hashed {
public:
  cista::hash_t hash() const { return v_ * 0x9E3779B97F4A7C15ULL; }
  bool operator==(member_hashed const& o) const { return v_ == o.v_; }
  std::uint64_t v_{};
  std::uint32_t ignored_{};
  member_hashed() = default;
  explicit member_hashed(std::uint64_t const v) : v_{v} {}
};
class std_hashed {
public:
  bool operator==(std_hashed const& o) const { return v_ == o.v_; }
  std::uint64_t v_{};
  std::uint32_t ignored_{};
  std_hashed() = default;
  explicit std_hashed(std::uint64_t const v) : v_{v} {}
};
}  // namespace
template <>
struct std::hash<std_hashed> {
  std::size_t operator()(std_hashed const& x) const noexcept { return x.v_ * 0xD1B54A32D192ED03ULL; }
};
namespace vp {
template <typename T>
struct own_q {
  static void gen(rng& r, T& t) { t = T{r.value()}; t.ignored_ = static_cast<std::uint32_t>(r.next()); }
  static void change(rng& r, T& t) { auto const o = t.v_; do t.v_ = r.value(); while (t.v_ == o); }
  static void remake(rng& r, T const& a, T& b) { b = a; b.ignored_ = static_cast<std::uint32_t>(r.next()); }
  static std::string text(T const& t) { return std::to_string(t.v_); }
};
template <> struct Q<member_hashed> : own_q<member_hashed> {};
template <> struct Q<std_hashed> : own_q<std_hashed> {};
// containers of the standard library
template <typename S, typename El>
struct std_table_q : table_q<S> {
  using T = table_q<S>;
  static void gen(rng& r, S& s) { s.clear(); for (auto n = r.below(6); n != 0U; --n) { El e{}; Q<El>::gen(r, e); s.insert(e); } }
  static void change(rng& r, S& s) {
    if (!s.empty() && r.coin()) { s.erase(s.begin()); return; }
    auto const n = s.size();
    do { El e{}; Q<El>::gen(r, e); s.insert(e); } while (s.size() == n);
  }
  static void remake(rng& r, S const& a, S& b) {
    b.clear();
    if constexpr (has_buckets<S>::value) { if (r.coin()) b.reserve(1U + r.below(300)); }
    if (r.coin()) { for (auto k = r.below(60); k != 0U; --k) { El e{}; Q<El>::gen(r, e); b.insert(e); } while (!b.empty()) b.erase(b.begin()); }
    std::vector<El> es;
    for (auto const& x : a) { El e{}; Q<El>::remake(r, El(x), e); es.push_back(e); }
    for (auto i = es.size(); i > 1U; --i) std::swap(es[i - 1U], es[r.below(i)]);
    for (auto const& e : es) b.insert(e);
  }
  static void flat(std::string& o, S const& s) {
    if constexpr (has_buckets<S>::value) {
      std::vector<std::string> es;
      for (auto const& x : s) es.push_back(vp::flat(El(x)));
      std::sort(es.begin(), es.end());
      for (auto const& e : es) if (!e.empty()) o += "<" + e + ">";
    } else {
      for (auto const& x : s) vp::flat(o, El(x));
    }
  }
  static std::string text(S const& s) {
    std::vector<std::string> es;
    for (auto const& x : s) es.push_back(Q<El>::text(El(x)));
    std::sort(es.begin(), es.end());
    std::string o;
    for (auto const& e : es) o += lp(e);
    return "{" + o + "}";
  }
};
template <typename T> struct Q<std::set<T>> : std_table_q<std::set<T>, T> {};
template <typename T> struct Q<std::unordered_set<T>> : std_table_q<std::unordered_set<T>, T> {};
template <typename K, typename V> struct Q<std::map<K, V>> : std_table_q<std::map<K, V>, std::pair<K, V>> {};
template <typename K, typename V> struct Q<std::unordered_map<K, V>> : std_table_q<std::unordered_map<K, V>, std::pair<K, V>> {};
template <typename T> struct Q<std::deque<T>> : seq_q<std::deque<T>> {};
// rows of numbers
template <typename V>
struct rows_q {
  using E = std::uint32_t;
  using rows = std::vector<std::vector<E>>;
  static rows get(V const& v) { rows o; for (auto const& b : v) o.emplace_back(b.begin(), b.end()); return o; }
  static void put(V& v, rows const& o) { v = V{}; for (auto const& x : o) add(v, x, 0); }
  template <typename W>
  static auto add(W& v, std::vector<E> const& x, int) -> std::void_t<decltype(v.emplace_back(x))> { v.emplace_back(x); }
  template <typename W>
  static void add(W& v, std::vector<E> const& x, long) { auto b = v.emplace_back(); for (auto const e : x) b.push_back(e); }
  static void gen(rng& r, V& v) { rows o; Q<rows>::gen(r, o); put(v, o); }
  static void change(rng& r, V& v) { auto o = get(v); Q<rows>::change(r, o); put(v, o); }
  static void remake(rng& r, V const& a, V& b) { rows o; Q<rows>::remake(r, get(a), o); put(b, o); }
  static std::string text(V const& v) { return Q<rows>::text(get(v)); }
  static void flat(std::string& o, V const& v) { vp::flat(o, get(v)); }
};
template <> struct Q<cista::offset::vecvec<std::uint32_t, std::uint32_t>> : rows_q<cista::offset::vecvec<std::uint32_t, std::uint32_t>> {};
template <> struct Q<cista::offset::mutable_fws_multimap<std::uint32_t, std::uint32_t>> : rows_q<cista::offset::mutable_fws_multimap<std::uint32_t, std::uint32_t>> {};
}  // namespace vp
namespace {
struct with_own { member_hashed m; std::optional<refl::ostring> o; std_hashed s; auto vp_members() { return std::tie(m, o, s); } };
struct opt_payload { std::uint16_t a{}; refl::ostring b; CISTA_COMPARABLE() auto vp_members() { return std::tie(a, b); } };
struct with_set { std::uint32_t a{}; refl::oset s; auto vp_members() { return std::tie(a, s); } };
}  // namespace
VP_SUITE(other_kinds, 8) {
  switch (r.below(14)) {
    case 0: value_suite<member_hashed>(r, "type with hash()"); break;
    case 1: value_suite<std_hashed>(r, "type with std::hash"); break;
    case 2: value_suite<with_own>(r, "struct of types with own hashes"); break;
    case 3: value_suite<std::optional<refl::ostring>>(r, "optional<string>"); break;
    case 4: value_suite<std::optional<opt_payload>>(r, "optional<struct>"); break;
    case 5: value_suite<std::optional<refl::ovec>>(r, "optional<vector>"); break;
    case 6: value_suite<std::set<std::uint32_t>>(r, "std::set"); break;
    case 7: value_suite<std::map<std::uint16_t, std::string>>(r, "std::map"); break;
    case 8: value_suite<std::unordered_set<std::string>>(r, "std::unordered_set"); break;
    case 9: value_suite<std::unordered_map<std::uint32_t, std::string>>(r, "std::unordered_map"); break;
    case 10: value_suite<std::deque<std::string>>(r, "std::deque"); break;
    case 11: value_suite<cista::offset::vecvec<std::uint32_t, std::uint32_t>>(r, "vecvec"); break;
    case 12: value_suite<cista::offset::mutable_fws_multimap<std::uint32_t, std::uint32_t>>(r, "mutable_fws_multimap"); break;
    default: value_suite<cista::offset::vector<std::optional<refl::ostring>>>(r, "vector<optional<string>>"); break;
  }
}
// the alternative is part of the value
VP_SUITE(alternatives, 4) {
  auto const n = static_cast<std::uint32_t>(r.next() >> 1U);
  auto const seed = r.coin() ? static_cast<std::uint64_t>(cista::BASE_HASH) : r.next() | 1ULL << 63U;
  auto const all = [&](auto&&... v) {
    using V = std::decay_t<std::common_type_t<decltype(v)...>>;
    V const vs[] = {v...};
    for (auto const& x : vs) for (auto const& y : vs) {
      VP_CHECK(equal(x, y) == (&x == &y), "alternatives-equal", "equality of variants which hold the same number as different alternatives");
      if (hash_separates) VP_CHECK((hash_of(x, seed) == hash_of(y, seed)) == (&x == &y), "alternatives-hash", "%u as different alternatives of a variant hashes equally", n);
      ev("alternatives_compared");
    }
  };
  using C = cista::variant<std::uint32_t, std::int32_t, std::uint64_t, std::int64_t>;
  all(C{n}, C{static_cast<std::int32_t>(n)}, C{std::uint64_t{n}}, C{std::int64_t{n}});
  using S = std::variant<std::uint32_t, std::int32_t, std::uint64_t, std::int64_t>;
  all(S{n}, S{static_cast<std::int32_t>(n)}, S{std::uint64_t{n}}, S{std::int64_t{n}});
  using T = std::variant<std::string, refl::ostring>;
  auto const s = gen_text(r);
  all(T{s}, T{refl::ostring{std::string_view{s}}});
}
VP_SUITE(tables, 10) {
  switch (r.below(9)) {
    case 0: case 1: value_suite<refl::oset>(r, "hash_set"); break;
    case 2: value_suite<refl::omap>(r, "hash_map<string>"); break;
    case 3: value_suite<cista::offset::hash_set<cista::offset::string>>(r, "hash_set<string>"); break;
    case 4: value_suite<cista::raw::hash_map<std::uint16_t, std::uint64_t>>(r, "raw::hash_map"); break;
    case 5: value_suite<with_set>(r, "struct with set"); break;
    case 6: value_suite<cista::offset::vector<refl::oset>>(r, "vector<hash_set>"); break;
    case 7: value_suite<cista::offset::hash_set<refl::oset>>(r, "hash_set<hash_set>"); break;
    default: value_suite<cista::offset::hash_map<refl::ovec, cista::offset::hash_set<cista::offset::string>>>(r, "hash_map<vector, hash_set>"); break;
  }
}
// a key of a changing type is found by an equal key and by nothing else
template <typename K>
static void keys(rng& r, char const* name) {
  cista::offset::hash_map<K, std::uint32_t> m;
  std::map<std::string, std::uint32_t> ref;
  std::vector<std::unique_ptr<K>> ks;
  for (auto n = 1U + r.below(25); n != 0U; --n) {
    auto k = std::make_unique<K>();
    if (!ks.empty() && r.chance(1, 3)) { Q<K>::remake(r, *ks[r.below(ks.size())], *k); if (r.coin()) Q<K>::change(r, *k); }
    else Q<K>::gen(r, *k);
    m[*k] = static_cast<std::uint32_t>(n);
    ref[Q<K>::text(*k)] = static_cast<std::uint32_t>(n);
    ks.push_back(std::move(k));
  }
  op("%s %zu keys", name, ref.size());
  VP_CHECK(m.size() == ref.size(), "keys-size", "%s: %zu different keys, the table holds %zu", name, ref.size(), static_cast<std::size_t>(m.size()));
  for (auto const& k : ks) {
    auto probe = std::make_unique<K>();
    Q<K>::remake(r, *k, *probe);
    auto it = m.find(*probe);
    VP_CHECK(it != m.end() && it->second == ref[Q<K>::text(*probe)], "keys-find", "%s: an equal key is not found", name);
    Q<K>::change(r, *probe);
    auto const in = ref.find(Q<K>::text(*probe));
    it = m.find(*probe);
    VP_CHECK((it != m.end()) == (in != ref.end()) && (in == ref.end() || it->second == in->second), "keys-find", "%s: presence of a changed key", name);
    ev("keys_looked_up", 2);
  }
}
VP_SUITE(as_keys, 6) {
  switch (r.below(9)) {
    case 0: keys<refl::ostring>(r, "string"); break;
    case 1: keys<refl::ovec>(r, "vector"); break;
    case 2: keys<refl::oset>(r, "hash_set"); break;
    case 3: keys<with_set>(r, "struct with set"); break;
    case 4: keys<refl::id_a>(r, "strong"); break;
    case 5: keys<refl::pair_is>(r, "pair"); break;
    case 6: keys<refl::var>(r, "variant"); break;
    case 7: keys<cista::offset::bitvec>(r, "bitvec"); break;
    default: keys<double>(r, "double"); break;
  }
}
#endif

#if VP_PART == 4
// ------------------------------------------------------------ equivalent types
namespace {
template <typename A, typename B>
void same(A const& a, B const& b, std::uint64_t const seed, char const* what) {
  VP_CHECK(hash_of(a, seed) == hash_of(b, seed), "equivalent-hash", "%s hash differently though they hold the same", what);
  VP_CHECK(equal(a, b) && equal(b, a), "equivalent-equal", "%s are not equal_to each other though they hold the same", what);
  ev("equivalent_values");
}
template <typename A, typename B>
void same_hash(A const& a, B const& b, std::uint64_t const seed, char const* what) {
  VP_CHECK(hash_of(a, seed) == hash_of(b, seed), "equivalent-hash", "%s hash differently though they hold the same", what);
  ev("equivalent_values");
}
template <typename A, typename B>
void differ(A const& a, B const& b, char const* what) {
  VP_CHECK(!equal(a, b) && !equal(b, a), "equivalent-unequal", "%s are equal_to each other though they hold different things", what);
  ev("inequivalent_values");
}
struct two { std::uint32_t a; std::string b; };
}  // namespace
VP_SUITE(string_kinds, 8) {
  auto const text = gen_text(r);
  auto const seed = any_seed(r);
  op("%.200s", text.c_str());
  distinct(fnv(text.data(), text.size()));
  std::string_view const sv{text};
  cista::offset::string const os{sv};
  cista::raw::string const rs{sv};
  cista::offset::string ns;
  ns.set_non_owning(sv);
  cista::offset::cstring const cs{sv};
  cista::offset::string_view const ov{sv};
  char const* const cp = text.c_str();
  same(text, sv, seed, "std::string and std::string_view");
  same(text, os, seed, "std::string and offset::string");
  same(text, rs, seed, "std::string and raw::string");
  same(os, rs, seed, "offset::string and raw::string");
  same(os, ns, seed, "owning and non owning string");
  same(os, ov, seed, "string and string_view");
  same(os, sv, seed, "string and std::string_view");
  same_hash(os, cs, seed, "string and cstring");
  same_hash(text, cp, seed, "std::string and char const*");
  same_hash(sv, cp, seed, "std::string_view and char const*");
  same_hash(sv, cs, seed, "std::string_view and cstring");
  VP_CHECK(cista::build_hash(os, seed) == cista::build_hash(cp, seed) && cista::build_hash(seed, text) == cista::build_hash(seed, sv), "equivalent-build-hash", "build_hash of equal texts differs");
  auto const lit = [&](auto const& l) {
    cista::offset::string const s{std::string_view{l, sizeof(l) - 1U}};
    VP_CHECK(cista::hashing<std::decay_t<decltype(s)>>{}(s, seed) == cista::hashing<std::remove_reference_t<decltype(l)>>{}(l, seed), "equivalent-hash", "string and literal hash differently");
    ev("equivalent_values");
  };
  lit("");
  lit("x");
  lit("a literal");
  lit("a literal that is too long to be stored inside a string");
  auto other = text;
  change_text(r, other);
  differ(os, other, "strings");
  differ(rs, std::string_view{other}, "strings");
  differ(text, cista::offset::string{other}, "strings");
}
VP_SUITE(container_kinds, 6) {
  auto const seed = any_seed(r);
  std::vector<std::uint32_t> v;
  Q<std::vector<std::uint32_t>>::gen(r, v);
  while (v.size() < 3U) v.push_back(static_cast<std::uint32_t>(r.value()));
  auto const t = Q<std::vector<std::uint32_t>>::text(v);
  distinct(fnv(t.data(), t.size()));
  cista::offset::vector<std::uint32_t> const ov(v.begin(), v.end());
  cista::raw::vector<std::uint32_t> const rv(v.begin(), v.end());
  cista::basic_vector<std::uint32_t, cista::offset::ptr, false, std::uint64_t> v64(v.begin(), v.end());
  std::list<std::uint32_t> const l(v.begin(), v.end());
  same(v, ov, seed, "std::vector and vector");
  same(ov, rv, seed, "offset::vector and raw::vector");
  same(ov, v64, seed, "vectors of different size types");
  same(ov, l, seed, "vector and std::list");
  std::array<std::uint32_t, 3U> const a{v[0], v[1], v[2]};
  cista::offset::vector<std::uint32_t> const first(v.begin(), v.begin() + 3);
  same(a, first, seed, "array and vector");
  auto o = v;
  Q<std::vector<std::uint32_t>>::change(r, o);
  differ(ov, o, "vectors");
  differ(o, rv, "vectors");
  std::uint32_t const n = static_cast<std::uint32_t>(r.value());
  auto const s = gen_text(r);
  std::pair<std::uint32_t, std::string> const sp{n, s};
  cista::pair<std::uint32_t, cista::offset::string> const cp{n, cista::offset::string{std::string_view{s}}};
  std::tuple<std::uint32_t, std::string> const st{n, s};
  two const tw{n, s};
  same_hash(sp, cp, seed, "std::pair and pair");
  same_hash(sp, st, seed, "std::pair and std::tuple");
  same_hash(st, tw, seed, "std::tuple and struct");
  // sets of strings as vectors of strings of different kinds
  cista::offset::vector<cista::offset::string> os;
  std::vector<std::string> ss;
  cista::raw::vector<cista::raw::string> rs;
  for (auto k = r.below(4); k != 0U; --k) { auto const x = gen_text(r); os.push_back(cista::offset::string{std::string_view{x}}); ss.push_back(x); rs.push_back(cista::raw::string{std::string_view{x}}); }
  same(os, ss, seed, "vectors of different string kinds");
  same(os, rs, seed, "vectors of different string kinds");
}
VP_SUITE(pointer_kinds, 3) {
  auto const seed = any_seed(r);
  std::vector<std::uint64_t> target(40);
  auto* a = &target[r.below(40)];
  auto* b = &target[r.below(40)];
  cista::offset::ptr<std::uint64_t> oa{a}, ob{b};
  if (r.chance(1, 8)) { a = nullptr; oa = nullptr; }
  same_hash(a, oa, seed, "plain and relative pointer");
  auto const copy = oa;
  same(oa, copy, seed, "a relative pointer and its copy elsewhere");
  VP_CHECK(equal(oa, ob) == (a == b) && equal(a, b) == (a == b), "pointer-equal", "equality of relative pointers is not that of the targets");
  if (hash_separates && a != b) VP_CHECK(hash_of(oa, cista::BASE_HASH) != hash_of(ob, cista::BASE_HASH), "pointer-hash", "pointers to different targets hash equally");
  cista::offset::hash_set<cista::offset::ptr<std::uint64_t>> set;
  std::vector<std::uint64_t*> in;
  for (auto k = r.below(20); k != 0U; --k) { auto* p = &target[r.below(40)]; set.insert(cista::offset::ptr<std::uint64_t>{p}); in.push_back(p); }
  for (auto& x : target) {
    auto const want = std::find(in.begin(), in.end(), &x) != in.end();
    VP_CHECK((set.find(&x) != set.end()) == want, "pointer-lookup", "a relative pointer is not found by the plain pointer");
    VP_CHECK((set.find(cista::offset::ptr<std::uint64_t>{&x}) != set.end()) == want, "pointer-lookup", "a relative pointer is not found by a relative pointer");
  }
  ev("pointers_looked_up", 80);
}
namespace {
// what T compares equal with must be found by it
template <typename K, typename P>
void numbers(rng& r) {
  cista::offset::hash_set<K> s;
  std::vector<K> in;
  for (auto n = r.below(12); n != 0U; --n) { auto const x = static_cast<K>(r.range(-9, 9)); s.insert(x); in.push_back(x); }
  for (auto k = -9; k != 10; ++k) {
    auto const p = static_cast<P>(k);
    auto want = false;
    for (auto const x : in) want = want || x == p;
    VP_CHECK((s.find(p) != s.end()) == want, "number-lookup", "a number of %zu bytes %s among keys of %zu bytes", sizeof(P), want ? "is not found" : "is found wrongly", sizeof(K));
    ev("numbers_looked_up");
  }
}
template <typename K>
void numbers_by_all(rng& r) {
  switch (r.below(9)) {
    case 0: numbers<K, std::int8_t>(r); break;
    case 1: numbers<K, std::uint8_t>(r); break;
    case 2: numbers<K, std::int16_t>(r); break;
    case 3: numbers<K, std::uint16_t>(r); break;
    case 4: numbers<K, std::int32_t>(r); break;
    case 5: numbers<K, std::uint32_t>(r); break;
    case 6: numbers<K, std::int64_t>(r); break;
    case 7: numbers<K, std::uint64_t>(r); break;
    default:
      // (asking for an integer by a fraction is not promised to find it)
      if constexpr (std::is_floating_point_v<K>) numbers<K, double>(r);
      break;
  }
}
}  // namespace
VP_SUITE(number_kinds, 4) {
  switch (r.below(6)) {
    case 5: numbers_by_all<double>(r); break;
    case 0: numbers_by_all<std::uint64_t>(r); break;
    case 1: numbers_by_all<std::int64_t>(r); break;
    case 2: numbers_by_all<std::int32_t>(r); break;
    case 3: numbers_by_all<std::uint16_t>(r); break;
    default: numbers_by_all<std::uint32_t>(r); break;
  }
}
VP_SUITE(texts_as_keys, 4) {
  cista::offset::hash_map<cista::offset::string, std::uint32_t> m;
  std::map<std::string, std::uint32_t> ref;
  for (auto n = r.below(20); n != 0U; --n) { auto const k = gen_text(r); m[cista::offset::string{std::string_view{k}}] = static_cast<std::uint32_t>(n); ref[k] = static_cast<std::uint32_t>(n); }
  auto const judge = [&](std::string const& k) {
    auto const want = ref.find(k);
    auto const one = [&](auto const& key, char const* how) {
      auto const it = m.find(key);
      VP_CHECK((it != m.end()) == (want != ref.end()) && (want == ref.end() || it->second == want->second), "text-lookup", "a key asked for by %s is %s", how, want == ref.end() ? "found wrongly" : "not found");
      ev("texts_looked_up");
    };
    one(k, "std::string");
    one(std::string_view{k}, "std::string_view");
    one(cista::offset::string{std::string_view{k}}, "string");
    one(cista::raw::string{std::string_view{k}}, "raw::string");
    one(cista::offset::string_view{std::string_view{k}}, "string_view");
    char const* const p = k.c_str();
    one(p, "char const*");
  };
  for (auto const& [k, v] : ref) { judge(k); auto o = k; change_text(r, o); judge(o); }
  judge("");
  VP_CHECK((m.find("") != m.end()) == (ref.count("") != 0U) && (m.find("a") != m.end()) == (ref.count("a") != 0U), "text-lookup", "asked for by a literal");
}
int main(int argc, char** argv) { return driver_main(argc, argv); }
#endif
