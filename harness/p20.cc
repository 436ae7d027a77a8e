#include "p20.h"
#include <list>
#include "cista/containers/mmap_vec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
using namespace vp;
namespace off = cista::offset;
namespace raw = cista::raw;

namespace vp {
inline std::string words(rng& r) {
  auto const n = r.chance(1, 3) ? r.below(15) : 16U + r.below(60);
  std::string s(n, 'x');
  for (auto& c : s) c = static_cast<char>('a' + r.below(26));
  return s;
}
// values of element types
inline void make(rng& r, std::uint32_t& x) { x = static_cast<std::uint32_t>(r.next()); }
inline void make(rng& r, std::uint64_t& x) { x = r.next(); }
inline void make(rng& r, char& x) { x = static_cast<char>('a' + r.below(26)); }
inline void make(rng& r, off::string& x) { x = words(r); }
inline void make(rng& r, raw::string& x) { x = words(r); }
inline void make(rng& r, off::cstring& x) { x = off::cstring{words(r)}; }
template <typename T>
void make(rng& r, off::vector<T>& x) {
  x.clear();
  for (auto n = r.below(4); n != 0U; --n) { T e{}; make(r, e); x.push_back(std::move(e)); }
}
template <typename T>
void make(rng& r, raw::vector<T>& x) {
  x.clear();
  for (auto n = r.below(4); n != 0U; --n) { T e{}; make(r, e); x.push_back(std::move(e)); }
}
template <typename A, typename B>
void make(rng& r, cista::pair<A, B>& x) { make(r, x.first); make(r, x.second); }
template <typename T>
void make(rng& r, cista::optional<T>& x) { x.reset(); if (r.chance(3, 4)) { T e{}; make(r, e); x = cista::optional<T>{std::move(e)}; } }
template <typename T>
void make(rng& r, off::unique_ptr<T>& x) { x = off::make_unique<T>(); make(r, *x); }
template <typename... T>
void make(rng& r, cista::tuple<T...>& x) { cista::apply([&](auto&... e) { (make(r, e), ...); }, x); }
using var = off::variant<std::uint32_t, off::string, off::vector<off::string>>;
inline void make(rng& r, var& x) {
  switch (r.below(3)) {
    case 0: x = static_cast<std::uint32_t>(r.next()); break;
    case 1: { off::string s; make(r, s); x = std::move(s); break; }
    default: { off::vector<off::string> v; make(r, v); x = std::move(v); }
  }
}
template <typename T, std::size_t N>
void make(rng& r, cista::array<T, N>& x) { for (auto& e : x) make(r, e); }
template <typename T>
T some(rng& r) { T x{}; make(r, x); return x; }

template <typename C, std::size_t N>
void pick_one(rng& r, char const* type, operation<C> const (&ops)[N]) {
  every_fault<C>(r, type, [](rng& x, C& c) { make(x, c); }, ops[r.below(N)]);
}
template <typename T>
struct copyable<off::unique_ptr<T>> : std::false_type {};
template <typename T>
struct copyable<off::vector<off::unique_ptr<T>>> : std::false_type {};
template <typename K, typename T>
struct copyable<off::hash_map<K, off::unique_ptr<T>>> : std::false_type {};
#define OP(name, promise, ...) {name, promise, [](C& c, rng& r) { (void)c; (void)r; __VA_ARGS__; }}

template <typename C>
struct composed : std::false_type {};
// copies, for every copyable type
template <typename C>
struct copies {
  static inline operation<C> const ops[] = {
      OP("copy construction", STRONG, auto const o = some<C>(r); armed_keep(o, [&]() { auto const x = C{o}; VP_CHECK(text(x) == text(o), "copy-differs", "a copy differs"); }); (void)c),
      OP("copy assignment", composed<C>::value ? WRECK : VALID, auto const o = some<C>(r); armed_keep(o, [&]() { c = o; })),
      OP("move assignment", STRONG, auto o = some<C>(r); armed([&]() { c = std::move(o); })),
      OP("assignment of a copy", STRONG, auto const o = some<C>(r); armed_keep(o, [&]() { c = C{o}; })),
      OP("swap", STRONG, auto o = some<C>(r); armed([&]() { using std::swap; swap(c, o); })),
  };
};

// ------------------------------------------------------------------- vectors
template <typename C, bool Copyable>
struct vectors;
template <typename C>
struct vectors<C, false> {
  using T = typename C::value_type;
  using size = typename C::size_type;
  static inline operation<C> const ops[] = {
      OP("push_back(moved)", STRONG, auto x = some<T>(r); armed([&]() { c.push_back(std::move(x)); })),
      OP("emplace_back(moved)", STRONG, auto x = some<T>(r); armed([&]() { c.emplace_back(std::move(x)); })),
      OP("emplace_back()", STRONG, armed([&]() { c.emplace_back(); })),
      OP("reserve", STRONG, auto const n = static_cast<size>(r.below(20)); armed([&]() { c.reserve(n); })),
      OP("resize", STRONG, auto const n = static_cast<size>(r.below(12)); armed([&]() { c.resize(n); })),
      OP("insert(moved)", STRONG, auto x = some<T>(r); auto* at = c.begin() + r.below(c.size() + 1U); armed([&]() { c.insert(at, std::move(x)); })),
      OP("construction of n", STRONG, auto const n = static_cast<size>(r.below(12)); armed([&]() { C x(n); VP_CHECK(x.size() == n, "size", "%u", 0U); })),
  };
};
template <typename C>
struct vectors<C, true> {
  using T = typename C::value_type;
  using size = typename C::size_type;
  static std::vector<T> more(rng& r) {
    std::vector<T> x(r.below(6));
    for (auto& e : x) make(r, e);
    return x;
  }
  static inline operation<C> const ops[] = {
      OP("push_back", STRONG, auto const x = some<T>(r); armed_keep(x, [&]() { c.push_back(x); })),
      OP("push_back(own element)", STRONG, if (c.empty()) return; auto const i = r.below(c.size()); armed([&]() { c.push_back(*(c.begin() + i)); })),
      OP("emplace_back", STRONG, auto const x = some<T>(r); armed_keep(x, [&]() { c.emplace_back(x); })),
      OP("resize with value", VALID, auto const x = some<T>(r); auto const n = static_cast<size>(r.below(12)); armed([&]() { c.resize(n, x); })),
      OP("insert", STRONG, auto const x = some<T>(r); auto* at = c.begin() + r.below(c.size() + 1U); armed([&]() { c.insert(at, x); })),
      OP("insert n", VALID, auto const x = some<T>(r); auto* at = c.begin() + r.below(c.size() + 1U); auto const n = static_cast<size>(r.below(6)); armed([&]() { c.insert(at, n, x); })),
      OP("insert range", VALID, auto const x = more(r); auto* at = c.begin() + r.below(c.size() + 1U); armed([&]() { c.insert(at, x.begin(), x.end()); })),
      OP("insert input range", VALID, auto const x = more(r); auto* at = c.begin() + r.below(c.size() + 1U); armed([&]() { c.insert(at, x.begin(), x.end(), std::input_iterator_tag{}); })),
      OP("set", VALID, auto const x = more(r); armed([&]() { c.set(x.begin(), x.end()); })),
      OP("construction of a range", STRONG, auto const x = more(r); armed([&]() { C y(x.begin(), x.end()); VP_CHECK(y.size() == x.size(), "size", "%u", 0U); })),
      OP("construction of n values", STRONG, auto const x = some<T>(r); auto const n = static_cast<size>(r.below(12)); armed([&]() { C y(n, x); VP_CHECK(y.size() == n, "size", "%u", 0U); })),
      OP("construction of a list", STRONG, auto const x = some<T>(r); auto const y = some<T>(r); armed([&]() { C z({x, y}); VP_CHECK(z.size() == 2U, "size", "%u", 0U); })),
      OP("erase", STRONG, if (c.empty()) return; auto const i = r.below(c.size()); armed([&]() { c.erase(c.begin() + i); })),
  };
};
template <typename C>
void vector_case(rng& r, char const* type) {
  switch (r.below(3)) {
    case 0: return pick_one(r, type, copies<C>::ops);
    case 1: return pick_one(r, type, vectors<C, false>::ops);
    default: return pick_one(r, type, vectors<C, true>::ops);
  }
}
}  // namespace

#if VP_PART == 0
#include <sys/mman.h>
#include <sys/stat.h>
#include "p20_wrap.inc"
VP_SUITE_NOBALANCE(vectors_of_numbers, 1) { vector_case<off::vector<std::uint64_t>>(r, "vector of numbers"); }
VP_SUITE_NOBALANCE(vectors_of_strings, 2) { if (r.coin()) vector_case<off::vector<off::string>>(r, "vector of strings"); else vector_case<raw::vector<raw::string>>(r, "raw vector of strings"); }
VP_SUITE_NOBALANCE(vectors_of_vectors, 1) { vector_case<off::vector<off::vector<off::string>>>(r, "vector of vectors"); }
VP_SUITE_NOBALANCE(vectors_of_pointers, 1) { pick_one(r, "vector of unique pointers", vectors<off::vector<off::unique_ptr<off::string>>, false>::ops); }
namespace vp {
struct alignas(64) wide_el {
  VP_FIELDS(s_)
  off::string s_;
};
inline void make(rng& r, wide_el& x) { make(r, x.s_); }
}  // namespace
VP_SUITE_NOBALANCE(vectors_of_overaligned, 1) {
  vector_case<off::vector<wide_el>>(r, "vector of over-aligned elements");
}
namespace vp {
template <typename C>
struct strings {
  static inline operation<C> const ops[] = {
      OP("assignment of a view", STRONG, auto const x = words(r); armed([&]() { c = std::string_view{x}; })),
      OP("assignment of characters", STRONG, auto const x = words(r); armed([&]() { c = x.c_str(); })),
      OP("assignment of a std::string", STRONG, auto const x = words(r); armed([&]() { c = x; })),
      OP("set_owning", STRONG, auto const x = words(r); armed([&]() { c.set_owning(x); })),
      OP("set_owning of a part", STRONG, auto const i = r.below(c.size() + 1U); armed([&]() { c.set_owning(c.view().substr(i)); })),
      OP("construction", STRONG, auto const x = words(r); armed([&]() { C y{x}; VP_CHECK(y.view() == x, "text", "%u", 0U); C z{x.c_str()}; C w{std::string_view{x}}; })),
      OP("str", STRONG, armed([&]() { auto const s = c.str(); VP_CHECK(s == c.view(), "text", "%u", 0U); })),
  };
};
}  // namespace
VP_SUITE_NOBALANCE(strings_alone, 2) {
  switch (r.below(6)) {
    case 0: return pick_one(r, "string", copies<off::string>::ops);
    case 1: return pick_one(r, "raw string", copies<raw::string>::ops);
    case 2: return pick_one(r, "cstring", copies<off::cstring>::ops);
    case 3: return pick_one(r, "string", strings<off::string>::ops);
    case 4: return pick_one(r, "raw string", strings<raw::string>::ops);
    default: return pick_one(r, "cstring", strings<off::cstring>::ops);
  }
}
VP_MAIN()

#elif VP_PART == 1
namespace vp {
using set = off::hash_set<off::string>;
using map = off::hash_map<off::string, off::vector<off::string>>;
using num_map = off::hash_map<std::uint32_t, std::uint64_t>;
using raw_map = raw::hash_map<raw::string, raw::string>;
using unique_map = off::hash_map<std::uint32_t, off::unique_ptr<off::string>>;
inline void key(rng& r, off::string& s) { s = (r.coin() ? "k" : "a key too long to be stored inline: ") + std::to_string(r.below(12)); }
inline void key(rng& r, raw::string& s) { s = (r.coin() ? "k" : "a key too long to be stored inline: ") + std::to_string(r.below(12)); }
inline void key(rng& r, std::uint32_t& s) { s = static_cast<std::uint32_t>(r.below(24)); }
template <typename K>
K some_key(rng& r) { K k{}; key(r, k); return k; }
template <typename C, typename = void>
struct is_map : std::false_type {};
template <typename C>
struct is_map<C, std::void_t<decltype(std::declval<C&>().begin()->second)>> : std::true_type {};
template <typename C>
typename C::entry_t entry(rng& r) {
  typename C::entry_t e{};
  if constexpr (is_map<C>::value) { key(r, e.first); make(r, e.second); } else { key(r, e); }
  return e;
}
template <typename C>
void fill(rng& r, C& c) {
  c.clear();
  for (auto n = r.below(20); n != 0U; --n) c.emplace(entry<C>(r));
  for (auto n = r.below(6); n != 0U; --n) c.erase(some_key<typename C::key_type>(r));
}
inline void make(rng& r, set& c) { fill(r, c); }
inline void make(rng& r, map& c) { fill(r, c); }
inline void make(rng& r, num_map& c) { fill(r, c); }
inline void make(rng& r, raw_map& c) { fill(r, c); }
inline void make(rng& r, unique_map& c) { fill(r, c); }

template <typename C>
struct tables {
  static inline operation<C> const ops[] = {
      OP("insert", STRONG, auto const e = entry<C>(r); armed_keep(e, [&]() { c.insert(e); })),
      OP("emplace", STRONG, auto const e = entry<C>(r); armed_keep(e, [&]() { c.emplace(e); })),
      OP("emplace(moved)", STRONG, auto e = entry<C>(r); armed([&]() { c.emplace(std::move(e)); })),
      OP("insert range", VALID, std::vector<typename C::entry_t> x; for (auto n = r.below(5); n != 0U; --n) x.push_back(entry<C>(r)); armed([&]() { c.insert(x.begin(), x.end()); })),
      OP("rehash", STRONG, armed([&]() { c.rehash(); })),
      OP("erase", STRONG, auto const k = some_key<typename C::key_type>(r); armed_keep(k, [&]() { c.erase(k); })),
      OP("find", STRONG, auto const k = some_key<typename C::key_type>(r); armed_keep(k, [&]() { c.find(k); })),
      OP("construction of a list", STRONG, auto const e = entry<C>(r); auto const f = entry<C>(r); armed([&]() { C x({e, f}); VP_CHECK(!x.empty(), "size", "%u", 0U); })),
  };
};
template <typename C>
struct mappings {
  static inline operation<C> const ops[] = {
      OP("operator[]", STRONG, auto const k = some_key<typename C::key_type>(r); armed_keep(k, [&]() { c[k]; })),
      OP("operator[] of own key", STRONG, if (c.empty()) return; armed([&]() { c[c.begin()->first]; })),
      OP("get", STRONG, if constexpr (std::is_copy_constructible_v<typename C::mapped_type>) { auto const k = some_key<typename C::key_type>(r); armed_keep(k, [&]() { c.get(k); }); }),
      OP("emplace of key and value", STRONG, auto const k = some_key<typename C::key_type>(r); auto v = some<typename C::mapped_type>(r); armed_keep(k, [&]() { c.emplace(k, std::move(v)); })),
  };
};
template <typename C>
void table_case(rng& r, char const* type) {
  if constexpr (is_map<C>::value) if (r.chance(1, 3)) return pick_one(r, type, mappings<C>::ops);
  if (r.chance(1, 3)) return pick_one(r, type, copies<C>::ops);
  return pick_one(r, type, tables<C>::ops);
}
}  // namespace
VP_SUITE_NOBALANCE(hash_tables, 6) {
  switch (r.below(6)) {
    case 0: return table_case<set>(r, "hash_set of strings");
    case 1:
    case 2: return table_case<map>(r, "hash_map of strings and vectors");
    case 3: return table_case<num_map>(r, "hash_map of numbers");
    case 4: return table_case<raw_map>(r, "raw hash_map of strings");
    default: return pick_one(r, "hash_map of unique pointers", mappings<unique_map>::ops);
  }
}
namespace vp {
using opt = cista::optional<off::string>;
using opt_vec = cista::optional<off::vector<off::string>>;
using pr = cista::pair<off::string, off::vector<off::string>>;
using tup = cista::tuple<off::string, off::vector<off::string>, std::uint32_t>;
using arr = cista::array<off::string, 3>;
using uni = off::unique_ptr<off::vector<off::string>>;
using indexed = off::indexed_vector<off::string>;
inline void make(rng& r, indexed& x) { x.clear(); for (auto n = r.below(5); n != 0U; --n) { off::string s; make(r, s); x.emplace_back(std::move(s)); } }

struct values {
  template <typename C>
  struct own { static inline operation<C> const ops[] = {OP("copy construction", STRONG, auto const o = some<C>(r); armed_keep(o, [&]() { C x{o}; C y(x); (void)y; }))}; };
};
}  // namespace
VP_SUITE_NOBALANCE(single_values, 3) {
  switch (r.below(9)) {
    case 0: return pick_one(r, "optional string", copies<opt>::ops);
    case 1: return pick_one(r, "optional vector", copies<opt_vec>::ops);
    case 2: return pick_one(r, "variant", copies<var>::ops);
    case 3: return pick_one(r, "pair", copies<pr>::ops);
    case 4: return pick_one(r, "tuple", copies<tup>::ops);
    case 5: return pick_one(r, "array", copies<arr>::ops);
    case 6: {
      using C = uni;
      static operation<C> const ops[] = {
          OP("make_unique of a copy", STRONG, auto const o = some<off::vector<off::string>>(r); armed_keep(o, [&]() { c = off::make_unique<off::vector<off::string>>(o); })),
          OP("change of what is owned", STRONG, auto const s = words(r); armed([&]() { c->emplace_back(std::string_view{s}); })),
          OP("move assignment", STRONG, auto o = some<C>(r); armed([&]() { c = std::move(o); })),
      };
      return pick_one(r, "unique_ptr", ops);
    }
    case 7: {
      using C = var;
      static operation<C> const ops[] = {
          OP("assignment of another type", VALID, auto const s = some<off::string>(r); armed_keep(s, [&]() { c = s; })),
          OP("assignment of another type", VALID, auto const s = some<off::vector<off::string>>(r); armed_keep(s, [&]() { c = s; })),
          OP("emplace", VALID, auto const s = some<off::vector<off::string>>(r); armed_keep(s, [&]() { c.template emplace<off::vector<off::string>>(s); })),
          OP("emplace by index", VALID, auto const s = some<off::string>(r); armed_keep(s, [&]() { c.template emplace<1>(s); })),
          OP("construction", STRONG, auto const s = some<off::string>(r); armed_keep(s, [&]() { C x{s}; (void)x; })),
      };
      return pick_one(r, "variant", ops);
    }
    default: {
      using C = opt_vec;
      static operation<C> const ops[] = {
          OP("construction of a value", STRONG, auto const s = some<off::vector<off::string>>(r); armed_keep(s, [&]() { C x{s}; (void)x; })),
          OP("assignment of a value", VALID, auto const s = some<off::vector<off::string>>(r); armed_keep(s, [&]() { c = s; })),
      };
      return pick_one(r, "optional vector", ops);
    }
  }
}
VP_SUITE_NOBALANCE(more_vectors, 2) {
  switch (r.below(5)) {
    case 0: return vector_case<off::vector<opt>>(r, "vector of optionals");
    case 1: return vector_case<off::vector<var>>(r, "vector of variants");
    case 2: return vector_case<off::vector<pr>>(r, "vector of pairs");
    case 3: return vector_case<off::vector<tup>>(r, "vector of tuples");
    default: return vector_case<indexed>(r, "indexed vector of strings");
  }
}

#elif VP_PART == 2
namespace vp {
using bits = off::bitvec;
using jag = off::vecvec<std::uint32_t, char>;
using jag_str = off::vecvec<std::uint32_t, off::string>;
using fws = off::fws_multimap<std::uint32_t, off::string>;
using mut = off::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
using nv = off::nvec<std::uint32_t, off::string, 3U>;
using mat = off::flat_matrix<off::string>;
#define COMPOSED(T) template <> struct composed<T> : std::true_type {};
COMPOSED(bits) COMPOSED(jag) COMPOSED(jag_str) COMPOSED(fws) COMPOSED(mut) COMPOSED(nv) COMPOSED(mat)
inline void make(rng& r, bits& x) { x.resize(static_cast<unsigned>(r.below(300))); for (unsigned i = 0; i != x.size(); ++i) x.set(i, r.coin()); }
inline std::vector<std::string> word_list(rng& r) { std::vector<std::string> x(r.below(4)); for (auto& e : x) e = words(r); return x; }
inline std::vector<std::vector<std::vector<std::string>>> deep_list(rng& r) {
  std::vector<std::vector<std::vector<std::string>>> x(1U + r.below(2));
  for (auto& y : x) { y.resize(1U + r.below(2)); for (auto& z : y) z = word_list(r); }
  return x;
}
inline void make(rng& r, jag& x) { x.clear(); for (auto n = r.below(6); n != 0U; --n) x.emplace_back(words(r)); }
inline void make(rng& r, jag_str& x) { x.clear(); for (auto n = r.below(4); n != 0U; --n) x.emplace_back(word_list(r)); }
inline void make(rng& r, mut& x) { x.clear(); for (auto n = r.below(30); n != 0U; --n) x[static_cast<std::uint32_t>(r.below(6))].push_back(static_cast<std::uint32_t>(r.next())); }
inline void make(rng& r, mat& x) {
  x = mat{};
  x.resize(static_cast<std::uint32_t>(r.below(4)), r.below(4));
  for (auto& e : x.entries_) make(r, e);
}
inline void make(rng& r, nv& x) {
  x = nv{};
  for (auto n = r.below(4); n != 0U; --n) x.emplace_back(deep_list(r));
}
template <typename C>
struct bit_ops { static inline operation<C> const ops[] = {
  OP("resize", STRONG, auto const n = static_cast<unsigned>(r.below(600)); armed([&]() { c.resize(n); })),
  OP("set of text", WRECK, std::string s(r.below(200), '0'); for (auto& x : s) x = r.coin() ? '1' : '0'; armed([&]() { c.set(s); })),
  OP("construction from text", STRONG, std::string s(r.below(200), '0'); armed([&]() { C x{std::string_view{s}}; (void)x; })),
  OP("str", STRONG, armed([&]() { auto const s = c.str(); VP_CHECK(s.size() == c.size(), "text", "%u", 0U); })),
}; };
template <typename C>
struct jag_ops { static inline operation<C> const ops[] = {
  OP("emplace_back", WRECK, auto const x = words(r); armed([&]() { c.emplace_back(x); })),
  OP("push_back to a bucket", STRONG, if (c.empty()) return; auto const i = r.below(c.size()); armed([&]() { c[static_cast<std::uint32_t>(i)].push_back('!'); })),
  OP("grow of a bucket", WRECK, if (c.empty()) return; auto const i = r.below(c.size()); auto b = c[static_cast<std::uint32_t>(i)]; auto const n = b.size() + r.below(30); armed([&]() { b.grow(n, '?'); })),
  OP("resize", WRECK, auto const n = r.below(9); armed([&]() { c.resize(n); })),
  OP("add_back_sized", WRECK, auto const n = r.below(40); armed([&]() { c.add_back_sized(n); })),
}; };
template <typename C>
struct jag_str_ops { static inline operation<C> const ops[] = {
  OP("emplace_back", WRECK, auto const x = word_list(r); armed([&]() { c.emplace_back(x); })),
  OP("push_back to a bucket", WRECK, if (c.empty()) return; auto const i = r.below(c.size()); auto const x = some<off::string>(r); armed_keep(x, [&]() { c[static_cast<std::uint32_t>(i)].push_back(x); })),
  OP("resize", WRECK, auto const n = r.below(9); armed([&]() { c.resize(n); })),
}; };
template <typename C>
struct mut_ops { static inline operation<C> const ops[] = {
  OP("push_back", VALID, auto const k = static_cast<std::uint32_t>(r.below(9)); armed([&]() { c[k].push_back(7U); })),
  OP("emplace_back", VALID, auto const k = static_cast<std::uint32_t>(r.below(9)); armed([&]() { c[k].emplace_back(7U); })),
  OP("reserve", VALID, auto const k = static_cast<std::uint32_t>(r.below(9)); auto const n = static_cast<std::uint32_t>(r.below(40)); armed([&]() { c[k].reserve(n); })),
  OP("resize of a bucket", VALID, auto const k = static_cast<std::uint32_t>(r.below(9)); auto const n = static_cast<std::uint32_t>(r.below(40)); armed([&]() { c[k].resize(n); })),
  OP("insertion", VALID, if (c.size() == 0U) return; auto b = c[static_cast<std::uint32_t>(r.below(c.size()))]; auto const i = r.below(b.size() + 1U); armed([&]() { b.insert(b.begin() + static_cast<std::ptrdiff_t>(i), 9U); })),
}; };
template <typename C>
struct nv_ops { static inline operation<C> const ops[] = {
  OP("emplace_back", WRECK, auto const e = deep_list(r); armed([&]() { c.emplace_back(e); })),
}; };
}  // namespace
VP_SUITE_NOBALANCE(jagged, 4) {
  switch (r.below(8)) {
    case 0: return pick_one(r, "vecvec of characters", copies<jag>::ops);
    case 1: return pick_one(r, "vecvec of strings", copies<jag_str>::ops);
    case 2:
    case 3: return pick_one(r, "vecvec of characters", jag_ops<jag>::ops);
    case 4: return pick_one(r, "vecvec of strings", jag_str_ops<jag_str>::ops);
    case 5: return pick_one(r, "nvec", nv_ops<nv>::ops);
    case 6: return pick_one(r, "mutable_fws_multimap", copies<mut>::ops);
    default: return pick_one(r, "mutable_fws_multimap", mut_ops<mut>::ops);
  }
}
VP_SUITE_NOBALANCE(bit_vectors, 1) {
  if (r.coin()) return pick_one(r, "bitvec", copies<bits>::ops);
  return pick_one(r, "bitvec", bit_ops<bits>::ops);
}
namespace vp {
using mm_fws = off::fws_multimap<std::uint32_t, off::string>;
inline void make(rng& r, mm_fws& x) {
  x = mm_fws{};
  for (auto n = r.below(4); n != 0U; --n) { for (auto m = r.below(4); m != 0U; --m) x.push_back(some<off::string>(r)); x.finish_key(); }
  x.finish_map();
}
using tree = off::rtree<std::uint32_t, 2U, float, 8U>;
inline void make(rng& r, tree& t) {
  t = tree{};
  for (auto n = r.below(40); n != 0U; --n) {
    auto const x = static_cast<float>(r.below(100)), y = static_cast<float>(r.below(100));
    t.insert({x, y}, {x + static_cast<float>(r.below(9)), y + 1.F}, static_cast<std::uint32_t>(n));
  }
}
}  // namespace
VP_SUITE_NOBALANCE(other_containers, 2) {
  switch (r.below(3)) {
    case 0: {
      using C = mm_fws;
      if (r.coin()) return pick_one(r, "fws_multimap", copies<C>::ops);
      static operation<C> const ops[] = {
          OP("filling", STRONG, auto const x = some<off::string>(r); auto const n = r.below(6); armed_keep(x, [&]() {
            C y;
            for (auto i = 0U; i != n; ++i) { y.push_back(x); if (i % 2U == 0U) y.finish_key(); }
            y.finish_map();
          })),
      };
      return pick_one(r, "fws_multimap", ops);
    }
    case 1: {
      using C = tree;
      static operation<C> const ops[] = {
          OP("insert", WRECK, auto const x = static_cast<float>(r.below(100)); armed([&]() { c.insert({x, x}, {x + 1.F, x + 2.F}, 77U); })),
          OP("delete", STRONG, auto const x = static_cast<float>(r.below(100)); armed([&]() { c.delete_element({x, x}, {x + 1.F, x + 2.F}, 3U); })),
          OP("copy construction", STRONG, auto const o = some<C>(r); armed([&]() { auto const x = C{o}; (void)x; })),
      };
      return pick_one(r, "rtree", ops);
    }
    default: {
      using C = mat;
      if (r.coin()) return pick_one(r, "flat_matrix", copies<C>::ops);
      static operation<C> const ops[] = {
          OP("resize", WRECK, auto const n = static_cast<std::uint32_t>(r.below(5)); auto const m = static_cast<std::uint32_t>(r.below(5)); armed([&]() { c.resize(n, m); })),
          OP("reset", VALID, auto const x = some<off::string>(r); armed([&]() { c.reset(x); })),
      };
      return pick_one(r, "flat_matrix", ops);
    }
  }
}

#elif VP_PART == 3
// ------------------------------------------------ writing and reading values
namespace vp {
template <typename T>
struct holder {  // a value and the image made of it
  T v;
  bytes image;
};
template <typename T>
void walk(walker& w, holder<T> const& h) {
  walk(w, h.v);  // (the image has padding)
}
template <typename T>
void make(rng& r, holder<T>& h) { gen(r, h.v, static_cast<int>(r.below(3)) - 1); h.image.clear(); }
template <typename T>
struct copyable<holder<T>> : std::false_type {};
template <typename T, cista::mode M>
void same_image(bytes const& b, T const& v) {
  monitor_scope m;
  image i{b};
  VP_CHECK(text(*cista::deserialize<T, M>(i.begin(), i.end())) == text(v), "value-differs", "the image written holds another value");
}
template <typename T, cista::mode M>
struct ser_ops {
  using C = holder<T>;
  static inline operation<C> const ops[] = {
      OP("serialize to bytes", STRONG, bytes b; armed([&]() { b = cista::serialize<M>(c.v); }); same_image<T, M>(b, c.v)),
      OP("serialize to a given byte vector", STRONG, cista::buf<bytes> b; armed([&]() { cista::serialize<M>(b, c.v); }); same_image<T, M>(b.buf_, c.v)),
      OP("serialize to a cista vector", STRONG, cista::buf<cista::raw::vector<std::uint8_t>> b; armed([&]() { cista::serialize<M>(b, c.v); }); same_image<T, M>(bytes(b.buf_.begin(), b.buf_.end()), c.v)),
  };
  static inline operation<C> const rops[] = {
      OP("deserialize", STRONG, image i{c.image}; T const* p = nullptr; armed([&]() { p = cista::deserialize<T, M>(i.begin(), i.end()); }); VP_CHECK(text(*p) == text(c.v), "value-differs", "the value read differs")),
      OP("deserialize deeply checked", STRONG, image i{c.image}; T const* p = nullptr; armed([&]() { p = cista::deserialize<T, M | DEEP>(i.begin(), i.end()); }); VP_CHECK(text(*p) == text(c.v), "value-differs", "the value read differs")),
  };
};
template <typename T, cista::mode M>
void ser_case(rng& r, char const* name) {
  using C = holder<T>;
  if (r.chance(2, 3)) return pick_one(r, name, ser_ops<T, M>::ops);
  every_fault<C>(r, name, [](rng& x, C& c) { make(x, c); c.image = cista::serialize<M>(c.v); }, ser_ops<T, M>::rops[r.below(2)]);
}
}  // namespace vp
VP_SUITE_NOBALANCE(images, 3) {
  switch (r.below(6)) {
    case 0: return ser_case<offt::strings, INTEG>(r, "strings");
    case 1: return ser_case<offt::maps, VER | INTEG>(r, "maps");
    case 2: return ser_case<offt::vecs, NONE>(r, "vectors");
    case 3: return ser_case<rawt::maps, NONE>(r, "raw maps");
    case 4: return ser_case<offt::graph, INTEG>(r, "graph");
    default: return ser_case<rawt::values, VER>(r, "raw values");
  }
}
#elif VP_PART == 4
// ----------------------------------------------------- files and mappings
#include "p20_files.inc"
#endif
