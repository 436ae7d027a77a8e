// Values of many types with an independent notion of equality: Q<T>::text is a
// canonical description, equal exactly when the values are equal.
#pragma once
#include <array>
#include <chrono>
#include <cmath>
#include <list>
#include <optional>
#include <sstream>
#include <tuple>
#include <utility>
#include <variant>

#include "common.h"

#include "cista/bit_counting.h"
#include "cista/chunk.h"
#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/next_power_of_2.h"
#include "cista/reflection/arity.h"
#include "cista/reflection/comparable.h"
#include "cista/reflection/for_each_field.h"
#include "cista/reflection/member_index.h"
#include "cista/reflection/printable.h"
#include "cista/strong.h"

namespace refl {
struct tag_a {};
struct tag_b {};
enum class e8 : std::uint8_t { A, B, C };
enum class e32 : std::int32_t { X = -5, Y, Z = 70000 };
enum e64 : std::uint64_t { P, R = 1ULL << 40U };
using id_a = cista::strong<std::uint32_t, tag_a>;
using id_b = cista::strong<std::uint16_t, tag_b>;
using id_s = cista::strong<std::int64_t, tag_b>;
using ostring = cista::offset::string;
using rstring = cista::raw::string;
using ovec = cista::offset::vector<std::uint32_t>;
using ovecs = cista::offset::vector<cista::offset::string>;
using arr3 = cista::array<std::uint16_t, 3U>;
using pair_is = cista::pair<std::int32_t, cista::offset::string>;
using oset = cista::offset::hash_set<std::uint32_t>;
using omap = cista::offset::hash_map<cista::offset::string, std::uint32_t>;
using millis = std::chrono::milliseconds;
using instant = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
using pair_si = std::pair<std::string, std::int32_t>;
using opt = std::optional<std::uint32_t>;
using var = cista::variant<std::uint32_t, cista::offset::string, std::int64_t>;
using svar = std::variant<std::uint32_t, std::string>;
using stup = std::tuple<std::uint32_t, std::string>;
using ctup = cista::tuple<std::uint32_t, cista::offset::string>;
using sarr = std::array<std::uint32_t, 2U>;
using slist = std::list<std::uint32_t>;
using cstr = cista::offset::cstring;
}  // namespace refl

namespace vp {

inline std::string lp(std::string const& s) { return std::to_string(s.size()) + ":" + s; }

template <typename T, typename = void>
struct has_text : std::false_type {};
template <typename T>
struct has_text<T, std::void_t<decltype(std::declval<T const&>().vp_text())>> : std::true_type {};
template <typename T>
std::string shown(T const& t) {
  if constexpr (has_text<T>::value) {
    return t.vp_text();
  } else if constexpr (std::is_enum_v<T>) {
    std::ostringstream o;
    o << static_cast<std::underlying_type_t<T>>(t);
    return o.str();
  } else {
    std::ostringstream o;
    o << t;
    return o.str();
  }
}
template <typename T>
std::string shown(std::vector<T> const& v) {
  std::string o = "[\n  ";
  for (std::size_t i = 0; i != v.size(); ++i) o += (i == 0U ? "" : ",\n  ") + shown(v[i]);
  return o + "\n]";
}
template <typename T>
std::string shown(cista::offset::vector<T> const& v) {
  std::string o = "[\n  ";
  for (std::size_t i = 0; i != v.size(); ++i) o += (i == 0U ? "" : ",\n  ") + shown(v[i]);
  return o + "\n]";
}
// made of Q<element>s
template <typename T, typename = void>
struct Q;

// What a hash sees of a value: its scalars and characters in order, without
// boundaries and without anything for what is empty.
template <typename T, typename = void>
struct has_flat : std::false_type {};
template <typename T>
struct has_flat<T, std::void_t<decltype(Q<T>::flat(std::declval<std::string&>(), std::declval<T const&>()))>> : std::true_type {};
template <typename T>
void flat(std::string& o, T const& t) {
  if constexpr (has_flat<T>::value) Q<T>::flat(o, t);
  else o += Q<T>::text(t) + ",";
}
template <typename T>
std::string flat(T const& t) { std::string o; flat(o, t); return o; }

template <typename T>
struct Q<T, std::enable_if_t<std::is_integral_v<T>>> {
  static void gen(rng& r, T& t) { t = static_cast<T>(r.value()); }
  static void change(rng& r, T& t) { auto const o = t; do gen(r, t); while (t == o); }
  static void remake(rng&, T const& a, T& b) { b = a; }
  static std::string text(T const& t) { return std::to_string(static_cast<long long>(t)) + (std::is_same_v<T, std::uint64_t> && t > (~T{0} >> 1U) ? "u" : ""); }
  static bool less(T const& a, T const& b) { return a < b; }
};
template <>
struct Q<bool> {
  static void gen(rng& r, bool& t) { t = r.coin(); }
  static void change(rng&, bool& t) { t = !t; }
  static void remake(rng&, bool const& a, bool& b) { b = a; }
  static std::string text(bool const& t) { return t ? "1" : "0"; }
  static bool less(bool const& a, bool const& b) { return !a && b; }
};
template <typename T>
struct Q<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static void gen(rng& r, T& t) { U u{}; Q<U>::gen(r, u); t = static_cast<T>(u); }
  static void change(rng& r, T& t) { auto const o = t; do gen(r, t); while (t == o); }
  static void remake(rng&, T const& a, T& b) { b = a; }
  static std::string text(T const& t) { return Q<U>::text(static_cast<U>(t)); }
  static bool less(T const& a, T const& b) { return static_cast<U>(a) < static_cast<U>(b); }
};
// (by default the hash looks at the integer part only, so that is what changes)
template <typename T>
struct Q<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void gen(rng& r, T& t) {
    auto const n = static_cast<T>(r.range(-1000000, 1000000));
    switch (r.below(6)) {
      case 0: t = 0; break;
      case 1: t = -T{0}; break;
      case 2: t = n / 64; break;
      default: t = n;
    }
  }
  static void change(rng& r, T& t) { auto const o = std::trunc(t); do gen(r, t); while (std::trunc(t) == o); }
  static void remake(rng& r, T const& a, T& b) { b = a == 0 && r.coin() ? -a : a; }
  static std::string text(T const& t) { char b[64]; std::snprintf(b, sizeof(b), "%a", static_cast<double>(t == 0 ? 0 : t)); return b; }
  static bool less(T const& a, T const& b) { return a < b; }
};

inline std::string gen_text(rng& r) {
  static char const* const some[] = {"", "a", "b", "short", "exactly 15 chars", "exactly sixteen!", "a string which is certainly stored elsewhere", "Z", "aa", "\xff\x80", "0"};
  if (r.chance(2, 3)) return some[r.below(sizeof(some) / sizeof(some[0]))];
  std::string s;
  for (auto n = r.size(60); n != 0U; --n) s += static_cast<char>(1U + r.below(255));
  return s;
}
inline void change_text(rng& r, std::string& s) {
  switch (r.below(4)) {
    case 0: s += static_cast<char>(1U + r.below(255)); return;
    case 1: if (!s.empty()) { s.pop_back(); return; } break;
    default: break;
  }
  if (s.empty()) { s = "x"; return; }
  auto& c = s[r.below(s.size())];
  c = static_cast<char>(static_cast<unsigned char>(c) == 255U ? 1U : static_cast<unsigned char>(c) + 1U);
}
inline bool text_less(std::string_view a, std::string_view b) {
  for (std::size_t i = 0; i != std::min(a.size(), b.size()); ++i) {
    if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]);
  }
  return a.size() < b.size();
}
template <typename T>
struct string_q {
  static void set(rng& r, T& t, std::string const& s) {
    switch (r.below(3)) {
      case 0: t = T{std::string_view{s}}; break;
      case 1: t = std::string_view{"something else, and it is longer than what fits inside"}; t = std::string_view{s}; break;
      default: t = T{std::string_view{"x"}}; t = std::string_view{s};
    }
  }
  static std::string str(T const& t) { return std::string{t.data(), t.size()}; }
  static void gen(rng& r, T& t) { set(r, t, gen_text(r)); }
  static void change(rng& r, T& t) { auto s = str(t); change_text(r, s); set(r, t, s); }
  static void remake(rng& r, T const& a, T& b) { auto const s = str(a); set(r, b, s); }
  static std::string text(T const& t) { return lp(str(t)); }
  static void flat(std::string& o, T const& t) { for (auto const c : str(t)) o += std::to_string(static_cast<unsigned char>(c)) + ","; }
  static bool less(T const& a, T const& b) { return text_less(str(a), str(b)); }
};
template <> struct Q<std::string> : string_q<std::string> {};
template <> struct Q<cista::raw::string> : string_q<cista::raw::string> {};
template <> struct Q<cista::offset::string> : string_q<cista::offset::string> {};
template <> struct Q<cista::offset::cstring> : string_q<cista::offset::cstring> {};

template <typename T, typename Tag>
struct Q<cista::strong<T, Tag>> {
  using S = cista::strong<T, Tag>;
  static void gen(rng& r, S& t) { T v{}; Q<T>::gen(r, v); t = S{v}; }
  static void change(rng& r, S& t) { T v = cista::to_idx(t); Q<T>::change(r, v); t = S{v}; }
  static void remake(rng&, S const& a, S& b) { b = a; }
  static std::string text(S const& t) { return Q<T>::text(cista::to_idx(t)); }
  static bool less(S const& a, S const& b) { return cista::to_idx(a) < cista::to_idx(b); }
};
template <typename R, typename P>
struct Q<std::chrono::duration<R, P>> {
  using D = std::chrono::duration<R, P>;
  static void gen(rng& r, D& t) { R v{}; Q<R>::gen(r, v); t = D{v}; }
  static void change(rng& r, D& t) { R v = t.count(); Q<R>::change(r, v); t = D{v}; }
  static void remake(rng&, D const& a, D& b) { b = a; }
  static std::string text(D const& t) { return Q<R>::text(t.count()); }
  static bool less(D const& a, D const& b) { return a.count() < b.count(); }
};
template <typename C, typename D>
struct Q<std::chrono::time_point<C, D>> {
  using P = std::chrono::time_point<C, D>;
  static void gen(rng& r, P& t) { D v{}; Q<D>::gen(r, v); t = P{v}; }
  static void change(rng& r, P& t) { D v = t.time_since_epoch(); Q<D>::change(r, v); t = P{v}; }
  static void remake(rng&, P const& a, P& b) { b = a; }
  static std::string text(P const& t) { return Q<D>::text(t.time_since_epoch()); }
  static bool less(P const& a, P const& b) { return a.time_since_epoch() < b.time_since_epoch(); }
};

// sequences
template <typename V>
struct seq_q {
  using E = std::decay_t<decltype(*std::declval<V&>().begin())>;
  static void gen(rng& r, V& v) { v.clear(); for (auto n = r.below(5); n != 0U; --n) { E e{}; Q<E>::gen(r, e); v.push_back(e); } }
  static void change(rng& r, V& v) {
    if (!v.empty() && r.chance(3, 4)) { auto it = v.begin(); for (auto k = r.below(v.size()); k != 0U; --k) ++it; Q<E>::change(r, *it); return; }
    E e{};
    Q<E>::gen(r, e);
    v.push_back(e);
  }
  static void remake(rng& r, V const& a, V& b) {
    b.clear();
    if (r.coin()) { for (auto k = 0; k != 9; ++k) { E e{}; Q<E>::gen(r, e); b.push_back(e); } b.clear(); }  // other capacity, used before
    for (auto const& x : a) { E e{}; Q<E>::remake(r, x, e); b.push_back(e); }
  }
  static std::string text(V const& v) { std::string o; for (auto const& x : v) o += lp(Q<E>::text(x)); return "[" + o + "]"; }
  static void flat(std::string& o, V const& v) { for (auto const& x : v) vp::flat(o, x); }
  static bool less(V const& a, V const& b) {
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) { if (Q<E>::less(*i, *j)) return true; if (Q<E>::less(*j, *i)) return false; }
    return i == a.end() && j != b.end();
  }
};
template <typename T, template <typename> typename P, bool I, typename S, typename A>
struct Q<cista::basic_vector<T, P, I, S, A>> : seq_q<cista::basic_vector<T, P, I, S, A>> {};
template <typename T> struct Q<std::vector<T>> : seq_q<std::vector<T>> {};
template <typename T> struct Q<std::list<T>> : seq_q<std::list<T>> {};
template <typename V>
struct fixed_q {
  using E = std::decay_t<decltype(*std::declval<V&>().begin())>;
  static void gen(rng& r, V& v) { for (auto& x : v) Q<E>::gen(r, x); }
  static void change(rng& r, V& v) { Q<E>::change(r, v[r.below(v.size())]); }
  static void remake(rng& r, V const& a, V& b) { for (std::size_t i = 0; i != a.size(); ++i) Q<E>::remake(r, a[i], b[i]); }
  static std::string text(V const& v) { return seq_q<V>::text(v); }
  static void flat(std::string& o, V const& v) { seq_q<V>::flat(o, v); }
  static bool less(V const& a, V const& b) { return seq_q<V>::less(a, b); }
};
template <typename T, std::size_t N> struct Q<std::array<T, N>> : fixed_q<std::array<T, N>> {};

template <typename P>
struct pair_q {
  using A = decltype(P::first);
  using B = decltype(P::second);
  static void gen(rng& r, P& p) { Q<A>::gen(r, p.first); Q<B>::gen(r, p.second); }
  static void change(rng& r, P& p) { if (r.coin()) Q<A>::change(r, p.first); else Q<B>::change(r, p.second); }
  static void remake(rng& r, P const& a, P& b) { Q<A>::remake(r, a.first, b.first); Q<B>::remake(r, a.second, b.second); }
  static std::string text(P const& p) { return "(" + lp(Q<A>::text(p.first)) + lp(Q<B>::text(p.second)) + ")"; }
  static void flat(std::string& o, P const& p) { vp::flat(o, p.first); vp::flat(o, p.second); }
  static bool less(P const& a, P const& b) { return Q<A>::less(a.first, b.first) || (!Q<A>::less(b.first, a.first) && Q<B>::less(a.second, b.second)); }
};
template <typename A, typename B> struct Q<std::pair<A, B>> : pair_q<std::pair<A, B>> {};
template <typename A, typename B> struct Q<cista::pair<A, B>> : pair_q<cista::pair<A, B>> {};

template <typename T, typename Idx>
struct tuple_q;
template <typename T, std::size_t... I>
struct tuple_q<T, std::index_sequence<I...>> {
  template <std::size_t K>
  static auto& at(T& t) { using std::get; using cista::get; return get<K>(t); }
  template <std::size_t K>
  static auto const& at(T const& t) { using std::get; using cista::get; return get<K>(t); }
  template <std::size_t K>
  using e = std::decay_t<decltype(at<K>(std::declval<T&>()))>;
  static void gen(rng& r, T& t) { (Q<e<I>>::gen(r, at<I>(t)), ...); }
  static void change(rng& r, T& t) { auto const k = r.below(sizeof...(I)); ((k == I ? Q<e<I>>::change(r, at<I>(t)) : void()), ...); }
  static void remake(rng& r, T const& a, T& b) { (Q<e<I>>::remake(r, at<I>(a), at<I>(b)), ...); }
  static std::string text(T const& t) { std::string o; ((o += lp(Q<e<I>>::text(at<I>(t)))), ...); return "(" + o + ")"; }
  static void flat(std::string& o, T const& t) { (vp::flat(o, at<I>(t)), ...); }
};
template <typename... T> struct Q<std::tuple<T...>> : tuple_q<std::tuple<T...>, std::index_sequence_for<T...>> {};
template <typename... T> struct Q<cista::tuple<T...>> : tuple_q<cista::tuple<T...>, std::index_sequence_for<T...>> {};

template <typename V, typename... T>
struct variant_q {
  static void gen(rng& r, V& v) {
    auto const k = r.below(sizeof...(T));
    std::size_t i = 0U;
    ((i++ == k ? [&]() { T t{}; Q<T>::gen(r, t); v = t; }() : void()), ...);
  }
  template <typename F>
  static void as(V const& v, F&& f) { std::size_t i = 0U; ((i++ == v.index() ? f(*std::get_if<T>(&v)) : void()), ...); }
  static void change(rng& r, V& v) { auto const o = Q<V>::text(v); do gen(r, v); while (Q<V>::text(v) == o); }
};
template <typename... T>
struct Q<std::variant<T...>> : variant_q<std::variant<T...>, T...> {
  using V = std::variant<T...>;
  static void flat(std::string& o, V const& v) { o += std::to_string(v.index()) + ","; std::visit([&](auto const& x) { vp::flat(o, x); }, v); }
  static void remake(rng& r, V const& a, V& b) { std::visit([&](auto const& x) { std::decay_t<decltype(x)> c{}; Q<std::decay_t<decltype(x)>>::remake(r, x, c); b = c; }, a); }
  static std::string text(V const& v) { return "<" + std::to_string(v.index()) + " " + std::visit([](auto const& x) { return Q<std::decay_t<decltype(x)>>::text(x); }, v) + ">"; }
};
template <typename... T>
struct Q<cista::variant<T...>> : variant_q<cista::variant<T...>, T...> {
  using V = cista::variant<T...>;
  static void flat(std::string& o, V const& v) { o += std::to_string(static_cast<unsigned>(v.index())) + ","; v.apply([&](auto const& x) { vp::flat(o, x); }); }
  static void remake(rng& r, V const& a, V& b) { a.apply([&](auto const& x) { std::decay_t<decltype(x)> c{}; Q<std::decay_t<decltype(x)>>::remake(r, x, c); b = c; }); }
  static std::string text(V const& v) { std::string o; v.apply([&](auto const& x) { o = Q<std::decay_t<decltype(x)>>::text(x); }); return "<" + std::to_string(static_cast<unsigned>(v.index())) + " " + o + ">"; }
};
template <typename T>
struct Q<std::optional<T>> {
  using O = std::optional<T>;
  static void gen(rng& r, O& o) { if (r.coin()) { o.reset(); return; } T t{}; Q<T>::gen(r, t); o = t; }
  static void change(rng& r, O& o) { if (o.has_value() && r.coin()) { Q<T>::change(r, *o); return; } auto const b = text(o); do gen(r, o); while (text(o) == b); }
  static void remake(rng& r, O const& a, O& b) { if (!a.has_value()) { b.reset(); return; } T t{}; Q<T>::remake(r, *a, t); b = t; }
  static void flat(std::string& s, O const& o) { if (o.has_value()) vp::flat(s, *o); }
  static std::string text(O const& o) { return o.has_value() ? "+" + Q<T>::text(*o) : "-"; }
};

// bits
template <std::size_t N>
struct Q<cista::bitset<N>> {
  using B = cista::bitset<N>;
  static void gen(rng& r, B& b) { for (std::size_t i = 0; i != N; ++i) b.set(i, r.coin()); }
  static void change(rng& r, B& b) { auto const i = r.below(N); b.set(i, !b.test(i)); }
  static void remake(rng& r, B const& a, B& b) { b = B{}; for (std::size_t i = 0; i != N; ++i) { if (r.coin()) b.set(i, true); b.set(i, a.test(i)); } }
  static std::string text(B const& b) { std::string o; for (std::size_t i = 0; i != N; ++i) o += b.test(i) ? '1' : '0'; return o; }
};
template <>
struct Q<cista::offset::bitvec> {
  using B = cista::offset::bitvec;
  static void gen(rng& r, B& b) { b.resize(static_cast<unsigned>(r.below(140))); for (auto i = 0U; i != b.size(); ++i) b.set(i, r.coin()); }
  static void change(rng& r, B& b) { if (b.size() == 0U) { b.resize(1U); b.set(0U, true); return; } auto const i = static_cast<unsigned>(r.below(b.size())); b.set(i, !b.test(i)); }
  static void remake(rng& r, B const& a, B& b) {
    b.resize(a.size() + static_cast<unsigned>(r.below(70)));
    for (auto i = 0U; i != b.size(); ++i) b.set(i, r.coin());
    b.resize(a.size());
    for (auto i = 0U; i != a.size(); ++i) b.set(i, a.test(i));
  }
  static void flat(std::string& o, B const& b) { auto s = text(b).substr(1); s.pop_back(); s.resize((s.size() + 63U) / 64U * 64U, '0'); if (!s.empty()) o += s + ","; }
  static std::string text(B const& b) { std::string o; for (auto i = 0U; i != b.size(); ++i) o += b.test(i) ? '1' : '0'; return "{" + o + "}"; }
};

// tables: the order of insertion does not matter
template <typename S>
struct table_q {
  using E = std::decay_t<decltype(*std::declval<S&>().begin())>;
  static void add(S& s, E const& e) { s.insert(e); }
  static void gen(rng& r, S& s) { s.clear(); for (auto n = r.below(6); n != 0U; --n) { E e{}; Q<E>::gen(r, e); add(s, e); } }
  static void change(rng& r, S& s) {
    if (!s.empty() && r.coin()) { s.erase(s.begin()); return; }
    auto const n = s.size();
    do { E e{}; Q<E>::gen(r, e); add(s, e); } while (s.size() == n);
  }
  static void remake(rng& r, S const& a, S& b) {
    b.clear();
    if (r.coin()) { for (auto k = r.below(60); k != 0U; --k) { E e{}; Q<E>::gen(r, e); add(b, e); } while (!b.empty()) b.erase(b.begin()); }
    std::vector<E> es;
    for (auto const& x : a) { E e{}; Q<E>::remake(r, x, e); es.push_back(e); }
    for (auto i = es.size(); i > 1U; --i) std::swap(es[i - 1U], es[r.below(i)]);
    for (auto const& e : es) add(b, e);
  }
  static void flat(std::string& o, S const& s) {
    std::vector<std::string> es;
    for (auto const& x : s) es.push_back(vp::flat(x));
    std::sort(es.begin(), es.end());
    for (auto const& e : es) if (!e.empty()) o += "<" + e + ">";
  }
  static std::string text(S const& s) {
    std::vector<std::string> es;
    for (auto const& x : s) es.push_back(Q<E>::text(x));
    std::sort(es.begin(), es.end());
    std::string o;
    for (auto const& e : es) o += lp(e);
    return "{" + o + "}";
  }
};
template <typename T, template <typename> typename P, typename K, typename V, typename H, typename E>
struct Q<cista::hash_storage<T, P, K, V, H, E>> : table_q<cista::hash_storage<T, P, K, V, H, E>> {};

// structures made by the generator describe themselves
template <typename T>
struct Q<T, std::void_t<decltype(std::declval<T&>().vp_members())>> {
  using tup = decltype(std::declval<T&>().vp_members());  // references
  using idx = std::make_index_sequence<std::tuple_size_v<tup>>;
  template <std::size_t I>
  using e = std::decay_t<std::tuple_element_t<I, tup>>;
  template <std::size_t... I>
  static void gen_(rng& r, T& t, std::index_sequence<I...>) { (Q<e<I>>::gen(r, std::get<I>(t.vp_members())), ...); }
  template <std::size_t... I>
  static void change_(rng& r, T& t, std::size_t const k, std::index_sequence<I...>) { ((k == I ? Q<e<I>>::change(r, std::get<I>(t.vp_members())) : void()), ...); }
  template <std::size_t... I>
  static void remake_(rng& r, T const& a, T& b, std::index_sequence<I...>) { auto x = const_cast<T&>(a).vp_members(); auto y = b.vp_members(); (Q<e<I>>::remake(r, std::get<I>(x), std::get<I>(y)), ...); }
  template <std::size_t... I>
  static std::string text_(T const& t, std::index_sequence<I...>) { std::string o; auto x = const_cast<T&>(t).vp_members(); ((o += lp(Q<e<I>>::text(std::get<I>(x)))), ...); return "{" + o + "}"; }
  template <std::size_t... I>
  static bool less_(T const& a, T const& b, std::index_sequence<I...>) {
    auto x = const_cast<T&>(a).vp_members();
    auto y = const_cast<T&>(b).vp_members();
    auto res = 0;
    ((res == 0 ? (Q<e<I>>::less(std::get<I>(x), std::get<I>(y)) ? void(res = -1) : Q<e<I>>::less(std::get<I>(y), std::get<I>(x)) ? void(res = 1) : void()) : void()), ...);
    return res < 0;
  }
  template <std::size_t... I>
  static void flat_(std::string& o, T const& t, std::index_sequence<I...>) { auto x = const_cast<T&>(t).vp_members(); (vp::flat(o, std::get<I>(x)), ...); }
  static void flat(std::string& o, T const& t) { flat_(o, t, idx{}); }
  static void gen(rng& r, T& t) { gen_(r, t, idx{}); }
  static void change(rng& r, T& t) { if constexpr (std::tuple_size_v<tup> != 0U) change_(r, t, r.below(std::tuple_size_v<tup>), idx{}); }
  static void remake(rng& r, T const& a, T& b) { remake_(r, a, b, idx{}); }
  static std::string text(T const& t) { return text_(t, idx{}); }
  static bool less(T const& a, T const& b) { return less_(a, b, idx{}); }
};

}  // namespace vp
