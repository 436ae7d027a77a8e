// Element categories used by the container monitors: how to generate a model
// value, build the element from it and compare the element to it.
#pragma once
#include <string>
#include "cista/containers.h"
#include "common.h"
#include "tracked.h"

namespace vp {

inline std::string gen_string(rng& r, std::size_t max = 40) {
  std::size_t n = 0;
  switch (r.below(6)) {
    case 0: n = r.below(4); break;
    case 1: n = 13 + r.below(6); break;  // around the inline limit (15)
    case 2: n = 15; break;
    case 3: n = 16; break;
    default: n = r.below(max + 1);
  }
  std::string s(n, 'x');
  auto const mode = r.below(4);
  for (auto& c : s) {
    if (mode == 0) c = static_cast<char>('a' + r.below(2));
    else if (mode == 1) c = static_cast<char>(1 + r.below(255));
    else c = static_cast<char>('a' + r.below(26));
  }
  return s;
}

template <typename T, typename = void>
struct elem;

template <typename T>
struct elem<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
  using model = T;
  static model gen(rng& r) {
    if constexpr (std::is_same_v<T, bool>) return r.coin();
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(r.range(-1000, 1000)) / T{8};
    else return static_cast<T>(r.value());
  }
  static T make(model const& m) { return m; }
  static bool eq(T const& a, model const& m) { return a == m; }
  static std::uint64_t h(model const& m) { return fnv(&m, sizeof(m)); }
};

template <>
struct elem<tracked> {
  using model = int;
  static model gen(rng& r) { return static_cast<int>(r.below(1000)); }
  static tracked make(model const& m) { return tracked{m}; }
  static bool eq(tracked const& a, model const& m) { return a.get() == m; }
  static std::uint64_t h(model const& m) { return static_cast<std::uint64_t>(m) * 31U + 7U; }
};

template <typename Ptr>
struct elem<cista::basic_string<Ptr>> {
  using model = std::string;
  static model gen(rng& r) { return gen_string(r); }
  static cista::basic_string<Ptr> make(model const& m) {
    return cista::basic_string<Ptr>{m};
  }
  static bool eq(cista::basic_string<Ptr> const& a, model const& m) {
    return a.view() == m;
  }
  static std::uint64_t h(model const& m) { return fnv(m.data(), m.size()); }
};

struct pod {
  friend bool operator==(pod const& x, pod const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
  friend bool operator!=(pod const& x, pod const& y) { return !(x == y); }
  friend bool operator<(pod const& x, pod const& y) { return std::tie(x.a, x.b, x.c) < std::tie(y.a, y.b, y.c); }
  std::uint8_t a{};
  std::uint64_t b{};
  std::uint16_t c{};
};
template <>
struct elem<pod> {
  using model = pod;
  static model gen(rng& r) { return pod{(std::uint8_t)r.value(), r.value(), (std::uint16_t)r.value()}; }
  static pod make(model const& m) { return m; }
  static bool eq(pod const& a, model const& m) { return a == m; }
  static std::uint64_t h(model const& m) { return mix(m.b, m.a + 256U * m.c); }
};

template <typename T, template <typename> typename Ptr, bool I, typename S>
struct elem<cista::basic_vector<T, Ptr, I, S>> {
  using V = cista::basic_vector<T, Ptr, I, S>;
  using model = std::vector<typename elem<T>::model>;
  static model gen(rng& r) {
    model m;
    auto const n = r.size(9);
    for (std::size_t i = 0; i < n; ++i) m.push_back(elem<T>::gen(r));
    return m;
  }
  static V make(model const& m) {
    V v;
    for (auto const& x : m) v.push_back(elem<T>::make(x));
    return v;
  }
  static bool eq(V const& a, model const& m) {
    if (a.size() != m.size()) return false;
    for (std::size_t i = 0; i < m.size(); ++i)
      if (!elem<T>::eq(a.begin()[i], m[i])) return false;
    return true;
  }
  static std::uint64_t h(model const& m) {
    std::uint64_t x = m.size();
    for (auto const& e : m) x = mix(x, elem<T>::h(e));
    return x;
  }
};

}  // namespace vp
