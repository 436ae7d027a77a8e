// P10: vectors vs std::vector, nested vectors.
#include "vec_test.h"

namespace cr = cista::raw;
namespace co = cista::offset;
using k32 = cista::strong<std::uint32_t, struct k32_>;

VP_SUITE(v_nested_raw, 3) { vec_test<cr::vector<cr::vector<int>>>::run(r); }
VP_SUITE(v_nested_off, 3) { vec_test<co::vector_map<k32, co::vector<co::string>>>::run(r); }

// Vectors made from other sequences: every element once, in order.
template <typename V, typename Q, typename M>
void same_elements(Q const& q, M const& m, char const* w) {
  using E = elem<V>;
  static_assert(std::is_same_v<typename Q::value_type, V>);
  VP_CHECK(q.size() == m.size(), "to_vec-size", "%s: %zu elements from %zu", w, (std::size_t)q.size(), m.size());
  std::size_t i = 0;
  for (auto const& x : q) {
    VP_CHECK(E::eq(x, m[i]), "to_vec", "%s: element %zu of %zu", w, i, m.size());
    ++i;
  }
  VP_CHECK(i == m.size(), "to_vec-iteration", "%s", w);
  ev(w);
}

struct to_raw {
  template <typename... A> static auto vec(A&&... a) { return cr::to_vec(std::forward<A>(a)...); }
  template <typename... A> static auto idx(A&&... a) { return cr::to_indexed_vec(std::forward<A>(a)...); }
  template <typename T> using vector = cr::vector<T>;
};
struct to_off {
  template <typename... A> static auto vec(A&&... a) { return co::to_vec(std::forward<A>(a)...); }
  template <typename... A> static auto idx(A&&... a) { return co::to_indexed_vec(std::forward<A>(a)...); }
  template <typename T> using vector = co::vector<T>;
};

template <typename To, typename T, typename C>
void to_vec_forms(std::vector<typename elem<T>::model> const& m, C&& c) {
  using E = elem<T>;
  auto const snapshot = [&]() {
    std::size_t i = 0;
    for (auto const& x : c) {
      VP_CHECK(E::eq(x, m[i]), "to_vec-source", "the source's element %zu was changed", i);
      ++i;
    }
  };
  same_elements<T>(To::vec(c), m, "to_vec");
  same_elements<T>(To::idx(c), m, "to_indexed_vec");
  same_elements<T>(To::vec(std::as_const(c)), m, "to_vec_const");
  std::vector<std::pair<std::uint64_t, std::size_t>> got;  // (what the operation made of each element)
  std::vector<std::uint64_t> want;
  for (std::size_t i = 0; i < m.size(); ++i) want.push_back(E::h(m[i]) * 3 + i);
  auto const with = [&](auto&& f, char const* w) {
    std::size_t calls = 0;
    auto const op_fn = [&calls, &m](T const& x) {
      VP_CHECK(calls < m.size() && E::eq(x, m[calls]), "to_vec-op", "call %zu of the operation does not get element %zu", calls, calls);
      auto const h = E::h(m[calls]) * 3 + calls;
      ++calls;
      return h;
    };
    auto const q = f(op_fn);
    VP_CHECK(calls == m.size(), "to_vec-op", "%s: the operation was called %zu times for %zu elements", w, calls, m.size());
    same_elements<std::uint64_t>(q, want, w);
  };
  with([&](auto& o) { return To::vec(c, o); }, "to_vec_op");
  with([&](auto& o) { return To::idx(c, o); }, "to_indexed_vec_op");
  with([&](auto& o) { return To::vec(std::begin(c), std::end(c), o); }, "to_vec_range_op");
  with([&](auto& o) { return To::idx(std::begin(c), std::end(c), o); }, "to_indexed_vec_range_op");
  same_elements<T>(To::vec(std::begin(c), std::end(c), [](T const& x) { return x; }), m, "to_vec_copy");
  snapshot();
}

template <typename To, typename T>
void to_vec_run(rng& r) {
  using E = elem<T>;
  std::vector<typename E::model> m;
  auto const n = r.size(40);
  for (std::size_t i = 0; i < n; ++i) m.push_back(E::gen(r));
  op("to_vec of %zu elements", (std::size_t)n);
  std::uint64_t h = n;
  for (auto const& x : m) h = mix(h, E::h(x));
  distinct(h);
  switch (r.below(3)) {
    case 0: {
      std::vector<T> c;
      for (auto const& x : m) c.push_back(E::make(x));
      to_vec_forms<To, T>(m, c);
      break;
    }
    case 1: {
      std::list<T> c;
      for (auto const& x : m) c.push_back(E::make(x));
      to_vec_forms<To, T>(m, c);
      break;
    }
    default: {
      typename To::template vector<T> c;
      for (auto const& x : m) c.push_back(E::make(x));
      auto const a = c.get_allocator();
      decltype(c) c2{a};
      VP_CHECK(c2.empty(), "allocator", "made from an allocator it has %zu elements", (std::size_t)c2.size());
      to_vec_forms<To, T>(m, c);
      break;
    }
  }
  // from a temporary
  {
    std::vector<T> c;
    for (auto const& x : m) c.push_back(E::make(x));
    auto const q = To::vec(std::move(c));
    same_elements<T>(q, m, "to_vec_temporary");
  }
}

VP_SUITE(v_to_vec_raw, 1) {
  switch (r.below(3)) {
    case 0: return to_vec_run<to_raw, int>(r);
    case 1: return to_vec_run<to_raw, cr::string>(r);
    default: return to_vec_run<to_raw, tracked>(r);
  }
}
VP_SUITE(v_to_vec_off, 1) {
  switch (r.below(3)) {
    case 0: return to_vec_run<to_off, std::uint64_t>(r);
    case 1: return to_vec_run<to_off, co::string>(r);
    default: return to_vec_run<to_off, co::vector<int>>(r);
  }
}
