// P12: tuple and pair against std::tuple / std::pair; tuple layout.
#include <tuple>
#include "elems.h"
#include "cista/hashing.h"
#include "cista/equal_to.h"
#include "cista/containers/tuple.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;

namespace {
template <std::size_t N, std::size_t A>
struct alignas(A) blob {
  unsigned char b[N];
  static blob of(unsigned c) { blob x; for (auto& y : x.b) y = (unsigned char)c; return x; }
  friend bool operator==(blob const& x, blob const& y) { return std::memcmp(x.b, y.b, N) == 0; }
  friend bool operator<(blob const& x, blob const& y) { return std::memcmp(x.b, y.b, N) < 0; }
};

template <typename... T>
struct tup_test {
  using U = cista::tuple<T...>;
  using M = std::tuple<typename elem<T>::model...>;
  static constexpr auto seq = std::index_sequence_for<T...>{};
  static constexpr std::size_t N = 3;
  static constexpr bool has_tracked = (std::is_same_v<T, tracked> || ...);
  static constexpr std::size_t n_tracked = ((std::is_same_v<T, tracked> ? 1 : 0) + ...);

  static M gen(rng& r) { return M{elem<T>::gen(r)...}; }
  template <std::size_t... I>
  static U make(M const& m, std::index_sequence<I...>) { return U{elem<T>::make(std::get<I>(m))...}; }
  template <std::size_t... I>
  static void check(U const& u, M const& m, char const* w, std::index_sequence<I...>) {
    auto& mu = const_cast<U&>(u);
    ([&] { VP_CHECK(elem<T>::eq(cista::get<I>(u), std::get<I>(m)), "value", "%s: element %zu", w, I); }(), ...);
    ([&] { VP_CHECK((void*)&cista::get<I>(mu) == (void const*)&cista::get<I>(u), "get", "%s: element %zu", w, I); }(), ...);
    int n = 0, good = 0;
    cista::apply([&](auto&&... a) {
      ((good += ((void const*)&a == (void const*)&cista::get<I>(u)), ++n), ...);
    }, u);
    VP_CHECK(n == sizeof...(T) && good == n, "apply", "%s: apply passes %d elements, %d in place", w, n, good);
    std::uint64_t h = 9;
    ((h = mix(h, elem<T>::h(std::get<I>(m)))), ...);
    distinct(h);
  }
  static void cmp(U const& a, M const& ma, U const& b, M const& mb) {
    VP_CHECK((a == b) == (ma == mb) && (a != b) == (ma != mb), "eq", "tuple equality");
    VP_CHECK((a < b) == (ma < mb) && (a > b) == (ma > mb) && (a <= b) == (ma <= mb) && (a >= b) == (ma >= mb), "order", "tuple order");
  }
  template <std::size_t... I>
  static void set(rng& r, U& u, M& m, std::size_t x, std::index_sequence<I...>) {
    ([&] { if (x == I) { std::get<I>(m) = elem<T>::gen(r); cista::get<I>(u) = elem<T>::make(std::get<I>(m)); } }(), ...);
  }
  static void run(rng& r) {
    if constexpr (has_tracked) reset_life();
    {
      std::vector<U> u;
      std::vector<M> m;
      for (std::size_t i = 0; i < N; ++i) { m.push_back(gen(r)); u.push_back(make(m.back(), seq)); }
      auto const steps = 1 + r.below(30);
      for (std::size_t k = 0; k < steps; ++k) {
        auto const i = r.below(N), j = r.below(N);
        auto const c = r.below(8);
        op("op%d %d %d", (int)c, (int)i, (int)j);
        switch (c) {
          case 0: m[i] = gen(r); u[i] = make(m[i], seq); ev("tuple_assign"); break;
          case 1: u[i] = u[j]; m[i] = m[j]; ev("tuple_copy"); break;
          case 2: if (i != j) { u[i] = std::move(u[j]); m[i] = m[j]; m[j] = gen(r); u[j] = make(m[j], seq); ev("tuple_move"); } break;
          case 3: { U t{u[i]}; check(t, m[i], "copy", seq); break; }
          case 4: { U t{u[i]}; U s{std::move(t)}; check(s, m[i], "move", seq); break; }
          case 5: set(r, u[i], m[i], r.below(sizeof...(T)), seq); ev("tuple_set"); break;
          case 6: { using std::swap; swap(u[i], u[j]); std::swap(m[i], m[j]); break; }
          default: { U t; u[i] = t; m[i] = M{}; ev("tuple_default"); break; }
        }
        for (std::size_t x = 0; x < N; ++x) check(u[x], m[x], "after op", seq);
        cmp(u[i], m[i], u[j], m[j]);
        if constexpr (has_tracked) check_life(N * n_tracked, "tuple");
      }
    }
    if constexpr (has_tracked) check_life(0, "tuple end");
  }
};

// layout: every element aligned, inside the object, disjoint from the others
template <typename... B>
void layout(rng& r) {
  using U = cista::tuple<B...>;
  static_assert(alignof(U) >= std::max({alignof(B)...}));
  auto const go = [&](auto... I) {
    U u;
    unsigned const base = (unsigned)r.below(200);
    ((cista::get<decltype(I)::value>(u) = std::decay_t<decltype(cista::get<decltype(I)::value>(u))>::of(base + decltype(I)::value)), ...);
    ([&] {
      auto& e = cista::get<decltype(I)::value>(u);
      using E = std::decay_t<decltype(e)>;
      auto const off = reinterpret_cast<char*>(&e) - reinterpret_cast<char*>(&u);
      VP_CHECK(off >= 0 && off + sizeof(E) <= sizeof(U), "outside", "element %d outside the tuple", (int)decltype(I)::value);
      VP_CHECK(reinterpret_cast<std::uintptr_t>(&e) % alignof(E) == 0, "align", "element %d misaligned", (int)decltype(I)::value);
      VP_CHECK(e == E::of(base + decltype(I)::value), "overlap", "element %d overwritten by another element", (int)decltype(I)::value);
    }(), ...);
    ev("tuple_layouts");
    distinct(mix(sizeof(U), sizeof...(B)));
  };
  [&]<std::size_t... Is>(std::index_sequence<Is...>) { go(std::integral_constant<std::size_t, Is>{}...); }(std::index_sequence_for<B...>{});
}

template <typename A, typename B>
void pair_test(rng& r) {
  using P = cista::pair<A, B>;
  using M = std::pair<typename elem<A>::model, typename elem<B>::model>;
  auto const gen = [&] { return M{elem<A>::gen(r), elem<B>::gen(r)}; };
  auto const make = [&](M const& m) { return P{elem<A>::make(m.first), elem<B>::make(m.second)}; };
  auto const ma = gen();
  auto mb = gen();
  if (r.coin()) mb.first = ma.first;
  if (r.chance(1, 3)) mb.second = ma.second;
  auto a = make(ma), b = make(mb);
  op("pair");
  VP_CHECK((a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a > b) == (ma > mb) && (a <= b) == (ma <= mb) && (a >= b) == (ma >= mb), "pair-order", "pair comparison");
  VP_CHECK(cista::equal_to<P>{}(a, b) == (ma == mb), "equal_to", "equal_to on pairs");
  if (ma == mb) VP_CHECK(cista::hashing<P>{}(a) == cista::hashing<P>{}(b), "hash", "equal pairs hash differently");
  auto c = a;
  VP_CHECK(c == a, "copy", "pair copy");
  c = std::move(b);
  VP_CHECK(elem<A>::eq(c.first, mb.first) && elem<B>::eq(c.second, mb.second), "move", "pair move");
  ev("pair");
  distinct(mix(elem<A>::h(ma.first), elem<B>::h(mb.second)));
}
}  // namespace

VP_SUITE(tuple_simple, 2) { tup_test<std::uint8_t, std::uint64_t, std::uint16_t>::run(r); }
VP_SUITE(tuple_tracked, 4) { tup_test<tracked, std::uint8_t, co::string, tracked>::run(r); }
VP_SUITE(tuple_containers, 2) { tup_test<cr::string, std::uint16_t, cr::vector<int>, double, std::uint8_t>::run(r); }
VP_SUITE(tuple_one, 1) { tup_test<cr::string>::run(r); }
VP_SUITE(tuple_layout, 2) {
  layout<blob<1, 1>, blob<8, 8>, blob<3, 1>, blob<2, 2>>(r);
  layout<blob<16, 16>, blob<1, 1>, blob<32, 32>, blob<1, 1>>(r);
  layout<blob<5, 1>, blob<4, 4>, blob<7, 1>, blob<12, 4>, blob<8, 8>, blob<1, 1>>(r);
  layout<blob<1, 1>>(r);
  layout<blob<64, 64>, blob<2, 2>>(r);
  layout<blob<2, 2>, blob<1, 1>, blob<2, 2>, blob<1, 1>, blob<4, 4>>(r);
  layout<blob<1, 1>, blob<1, 1>, blob<16, 16>, blob<8, 8>, blob<9, 1>, blob<4, 4>, blob<2, 2>, blob<1, 1>>(r);
}
VP_SUITE(pair_values, 3) {
  pair_test<int, co::string>(r);
  pair_test<cr::string, cr::vector<int>>(r);
  pair_test<std::uint8_t, std::uint64_t>(r);
}
