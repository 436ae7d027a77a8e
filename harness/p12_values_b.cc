// P12: variant against std::variant, visitation for alternative lists of every length.
#include <variant>
#include "elems.h"
#include "cista/hashing.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;

namespace {
template <int I> struct alt {
  int v{I};
  friend bool operator==(alt const& a, alt const& b) { return a.v == b.v; }
  friend bool operator!=(alt const& a, alt const& b) { return a.v != b.v; }
  friend bool operator<(alt const& a, alt const& b) { return a.v < b.v; }
  friend bool operator>(alt const& a, alt const& b) { return a.v > b.v; }
  friend bool operator<=(alt const& a, alt const& b) { return a.v <= b.v; }
  friend bool operator>=(alt const& a, alt const& b) { return a.v >= b.v; }
};
}  // namespace
namespace vp {
template <int I>
struct elem<alt<I>> {
  using model = int;
  static model gen(rng& r) { return static_cast<int>(r.below(1000)); }
  static alt<I> make(model const& m) { return alt<I>{m}; }
  static bool eq(alt<I> const& a, model const& m) { return a.v == m; }
  static std::uint64_t h(model const& m) { return static_cast<std::uint64_t>(m) * 77U + I; }
};
}  // namespace vp
namespace {
template <typename... T>
struct var_test {
  using V = cista::variant<T...>;
  using M = std::variant<std::monostate, typename elem<T>::model...>;
  static constexpr std::size_t N = 3;
  static constexpr bool has_tracked = (std::is_same_v<T, tracked> || ...);
  template <std::size_t I> using at = cista::type_at_index_t<I, T...>;

  template <std::size_t... I>
  static void check(V const& v, M const& m, char const* w, std::index_sequence<I...>) {
    auto& mv = const_cast<V&>(v);
    VP_CHECK(v.valid() == (m.index() != 0) && static_cast<bool>(v) == v.valid(), "valid", "%s: valid %d", w, v.valid());
    if (m.index() != 0) VP_CHECK(v.index() == m.index() - 1, "index", "%s: index %zu, model %zu", w, v.index(), m.index() - 1);
    ([&] {
      auto const active = m.index() == I + 1;
      auto const* p = cista::get_if<I>(v);
      VP_CHECK((p != nullptr) == active, "get_if", "%s: get_if<%zu>", w, I);
      VP_CHECK(cista::get_if<at<I>>(v) == p && cista::get_if<I>(mv) == p && cista::get_if<at<I>>(mv) == p, "get_if", "%s: get_if by type %zu", w, I);
      VP_CHECK(cista::holds_alternative<at<I>>(v) == active, "holds", "%s: holds_alternative %zu", w, I);
      if (active) {
        VP_CHECK(elem<at<I>>::eq(*p, std::get<I + 1>(m)), "value", "%s: value of alternative %zu", w, I);
        VP_CHECK(&cista::get<I>(v) == p && &cista::get<at<I>>(v) == p && &cista::get<I>(mv) == p && &cista::get<at<I>>(mv) == p && &std::get<I>(v) == p, "get", "%s: get", w);
        distinct(mix(I + 100, elem<at<I>>::h(std::get<I + 1>(m))));
      }
    }(), ...);
    int calls = 0, right = 0;
    auto visit = [&](auto&& x) {
      using X = std::decay_t<decltype(x)>;
      ++calls;
      ([&] { if constexpr (std::is_same_v<X, at<I>>) right += (m.index() == I + 1) && (const_cast<X const*>(&x) == cista::get_if<I>(v)); }(), ...);
      return calls;
    };
    int threw = 0;
    try { v.apply(visit); } catch (std::runtime_error const&) { ++threw; }
    try { mv.apply(visit); } catch (std::runtime_error const&) { ++threw; }
    VP_CHECK(threw == (m.index() == 0 ? 2 : 0), "visit-empty", "%s: %d of 2 visitations threw, engaged=%d", w, threw, m.index() != 0);
    if (threw == 0) VP_CHECK(calls == 2 && right == 2, "visit", "%s: visitor called %d times, %d with the active alternative", w, calls, right);
  }
  static void check(V const& v, M const& m, char const* w) { check(v, m, w, std::index_sequence_for<T...>{}); }

  static void cmp(V const& a, M const& ma, V const& b, M const& mb) {
    auto const eq = ma == mb;
    VP_CHECK((a == b) == eq && (a != b) == !eq, "eq", "equality");
    if (eq) VP_CHECK(a.hash() == b.hash(), "hash", "equal variants hash differently");
    if constexpr (!has_tracked) {
      if (ma.index() != 0 && mb.index() != 0) {
        VP_CHECK((a < b) == (ma < mb) && (a > b) == (ma > mb) && (a <= b) == (ma <= mb) && (a >= b) == (ma >= mb), "order", "order");
      }
    }
    // order is total in any case
    VP_CHECK((a < b) + (a > b) + (a == b) == 1, "trichotomy", "exactly one of <, ==, >");
    VP_CHECK((a <= b) == !(a > b) && (a >= b) == !(a < b), "order", "<= and >=");
  }

  template <std::size_t... I>
  static void mutate(rng& r, V& v, M& m, std::size_t alt, unsigned how, std::index_sequence<I...>) {
    ([&] {
      if (alt == I) {
        using X = at<I>;
        auto const x = elem<X>::gen(r);
        ev(m.index() == I + 1 ? "same_alternative" : "other_alternative");
        switch (how) {
          case 0: v = elem<X>::make(x); break;
          case 1: { auto e = elem<X>::make(x); v = e; VP_CHECK(elem<X>::eq(e, x), "source", "assignment from an lvalue changed the source"); break; }
          case 2: { auto const e = elem<X>::make(x); v = e; break; }
          case 3: { auto& ref = v.template emplace<X>(elem<X>::make(x)); VP_CHECK(&ref == cista::get_if<I>(v), "emplace", "emplace result"); break; }
          case 4: { auto& ref = v.template emplace<I>(elem<X>::make(x)); VP_CHECK(&ref == cista::get_if<I>(v), "emplace", "emplace result"); break; }
          case 5: { V t{elem<X>::make(x)}; v = std::move(t); break; }
          case 6: { V t{elem<X>::make(x)}; v = t; m.template emplace<I + 1>(x); check(t, m, "copied-from"); break; }
          default: { auto e = elem<X>::make(x); V t{e}; V u{std::move(t)}; v = static_cast<V const&>(u); break; }
        }
        m.template emplace<I + 1>(x);
      }
    }(), ...);
  }

  static void run(rng& r) {
    if constexpr (has_tracked) reset_life();
    {
      V v[N];
      M m[N];
      auto const steps = 1 + r.below(40);
      for (std::size_t k = 0; k < steps; ++k) {
        auto const i = r.below(N), j = r.below(N);
        auto const c = r.below(16);
        auto const alt = r.below(sizeof...(T));
        op("op%d %d %d alt%d", (int)c, (int)i, (int)j, (int)alt);
        if (c < 8) mutate(r, v[i], m[i], alt, c, std::index_sequence_for<T...>{});
        else if (c < 10) { v[i] = v[j]; m[i] = m[j]; ev("copy_assign"); }
        else if (c == 10) {
          ev("move_assign");
          if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; if (m[j].index() != 0) mutate(r, v[j], m[j], alt, 3, std::index_sequence_for<T...>{}); }
        }
        else if (c == 11) { ev("swap"); v[i].swap(v[j]); std::swap(m[i], m[j]); }
        else if (c == 12) { V t{v[i]}; check(t, m[i], "copy"); cmp(t, m[i], v[i], m[i]); ev("copy_ctor"); }
        else if (c == 13) { V t{static_cast<V const&>(v[i])}; V u{std::move(t)}; check(u, m[i], "move"); }
        else if (c == 14) { ev("valueless"); v[i] = V{}; m[i] = std::monostate{}; }
        else { auto& self = v[i]; v[i] = self; ev("self_assign"); }
        for (std::size_t x = 0; x < N; ++x) check(v[x], m[x], "after op");
        cmp(v[i], m[i], v[j], m[j]);
        if constexpr (has_tracked) {
          std::size_t n = 0;
          for (std::size_t x = 0; x < N; ++x) n += m[x].index() != 0 && v[x].valid() && cista::holds_alternative<tracked>(v[x]);
          check_life(n, "variant");
        }
      }
    }
    if constexpr (has_tracked) check_life(0, "variant end");
  }
};

template <std::size_t... I>
void wide(rng& r, std::index_sequence<I...>) {
  using V = cista::variant<alt<I>...>;
  static_assert(cista::variant_size_v<V> == sizeof...(I));
  ev("visited_alternatives", sizeof...(I));
  ([&] {
    auto const val = (int)r.below(10000);
    V v{alt<I>{val}};
    int seen = -1, calls = 0;
    v.apply([&](auto&& x) { ++calls; seen = x.v; VP_CHECK((std::is_same_v<std::decay_t<decltype(x)>, alt<I>>), "visit-type", "alternative %zu of %zu visited as another type", I, sizeof...(I)); });
    VP_CHECK(calls == 1 && seen == val, "visit", "alternative %zu of %zu: %d calls, value %d instead of %d", I, sizeof...(I), calls, seen, val);
    V w;
    w = v;
    VP_CHECK(w == v && !(w != v) && !(w < v) && w <= v && w.index() == I, "copy", "alternative %zu of %zu", I, sizeof...(I));
    V u{alt<(I + 1) % sizeof...(I)>{val}};
    if (sizeof...(I) > 1) {
      VP_CHECK(u != v && (u < v) == (u.index() < v.index()), "order", "alternative %zu of %zu", I, sizeof...(I));
      u.swap(v);
      VP_CHECK(u.index() == I && v.index() == (I + 1) % sizeof...(I), "swap", "alternative %zu of %zu", I, sizeof...(I));
    }
    distinct(mix(sizeof...(I), I));
  }(), ...);
}
}  // namespace

VP_SUITE(variant_simple, 3) { var_test<int, double, std::uint8_t>::run(r); }
VP_SUITE(variant_tracked, 5) { var_test<int, tracked, co::string>::run(r); }
VP_SUITE(variant_containers, 3) { var_test<cr::string, cr::vector<int>, std::uint64_t, co::string>::run(r); }
VP_SUITE(variant_one, 1) { var_test<cr::string>::run(r); }
VP_SUITE(variant_20, 2) {
  var_test<alt<0>, co::string, alt<2>, alt<3>, alt<4>, alt<5>, alt<6>, alt<7>, alt<8>, alt<9>, alt<10>, alt<11>, alt<12>, alt<13>, alt<14>, cr::vector<int>, cr::string, tracked, alt<18>, co::vector<int>>::run(r);
}
VP_SUITE(variant_wide, 2) {
  switch (r.below(7)) {
    case 0: wide(r, std::make_index_sequence<1>{}); break;
    case 1: wide(r, std::make_index_sequence<2>{}); break;
    case 2: wide(r, std::make_index_sequence<7>{}); break;
    case 3: wide(r, std::make_index_sequence<15>{}); break;
    case 4: wide(r, std::make_index_sequence<16>{}); break;
    case 5: wide(r, std::make_index_sequence<17>{}); break;
    default: wide(r, std::make_index_sequence<19>{}); break;
  }
}
