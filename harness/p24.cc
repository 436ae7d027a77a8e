// P24: strong types as the number they wrap; fields of scalars; member offsets.
#include "refl_test.h"
#include "cista/cista_member_offset.h"

using namespace vp;

namespace {

template <typename A, typename B, typename = void>
struct can_add : std::false_type {};
template <typename A, typename B>
struct can_add<A, B, std::void_t<decltype(std::declval<A>() + std::declval<B>())>> : std::true_type {};
template <typename A, typename B, typename = void>
struct can_less : std::false_type {};
template <typename A, typename B>
struct can_less<A, B, std::void_t<decltype(std::declval<A>() < std::declval<B>())>> : std::true_type {};
template <typename A, typename B, typename = void>
struct can_or : std::false_type {};
template <typename A, typename B>
struct can_or<A, B, std::void_t<decltype(std::declval<A&>() |= std::declval<B>())>> : std::true_type {};

struct t1 {};
struct t2 {};

template <typename T>
void unmixed() {
  using A = cista::strong<T, t1>;
  using B = cista::strong<T, t2>;
  VP_CHECK((!std::is_convertible_v<B, A> && !std::is_convertible_v<A, B>), "mixes-convert", "a strong type converts to one with another tag");
  VP_CHECK((!std::is_assignable_v<A&, B> && !std::is_assignable_v<A&, T>), "mixes-assign", "a strong type takes values of another tag or plain numbers");
  VP_CHECK((!std::is_convertible_v<T, A> && !std::is_convertible_v<A, T>), "mixes-number", "a strong type converts from or to the plain number by itself");
  VP_CHECK((!cista::is_eq_comparable_v<A, B> && !can_less<A, B>::value), "mixes-compare", "strong types of different tags can be compared");
  VP_CHECK((!can_add<A, B>::value && !can_or<A, B>::value), "mixes-compute", "strong types of different tags can be added or combined");
  VP_CHECK((std::is_constructible_v<A, T>), "explicit", "a strong type cannot be made from the number");
  VP_CHECK((std::is_same_v<cista::base_t<A>, T> && std::is_same_v<cista::base_t<T>, T>), "base", "base_t");
  VP_CHECK((cista::is_strong_v<A> && !cista::is_strong_v<T>), "is-strong", "is_strong_v");
  VP_CHECK(sizeof(A) == sizeof(T) && alignof(A) == alignof(T) && std::is_trivially_copyable_v<A>, "size", "a strong type is not as large as its number");
  ev("tags_kept_apart");
}

// a number small enough that signed arithmetic stays defined
template <typename T>
T small(rng& r) {
  if constexpr (std::is_signed_v<T>) {
    return static_cast<T>(r.range(-11, 11));
  } else {
    return static_cast<T>(r.value());
  }
}

template <typename T>
void numbers(rng& r) {
  using S = cista::strong<T, t1>;
  unmixed<T>();
  S s{T{}};
  T v{};
  for (auto n = 10U + r.below(60); n != 0U; --n) {
    auto const x = small<T>(r);
    S const sx{x};
    auto const was = v;
    switch (r.below(24)) {
      case 0: ++s; ++v; break;
      case 1: --s; --v; break;
      case 2: { auto const o = s++; auto const w = v++; VP_CHECK(cista::to_idx(o) == w, "post-increment", "wrong previous value"); break; }
      case 3: { auto const o = s--; auto const w = v--; VP_CHECK(cista::to_idx(o) == w, "post-decrement", "wrong previous value"); break; }
      case 4: s = s + sx; v = static_cast<T>(v + x); break;
      case 5: s = s + x; v = static_cast<T>(v + x); break;
      case 6: s = s - sx; v = static_cast<T>(v - x); break;
      case 7: s = s - x; v = static_cast<T>(v - x); break;
      case 8: case 9: {
        if (std::is_signed_v<T> && (v > 5 || v < T(-5))) break;
        if (sizeof(T) == 2U && !std::is_signed_v<T> && (x > 0x7fffU || v > 0x7fffU)) break;  // promoted to int
        if (r.coin()) s = s * sx; else s = s * x;
        v = static_cast<T>(v * x);
        break;
      }
      case 10: if (x != 0) { s = s / sx; v = static_cast<T>(v / x); } break;
      case 11: if (x != 0) { s = s / x; v = static_cast<T>(v / x); } break;
      case 12: s += x; v = static_cast<T>(v + x); break;
      case 13: s -= x; v = static_cast<T>(v - x); break;
      case 14: { auto const b = static_cast<T>(r.below(sizeof(T) * 8U - 1U)); s = s >> b; v = static_cast<T>(v >> b); break; }
      case 15: {
        auto const b = static_cast<T>(r.below(std::is_signed_v<T> ? 3U : sizeof(T) * 8U));
        if (v < 0) break;
        s = s << b;
        v = static_cast<T>(v << b);
        break;
      }
      case 16: s |= sx; v = static_cast<T>(v | x); break;
      case 17: s &= sx; v = static_cast<T>(v & x); break;
      case 18: s = S{x}; v = x; break;
      case 19: { T y = x; s = S{std::move(y)}; v = x; break; }
      case 20: { auto const y = static_cast<std::uint8_t>(x); s = S{y}; v = static_cast<T>(y); break; }
      case 21: { S o{s}; s = S{T{1}}; s = std::move(o); break; }
      case 22: { long long const y = static_cast<long long>(x); s = S{y}; v = static_cast<T>(y); break; }
      default: { S o = s; s = o; break; }
    }
    if (std::is_signed_v<T> && (v > 90 || v < T(-90))) { v = static_cast<T>(v / 7); s = s / T{7}; }
    op("%lld", static_cast<long long>(v));
    VP_CHECK(cista::to_idx(s) == v, "strong-value", "is %lld, the number would be %lld (was %lld, operand %lld)", static_cast<long long>(cista::to_idx(s)), static_cast<long long>(v), static_cast<long long>(was), static_cast<long long>(x));
    VP_CHECK(static_cast<T const&>(s) == v && cista::to_idx(v) == v, "strong-idx", "conversion differs from the number");
    T const others[] = {x, v, static_cast<T>(v + 1), static_cast<T>(v - 1)};
    for (auto const y : others) {
      S const sy{y};
      VP_CHECK((s == sy) == (v == y) && (s == y) == (v == y), "strong-eq", "==");
      VP_CHECK((s != sy) == (v != y) && (s != y) == (v != y), "strong-ne", "!=");
      VP_CHECK((s < sy) == (v < y) && (s < y) == (v < y), "strong-lt", "<");
      VP_CHECK((s > sy) == (v > y) && (s > y) == (v > y), "strong-gt", ">");
      VP_CHECK((s <= sy) == (v <= y) && (s <= y) == (v <= y), "strong-le", "<=");
      VP_CHECK((s >= sy) == (v >= y) && (s >= y) == (v >= y), "strong-ge", ">=");
      VP_CHECK((std::hash<S>{}(s) == std::hash<S>{}(sy)) == (std::hash<T>{}(v) == std::hash<T>{}(y)), "strong-std-hash", "std::hash");
    }
    std::ostringstream a, b;
    a << s;
    b << v;
    VP_CHECK(a.str() == b.str(), "strong-printed", "printed as %s, the number is %s", a.str().c_str(), b.str().c_str());
    distinct(mix(sizeof(T) * 2U + std::is_signed_v<T>, static_cast<std::uint64_t>(v)));
    ev("strong_operations");
  }
  VP_CHECK(cista::to_idx(S::invalid()) == std::numeric_limits<T>::max(), "strong-invalid", "invalid() is not the largest number");
  VP_CHECK(cista::to_idx(std::numeric_limits<S>::max()) == std::numeric_limits<T>::max(), "strong-limits", "largest");
  VP_CHECK(cista::to_idx(std::numeric_limits<S>::min()) == std::numeric_limits<T>::min(), "strong-limits", "smallest");
  constexpr auto const c = (S{T{5}} + S{T{4}}) * T{2} - T{3};
  VP_CHECK(c == T{15}, "strong-constexpr", "computed at compile time");
  // indexing with it
  cista::offset::vector_map<cista::strong<std::uint32_t, t2>, T> m;
  std::vector<T> ref;
  for (auto k = r.below(20); k != 0U; --k) { auto const x = small<T>(r); m.push_back(x); ref.push_back(x); }
  for (std::uint32_t i = 0; i != ref.size(); ++i) VP_CHECK((m[cista::strong<std::uint32_t, t2>{i}] == ref[i]), "strong-index", "element %u reached by the strong index differs", i);
  ev("strong_indices", ref.size());
}

template <typename T>
void scalar(rng& r) {
  T t{};
  Q<T>::gen(r, t);
  void const* seen = nullptr;
  auto n = 0;
  cista::for_each_field(t, [&](auto& x) { ++n; seen = &x; Q<T>::change(r, x); });
  VP_CHECK(n == 1 && seen == &t, "visit-scalar", "a scalar is not its own only field");
  T* p = &t;
  n = 0;
  if constexpr (!std::is_pointer_v<T>) {
    cista::for_each_field(p, [&](auto& x) { ++n; seen = &x; });
    VP_CHECK(n == 1 && seen == &t, "visit-scalar", "a pointer to a scalar does not lead to it");
  }
  n = 0;
  cista::for_each_field<T>([&](auto&& x) { ++n; VP_CHECK(x == T{}, "visit-scalar", "a new scalar is not zero"); });
  VP_CHECK(n == 1, "visit-scalar", "a new scalar is visited %d times", n);
  ev("scalars");
}

struct off_a { std::uint8_t a; std::uint64_t b; std::uint16_t c; float d; std::uint8_t e; };
struct off_base { std::uint32_t x; std::uint8_t y; };
struct off_d : off_base { std::uint64_t z; std::uint8_t w; };

}  // namespace

VP_SUITE(strong_numbers, 6) {
  switch (r.below(8)) {
    case 0: numbers<std::uint8_t>(r); break;
    case 1: numbers<std::uint16_t>(r); break;
    case 2: numbers<std::uint32_t>(r); break;
    case 3: numbers<std::uint64_t>(r); break;
    case 4: numbers<std::int8_t>(r); break;
    case 5: numbers<std::int16_t>(r); break;
    case 6: numbers<std::int32_t>(r); break;
    default: numbers<std::int64_t>(r); break;
  }
}

VP_SUITE(scalars_and_offsets, 1) {
  scalar<std::uint8_t>(r);
  scalar<std::int64_t>(r);
  scalar<double>(r);
  scalar<bool>(r);
  scalar<refl::e32>(r);
  off_a a{};
  off_d d{};
  auto const at = [](void const* o, void const* m) { return static_cast<char const*>(m) - static_cast<char const*>(o); };
  VP_CHECK(cista_member_offset(off_a, a) == at(&a, &a.a) && cista_member_offset(off_a, b) == at(&a, &a.b) && cista_member_offset(off_a, c) == at(&a, &a.c) &&
           cista_member_offset(off_a, d) == at(&a, &a.d) && cista_member_offset(off_a, e) == at(&a, &a.e), "member-offset", "cista_member_offset differs from the addresses");
  VP_CHECK(cista::member_offset(&a, &a.d) == at(&a, &a.d) && cista::member_offset(&a, &off_a::c) == at(&a, &a.c), "member-offset", "member_offset differs from the addresses");
  VP_CHECK(cista::member_offset(&d, &d.w) == at(&d, &d.w) && cista::member_offset(&d, &off_d::z) == at(&d, &d.z), "member-offset", "member_offset differs from the addresses");
  ev("member_offsets");
}

int main(int argc, char** argv) { return driver_main(argc, argv); }
