#pragma once
#define VP_LARGE 1
#include "ser_test.h"

namespace vp {

template <typename T, bool Raw, std::size_t Align, bool Static = true>
struct big_endian {
  // positions of all multi-byte scalars of an image, found by reading it
  template <cista::mode M>
  static std::vector<std::pair<std::uintptr_t, unsigned>> positions(bytes const& b, std::string const& before) {
    image i{b};
    walker w;
    w.what = "image";
    w.lo = reinterpret_cast<std::uintptr_t>(i.begin());
    w.hi = reinterpret_cast<std::uintptr_t>(i.end());
    w.scalars_on = true;
    w.labelling = true;
    T const* p = nullptr;
    must_accept("valid-rejected", [&]() { p = cista::deserialize<T, M>(i.begin(), i.end()); });
    w.want_text = false;
    walk(w, *p);
    for (auto& [at, n] : w.scalars) at -= w.lo;
    std::sort(w.scalars.begin(), w.scalars.end());
    w.scalars.erase(std::unique(w.scalars.begin(), w.scalars.end()), w.scalars.end());
    (void)before;
    return std::move(w.scalars);
  }

  template <cista::mode M>
  static void with(rng& r, char const* mode_name) {
    auto const depth = static_cast<int>(r.below(5)) - 1;
    auto v = std::make_unique<T>();
    gen(r, *v, depth);
    auto const before = render(*v);
    distinct(fnv(before.data(), before.size()));
    op("mode %s, depth %d: %.300s", mode_name, depth, before.c_str());
    ev(mode_name);
    auto const le = to_image<M>(*v, r);
    auto const be = to_image<M | BE>(*v, r);
    VP_CHECK(render(*v) == before, "source-changed", "serialising changed the source value");
    v.reset();

    // exactly the scalars are reversed
    {
      VP_CHECK(le.size() == be.size(), "size", "the images have %zu and %zu bytes", le.size(), be.size());
      auto want = le;
      auto const pos = positions<M>(le, before);
      auto const header = static_cast<std::size_t>(cista::data_start(M));
      for (std::size_t h = 0; h != header; h += 8U) std::reverse(want.begin() + static_cast<long>(h), want.begin() + static_cast<long>(h) + 8);
      for (auto const& [at, n] : pos) {
        VP_CHECK(at >= header && at + n <= want.size(), "position", "monitor: scalar position %zu", static_cast<std::size_t>(at));
        std::reverse(want.begin() + static_cast<long>(at), want.begin() + static_cast<long>(at + n));
      }
      if constexpr (cista::is_mode_enabled(M, INTEG)) {
        auto const at = static_cast<std::size_t>(cista::integrity_start(M));
        auto const h = cista::hash(std::string_view{reinterpret_cast<char const*>(be.data()) + header, be.size() - header});
        for (unsigned k = 0; k != 8U; ++k) want[at + k] = static_cast<std::uint8_t>(h >> (56U - 8U * k));
        ev("checksum_field");
      }
      for (std::size_t k = 0; k != want.size(); ++k) {
        if (want[k] == be[k]) continue;
        std::pair<std::uintptr_t, unsigned> in{0, 0};
        for (auto const& p : pos) if (k >= p.first && k < p.first + p.second) in = p;
        fail(in.second != 0U ? "not-reversed" : "other-byte",
             "byte %zu of %zu is %02x instead of %02x (little endian image: %02x); it belongs to %s at %zu (%u bytes)", k, want.size(), be[k],
             want[k], le[k], in.second != 0U ? "the scalar" : "no scalar, next", static_cast<std::size_t>(in.first), in.second);
      }
      st().checks += want.size();
      ev("scalars_reversed", pos.size());
    }
    auto const judge = [&](char const* how, auto&& get) {
      image i{be};
      must_accept("valid-rejected", [&]() {
        auto const* p = get(i);
        auto const got = render(*p);
        VP_CHECK(got == before, "value-differs", "read back (%s) the value differs: %s", how, diff_at(before, got).c_str());
      });
      ev(how);
    };
    judge("read_big_endian", [](image& i) { return cista::deserialize<T, M | BE>(i.begin(), i.end()); });
    if constexpr (M == NONE || M == INTEG) {
      judge("read_big_endian_unchecked", [](image& i) { return cista::unchecked_deserialize<T, M | BE>(i.begin(), i.end()); });
      judge("read_big_endian_deep", [](image& i) { return cista::deserialize<T, M | BE | DEEP>(i.begin(), i.end()); });
    }
    // what was read is a native object now: writing it again gives the same images
    {
      image i{be};
      must_accept("valid-rejected", [&]() {
        auto* p = cista::deserialize<T, M | BE>(i.begin(), i.end());
        auto const le2 = to_image<M>(*p, r, false);
        image i2{le2};
        auto const got = render(*cista::deserialize<T, M>(i2.begin(), i2.end()));
        VP_CHECK(got == before, "second-generation", "written natively after reading big endian the value differs: %s", diff_at(before, got).c_str());
      });
      ev("rewritten_native");
    }
  }
  static void run(rng& r) {
    auto const k = r.below(Static ? 4U : 3U);
    if constexpr (Static) {
      if (k == 3U) return with<SVER>(r, "mode_static_version");
    }
    switch (k) {
      case 0: return with<NONE>(r, "mode_none");
      case 1: return with<INTEG>(r, "mode_integrity");
      default: return with<VER | INTEG>(r, "mode_version_integrity");
    }
  }
  static void run_unversioned(rng& r) { return r.coin() ? with<NONE>(r, "mode_none") : with<INTEG>(r, "mode_integrity"); }
};

template <typename T>
void swap_facts(rng& r, char const* name) {
  for (int k = 0; k != 50; ++k) {
    auto bits = r.value();
    T x;
    std::memcpy(&x, &bits, sizeof(T));
    if constexpr (std::is_same_v<T, bool>) x = r.coin();
    if constexpr (std::is_floating_point_v<T>) x = static_cast<T>(r.range(-1000000, 1000000)) / T{7};
    unsigned char a[sizeof(T)], b[sizeof(T)], c[sizeof(T)];
    std::memcpy(a, &x, sizeof(T));
    auto const y = cista::endian_swap(x);
    std::memcpy(b, &y, sizeof(T));
    if constexpr (!std::is_floating_point_v<T>) {
      auto const z = cista::endian_swap(y);
      std::memcpy(c, &z, sizeof(T));
      VP_CHECK(std::memcmp(a, c, sizeof(T)) == 0, "involution", "swapping a %s twice changes it", name);
      auto const n = cista::convert_endian<cista::mode::NONE>(x);
      VP_CHECK(n == x, "native", "the native byte order of a %s is changed", name);
      auto const m = cista::convert_endian<cista::mode::SERIALIZE_BIG_ENDIAN>(x);
      VP_CHECK(std::memcmp(&m, &y, sizeof(T)) == 0, "native", "big endian conversion of a %s is no swap", name);
    }
    for (unsigned i = 0; i != sizeof(T); ++i) {
      VP_CHECK(a[i] == b[sizeof(T) - 1U - i], "reverse", "byte %u of a swapped %s", i, name);
    }
    ev("swapped_values");
    distinct(mix(fnv(name, std::strlen(name)), bits));
  }
}

}  // namespace vp
