#pragma once
#define VP_LARGE 1
#include "ser_test.h"

namespace vp {

// (copies of views and pointers still refer to the bytes they were read from)
template <typename T>
constexpr auto const owns_all = std::is_same_v<T, offt::vecs> || std::is_same_v<T, offt::maps> || std::is_same_v<T, offt::multi> || std::is_same_v<T, offt::bits> ||
                                std::is_same_v<T, offt::cstrings> || std::is_same_v<T, offt::values>;

// an image as a container of bytes
template <typename B>
struct byte_container {
  explicit byte_container(image& i) : p_{reinterpret_cast<B*>(i.begin())}, n_{i.size()} {}
  std::size_t size() const { return n_; }
  B& operator[](std::size_t const i) const { return p_[i]; }
  B* p_;
  std::size_t n_;
};

template <typename T, bool Raw, bool View = true>
struct round_trip {
  template <cista::mode M>
  static void with(rng& r, char const* mode_name) {
    auto const depth = static_cast<int>(r.below(5)) - 1;
    auto v = std::make_unique<T>();
    gen(r, *v, depth);
    auto const before = render(*v);
    distinct(fnv(before.data(), before.size()));
    op("mode %s, depth %d: %.300s", mode_name, depth, before.c_str());
    ev(mode_name);
    auto b = to_image<M>(*v, r);
    {
      auto const after = render(*v);
      VP_CHECK(after == before, "source-changed", "serialising changed the source value: %s", diff_at(before, after).c_str());
      auto const again = to_image<M>(*v, r);
      VP_CHECK(again.size() == b.size(), "not-repeatable", "the same value serialises to %zu and to %zu bytes", b.size(), again.size());
    }
    v.reset();

    auto const judge = [&](char const* how, auto&& get) {
      image i{b};
      must_accept("valid-rejected", [&]() {
        auto const* p = get(i);
        auto const got = render(*p);
        VP_CHECK(got == before, "value-differs", "read back (%s) the value differs: %s", how, diff_at(before, got).c_str());
      });
      ev(how);
    };
    judge("checked", [](image& i) { return cista::deserialize<T, M>(i.begin(), i.end()); });
    if constexpr (M == NONE || M == (VER | INTEG))
    judge("unchecked", [](image& i) { return cista::unchecked_deserialize<T, M>(i.begin(), i.end()); });
    if constexpr (M == NONE || M == VER)
    judge("unchecked_unknown_size", [](image& i) { return cista::unchecked_deserialize<T, M>(i.begin()); });
    if constexpr (M == NONE || M == (VER | INTEG)) {
      switch (r.below(4)) {
        case 0:
          judge("char_pointers", [](image& i) { return cista::deserialize<T, M>(reinterpret_cast<char*>(i.begin()), reinterpret_cast<char*>(i.end())); });
          break;
        case 1:
          judge("byte_container", [](image& i) {
            byte_container<std::uint8_t> c{i};
            return cista::deserialize<T, M>(c);
          });
          break;
        case 2:
          judge("char_container", [](image& i) {
            byte_container<char> c{i};
            return cista::deserialize<T, M>(c);
          });
          break;
        default:
          judge("unchecked_container", [](image& i) {
            byte_container<std::uint8_t> c{i};
            return cista::unchecked_deserialize<T, M>(c);
          });
      }
      if constexpr (!Raw && View) {
        if (r.coin()) {
          judge("const_char_pointers", [](image& i) {
            return cista::deserialize<T, M>(reinterpret_cast<char const*>(i.begin()), reinterpret_cast<char const*>(i.end()));
          });
        } else {
          judge("const_container", [](image& i) {
            byte_container<std::uint8_t const> c{i};
            return cista::deserialize<T, M>(c);
          });
        }
      }
    }
    if constexpr (M == NONE || M == INTEG)
    judge("deep", [](image& i) { return cista::deserialize<T, M | DEEP>(i.begin(), i.end()); });
    if constexpr (!Raw && !cista::is_mode_enabled(M, BE)) {
      judge("const", [](image& i) {
        return cista::deserialize<T, M>(static_cast<std::uint8_t const*>(i.begin()), static_cast<std::uint8_t const*>(i.end()));
      });
      if constexpr (View && (M == NONE || M == VER))
      judge("view", [](image& i) {
        return cista::deserialize<T, M>(std::string_view{reinterpret_cast<char const*>(i.begin()), i.size()});
      });
    }
    if constexpr (!Raw && View && (M == NONE || M == INTEG) && owns_all<T>) {
      // wherever the bytes are
      auto const shift = r.below(48);
      image i{b, shift};
      must_accept("valid-rejected", [&]() {
        auto const got = render(cista::copy_from_potentially_unaligned<T, M>(std::string_view{reinterpret_cast<char const*>(i.begin()), i.size()}));
        VP_CHECK(got == before, "value-differs", "copied from a buffer shifted by %zu bytes the value differs: %s", static_cast<std::size_t>(shift), diff_at(before, got).c_str());
      });
      ev("unaligned_copy");
    }
    if constexpr (!Raw && M == NONE) {
      judge("cast", [](image& i) { return cista::deserialize<T, M | CAST>(i.begin(), i.end()); });
    }
    if constexpr (M == (VER | INTEG)) {
      judge("skip_version", [](image& i) { return cista::deserialize<T, SKIPV | SKIPI>(i.begin(), i.end()); });
      judge("skip_version_check_integrity", [](image& i) { return cista::deserialize<T, SKIPV | INTEG>(i.begin(), i.end()); });
    }
    // the image itself can be the source of the next one
    {
      image i{b};
      must_accept("valid-rejected", [&]() {
        auto* p = cista::deserialize<T, M>(i.begin(), i.end());
        auto b2 = to_image<M>(*p, r, false);
        image i2{b2};
        auto const* p2 = cista::deserialize<T, M>(i2.begin(), i2.end());
        auto const got = render(*p2);
        VP_CHECK(got == before, "second-generation", "serialised from its image the value differs: %s", diff_at(before, got).c_str());
        ev("second_generation");
      });
    }
  }
  // for types without a type hash
  static void run_unversioned(rng& r) {
    return r.coin() ? with<NONE>(r, "mode_none") : with<INTEG>(r, "mode_integrity");
  }
  // for recursive types (their static type hash does not compile)
  static void run_no_static(rng& r) {
    switch (r.below(4)) {
      case 0: return with<NONE>(r, "mode_none");
      case 1: return with<VER>(r, "mode_version");
      case 2: return with<INTEG>(r, "mode_integrity");
      default: return with<VER | INTEG>(r, "mode_version_integrity");
    }
  }
  static void run(rng& r) {
    switch (r.below(6)) {
      case 0: return with<NONE>(r, "mode_none");
      case 1: return with<VER>(r, "mode_version");
      case 2: return with<SVER>(r, "mode_static_version");
      case 3: return with<INTEG>(r, "mode_integrity");
      case 4: return with<VER | INTEG>(r, "mode_version_integrity");
      default: return with<SVER | INTEG | DEEP>(r, "mode_static_version_integrity_deep");
    }
  }
};

}  // namespace vp
