#pragma once
#define VP_LARGE 1
#include "ser_test.h"

namespace vp {

// how an image is read: every entry point that performs the header checks
template <typename T, cista::mode M>
struct reader {
  static constexpr auto const kinds = 3U;
  // -> accepted?
  static bool accepts(unsigned const kind, image& i, std::string* text = nullptr) {
    try {
      T const* p = nullptr;
      switch (kind) {
        case 0: p = cista::deserialize<T, M>(i.begin(), i.end()); break;
        case 1: p = cista::unchecked_deserialize<T, M>(i.begin(), i.end()); break;
        default: p = cista::deserialize<T, M | DEEP>(i.begin(), i.end()); break;
      }
      if (text != nullptr) *text = render(*p);
      return true;
    } catch (std::exception const&) {
      return false;
    }
  }
};

template <typename T, bool Raw>
struct integrity {
  template <cista::mode M>
  static void with(rng& r, char const* mode_name) {
    constexpr auto const versioned = cista::is_mode_enabled(M, VER) || cista::is_mode_enabled(M, SVER);
    constexpr auto const summed = cista::is_mode_enabled(M, INTEG);
    auto const header = static_cast<std::size_t>(cista::data_start(M));
    auto const sum_at = static_cast<std::size_t>(cista::integrity_start(M));
    auto const depth = static_cast<int>(r.below(4)) - 1;
    auto v = std::make_unique<T>();
    gen(r, *v, depth);
    auto const before = render(*v);
    auto const b = to_image<M>(*v, r);
    v.reset();
    op("mode %s, %zu bytes: %.200s", mode_name, b.size(), before.c_str());
    ev(mode_name);
    distinct(fnv(b.data(), b.size()));

    // an unaltered image, wherever it lies
    for (unsigned k = 0; k != reader<T, M>::kinds; ++k) {
      image i{b, 16U * r.below(4)};
      std::string got;
      VP_CHECK((reader<T, M>::accepts(k, i, &got)), "valid-rejected", "an unaltered image was rejected (reading mode %u)", k);
      VP_CHECK(got == before, "value-differs", "the value differs: %s", diff_at(before, got).c_str());
      ev("accepted_unaltered");
    }
    auto const must_reject = [&](bytes const& x, char const* how, std::size_t at, std::uint64_t with_what) {
      if (x == b) return;
      auto const kind = static_cast<unsigned>(r.below(2));  // (deep checks happen after the header checks)
      image i{x};
      VP_CHECK(!(reader<T, M>::accepts(kind, i)), how, "an altered image was accepted: %s at byte %zu of %zu (header %zu bytes), %llu", how, at,
               b.size(), header, static_cast<unsigned long long>(with_what));
      ev(how);
    };
    auto const protected_from = summed ? (versioned ? 0U : sum_at) : 0U;
    auto const protected_to = summed ? b.size() : (versioned ? 8U : 0U);
    if (protected_to > protected_from) {
      // every bit of the header, and bits all over the payload
      for (std::size_t at = protected_from; at < std::min(header, protected_to); ++at) {
        for (unsigned bit = 0; bit < 8U; bit += 1U + static_cast<unsigned>(r.below(3))) {
          auto x = b;
          x[at] ^= static_cast<std::uint8_t>(1U << bit);
          must_reject(x, "bit_flip_header", at, bit);
        }
      }
      for (unsigned k = 0; k != 24U; ++k) {
        auto x = b;
        auto const at = protected_from + r.below(protected_to - protected_from);
        switch (r.below(4)) {
          case 0: x[at] ^= static_cast<std::uint8_t>(1U << r.below(8)); must_reject(x, "bit_flip", at, x[at]); break;
          case 1: x[at] = static_cast<std::uint8_t>(r.value()); must_reject(x, "byte_changed", at, x[at]); break;
          case 2: {
            auto const n = std::min<std::size_t>(1U + r.below(64), protected_to - at);
            for (std::size_t j = 0; j != n; ++j) x[at + j] = static_cast<std::uint8_t>(r.next());
            must_reject(x, "burst", at, n);
            break;
          }
          default: {
            auto const other = protected_from + r.below(protected_to - protected_from);
            std::swap(x[at], x[other]);
            must_reject(x, "bytes_swapped", at, other);
          }
        }
      }
    }
    if constexpr (summed) {
      for (unsigned k = 0; k != 8U; ++k) {  // truncated, extended
        auto x = b;
        if (r.coin()) {
          auto const n = r.coin() ? 1U + r.below(16) : 1U + r.below(b.size());
          x.resize(b.size() - std::min(n, b.size()));
          must_reject(x, "truncated", x.size(), n);
        } else {
          auto const n = 1U + r.below(r.coin() ? 8U : 200U);
          for (std::size_t j = 0; j != n; ++j) x.push_back(r.coin() ? 0U : static_cast<std::uint8_t>(r.next()));
          must_reject(x, "extended", x.size(), n);
        }
      }
    }
    // with the skip options the same image is read without those checks
    if constexpr (M == (VER | INTEG)) {
      auto x = b;
      for (unsigned k = 0; k != 16U; ++k) if (r.coin()) x[k] ^= static_cast<std::uint8_t>(r.next());
      image i{x};
      std::string got;
      VP_CHECK((reader<T, SKIPV | SKIPI>::accepts(0U, i, &got)), "skip-rejected", "an image was rejected though version and integrity are to be skipped");
      VP_CHECK(got == before, "value-differs", "read without checks the value differs: %s", diff_at(before, got).c_str());
      // version skipped only: the checksum still counts
      auto y = b;
      y[r.below(8)] ^= static_cast<std::uint8_t>(1U + r.below(255));
      {
        image j{y};
        VP_CHECK((reader<T, SKIPV | INTEG>::accepts(0U, j, &got)), "skip-rejected", "an image was rejected though its version is to be skipped");
      }
      y[8U + r.below(y.size() - 8U)] ^= static_cast<std::uint8_t>(1U + r.below(255));
      image j{y};
      VP_CHECK(!(reader<T, SKIPV | INTEG>::accepts(0U, j)), "checksum-ignored", "skipping the version check also skipped the checksum");
      ev("skip_modes");
    }
    if constexpr (M == (SVER | INTEG)) {
      auto y = b;
      y[8U + r.below(8)] ^= static_cast<std::uint8_t>(1U + r.below(255));
      image i{y};
      VP_CHECK((reader<T, SVER | SKIPI>::accepts(0U, i)), "skip-rejected", "an image was rejected though its checksum is to be skipped");
      y[r.below(8)] ^= static_cast<std::uint8_t>(1U + r.below(255));
      image j{y};
      VP_CHECK(!(reader<T, SVER | SKIPI>::accepts(0U, j)), "version-ignored", "skipping the checksum also skipped the version check");
      ev("skip_modes");
    }
  }
  static void run_no_static(rng& r) {
    switch (r.below(4)) {
      case 0: return with<VER>(r, "mode_version");
      case 1: return with<INTEG>(r, "mode_integrity");
      case 2: return with<VER | INTEG | BE>(r, "mode_version_integrity_big_endian");
      default: return with<VER | INTEG>(r, "mode_version_integrity");
    }
  }
  static void run(rng& r) {
    switch (r.below(3)) {
      case 0: return with<SVER>(r, "mode_static_version");
      case 1: return with<SVER | INTEG>(r, "mode_static_version_integrity");
      default: return run_no_static(r);
    }
  }
};

// an image of A read as B
template <typename A, typename B, cista::mode M>
void foreign(rng& r, char const* what) {
  A v{};
  gen(r, v, static_cast<int>(r.below(4)) - 1);
  auto b = cista::serialize<M>(v);
  // (large enough for any root: only the version can be the reason)
  if constexpr (!cista::is_mode_enabled(M, INTEG)) b.resize(std::max(b.size(), sizeof(B) + 64U));
  image i{b};
  bool accepted = true;
  try {
    cista::unchecked_deserialize<B, M>(i.begin(), i.end());
  } catch (std::exception const&) {
    accepted = false;
  }
  VP_CHECK(accepted == (std::is_same_v<A, B>), "foreign-type", "%s: an image was %s", what, accepted ? "accepted as a structurally different type" : "rejected");
  ev("foreign_type");
}
template <typename A, typename B>
void foreign_pair(rng& r, char const* what) {
  op("%s", what);
  switch (r.below(4)) {
    case 0: foreign<A, B, VER>(r, what); foreign<B, A, VER>(r, what); break;
    case 1: foreign<A, B, SVER>(r, what); foreign<B, A, SVER>(r, what); break;
    case 2: foreign<A, B, VER | INTEG>(r, what); foreign<B, A, VER | INTEG>(r, what); break;
    default: foreign<A, B, SVER | BE>(r, what); foreign<B, A, SVER | BE>(r, what); break;
  }
  distinct(fnv(what, std::strlen(what)));
}

}  // namespace vp
