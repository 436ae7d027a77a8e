#pragma once
#include <sys/mman.h>

#define VP_LARGE 1
#include "ser_test.h"

namespace vp {

// pages that fault when written
struct read_only {
  explicit read_only(bytes const& b, std::size_t const shift) {
    n_ = (b.size() + shift + 4095U) / 4096U * 4096U;
    p_ = static_cast<std::uint8_t*>(::mmap(nullptr, n_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (p_ == MAP_FAILED) std::abort();
    b_ = p_ + (n_ - b.size()) / 64U * 64U;  // as close to the end of the mapping as alignment permits
    if (b_ + shift + b.size() <= p_ + n_) b_ += shift;
    std::memcpy(b_, b.data(), b.size());
    ::mprotect(p_, n_, PROT_READ);
  }
  ~read_only() { ::munmap(p_, n_); }
  read_only(read_only const&) = delete;
  read_only& operator=(read_only const&) = delete;
  std::uint8_t *p_, *b_;
  std::size_t n_;
};

template <typename T, bool Raw, std::size_t Align = 8U, bool Static = true>
struct image_facts {
  static walker within(std::uint8_t const* b, std::size_t const n) {
    walker w;
    w.lo = reinterpret_cast<std::uintptr_t>(b);
    w.hi = w.lo + n;
    w.what = "image";
    w.blocks_on = true;
    return w;
  }

  template <cista::mode M>
  static void with(rng& r, char const* mode_name) {
    auto const depth = static_cast<int>(r.below(5)) - 1;
    auto v = std::make_unique<T>();
    gen(r, *v, depth);
    auto const before = render(*v);
    distinct(fnv(before.data(), before.size()));
    op("mode %s, depth %d: %.300s", mode_name, depth, before.c_str());
    auto const b = to_image<M>(*v, r);
    v.reset();  // (the monitors run with freed memory poisoned)

    auto const same = [&](char const* how, T const* p, std::uint8_t const* at) {
      auto const got = render(*p, within(at, b.size()));
      VP_CHECK(got == before, "value-differs", "read %s the value differs: %s", how, diff_at(before, got).c_str());
      ev(how);
    };
    auto const shift = [&]() { return Align * r.below(64U / Align * 3U); };

    // 1. at any suitably aligned address; nothing but the bytes is needed
    {
      image i{b, shift()};
      must_accept("valid-rejected", [&]() {
        auto* p = r.coin() ? cista::deserialize<T, M>(i.begin(), i.end())
                           : cista::unchecked_deserialize<T, M>(i.begin(), i.end());
        bytes const usable{i.begin(), i.end()};
        if constexpr (!Raw) {
          VP_CHECK(usable == b, "fix-up", "deserialising changed a byte of a position independent image");
        }
        same("at_shifted_address", p, i.begin());
        VP_CHECK(std::memcmp(usable.data(), i.begin(), usable.size()) == 0, "read-writes", "reading the object changed bytes of its image");
        ev("read_leaves_bytes");
      });
    }
    if constexpr (!Raw) {
      // 2. unmodifiable memory
      {
        read_only m{b, shift()};
        must_accept("valid-rejected", [&]() {
          auto const* p = cista::deserialize<T, M>(static_cast<std::uint8_t const*>(m.b_), static_cast<std::uint8_t const*>(m.b_ + b.size()));
          same("in_read_only_memory", p, m.b_);
        });
      }
      // 3. moved elsewhere after it was read; the first buffer is gone
      {
        auto to = std::make_unique<image>(b.size(), shift());
        std::size_t root = 0;
        {
          image from{b, shift()};
          auto const* p = cista::deserialize<T, M>(from.begin(), from.end());
          root = static_cast<std::size_t>(reinterpret_cast<std::uint8_t const*>(p) - from.begin());
          std::memcpy(to->begin(), from.begin(), b.size());
        }
        same("moved_elsewhere", reinterpret_cast<T const*>(to->begin() + root), to->begin());
      }
    }
  }
  static void run(rng& r) {
    auto const k = r.below(Static ? 4U : 3U);
    if constexpr (Static) {
      if (k == 3U) return with<SVER>(r, "mode_static_version");
    }
    switch (k) {
      case 0: return with<NONE>(r, "mode_none");
      case 1: return with<INTEG>(r, "mode_integrity");
      default: return with<VER | INTEG>(r, "mode_version_integrity");
    }
  }
  static void run_unversioned(rng& r) { return r.coin() ? with<NONE>(r, "mode_none") : with<INTEG>(r, "mode_integrity"); }
};

}  // namespace vp
