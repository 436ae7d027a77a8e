// Serialisation monitors: value <-> image.
#pragma once
#include <cstdlib>
#include <memory>

#include "walk.h"
#include "cista/targets/file.h"

namespace rawt {
#define NS cista::raw
#include "ser_types.inc"
#undef NS
}  // namespace rawt
namespace offt {
#define NS cista::offset
#include "ser_types.inc"
#undef NS
}  // namespace offt

namespace vp {

// the bytes of an image at an address of our choice, exactly as large as it is
struct image {
  explicit image(std::size_t const n, std::size_t const shift = 0U) : n_{n} {
    monitor_scope m;
    if (::posix_memalign(&base_, 64U, n + shift + (n + shift == 0U ? 1U : 0U)) != 0) std::abort();
    p_ = static_cast<std::uint8_t*>(base_) + shift;
  }
  template <typename Buf>
  explicit image(Buf const& b, std::size_t const shift = 0U) : image(b.size(), shift) {
    if (n_ != 0U) std::memcpy(p_, &b[0], n_);
  }
  ~image() {
    monitor_scope m;
    if (base_ != nullptr) {
      std::memset(base_, 0xDB, n_);
      std::free(base_);
    }
  }
  image(image const&) = delete;
  image& operator=(image const&) = delete;
  std::uint8_t* begin() { return p_; }
  std::uint8_t* end() { return p_ + n_; }
  std::size_t size() const { return n_; }
  void* base_{nullptr};
  std::uint8_t* p_{nullptr};
  std::size_t n_;
};

inline walker bounded(image& i, char const* what) {
  walker w;
  w.lo = reinterpret_cast<std::uintptr_t>(i.begin());
  w.hi = reinterpret_cast<std::uintptr_t>(i.end());
  w.what = what;
  return w;
}

using bytes = std::vector<std::uint8_t>;

template <cista::mode M, typename T>
bytes to_image(T& v, rng& r, bool allow_file = true) {
  if constexpr (M == (cista::mode::WITH_VERSION | cista::mode::WITH_INTEGRITY) || M == cista::mode::WITH_INTEGRITY)
  if (allow_file && r.chance(1, 8)) {
    ev("target_file");
    auto const path = std::string{std::getenv("VP_SCRATCH") != nullptr ? std::getenv("VP_SCRATCH") : "/tmp"} + "/img" + std::to_string(::getpid()) + ".bin";
    {
      cista::file f{path.c_str(), "w+"};
      cista::serialize<M>(f, v);
    }
    bytes out;
    auto* f = std::fopen(path.c_str(), "rb");
    unsigned char buf[4096];
    for (std::size_t n; (n = std::fread(buf, 1, sizeof(buf), f)) != 0U;) out.insert(out.end(), buf, buf + n);
    std::fclose(f);
    std::remove(path.c_str());
    return out;
  }
  ev("target_buf");
  if (r.coin()) {
    cista::buf<bytes> b;
    cista::serialize<M>(b, v);
    return std::move(b.buf_);
  }
  return cista::serialize<M>(v);
}

constexpr auto const NONE = cista::mode::NONE;
constexpr auto const VER = cista::mode::WITH_VERSION;
constexpr auto const SVER = cista::mode::WITH_STATIC_VERSION;
constexpr auto const INTEG = cista::mode::WITH_INTEGRITY;
constexpr auto const DEEP = cista::mode::DEEP_CHECK;
constexpr auto const UNCH = cista::mode::UNCHECKED;
constexpr auto const BE = cista::mode::SERIALIZE_BIG_ENDIAN;
constexpr auto const CAST = cista::mode::CAST;
constexpr auto const SKIPV = cista::mode::SKIP_VERSION;
constexpr auto const SKIPI = cista::mode::SKIP_INTEGRITY;

template <typename F>
void must_accept(char const* key, F&& f) {
  try {
    f();
  } catch (std::exception const& e) {
    fail(key, "a valid image was rejected: %s", e.what());
  }
}

}  // namespace vp
