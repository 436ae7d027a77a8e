#pragma once
#define VP_LARGE 1
#include "ser_test.h"

#include "cista/mmap.h"

namespace vp {

inline std::string scratch_path(char const* name) {
  auto const* d = std::getenv("VP_SCRATCH");
  return std::string{d != nullptr ? d : "/tmp"} + "/" + name + std::to_string(::getpid()) + ".bin";
}

// what is in the file, not asking the code under test
inline bytes slurp(std::string const& path) {
  bytes out;
  auto* f = std::fopen(path.c_str(), "rb");
  if (f == nullptr) fail("no-file", "%s does not exist", path.c_str());
  static unsigned char buf[1U << 16U];
  for (std::size_t n; (n = std::fread(buf, 1, sizeof(buf), f)) != 0U;) out.insert(out.end(), buf, buf + n);
  std::fclose(f);
  return out;
}
inline void spill(std::string const& path, bytes const& b) {
  auto* f = std::fopen(path.c_str(), "wb");
  if (f == nullptr || std::fwrite(b.data(), 1, b.size(), f) != b.size()) std::abort();
  std::fclose(f);
}

// a container of the caller's: exactly sized storage, moved on every growth,
// whose new bytes hold anything
struct odd_container {
  odd_container() = default;
  odd_container(odd_container&& o) noexcept : p_{o.p_}, n_{o.n_} { o.p_ = nullptr; o.n_ = 0U; }
  ~odd_container() { std::free(p_); }
  std::uint8_t& operator[](std::size_t const i) { return p_[i]; }
  std::uint8_t const& operator[](std::size_t const i) const { return p_[i]; }
  std::size_t size() const { return n_; }
  void resize(std::size_t const n) {
    auto* p = static_cast<std::uint8_t*>(std::malloc(n == 0U ? 1U : n));
    std::memset(p, 0xA5, n);
    if (n_ != 0U && n != 0U) std::memcpy(p, p_, std::min(n, n_));
    if (p_ != nullptr) std::memset(p_, 0xDB, n_);
    std::free(p_);
    p_ = p;
    n_ = n;
  }
  std::uint8_t* p_{nullptr};
  std::size_t n_{0U};
};

inline void same_bytes(char const* target, bytes const& want, std::uint8_t const* got, std::size_t const n) {
  VP_CHECK(n == want.size(), "target-size", "%s holds %zu bytes, expected %zu", target, n, want.size());
  for (std::size_t i = 0; i != n; ++i) {
    if (got[i] != want[i]) fail("target-bytes", "%s: byte %zu of %zu is %02x, expected %02x", target, i, n, got[i], want[i]);
  }
  ++st().checks;
  ev(target);
}
template <typename Buf>
void same_bytes(char const* target, bytes const& want, Buf const& b) {
  bytes g;
  for (std::size_t i = 0; i != b.size(); ++i) g.push_back(b[i]);
  same_bytes(target, want, g.data(), g.size());
}

template <typename T, bool Raw>
struct targets {
  template <cista::mode M>
  static void read_back(char const* how, std::uint8_t* from, std::uint8_t* to, std::string const& before) {
    must_accept("valid-rejected", [&]() {
      auto const got = render(*cista::deserialize<T, M>(from, to));
      VP_CHECK(got == before, "value-differs", "read back (%s) the value differs: %s", how, diff_at(before, got).c_str());
    });
    ev(how);
  }
  template <cista::mode M>
  static void with(rng& r, char const* mode_name) {
    auto v = std::make_unique<T>();
    gen(r, *v, static_cast<int>(r.below(5)) - 1);
    auto const before = render(*v);
    op("mode %s: %.300s", mode_name, before.c_str());
    ev(mode_name);
    bytes const want = cista::serialize<M>(*v);
    distinct(fnv(want.data(), want.size()));
    {
      cista::buf<bytes> b;
      cista::serialize<M>(b, *v);
      same_bytes("byte_vector", want, b);
      b.reset();  // used again
      cista::serialize<M>(b, *v);
      same_bytes("byte_vector_reused", want, b);
    }
    {
      cista::buf<odd_container> b;
      cista::serialize<M>(b, *v);
      same_bytes("callers_container", want, b);
      b.reset();
      cista::serialize<M>(b, *v);
      same_bytes("callers_container_reused", want, b);
    }
    {
      cista::buf<cista::raw::vector<std::uint8_t>> b;
      cista::serialize<M>(b, *v);
      same_bytes("cista_vector", want, b);
    }
    auto const path = scratch_path("file");
    {
      cista::file f{path.c_str(), "w+"};
      cista::serialize<M>(f, *v);
      if (r.coin()) {
        VP_CHECK(f.size() == want.size(), "target-size", "file::size() is %zu, expected %zu", f.size(), want.size());
        auto const c = f.content();
        same_bytes("file_content", want, c.data(), c.size());
      }
    }
    same_bytes("file", want, slurp(path));
    {
      auto f = cista::file{path.c_str(), "r"};
      auto c = f.content();
      same_bytes("file_read", want, c.data(), c.size());
      // (the heap does not honour every alignment a type can have)
      image i{c};
      read_back<M>("copied", i.begin(), i.end(), before);
    }
    {
      auto m = cista::mmap{path.c_str(), cista::mmap::protection::READ};
      same_bytes("file_mapped", want, m.data(), m.size());
      if constexpr (!Raw && !cista::is_mode_enabled(M, BE)) {
        must_accept("valid-rejected", [&]() {
          auto const got = render(*cista::deserialize<T, M>(static_cast<cista::mmap const&>(m).begin(), static_cast<cista::mmap const&>(m).end()));
          VP_CHECK(got == before, "value-differs", "mapped, the value differs: %s", diff_at(before, got).c_str());
        });
        ev("mapped");
      }
    }
    {  // (in place: the file itself becomes the deserialised object)
      auto m = cista::mmap{path.c_str(), cista::mmap::protection::MODIFY};
      read_back<M>("mapped_for_modification", m.begin(), m.end(), before);
    }
    {
      cista::buf<cista::mmap> b{cista::mmap{path.c_str(), cista::mmap::protection::WRITE}};
      cista::serialize<M>(b, *v);
      same_bytes("mapped_target", want, b);
      if (r.coin()) {
        b.reset();
        cista::serialize<M>(b, *v);
        same_bytes("mapped_target_reused", want, b);
      }
    }
    same_bytes("mapped_target_file", want, slurp(path));
    std::remove(path.c_str());
  }
  static void run_unversioned(rng& r) {
    return r.coin() ? with<NONE>(r, "mode_none") : with<INTEG>(r, "mode_integrity");
  }
  static void run(rng& r) {
    switch (r.below(4)) {
      case 0: return with<NONE>(r, "mode_none");
      case 1: return with<INTEG | BE>(r, "mode_integrity_big_endian");
      case 2: return with<INTEG>(r, "mode_integrity");
      default: return with<VER | INTEG>(r, "mode_version_integrity");
    }
  }
};

}  // namespace vp
