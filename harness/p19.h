// File-backed storage: what the process holds open, and what files contain.
#pragma once
#include <algorithm>
#include <cstdlib>
#include <list>
#include <memory>
#include <numeric>
#include <optional>

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>

#include "common.h"
#include "cista/containers.h"
#include "cista/containers/mmap_vec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/io.h"
#include "cista/mmap.h"
#include "cista/strong.h"
#include "cista/targets/file.h"

namespace vp {
using bytes = std::vector<std::uint8_t>;

inline std::string scratch_dir() {
  auto const* d = std::getenv("VP_SCRATCH");
  return std::string{d != nullptr ? d : "/tmp"} + "/st" + std::to_string(::getpid()) + "_";
}
inline std::string scratch_path(char const* name) { return scratch_dir() + name + ".bin"; }

// The scratch files this process has open (descriptors) and mapped.
struct census {
  unsigned fds{0}, maps{0};
  std::size_t mapped{0};
};
inline census take_census() {
  monitor_scope m;
  census c;
  auto const dir = scratch_dir();
  auto* d = ::opendir("/proc/self/fd");
  if (d == nullptr) std::abort();
  while (auto* e = ::readdir(d)) {
    char link[512];
    auto const n = ::readlinkat(::dirfd(d), e->d_name, link, sizeof(link) - 1U);
    if (n > 0 && std::string_view{link, static_cast<std::size_t>(n)}.substr(0, dir.size()) == dir) ++c.fds;
  }
  ::closedir(d);
  auto* f = std::fopen("/proc/self/maps", "r");
  if (f == nullptr) std::abort();
  static char line[1024];
  while (std::fgets(line, sizeof(line), f) != nullptr) {
    if (std::strstr(line, dir.c_str()) != nullptr) {
      unsigned long long a = 0, b = 0;
      std::sscanf(line, "%llx-%llx", &a, &b);
      ++c.maps;
      c.mapped += b - a;
    }
  }
  std::fclose(f);
  return c;
}
inline void nothing_held(char const* when) {
  auto const c = take_census();
  VP_CHECK(c.fds == 0U, "descriptor-left", "%s: %u descriptors of the scratch files are still open", when, c.fds);
  VP_CHECK(c.maps == 0U, "mapping-left", "%s: %u mappings of the scratch files (%zu bytes) are still there", when, c.maps, c.mapped);
  ev("nothing_held");
}

inline bytes slurp(std::string const& path) {
  bytes out;
  auto const fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) fail("no-file", "%s does not exist", path.c_str());
  static unsigned char buf[1U << 16U];
  for (ssize_t n; (n = ::read(fd, buf, sizeof(buf))) > 0;) out.insert(out.end(), buf, buf + n);
  ::close(fd);
  return out;
}
inline void spill(std::string const& path, void const* p, std::size_t const n) {
  auto const fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (fd < 0) std::abort();
  for (std::size_t k = 0; k != n;) {
    auto const w = ::write(fd, static_cast<char const*>(p) + k, n - k);
    if (w <= 0) std::abort();
    k += static_cast<std::size_t>(w);
  }
  ::close(fd);
}
inline void spill(std::string const& path, bytes const& b) { spill(path, b.data(), b.size()); }
inline bool exists(std::string const& path) { return ::access(path.c_str(), F_OK) == 0; }

inline void same_bytes(char const* what, void const* want, std::size_t const n_want, void const* got, std::size_t const n) {
  VP_CHECK(n == n_want, "stored-size", "%s: %zu bytes, expected %zu", what, n, n_want);
  ++st().checks;
  if (n != 0U && std::memcmp(want, got, n) != 0) {
    auto const *a = static_cast<unsigned char const*>(want), *b = static_cast<unsigned char const*>(got);
    std::size_t i = 0;
    while (a[i] == b[i]) ++i;
    fail("stored-bytes", "%s: byte %zu of %zu is %02x, expected %02x", what, i, n, b[i], a[i]);
  }
}
inline void file_is(char const* what, bytes const& want, std::string const& path) {
  auto const got = slurp(path);
  same_bytes(what, want.data(), want.size(), got.data(), got.size());
  ev("file_compared");
}

template <typename F>
bool throws(F&& f) {
  try {
    f();
    return false;
  } catch (std::exception const&) {
    return true;
  }
}

// sizes around the limits that matter to mappings
inline std::size_t map_size(rng& r, std::size_t const max = 70000U) {
  static std::size_t const near[] = {4096U, 8192U, 16384U, 32768U, 65536U, 128U, 1024U};
  std::size_t n;
  switch (r.below(6)) {
    case 0: n = r.below(3); break;
    case 1: n = near[r.below(7)] + r.below(3) - 1U; break;
    case 2: n = r.below(max); break;
    default: n = r.below(600); break;
  }
  return std::min(n, max);
}
}  // namespace vp
