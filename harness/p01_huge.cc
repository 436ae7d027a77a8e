// P01: images of more than 4 GB.
#include <sys/mman.h>
#include <fstream>
#include <vector>

#include "cista/containers.h"
#include "cista/serialization.h"
#include "common.h"
using namespace vp;
namespace {
constexpr std::size_t const MANY = 10ULL << 30U;

// memory that exists once it is written
struct lazy {
  lazy() : p_{static_cast<std::uint8_t*>(::mmap(nullptr, MANY, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))} {
    if (p_ == MAP_FAILED) std::abort();
  }
  ~lazy() { if (p_ != nullptr) ::munmap(p_, MANY); }
  lazy(lazy&& o) noexcept : p_{o.p_}, n_{o.n_} { o.p_ = nullptr; o.n_ = 0U; }
  std::uint8_t& operator[](std::size_t const i) noexcept { return p_[i]; }
  std::uint8_t const& operator[](std::size_t const i) const noexcept { return p_[i]; }
  std::size_t size() const noexcept { return n_; }
  void resize(std::size_t const n) { if (n > MANY) std::abort(); n_ = n; }
  std::uint8_t* p_;
  std::size_t n_{0U};
};

namespace raw_huge {
namespace data = cista::raw;
#include "huge.inc"
}  // namespace raw_huge
namespace off_huge {
namespace data = cista::offset;
#include "huge.inc"
}  // namespace off_huge
}  // namespace
VP_SUITE_NOBALANCE(huge_images, 1) {
  {
    std::ifstream f{"/proc/meminfo"};
    std::string w;
    std::uint64_t kb = 0U;
    while (f >> w) if (w == "MemAvailable:") { f >> kb; break; }
    if (kb < (9ULL << 20U)) { op("not enough memory"); ev("huge_skipped"); return; }
  }
  if (st().case_no % 2U == 0U) raw_huge::run(r); else off_huge::run(r);
}
VP_MAIN()
