// P19: mappings of more than 4 GB (sparse files).
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <string>

#include "cista/containers/mmap_vec.h"
#include "cista/containers/vector.h"
#include "cista/mmap.h"
#include "cista/targets/buf.h"
#include "common.h"
using namespace vp;
namespace {
using prot = cista::mmap::protection;
constexpr std::size_t const GB = std::size_t{1U} << 30U;
std::string scratch_file() {
  auto const* d = std::getenv("VP_SCRATCH");
  return std::string{d == nullptr ? "/tmp" : d} + "/huge" + std::to_string(::getpid()) + "-" + std::to_string(st().case_no);
}
std::size_t size_of(std::string const& p) {
  struct stat s;
  return ::stat(p.c_str(), &s) != 0 ? 0U : static_cast<std::size_t>(s.st_size);
}
bool can_be_large(std::string const& p) {
  auto* f = std::fopen(p.c_str(), "w+");
  auto const ok = f != nullptr && ::ftruncate(::fileno(f), static_cast<off_t>(16U * GB)) == 0;
  if (f != nullptr) std::fclose(f);
  ::unlink(p.c_str());
  return ok;
}
void judge(std::map<std::size_t, std::uint8_t> const& marks, std::uint8_t const* d, std::size_t const n, char const* what) {
  for (auto const& [i, x] : marks) {
    if (i < n) VP_CHECK(d[i] == x, "huge-content", "%s: byte %zu of %zu is %u instead of %u", what, i, n, d[i], x);
    for (auto const k : {i + 1U, i + 4U * GB, i - 4U * GB, i ^ (2U * GB)}) {
      if (k < n && marks.find(k) == marks.end()) VP_CHECK(d[k] == 0U, "huge-content", "%s: byte %zu of %zu was never written, it is %u", what, k, n, d[k]);
    }
  }
  ev("huge_mapping_judged");
}

void mapping(rng& r) {
  auto const path = scratch_file();
  if (!can_be_large(path)) { ev("huge_skipped"); return; }
  std::map<std::size_t, std::uint8_t> marks;
  std::size_t n = 0U;
  {
    cista::mmap m{path.c_str(), prot::WRITE};
    for (auto k = 2U + r.below(3); k != 0U; --k) {
      n += (r.coin() ? 2U * GB : 4U * GB) - 5U + r.below(100000);
      if (n > 8U * GB) break;
      op("to %zu", n);
      m.resize(n);
      VP_CHECK(m.size() == n && m.view().size() == n, "huge-size", "%zu bytes instead of %zu", m.size(), n);
      for (auto const i : {std::size_t{0U}, n / 2U, n - 1U, n - 4097U, 2U * GB, 2U * GB - 1U, 4U * GB, 4U * GB - 1U}) {
        if (i < n) m[i] = marks[i] = static_cast<std::uint8_t>(1U + r.below(255));
      }
      judge(marks, m.data(), n, "grown");
    }
    n = m.size();
    if (r.coin()) {
      n -= r.coin() ? 1U + r.below(5000) : n / 3U;
      m.resize(n);
      marks.erase(marks.lower_bound(n), marks.end());
      judge(marks, m.data(), n, "shrunk");
    }
  }
  VP_CHECK(size_of(path) == n, "huge-size", "the closed file has %zu bytes instead of %zu", size_of(path), n);
  {
    cista::mmap const m{path.c_str(), prot::READ};
    VP_CHECK(m.size() == n, "huge-size", "opened: %zu bytes instead of %zu", m.size(), n);
    judge(marks, m.data(), n, "opened");
  }
  ::unlink(path.c_str());
  distinct(mix(n, marks.size()));
}

// as the target of serialization
void target(rng& r) {
  auto const path = scratch_file();
  if (!can_be_large(path)) { ev("huge_skipped"); return; }
  std::map<std::size_t, std::uint8_t> marks;
  std::size_t n = 0U;
  {
    cista::buf<cista::mmap> b{cista::mmap{path.c_str(), prot::WRITE}};
    n = 3U * GB + r.below(3U * GB);
    b.buf_.resize(n);
    for (auto k = 20U; k != 0U; --k) {
      std::uint8_t block[64];
      auto const len = 1U + r.below(64);
      for (auto& x : block) x = static_cast<std::uint8_t>(1U + r.below(255));
      auto const align = std::size_t{1U} << r.below(7);
      auto const at = static_cast<std::size_t>(b.write(block, len, align));
      auto const want = (n + align - 1U) / align * align;
      VP_CHECK(at == want && b.size() == at + len, "huge-block", "a block of %zu aligned to %zu was put at %zu behind %zu bytes (then %zu)", static_cast<std::size_t>(len), align, at, n, b.size());
      for (std::size_t i = 0U; i != len; ++i) marks[at + i] = block[i];
      n = b.size();
      if (r.coin()) {
        auto const x = r.next() | 0x0101010101010101ULL;
        auto const pos = r.coin() ? r.below(n - 8U) : n - 8U;
        b.write(pos, x);
        for (auto i = 0U; i != 8U; ++i) marks[pos + i] = static_cast<std::uint8_t>(x >> (8U * i));
      }
    }
    for (auto const pos : {n - 7U, n, n + 4U * GB}) {
      auto refused = false;
      try { b.write(pos, std::uint64_t{1U}); } catch (cista::cista_exception const&) { refused = true; }
      VP_CHECK(refused, "huge-update", "an update at %zu of %zu was not refused", pos, n);
    }
    judge(marks, b.buf_.data(), n, "written");
  }
  VP_CHECK(size_of(path) == n, "huge-size", "the closed file has %zu bytes instead of %zu", size_of(path), n);
  ::unlink(path.c_str());
  ev("huge_target");
  distinct(mix(n, marks.size()));
}

// a mapped vector
struct entry { std::uint64_t a_[16]; };
void vec(rng& r) {
  auto const path = scratch_file();
  if (!can_be_large(path)) { ev("huge_skipped"); return; }
  using V = cista::basic_mmap_vec<entry, std::uint64_t>;
  std::map<std::size_t, std::uint64_t> marks;
  std::size_t n = (4U * GB + r.below(2U * GB)) / sizeof(entry);
  {
    cista::mmap m{path.c_str(), prot::WRITE};
    m.resize(n * sizeof(entry));  // (a hole; resizing the vector writes every entry)
    V v{std::move(m)};
    VP_CHECK(v.size() == n, "huge-size", "%zu entries instead of %zu", static_cast<std::size_t>(v.size()), n);
    for (auto k = 30U; k != 0U; --k) {
      auto const i = r.chance(1, 3) ? n - 1U - r.below(4) : r.below(n);
      v[i].a_[15] = marks[i] = r.next() | 1U;
    }
    for (auto k = 10U; k != 0U; --k) {
      entry e{};
      e.a_[15] = marks[n] = r.next() | 1U;
      v.push_back(e);
      ++n;
    }
    VP_CHECK(v.size() == n && v[n - 1U].a_[15] == marks[n - 1U], "huge-size", "appended");
  }
  VP_CHECK(size_of(path) == n * sizeof(entry), "huge-size", "the closed file has %zu bytes instead of %zu", size_of(path), n * sizeof(entry));
  {
    V v{cista::mmap{path.c_str(), prot::READ}};
    VP_CHECK(v.size() == n, "huge-size", "opened: %zu entries instead of %zu", static_cast<std::size_t>(v.size()), n);
    for (auto const& [i, x] : marks) VP_CHECK(std::as_const(v)[i].a_[15] == x && std::as_const(v)[i].a_[0] == 0U, "huge-content", "entry %zu of %zu", i, n);
  }
  ::unlink(path.c_str());
  ev("huge_vector");
  distinct(mix(n, marks.size()));
}
}  // namespace
VP_SUITE_NOBALANCE(huge_mapping, 2) { mapping(r); }
VP_SUITE_NOBALANCE(huge_target, 1) { target(r); }
VP_SUITE_NOBALANCE(huge_vector, 1) { vec(r); }
VP_MAIN()
