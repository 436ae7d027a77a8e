#include "p03.h"
using namespace vp;
#define SUITE(name, weight, ...) VP_SUITE_NOBALANCE(name, weight) { __VA_ARGS__; }
#if VP_PART == 0
SUITE(off_strings, 1, targets<offt::strings, false>::run(r))
SUITE(raw_vecs, 1, targets<rawt::vecs, true>::run(r))
VP_MAIN()
#elif VP_PART == 1
SUITE(off_maps, 1, targets<offt::maps, false>::run(r))
SUITE(off_aligned16, 1, targets<offt::aligned16, false>::run(r))
#elif VP_PART == 2
SUITE(off_values, 1, targets<offt::values, false>::run(r))
SUITE(off_aligned_holder, 1, targets<offt::aligned_holder, false>::run(r))
#elif VP_PART == 3
SUITE(off_graph, 1, targets<offt::graph, false>::run(r))
SUITE(raw_graph, 1, targets<rawt::graph, true>::run(r))
#elif VP_PART == 4
SUITE(off_multi, 1, targets<offt::multi, false>::run(r))
SUITE(off_rtrees, 1, targets<offt::rtrees, false>::run_unversioned(r))

#elif VP_PART == 5
// ------------------------------------------------- the target interface itself
namespace {
struct odd_sized {
  std::uint8_t a, b, c;
};
enum class small : std::uint16_t { X = 0x1234 };

std::uint64_t expected_checksum(bytes const& m, std::size_t const from) {
  return cista::hash(std::string_view{reinterpret_cast<char const*>(m.data()) + from, m.size() - from});
}

template <typename Target>
void update(Target& t, bytes& m, rng& r, char const* name) {
  auto const go = [&](auto const v) {
    std::size_t pos;
    auto const out = r.chance(1, 4) || m.size() < sizeof(v);
    if (out) {
      switch (r.below(4)) {
        case 0: pos = m.size() - std::min(m.size(), sizeof(v) - 1U) + (m.size() < sizeof(v) ? r.below(3) : 0U); break;
        case 1: pos = m.size() + r.below(100); break;
        case 2: pos = ~std::size_t{0} - r.below(9); break;
        default: pos = m.size();
      }
      if (pos <= m.size() && m.size() - pos >= sizeof(v)) return;
    } else {
      pos = r.below(m.size() - sizeof(v) + 1U);
      if (r.chance(1, 5)) pos = m.size() - sizeof(v);
    }
    op("update %zu (+%zu)%s", pos, sizeof(v), out ? " refused" : "");
    bool thrown = false;
    try {
      t.write(pos, v);
    } catch (std::exception const&) {
      thrown = true;
    }
    VP_CHECK(thrown == out, "update-range", "%s: an update of %zu bytes at %zu of %zu was %s", name, sizeof(v), pos, m.size(), thrown ? "refused" : "accepted");
    if (!out) std::memcpy(&m[pos], &v, sizeof(v));
    ev(out ? "update_refused" : "update");
  };
  switch (r.below(7)) {
    case 0: return go(static_cast<std::uint8_t>(r.next()));
    case 1: return go(static_cast<std::uint16_t>(r.next()));
    case 2: return go(static_cast<std::uint32_t>(r.next()));
    case 3: return go(r.next());
    case 4: return go(1.5);
    case 5: return go(odd_sized{1, static_cast<std::uint8_t>(r.next()), 3});
    default: return go(small::X);
  }
}

template <typename Target, typename Look>
void history(rng& r, Target& t, bytes& m, char const* name, Look&& look, bool const large) {
  auto const n = 1U + r.below(30);
  for (unsigned k = 0; k != n; ++k) {
    switch (r.below(8)) {
      case 0:
      case 1: update(t, m, r, name); break;
      case 2: {
        auto const from = r.below(m.size() + 1U);
        op("checksum %zu", from);
        VP_CHECK(t.checksum(static_cast<cista::offset_t>(from)) == expected_checksum(m, from), "checksum", "%s: checksum of the bytes from %zu of %zu differs from their hash", name, from, m.size());
        ev("checksum");
        break;
      }
      case 3: look(t, m); break;
      default: {
        auto size = r.size(300);
        if (r.chance(1, 20)) size = r.below(20000);
        if (large && r.chance(1, 8)) size = r.below(r.chance(1, 3) ? 5U << 20U : 900000U);
        auto const align = r.chance(1, 4) ? 0U : std::size_t{1} << r.below(7);
        bytes src(size);
        for (auto& x : src) x = static_cast<std::uint8_t>(r.next() | 1U);
        auto start = m.size();
        if (align > 1U) start = (start + align - 1U) / align * align;
        op("write %zu align %zu -> %zu", size, align, start);
        auto const got = t.write(static_cast<void const*>(src.data() == nullptr ? reinterpret_cast<std::uint8_t const*>("") : src.data()), size, align);
        VP_CHECK(got == static_cast<cista::offset_t>(start), "block-position", "%s: a block of %zu aligned %zu was put at %lld after %zu bytes, expected %zu", name, size, align,
                 static_cast<long long>(got), m.size(), start);
        m.resize(start, 0U);
        m.insert(m.end(), src.begin(), src.end());
        ev("block");
      }
    }
    if (r.chance(1, 6)) look(t, m);
  }
  look(t, m);
  distinct(fnv(m.data(), m.size()));
}

template <typename Buf>
void buffer_history(rng& r, Buf&& under, char const* name, bool const large) {
  cista::buf<Buf> b{std::move(under)};
  bytes m;
  auto const look = [&](auto& t, bytes const& want) {
    VP_CHECK(t.size() == want.size(), "target-size", "%s: size() is %zu, expected %zu", name, t.size(), want.size());
    for (std::size_t i = 0; i != want.size(); ++i)
      if (t[i] != want[i]) fail("target-bytes", "%s: byte %zu of %zu is %02x, expected %02x", name, i, want.size(), t[i], want[i]);
    if (!want.empty()) VP_CHECK(t.base() == &t[0] && t.addr(3) == &t[0] + 3, "address", "%s: addr() does not designate the byte", name);
    ev(name);
  };
  for (unsigned rounds = 1U + r.below(3); rounds != 0U; --rounds) {
    history(r, b, m, name, look, large);
    if (rounds != 1U) {
      op("reset");
      b.reset();
      m.clear();
      look(b, m);
      ev("reset");
    }
  }
}

void file_history(rng& r, bool const large) {
  auto const path = scratch_path("hist");
  bytes m;
  {
    cista::file f{path.c_str(), "w+"};
    auto const look = [&](cista::file& t, bytes const& want) {
      VP_CHECK(t.size() == want.size(), "target-size", "file: size() is %zu, expected %zu", t.size(), want.size());
      auto const c = t.content();
      same_bytes("file_content", want, c.data(), c.size());
      if (r.coin()) same_bytes("file", want, slurp(path));
    };
    history(r, f, m, "file", look, large);
    if (r.chance(1, 3)) {
      auto g = std::move(f);
      history(r, g, m, "file (moved)", look, false);
      cista::file h{(path + "x").c_str(), "w+"};
      h = std::move(g);
      history(r, h, m, "file (move assigned)", look, false);
      ev("moved_file");
    }
  }
  same_bytes("file", m, slurp(path));
  {  // opened again to go on
    cista::file f{path.c_str(), "r+"};
    auto const look = [&](cista::file& t, bytes const& want) {
      auto const c = t.content();
      same_bytes("file_reopened", want, c.data(), c.size());
    };
    look(f, m);
    history(r, f, m, "file (reopened)", look, false);
  }
  same_bytes("file", m, slurp(path));
  std::remove(path.c_str());
  std::remove((path + "x").c_str());
}
}  // namespace

VP_SUITE(buffers, 3) {
  auto const large = r.chance(1, 8);
  switch (r.below(4)) {
    case 0: return buffer_history(r, bytes{}, "history_byte_vector", large);
    case 1: return buffer_history(r, odd_container{}, "history_callers_container", large);
    case 2: return buffer_history(r, cista::offset::vector<std::uint8_t>{}, "history_cista_vector", large);
    default: {
      auto const path = scratch_path("map");
      buffer_history(r, cista::mmap{path.c_str()}, "history_mapped", large);
      std::remove(path.c_str());
    }
  }
}
VP_SUITE(files, 2) { file_history(r, r.chance(1, 6)); }
#elif VP_PART == 7
SUITE(off_large, 1, { if (!r.chance(1, 3)) return targets<offt::scalars, false>::run(r); ev("large_values"); targets<offt::large, false>::run(r); })
SUITE(raw_links, 1, targets<rawt::links, true>::run(r))
#elif VP_PART == 6
// other hash algorithms, images larger than one block of the file checksum
template <cista::mode M>
static void large_image(rng& r) {
  cista::raw::vector<std::uint64_t> v;
  auto const n = r.below(200000);
  for (std::size_t i = 0; i != n; ++i) v.push_back(r.next());
  op("%zu bytes", static_cast<std::size_t>(8U * n));
  bytes const want = cista::serialize<M>(v);
  distinct(fnv(want.data(), want.size()));
  auto const path = scratch_path("large");
  {
    cista::file f{path.c_str(), "w+"};
    cista::serialize<M>(f, v);
  }
  same_bytes("large_file", want, slurp(path));
  {
    auto m = cista::mmap{path.c_str(), cista::mmap::protection::READ};
    image i{want};
    must_accept("valid-rejected", [&]() { VP_CHECK((cista::deserialize<cista::raw::vector<std::uint64_t>, M>(i.begin(), i.end())->size() == n), "value-differs", "the size differs"); });
    same_bytes("large_file_mapped", want, m.data(), m.size());
  }
  std::remove(path.c_str());
}
VP_SUITE(large_images, 1) { return r.coin() ? large_image<INTEG>(r) : large_image<NONE>(r); }
#if !defined(CISTA_FNV1A)
VP_MAIN()
#endif
#endif
