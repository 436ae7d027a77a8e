#include "p05.h"
using namespace vp;

#define SUITE(name, weight, ...) VP_SUITE_NOBALANCE(name, weight) { __VA_ARGS__; }
#if VP_PART == 0
SUITE(off_strings, 2, integrity<offt::strings, false>::run(r))
SUITE(raw_strings, 1, integrity<rawt::strings, true>::run(r))
VP_MAIN()
#elif VP_PART == 1
SUITE(off_maps, 2, integrity<offt::maps, false>::run(r))
SUITE(raw_vecs, 2, integrity<rawt::vecs, true>::run(r))
#elif VP_PART == 2
SUITE(off_values, 2, integrity<offt::values, false>::run(r))
#elif VP_PART == 3
SUITE(raw_graph, 1, integrity<rawt::graph, true>::run_no_static(r))
SUITE(off_graph, 2, integrity<offt::graph, false>::run_no_static(r))
#elif VP_PART == 4
SUITE(off_scalars, 1, integrity<offt::scalars, false>::run(r))
SUITE(off_aligned16, 1, integrity<offt::aligned16, false>::run(r))
SUITE(off_tree, 1, integrity<offt::tree, false>::run_no_static(r))
#elif VP_PART == 5
namespace near {
using namespace cista::offset;
template <int N> struct gens {};
#define NEAR(name, ...) struct name { __VA_ARGS__ }; inline void gen(rng&, name&, int) {}
NEAR(base, std::uint32_t a; std::uint16_t b; vector<std::uint32_t> c; string d;)
NEAR(renamed_members, std::uint32_t x; std::uint16_t y; vector<std::uint32_t> z; string w;)
NEAR(wider, std::uint32_t a; std::uint32_t b; vector<std::uint32_t> c; string d;)
NEAR(kind, float a; std::uint16_t b; vector<std::uint32_t> c; string d;)
NEAR(swapped, std::uint16_t a; std::uint32_t b; vector<std::uint32_t> c; string d;)
NEAR(element, std::uint32_t a; std::uint16_t b; vector<std::uint16_t> c; string d;)
NEAR(container, std::uint32_t a; std::uint16_t b; hash_set<std::uint32_t> c; string d;)
NEAR(more, std::uint32_t a; std::uint16_t b; vector<std::uint32_t> c; string d; std::uint8_t e;)
NEAR(fewer, std::uint32_t a; std::uint16_t b; vector<std::uint32_t> c;)
NEAR(wide_string, std::uint32_t a; std::uint16_t b; vector<std::uint32_t> c; u16string d;)
NEAR(opt, std::uint32_t a; std::uint16_t b; cista::optional<vector<std::uint32_t>> c; string d;)
}  // namespace near
SUITE(foreign_near, 1,
  switch (r.below(9)) {
    case 0: foreign_pair<near::base, near::wider>(r, "member width"); break;
    case 1: foreign_pair<near::base, near::kind>(r, "member kind"); break;
    case 2: foreign_pair<near::base, near::swapped>(r, "member order"); break;
    case 3: foreign_pair<near::base, near::element>(r, "element type"); break;
    case 4: foreign_pair<near::base, near::container>(r, "container kind"); break;
    case 5: foreign_pair<near::base, near::more>(r, "additional member"); break;
    case 6: foreign_pair<near::base, near::fewer>(r, "missing member"); break;
    case 7: foreign_pair<near::base, near::opt>(r, "optional member"); break;
    default: foreign_pair<near::base, near::wide_string>(r, "character type"); break;
  })
SUITE(foreign_far, 1,
  switch (r.below(5)) {
    case 0: foreign_pair<offt::strings, offt::vecs>(r, "strings / vecs"); break;
    case 1: foreign_pair<offt::strings, offt::scalars>(r, "strings / scalars"); break;
    case 2: foreign_pair<offt::vecs, offt::scalars>(r, "vecs / scalars"); break;
    case 3: foreign_pair<offt::aligned16, offt::scalars>(r, "aligned16 / scalars"); break;
    default: foreign_pair<offt::aligned16, offt::vecs>(r, "aligned16 / vecs"); break;
  })
#elif VP_PART == 7
SUITE(off_large, 1, { if (!r.chance(1, 5)) return integrity<offt::scalars, false>::run(r); ev("large_images"); integrity<offt::large, false>::run(r); })
SUITE(off_links, 1, integrity<offt::links, false>::run(r))
#elif VP_PART == 6
// (the static fingerprint is only computed at compile time with the default hash)
#if defined(CISTA_WYHASH_FASTEST)
SUITE(off_strings, 1, integrity<offt::strings, false>::with<VER>(r, "mode_version"))
// this algorithm reads twelve bytes of its input only
VP_FINDING(sampled_checksum) {
  cista::offset::vector<std::uint8_t> v(std::size_t{200}, std::uint8_t{7});
  auto b = cista::serialize<INTEG>(v);
  b[60] ^= 1U;
  image i{b};
  bool accepted = true;
  try {
    cista::deserialize<cista::offset::vector<std::uint8_t>, INTEG>(i.begin(), i.end());
  } catch (std::exception const&) {
    accepted = false;
  }
  VP_CHECK(!accepted, "bit_flip", "an altered image was accepted: WYHASH_FASTEST, bit 0 of byte 60 of a vector of 200 bytes");
}
#else
SUITE(off_strings, 1, integrity<offt::strings, false>::run_no_static(r))
SUITE(off_vecs, 1, integrity<offt::vecs, false>::run_no_static(r))
#endif
VP_MAIN()
#endif
