// P01: what pointers to parts of the graph, and to anything else, read back as.
#include <cstdio>
#include "common.h"
// (the library warns of pointers to something else)
inline int vp_quiet(char const*, ...) { return 0; }
namespace std { using ::vp_quiet; }
#define printf vp_quiet
#include "cista/serialization.h"
#undef printf

#include "p01.h"
using namespace vp;

static std::string rnd_name(rng& r) {
  std::string s(r.chance(1, 2) ? r.below(14) : 14U + r.below(30), 'x');
  for (auto& c : s) c = static_cast<char>('a' + r.below(26));
  return s;
}

namespace refs_raw {
#define NS cista::raw
#include "p01_refs.inc"
#undef NS
}  // namespace refs_raw
namespace refs_off {
#define NS cista::offset
#include "p01_refs.inc"
#undef NS
}  // namespace refs_off

VP_SUITE_NOBALANCE(raw_references, 1) { refs_raw::run(r); }
VP_SUITE_NOBALANCE(off_references, 1) { refs_off::run(r); }
