// Compilers name types differently: unnamed structs share one name here.
#include "p06.h"
using namespace vp;
namespace {
struct a { struct { std::uint32_t x; } m; struct { float x; } n; };
struct b { struct { std::uint32_t x; } m; struct { std::uint32_t x; } n; };
struct c { struct { float x; } m; struct { std::uint32_t x; } n; };
struct d { struct { std::uint32_t x; } m; struct { float x; } n; };
namespace q { struct d { struct { std::uint32_t x; } y; struct { float x; } z; }; }
void differ(fingerprint const& x, fingerprint const& y, char const* what) {
  VP_CHECK(x.dynamic_() != y.dynamic_(), "edit-unseen", "%s: same dynamic fingerprint", what);
#if defined(__clang__)  // (elsewhere a known finding)
  VP_CHECK(x.static_() != y.static_(), "edit-unseen-static", "%s: same static fingerprint", what);
#endif
}
void equal(fingerprint const& x, fingerprint const& y, char const* what) {
  VP_CHECK(x.dynamic_() == y.dynamic_(), "rename-changes", "%s: dynamic fingerprints of one structure differ", what);
  VP_CHECK(x.static_() == y.static_(), "rename-changes-static", "%s: static fingerprints of one structure differ", what);
}
}  // namespace
VP_SUITE_NOBALANCE(unnamed, 1) {
  op("unnamed structs");
  distinct(st().case_no % 6U);
  switch (st().case_no % 6U) {
    case 0: differ(fp<a>(), fp<b>(), "unnamed members"); break;
    case 1: differ(fp<a>(), fp<c>(), "unnamed members swapped"); break;
    case 2: equal(fp<a>(), fp<d>(), "unnamed members"); break;
    case 3: equal(fp<q::d>(), fp<d>(), "unnamed members, nested scope"); break;
    case 4:
      if constexpr (true) {
        constexpr auto const at_compile_time = cista::static_type_hash<q::d>();
        VP_CHECK(at_compile_time == fp<q::d>().static_(), "unstable", "compile time and run time fingerprints differ");
      }
      break;
    default: VP_CHECK(cista::static_type_hash<a>() == fp<a>().static_(), "unstable", "compile time and run time fingerprints differ");
  }
  ev("unnamed");
}
VP_FINDING(unnamed_static) {
  VP_CHECK(fp<a>().static_() != fp<b>().static_(), "edit-unseen-static", "two unnamed structs in one struct");
}
VP_MAIN()
