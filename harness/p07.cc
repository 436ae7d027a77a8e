#include "p07.h"
using namespace vp;
#define FULL(t, raw, a) big_endian<t, raw, a, true>::run(r)
#define RECURSIVE(t, raw, a) big_endian<t, raw, a, false>::run(r)
#define NOHASH(t, raw, a) big_endian<t, raw, a, false>::run_unversioned(r)
#define TYPE(name, t, raw, weight, kind, a) \
  VP_SUITE_NOBALANCE(name, weight) { kind(t, raw, a); }
#define VP_NO_RTREE 1
#include "ser_parts.inc"
#if VP_PART == 0
VP_SUITE_NOBALANCE(scalar_swap, 1) {
  op("every scalar width");
  swap_facts<bool>(r, "bool"); swap_facts<char>(r, "char"); swap_facts<std::int8_t>(r, "int8");
  swap_facts<std::uint16_t>(r, "uint16"); swap_facts<std::int16_t>(r, "int16"); swap_facts<char16_t>(r, "char16");
  swap_facts<std::uint32_t>(r, "uint32"); swap_facts<std::int32_t>(r, "int32"); swap_facts<char32_t>(r, "char32");
  swap_facts<std::uint64_t>(r, "uint64"); swap_facts<std::int64_t>(r, "int64");
  swap_facts<float>(r, "float"); swap_facts<double>(r, "double");
  swap_facts<offt::color>(r, "enum8"); swap_facts<offt::plain>(r, "enum32"); swap_facts<offt::wide>(r, "enum64");
}
VP_MAIN()
#endif
