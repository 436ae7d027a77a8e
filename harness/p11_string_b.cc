// P11: wide characters.
#include "str_test.h"
using namespace vp;
VP_SUITE(u16_raw, 3) { str_test<cista::raw::u16string, false, false>::run(r); }
VP_SUITE(u32_off, 3) { str_test<cista::offset::u32string, false, false>::run(r); }
VP_SUITE(u16_off, 2) { str_test<cista::offset::u16string, false, false>::run(r); }
VP_SUITE(generic_u16, 1) { generic_str_test<cista::offset::generic_u16string>::run(r); }
VP_SUITE(generic_u32, 1) { generic_str_test<cista::raw::generic_u32string>::run(r); }
VP_SUITE(u32_view_raw, 1) { str_test<cista::raw::u32string_view, false, true>::run(r); }
