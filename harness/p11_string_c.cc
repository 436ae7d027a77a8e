// P11: NUL-terminated strings (binary content allowed).
#include "str_test.h"
using namespace vp;
VP_SUITE(cstring_off, 6) { str_test<cista::offset::cstring, true, false>::run(r); }
VP_SUITE(cstring_ptr, 3) { str_test<cista::basic_cstring<char const*>, true, false>::run(r); }
VP_SUITE(cstring_view_off, 2) { str_test<cista::basic_cstring_view<cista::offset::ptr<char const>>, true, true>::run(r); }
