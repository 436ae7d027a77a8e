// P11: inline/heap strings, 8 bit characters.
#include "str_test.h"
using namespace vp;
VP_SUITE(string_raw, 5) { str_test<cista::raw::string, false, false>::run(r); }
VP_SUITE(string_off, 5) { str_test<cista::offset::string, false, false>::run(r); }
VP_SUITE(string_view_raw, 2) { str_test<cista::raw::string_view, false, true>::run(r); }
VP_SUITE(string_view_off, 2) { str_test<cista::offset::string_view, false, true>::run(r); }
VP_SUITE(generic_raw, 2) { generic_str_test<cista::raw::generic_string>::run(r); }
VP_SUITE(generic_off, 2) { generic_str_test<cista::offset::generic_string>::run(r); }

// converting between the string kinds and to std types
VP_SUITE(conversions, 2) {
  auto const m = gen_chars<char>(r);
  cista::raw::string a{m};
  cista::offset::string b{a.view()};
  cista::raw::string_view v{a.view()};
  cista::offset::string_view w{m};
  op("len %zu", m.size());
  ev("convert");
  VP_CHECK(std::string{a} == m && std::string{b} == m, "to-std", "explicit conversion to std::string");
  VP_CHECK(v.view() == m && w.view() == m, "view", "views");
  VP_CHECK(cista::hashing<cista::raw::string>{}(a) == cista::hashing<cista::offset::string_view>{}(w), "hash", "across kinds");
  VP_CHECK(cista::format_as(a) == m, "format_as", "format_as");
  a = "short";
  VP_CHECK(b.view() == m, "independent", "owning strings are independent");
  distinct(fnv(m.data(), m.size()));
}
VP_MAIN()
