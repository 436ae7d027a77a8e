#include "p06.h"
#include "ser_test.h"
using namespace vp;

namespace {
struct seen {
  std::uint64_t d, s;
  bool operator==(seen const& o) const { return d == o.d && s == o.s; }
};
seen compute(fingerprint const& f, bool const static_first) {
  seen x{};
  if (static_first) x.s = f.static_();
  x.d = f.dynamic_();
  if (!static_first) x.s = f.static_();
  return x;
}
}  // namespace

// every generated type against its renamed copies and its single edits, in
// changing order, with unrelated computations in between
VP_SUITE_NOBALANCE(generated, 10) {
  auto const& gs = groups();
  auto const& g = gs[st().case_no % gs.size()];
  op("%.300s", g.structure);
  distinct(fnv(g.structure, std::strlen(g.structure)));
  auto const base = compute(g.base, r.coin());
  auto order = std::vector<std::size_t>{};
  for (std::size_t i = 0; i != g.others.size(); ++i) order.insert(order.begin() + static_cast<long>(r.below(order.size() + 1U)), i);
  for (auto const i : order) {
    auto const& o = g.others[i];
    if (r.coin()) compute(r.pick(gs).base, r.coin());
    auto const x = compute(o.f, r.coin());
    if (o.rel == types_equal) {
      VP_CHECK(x.d == base.d, "rename-changes", "%s: the dynamic fingerprint depends on names: %.700s", o.what, g.structure);
      VP_CHECK(x.s == base.s, "rename-changes-static", "%s: the static fingerprint depends on names: %.700s", o.what, g.structure);
      ev(o.what);
    } else {
      VP_CHECK(x.d != base.d, "edit-unseen", "%s: same dynamic fingerprint: %.600s / %.600s", o.what, g.structure, o.structure);
      VP_CHECK(x.s != base.s, "edit-unseen-static", "%s: same static fingerprint: %.600s / %.600s", o.what, g.structure, o.structure);
      ev(std::strncmp(o.what, "scalar", 6) == 0 ? "scalar changed" : o.what);
      distinct(fnv(o.structure, std::strlen(o.structure)));
    }
    VP_CHECK(compute(o.f, r.coin()) == x, "unstable", "computing the fingerprint again gives another result: %.700s", o.structure);
  }
  VP_CHECK(compute(g.base, r.coin()) == base, "unstable", "computing the fingerprint again gives another result: %.700s", g.structure);
}

// ------------------------------------------------------------ written by hand
namespace hand {
using namespace cista::offset;
using cista::optional;
using cista::pair;
using cista::tuple;
using cista::variant;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
template <typename T>
using pvv = cista::paged_vecvec<vector<cista::page<u32, T>>, cista::paged<vector<T>>, u32>;
#define ST(name, ...) struct name { __VA_ARGS__ }

// the same edit on a recursive path
ST(list_a, u32 v; unique_ptr<list_a> next;);
ST(list_b, u64 v; unique_ptr<list_b> next;);
ST(list_c, u32 v; ptr<list_c> next;);
ST(list_d, u32 v; vector<list_d> next;);
ST(list_e, u32 v; unique_ptr<list_a> next;);
ST(odd_a, u32 a; ptr<struct even_a> p;); ST(even_a, u16 b; ptr<odd_a> p;);
ST(odd_b, u32 a; ptr<struct even_b> p;); ST(even_b, u16 b; ptr<even_b> p;);
ST(odd_c, u32 a; ptr<struct even_c> p;); ST(even_c, u32 b; ptr<odd_c> p;);
ST(odd_d, u32 a; ptr<struct even_d> p;); ST(even_d, u16 b; unique_ptr<odd_d> p;);
ST(odd_e, u32 x; ptr<struct even_e> y;); ST(even_e, u16 z; ptr<odd_e> w;);

// repeated types
ST(rep_a, u32 a; u16 b; u32 c;);
ST(rep_b, u32 a; u16 b; u16 c;);
ST(rep_c, u32 a; u32 b; u16 c;);
ST(rep_d, u16 a; u32 b; u16 c;);
ST(in_a, u32 a; u16 b;); ST(in_b, u32 a; u16 b; u8 c;);
ST(two_a, in_a x; in_b y; in_a z;);
ST(two_b, in_a x; in_b y; in_b z;);

ST(nest_a, in_a x; u32 c;);

template <std::size_t N>
ST(in_mm, u16 a; mutable_fws_multimap<u32, u32, N> m; u16 b;);

// edits at the end of a long chain of types and of a long list of members
template <std::size_t N, typename End>
ST(chain, u16 a; vector<chain<N - 1U, End>> b;);
template <typename End>
ST(chain0, End e;);
template <typename End>
struct chain<0U, End> : public chain0<End> { auto cista_members() { return std::tie(this->e); } };
#define VP_M7(x) u32 x##0, x##1, x##2, x##3, x##4, x##5, x##6;
template <typename A, typename B>
ST(wide, VP_M7(a) VP_M7(b) VP_M7(c) VP_M7(d) A m; VP_M7(e) VP_M7(f) VP_M7(g) VP_M7(h) B last;);

// constness is not structure
ST(c_a, ptr<u32> a; ptr<u64> b;);
ST(c_b, ptr<u32 const> a; ptr<u64 const> b;);

template <typename Dur> using TP = std::chrono::time_point<std::chrono::system_clock, Dur>;
using V = pair<fingerprint, fingerprint>;
struct row { char const* what; relation rel; fingerprint a, b; };
#define D(what, ...) row{what, types_differ, fp_pair<__VA_ARGS__>::a(), fp_pair<__VA_ARGS__>::b()}
#define E(what, ...) row{what, types_equal, fp_pair<__VA_ARGS__>::a(), fp_pair<__VA_ARGS__>::b()}
// (only the static fingerprint supports these)
#define DS(what, ...) row{what, types_differ, fp_static<__VA_ARGS__>::a(), fp_static<__VA_ARGS__>::b()}
template <typename A, typename B>
struct fp_static {
  static fingerprint a() { return {[]() -> std::uint64_t { return 1U; }, []() -> std::uint64_t { return cista::static_type_hash<A>(); }}; }
  static fingerprint b() { return {[]() -> std::uint64_t { return 2U; }, []() -> std::uint64_t { return cista::static_type_hash<B>(); }}; }
};
template <typename A, typename B>
struct fp_pair {
  static fingerprint a() { return fp<A>(); }
  static fingerprint b() { return fp<B>(); }
};
std::vector<row> const& rows() {
  static auto const* const r = new std::vector<row>{
      D("recursive: scalar", list_a, list_b), D("recursive: pointer kind", list_a, list_c), D("recursive: container", list_a, list_d),
      D("recursive: container 2", list_c, list_d), D("mutually recursive: target", odd_a, odd_b), D("mutually recursive: scalar", odd_a, odd_c),
      D("mutually recursive: pointer kind", odd_a, odd_d), E("mutually recursive: names", odd_a, odd_e),
      D("repeated: last", rep_a, rep_b), D("repeated: order", rep_a, rep_c), D("repeated: order 2", rep_b, rep_d), D("repeated: order 3", rep_a, rep_d),
      D("repeated struct", two_a, two_b), E("const pointee", c_a, c_b),
      D("vector element", vector<u8>, vector<u16>), D("vector size type", cista::basic_vector<u8, ptr>, cista::basic_vector<u8, ptr, false, u64>),
      D("vector size type 16", cista::basic_vector<u8, ptr>, cista::basic_vector<u8, ptr, false, u16>),
      D("vector / set", vector<u32>, hash_set<u32>), D("vector / optional", vector<u32>, optional<u32>), D("vector / unique_ptr", vector<u32>, unique_ptr<u32>),
      D("vector / ptr", vector<u32>, ptr<u32>), D("unique_ptr / ptr", unique_ptr<u32>, ptr<u32>), D("optional / scalar", optional<u32>, u32),
      D("set / map", hash_set<u32>, hash_map<u32, u32>), D("map key", hash_map<u32, u16>, hash_map<u64, u16>), D("map value", hash_map<u32, u16>, hash_map<u32, u64>),
      D("map key and value", hash_map<u32, u16>, hash_map<u16, u32>), D("pair order", pair<u32, u16>, pair<u16, u32>), D("pair / tuple", pair<u32, u16>, tuple<u32, u16>),
      D("tuple order", tuple<u32, u16>, tuple<u16, u32>), D("tuple count", tuple<u32, u16>, tuple<u32, u16, u16>), D("tuple / variant", tuple<u32, u16>, variant<u32, u16>),
      D("variant order", variant<u32, u16>, variant<u16, u32>), D("variant more", variant<u32, u16>, variant<u32, u16, u8>), D("variant other", variant<u32, u16>, variant<u32, float>),
      D("array extent", cista::array<u32, 3>, cista::array<u32, 4>), D("array element", cista::array<u32, 3>, cista::array<u16, 3>),
      D("array / vector", cista::array<u32, 3>, vector<u32>), D("nested array", cista::array<cista::array<u32, 3>, 2>, cista::array<cista::array<u32, 2>, 3>),
      D("string / vector", string, vector<char>), D("character type 16", string, u16string), D("character type 32", string, u32string), D("character types", u16string, u32string),
      D("generic character type 16", generic_string, generic_u16string), D("generic character type 32", generic_u32string, generic_u16string),
      D("string_view character type", string_view, u32string_view),
      D("nested vector element", vector<vector<vector<u32>>>, vector<vector<vector<u64>>>), D("nesting depth", vector<vector<u32>>, vector<vector<vector<u32>>>),
      D("pointee", ptr<u32>, ptr<u16>), D("pointee struct", ptr<in_a>, ptr<in_b>), D("pointer depth", ptr<u32>, ptr<ptr<u32>>),
      D("owned", unique_ptr<in_a>, unique_ptr<in_b>), D("optional content", optional<in_a>, optional<in_b>),
      D("jagged element", vecvec<u32, u8>, vecvec<u32, u16>), D("nvec dimensions", nvec<u32, u8, 2>, nvec<u32, u8, 3>),
      D("multimap element", mutable_fws_multimap<u32, u8>, mutable_fws_multimap<u32, u16>), D("fws element", fws_multimap<u32, u8>, fws_multimap<u32, u16>),
      D("multimap index type", mutable_fws_multimap<u32, u8>, mutable_fws_multimap<u64, u8>), D("multimap bucket limit", mutable_fws_multimap<u32, u8, 5>, mutable_fws_multimap<u32, u8, 6>),
      D("multimap bucket limit 2", in_mm<20>, in_mm<4>), D("jagged index type", vecvec<u32, u8>, vecvec<u32, u8, u64>),
      D("paged element", pvv<u8>, pvv<u16>), D("jagged / multimap", vecvec<u32, u8>, fws_multimap<u32, u8>),
      D("bit set blocks", cista::bitset<64>, cista::bitset<65>), D("bit set / words", cista::bitset<64>, cista::bitset<256>), D("bit vector / bit set", bitvec, cista::bitset<64>),
      D("duration width", std::chrono::duration<std::int32_t>, std::chrono::duration<std::int64_t>),
      D("time point", std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int32_t>>, std::chrono::duration<std::int32_t>),
      D("time point width", TP<std::chrono::duration<std::int32_t>>, TP<std::chrono::duration<std::int64_t>>),
      D("time point / integer", TP<std::chrono::duration<u64>>, u64), D("duration / integer", std::chrono::duration<u64>, u64),
      DS("std pair order", std::pair<u32, u16>, std::pair<u16, u32>), DS("std pair first", std::pair<u32, u16>, std::pair<u64, u16>), DS("std pair second", std::pair<u32, u16>, std::pair<u32, u64>),
      D("pair second", pair<u32, u16>, pair<u32, u64>), D("tuple last", tuple<u32, u16, u8>, tuple<u32, u16, u64>),
      D("set element", hash_set<u32>, hash_set<u64>), D("set element 2", hash_set<string>, hash_set<u64>), D("map of maps", hash_map<u32, hash_map<u32, u8>>, hash_map<u32, hash_map<u32, u16>>),
      D("unique_ptr target", unique_ptr<u32>, unique_ptr<u64>), D("vector of ptr", vector<ptr<u32>>, vector<ptr<u64>>), D("vector / array of 1", vector<u32>, cista::array<u32, 1>),
      D("strong / plain", cista::strong<u32, p06e::tag>, u64), D("optional width", optional<u32>, optional<u64>), D("optional / variant", optional<u32>, variant<u32>),
      D("nvec element", nvec<u32, u8, 2>, nvec<u32, u16, 2>), D("vecvec / nvec", vecvec<u32, u8>, nvec<u32, u8, 2>), D("fws index type", fws_multimap<u32, u8>, fws_multimap<u64, u8>),
      D("strong width", cista::strong<u32, p06e::tag>, cista::strong<u16, p06e::tag>), D("enum width", p06e::e8, p06e::e32), D("enum / integer", p06e::e32, u32),
      D("float / double", float, double), D("float / integer", float, u32), D("double / integer", double, u64),
      D("integer 8/16", u8, u16), D("integer 16/32", u16, u32), D("integer 32/64", u32, u64),
      D("indexed element", indexed_vector<u32>, indexed_vector<u16>),
      D("flat / nested", rep_a, nest_a),
      D("chain of 100", chain<100U, u32>, chain<100U, u16>), D("chain of 100 and 101", chain<100U, u32>, chain<101U, u32>), D("chain of 20", chain<20U, u32>, chain<20U, float>),
      D("58 members: last", wide<u32, u32>, wide<u32, u16>), D("58 members: middle", wide<u32, u32>, wide<u8, u32>), D("58 members: swapped", wide<u16, u8>, wide<u8, u16>),
      D("array extent + 256", cista::array<u32, 1>, cista::array<u32, 257>), D("array extent + 65536", cista::array<u8, 2>, cista::array<u8, 65538>),
      D("array extent * 2", cista::array<u64, 8>, cista::array<u64, 16>), D("array extent 0", cista::array<u32, 1>, u32),
      D("bit set of 256 more", cista::bitset<64>, cista::bitset<64 + 64 * 256>),
      D("variant, last of 20", variant<u8, u16, u32, u64, float, double, string, vector<u8>, vector<u16>, vector<u32>, vector<u64>, vector<float>, ptr<u8>, ptr<u16>, ptr<u32>, ptr<u64>, optional<u8>, optional<u16>, optional<u32>, optional<u64>>,
        variant<u8, u16, u32, u64, float, double, string, vector<u8>, vector<u16>, vector<u32>, vector<u64>, vector<float>, ptr<u8>, ptr<u16>, ptr<u32>, ptr<u64>, optional<u8>, optional<u16>, optional<u32>, optional<float>>),
  };
  return *r;
}
}  // namespace hand

VP_SUITE_NOBALANCE(by_hand, 4) {
  auto const& rs = hand::rows();
  auto const& o = rs[st().case_no % rs.size()];
  op("%s", o.what);
  distinct(fnv(o.what, std::strlen(o.what)));
  if (r.coin()) compute(r.pick(rs).a, r.coin());
  auto const a = compute(o.a, r.coin());
  auto const b = compute(o.b, r.coin());
  if (o.rel == types_equal) {
    VP_CHECK(a == b, "rename-changes", "%s: fingerprints of the same structure differ", o.what);
  } else {
    VP_CHECK(a.d != b.d, "edit-unseen", "%s: same dynamic fingerprint", o.what);
    VP_CHECK(a.s != b.s, "edit-unseen-static", "%s: same static fingerprint", o.what);
  }
  VP_CHECK(compute(o.a, r.coin()) == a, "unstable", "%s: computing the fingerprint again gives another result", o.what);
  ev("by_hand");
}

// the fingerprint says nothing about a value
template <typename T>
static void value_independent(rng& r) {
  auto v = std::make_unique<T>();
  gen(r, *v, 2);
  op("%.300s", render(*v).c_str());
  auto done = std::map<cista::hash_t, unsigned>{};
  VP_CHECK(cista::type_hash(*v, cista::BASE_HASH, done) == cista::type_hash<T>(), "value-dependent", "the fingerprint depends on the value");
  distinct(fnv(render(*v).data(), render(*v).size()));
  ev("of_a_value");
}
VP_SUITE_NOBALANCE(values, 3) {
  switch (r.below(5)) {
    case 0: return value_independent<offt::values>(r);
    case 1: return value_independent<offt::maps>(r);
    case 2: return value_independent<offt::graph>(r);
    case 3: return value_independent<rawt::vecs>(r);
    default: return value_independent<rawt::tree>(r);
  }
}

// ---------------------------------------------------------------- findings
namespace {
template <typename A, typename B>
void same(char const* what) {
  auto const a = compute(fp<A>(), false), b = compute(fp<B>(), false);
  VP_CHECK(a.d != b.d && a.s != b.s, "edit-unseen", "%s: same fingerprint%s%s", what, a.d == b.d ? " dynamic" : "", a.s == b.s ? " static" : "");
}
}  // namespace
namespace flat {
struct i1 { std::uint32_t a; float b; };
struct i2 { std::uint32_t a; };
struct s1 { i1 a; double c; };
struct s2 { i2 a; float b; double c; };
}  // namespace flat
VP_FINDING(struct_boundary) { same<flat::s1, flat::s2>("struct { struct { u32; float }; double } / struct { struct { u32 }; float; double }"); }
VP_FINDING(variant_boundary) {
  same<cista::tuple<cista::variant<std::uint32_t, float>, double>, cista::tuple<cista::variant<std::uint32_t, float, double>>>("tuple<variant<u32, float>, double> / tuple<variant<u32, float, double>>");
}
VP_FINDING(pair_boundary) {
  same<cista::offset::hash_map<std::uint32_t, float>, cista::pair<cista::offset::hash_set<std::uint32_t>, float>>("map<u32, float> / pair<set<u32>, float>");
}
VP_FINDING(array_boundary) {
  same<cista::array<cista::offset::vector<std::uint32_t>, 3>, cista::offset::vector<cista::array<std::uint32_t, 3>>>("array<vector<u32>, 3> / vector<array<u32, 3>>");
}
VP_MAIN()
