// the graph's special cases, and the comparison itself
template <>
struct M<mm_t> { static void go(mctx& c, mm_t& v, rng& r) { mutate_mm<std::uint32_t, std::uint32_t, 6U>(c, v, r); } };
// in the graph others point at the targets: these stay where they are
template <>
struct M<data::unique_ptr<gnode>> { static void go(mctx& c, data::unique_ptr<gnode>& v, rng& r) { stay(c, v, r); } };
template <>
struct M<data::unique_ptr<inner>> { static void go(mctx& c, data::unique_ptr<inner>& v, rng& r) { stay(c, v, r); } };
template <>
struct M<data::vector<data::unique_ptr<gnode>>> {
  static void go(mctx& c, data::vector<data::unique_ptr<gnode>>& v, rng& r) {
    switch (r.below(6)) {
      case 0: { c.note("push_back"); v.push_back(data::make_unique<gnode>()); gen(r, *v.back(), 1); break; }
      case 1: { c.note("insert"); auto x = data::make_unique<gnode>(); gen(r, *x, 1); auto* p = v.insert(v.begin() + r.below(v.size() + 1U), std::move(x)); c.num(static_cast<std::uint64_t>(p - v.begin())); break; }
      case 2: { c.note("reserve"); v.reserve(static_cast<std::uint32_t>(v.size() + r.below(9))); break; }
      case 3: { c.note("out-and-back"); auto t = std::move(v); c.num(v.size()); v = std::move(t); break; }
      default: if (!v.empty()) { auto const i = r.below(v.size()); c.num(i); mutate(c, v[static_cast<std::uint32_t>(i)], r); }
    }
  }
};
template <typename T> struct may_move : std::true_type {};
template <> struct may_move<graph> : std::false_type {};
