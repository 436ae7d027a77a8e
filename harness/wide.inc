// Values with variants of so many alternatives that their index takes two
// bytes (included with NS: cista::raw or cista::offset).
template <std::size_t> using number = std::uint16_t;  // (distinct types take minutes to compile)
template <typename S> struct wide_of;
template <std::size_t... I>
struct wide_of<std::index_sequence<I...>> { using type = cista::variant<number<I>..., std::uint32_t>; };
constexpr std::size_t const N_NTH = 270;
using wide = wide_of<std::make_index_sequence<N_NTH>>::type;
static_assert(sizeof(typename wide::index_t) == 2U);
struct holder {
  auto cista_members() { return std::tie(a_, b_, c_); }
  wide a_{std::uint16_t{0}};
  NS::vector<wide> b_;
  cista::optional<std::uint32_t> c_;
};

struct expected {
  std::vector<std::pair<std::size_t, std::string>> all;  // index, rendered value
};
inline std::pair<std::size_t, std::string> fill(rng& r, wide& v) {
  auto const k = r.chance(1, 2) ? r.below(N_NTH + 1) : r.chance(1, 2) ? 254U + r.below(6) : N_NTH - r.below(3);
  if (k == N_NTH) {
    auto const x = static_cast<std::uint32_t>(r.value());
    v = x;
    return {k, std::to_string(x)};
  }
  auto const x = static_cast<std::uint16_t>(r.below(65536));
  v = x;
  v.idx_ = static_cast<wide::index_t>(k);
  return {k, std::to_string(x)};
}
inline std::pair<std::size_t, std::string> look(wide const& v) {
  std::string s = "nothing";
  v.apply([&](auto&& x) { s = std::to_string(x); });
  return {v.index(), s};
}
inline std::unique_ptr<holder> make(rng& r, expected& e) {
  auto h = std::make_unique<holder>();
  e.all.push_back(fill(r, h->a_));
  for (auto n = r.below(20); n != 0U; --n) {
    h->b_.emplace_back(wide{std::uint16_t{0}});
    e.all.push_back(fill(r, h->b_.back()));
  }
  h->c_ = static_cast<std::uint32_t>(e.all.size());
  std::uint64_t d = 0;
  for (auto const& [k, s] : e.all) d = mix(d, fnv(s.data(), s.size()) + k);
  distinct(d);
  op("%zu variants, the first holds alternative %zu", e.all.size(), e.all[0].first);
  return h;
}
inline void judge(holder const& h, expected const& e, char const* how) {
  VP_CHECK(h.c_.has_value() && *h.c_ == e.all.size() && h.b_.size() + 1U == e.all.size(), "value-differs", "%s: number of variants", how);
  for (std::size_t i = 0; i != e.all.size(); ++i) {
    auto const got = look(i == 0U ? h.a_ : h.b_[static_cast<std::uint32_t>(i - 1U)]);
    VP_CHECK(got == e.all[i], "value-differs", "%s: variant %zu holds alternative %zu (%s) instead of %zu (%s)", how, i, got.first, got.second.c_str(), e.all[i].first, e.all[i].second.c_str());
  }
  ev(how);
}

template <cista::mode M>
void round_trip_wide(rng& r) {
  expected e;
  auto h = make(r, e);
  auto const b = to_image<M>(*h, r);
  judge(*h, e, "wide_source");
  h.reset();
  auto const read = [&](char const* how, auto&& get) {
    image i{b};
    must_accept("valid-rejected", [&]() { judge(*get(i), e, how); });
  };
  read("wide_checked", [](image& i) { return cista::deserialize<holder, M>(i.begin(), i.end()); });
  read("wide_deep", [](image& i) { return cista::deserialize<holder, M | DEEP>(i.begin(), i.end()); });
  read("wide_unchecked", [](image& i) { return cista::unchecked_deserialize<holder, M>(i.begin(), i.end()); });
  image i{b};
  must_accept("valid-rejected", [&]() {
    auto* const p = cista::deserialize<holder, M>(i.begin(), i.end());
    constexpr auto const N = static_cast<cista::mode>(static_cast<unsigned>(M) & ~static_cast<unsigned>(BE));
    auto const b2 = to_image<N>(*p, r, false);
    image i2{b2};
    judge(*cista::deserialize<holder, N>(i2.begin(), i2.end()), e, "wide_second_generation");
  });
}

// the fields of the other byte order
inline void reversed_wide(rng& r) {
  expected e;
  auto h = make(r, e);
  auto const le = to_image<NONE>(*h, r);
  auto const be = to_image<BE>(*h, r);
  h.reset();
  VP_CHECK(le.size() == be.size(), "size", "the images have %zu and %zu bytes", le.size(), be.size());
  image i{le};
  auto* const p = cista::deserialize<holder>(i.begin(), i.end());
  auto const rev = [&](wide const& v) {
    auto const at = static_cast<std::size_t>(reinterpret_cast<std::uint8_t const*>(&v.idx_) - i.begin());
    VP_CHECK(be[at] == le[at + 1U] && be[at + 1U] == le[at], "not-reversed", "index of a variant: %02x%02x in one byte order, %02x%02x in the other one", le[at], le[at + 1U], be[at], be[at + 1U]);
    ev("wide_reversed");
  };
  rev(p->a_);
  for (auto const& v : p->b_) rev(v);
}

// any index instead of the stored one: rejected or one of the alternatives
inline void hostile_wide(rng& r) {
  expected e;
  auto h = make(r, e);
  auto b = to_image<NONE>(*h, r);
  h.reset();
  auto const which = r.below(e.all.size());
  std::size_t at = 0;
  {
    image i{b};
    auto const* p = cista::deserialize<holder>(i.begin(), i.end());
    at = static_cast<std::size_t>(reinterpret_cast<std::uint8_t const*>(&(which == 0U ? p->a_ : p->b_[static_cast<std::uint32_t>(which - 1U)]).idx_) - i.begin());
  }
  std::uint16_t const interesting[] = {static_cast<std::uint16_t>(N_NTH + 1U), static_cast<std::uint16_t>(N_NTH + 2U), 0xFFFFU, 0xFFFEU, 0x8000U, 512U, 0x0200U + 5U, 0xFF00U};
  auto const x = r.chance(1, 3) ? static_cast<std::uint16_t>(r.below(65536)) : r.chance(1, 4) ? static_cast<std::uint16_t>(r.below(N_NTH)) : interesting[r.below(8)];
  std::memcpy(&b[at], &x, 2U);
  auto const one = [&](auto&& get) {
    image i{b};
    try {
      auto const* p = get(i);
      auto const& v = which == 0U ? p->a_ : p->b_[static_cast<std::uint32_t>(which - 1U)];
      VP_CHECK(v.index() <= N_NTH, "accepted", "an image with a variant of index %u (%zu alternatives) was accepted", x, N_NTH + 1U);
      (void)look(v);
      ev("wide_accepted");
    } catch (cista::cista_exception const&) {
      VP_CHECK(x >= N_NTH, "rejected", "an image with a variant of index %u (%zu alternatives) was rejected", x, N_NTH + 1U);
      ev("wide_rejected");
    }
  };
  one([](image& i) { return cista::deserialize<holder>(i.begin(), i.end()); });
  one([](image& i) { return cista::deserialize<holder, DEEP>(i.begin(), i.end()); });
}
