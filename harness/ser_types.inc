// Included once per pointer flavour: NS is cista::raw or cista::offset.
using namespace vp;
namespace data = NS;

enum class color : std::uint8_t { red, green, blue };
enum class wide : std::int64_t { a = -5, b = 1LL << 40, c = 7 };
enum plain : std::uint32_t { p0, p1 = 70000U };

struct scalars {
  VP_FIELDS(b_, c_, i8_, u8_, i16_, u16_, i32_, u32_, i64_, u64_, f_, d_, col_, w_, p_, arr_)
  bool b_{};
  char c_{};
  std::int8_t i8_{};
  std::uint8_t u8_{};
  std::int16_t i16_{};
  std::uint16_t u16_{};
  std::int32_t i32_{};
  std::uint32_t u32_{};
  std::int64_t i64_{};
  std::uint64_t u64_{};
  float f_{};
  double d_{};
  color col_{};
  wide w_{};
  plain p_{};
  cista::array<std::uint16_t, 3> arr_{};
};
inline void gen(rng& r, scalars& s, int) {
  s.b_ = r.coin();
  s.c_ = static_cast<char>(r.value());
  s.i8_ = static_cast<std::int8_t>(r.value());
  s.u8_ = static_cast<std::uint8_t>(r.value());
  s.i16_ = static_cast<std::int16_t>(r.value());
  s.u16_ = static_cast<std::uint16_t>(r.value());
  s.i32_ = static_cast<std::int32_t>(r.value());
  s.u32_ = static_cast<std::uint32_t>(r.value());
  s.i64_ = static_cast<std::int64_t>(r.value());
  s.u64_ = r.value();
  s.f_ = static_cast<float>(r.range(-100000, 100000)) / 7.F;
  s.d_ = static_cast<double>(static_cast<std::int64_t>(r.next())) / 3.0;
  s.col_ = static_cast<color>(r.below(3));
  s.w_ = r.coin() ? wide::a : wide::b;
  s.p_ = r.coin() ? p0 : p1;
  for (auto& x : s.arr_) x = static_cast<std::uint16_t>(r.value());
}

inline std::string rnd_str(rng& r) {
  auto const n = r.chance(1, 3) ? r.below(9) : r.chance(1, 2) ? 12U + r.below(8) : r.below(60);
  std::string s(n, 'x');
  for (auto& c : s) c = static_cast<char>(1 + r.below(255));
  return s;
}
// views of whole literals, and of parts of one (not followed by a terminator)
static constexpr std::string_view const kLong{"a rather long literal held by a view, not owned, much longer than what fits into a string itself and longer than a cache line, with parts that are viewed as well"};
static std::string_view const kViews[] = {"", "short", "exactly fifteen", "a sixteen char s", kLong, kLong.substr(0, 9), kLong.substr(5, 15), kLong.substr(3, 17), kLong.substr(20, 70), kLong.substr(1)};
inline void gen(rng& r, data::string& s, int) {
  if (r.chance(1, 6)) s.set_non_owning(kViews[r.below(10)]); else s = rnd_str(r);
}
inline void gen(rng& r, data::string_view& s, int) { s = data::string_view{kViews[r.below(10)]}; }
inline void gen(rng& r, data::cstring& s, int) {
  if (r.chance(1, 6)) s.set_non_owning(kViews[r.below(10)]); else s = data::cstring{rnd_str(r)};
}
inline void gen(rng& r, data::u16string& s, int) {
  std::u16string x(r.size(150), u'x');
  for (auto& c : x) c = static_cast<char16_t>(1 + r.below(65535));
  s = std::u16string_view{x};
}
inline void gen(rng& r, data::u32string& s, int) {
  std::u32string x(r.size(90), U'x');
  for (auto& c : x) c = static_cast<char32_t>(1 + r.below(0x10ffff));
  s = std::u32string_view{x};
}
template <typename T>
std::enable_if_t<std::is_integral_v<T>> gen(rng& r, T& v, int) {
  if constexpr (std::is_same_v<T, bool>) v = r.coin(); else v = static_cast<T>(r.value());
}
inline void gen(rng& r, double& v, int) { v = static_cast<double>(r.range(-1000000, 1000000)) / 3.0; }
inline void gen(rng& r, float& v, int) { v = static_cast<float>(r.range(-10000, 10000)) / 3.F; }

using var = data::variant<std::uint32_t, data::string, data::vector<std::uint16_t>, std::uint8_t, cista::pair<std::uint8_t, std::uint64_t>>;
inline void gen(rng& r, var& v, int d);
// how many elements a container gets at this depth
inline std::size_t some(rng& r, int d) { return d <= 0 ? r.below(2) : r.chance(1, 4) ? 0U : 1U + r.below(d == 1 ? 3U : 8U); }

template <typename K, typename V, template <typename> typename P, typename GK, typename GV, typename H, typename E>
void gen(rng& r, cista::hash_storage<cista::pair<K, V>, P, GK, GV, H, E>& m, int d);
template <typename T, template <typename> typename P, bool I, typename S>
void gen(rng& r, cista::basic_vector<T, P, I, S>& v, int d);
template <typename T>
void gen(rng& r, cista::optional<T>& v, int d);
template <typename A, typename B>
void gen(rng& r, cista::pair<A, B>& v, int d);
template <typename T, template <typename> typename P, typename K, typename G, typename H, typename E>
void gen(rng& r, cista::hash_storage<T, P, K, G, H, E>& v, int d);

template <typename T, template <typename> typename P, bool I, typename S>
void gen(rng& r, cista::basic_vector<T, P, I, S>& v, int d) {
  auto const n = some(r, d);
  if (r.chance(1, 4)) v.reserve(static_cast<S>(n + r.below(9)));  // spare capacity
  for (std::size_t i = 0; i != n; ++i) {
    v.emplace_back();
    gen(r, v.back(), d - 1);
  }
  if (r.chance(1, 8)) v.clear();
}
template <typename T>
void gen(rng& r, cista::optional<T>& v, int d) {
  if (r.chance(2, 3)) {
    T x{};
    gen(r, x, d - 1);
    v = std::move(x);
    if (r.chance(1, 5)) v.reset();
  }
}
template <typename A, typename B>
void gen(rng& r, cista::pair<A, B>& v, int d) { gen(r, v.first, d - 1); gen(r, v.second, d - 1); }
template <typename T, std::size_t N>
void gen(rng& r, cista::array<T, N>& v, int d) { for (auto& x : v) gen(r, x, d - 1); }
template <typename K, typename V, template <typename> typename P, typename GK, typename GV, typename H, typename E>
void gen(rng& r, cista::hash_storage<cista::pair<K, V>, P, GK, GV, H, E>& m, int d) {
  auto const n = some(r, d) * (d > 1 ? 1U + r.below(4) : 1U);
  for (std::size_t i = 0; i != n; ++i) {
    K k{};
    gen(r, k, d - 1);
    V v{};
    gen(r, v, d - 1);
    m[k] = std::move(v);
    if (r.chance(1, 6) && !m.empty()) m.erase(m.begin());  // leaves a tombstone
  }
  if (r.chance(1, 10)) m.clear();
}
template <typename T, template <typename> typename P, typename GK, typename GV, typename H, typename E>
void gen(rng& r, cista::hash_storage<T, P, GK, GV, H, E>& m, int d) {
  auto const n = some(r, d) * (d > 1 ? 1U + r.below(4) : 1U);
  for (std::size_t i = 0; i != n; ++i) {
    T k{};
    gen(r, k, d - 1);
    m.insert(k);
    if (r.chance(1, 6) && !m.empty()) m.erase(m.begin());
  }
}

struct strings {
  VP_FIELDS(a_, b_, sv_, v_, u16_, u32_)
  data::string a_;
  data::string b_;
  data::string_view sv_;
  data::vector<data::string> v_;
  data::u16string u16_;
  data::u32string u32_;
};
inline void gen(rng& r, strings& s, int d) {
  gen(r, s.a_, d); gen(r, s.b_, d); gen(r, s.sv_, d); gen(r, s.v_, d); gen(r, s.u16_, d); gen(r, s.u32_, d);
}
struct cstrings {
  VP_FIELDS(a_, b_, v_)
  data::cstring a_;
  std::uint32_t b_{};
  data::vector<data::cstring> v_;
};
inline void gen(rng& r, cstrings& s, int d) { gen(r, s.a_, d); gen(r, s.b_, d); gen(r, s.v_, d); }

struct vecs {
  VP_FIELDS(a_, b_, c_, e_, f_, g_)
  data::vector<std::int32_t> a_;
  data::vector<data::vector<std::uint16_t>> b_;
  data::vector<double> c_;
  data::vector<cista::pair<std::uint8_t, std::uint64_t>> e_;
  data::vector<scalars> f_;
  cista::basic_vector<std::uint8_t, data::ptr, false, std::uint64_t> g_;
};
inline void gen(rng& r, vecs& s, int d) {
  gen(r, s.a_, d); gen(r, s.b_, d); gen(r, s.c_, d); gen(r, s.e_, d); gen(r, s.f_, d); gen(r, s.g_, d);
}
struct maps {
  VP_FIELDS(a_, b_, c_, e_, f_)
  data::hash_map<data::string, data::vector<std::uint32_t>> a_;
  data::hash_map<std::uint32_t, data::string> b_;
  data::hash_set<data::string> c_;
  data::hash_map<std::uint16_t, data::hash_map<data::string, std::uint64_t>> e_;
  data::hash_set<std::uint64_t> f_;
};
inline void gen(rng& r, maps& s, int d) { gen(r, s.a_, d); gen(r, s.b_, d); gen(r, s.c_, d); gen(r, s.e_, d); gen(r, s.f_, d); }

struct strong_tag {};
using sid = cista::strong<std::uint32_t, strong_tag>;
inline void gen(rng& r, var& v, int d) {
  switch (r.below(6)) {
    case 0: v = static_cast<std::uint32_t>(r.value()); break;
    case 1: { data::string s; gen(r, s, d); v = s; break; }
    case 2: { data::vector<std::uint16_t> x; gen(r, x, d); v = x; break; }
    case 3: v = static_cast<std::uint8_t>(r.value()); break;
    case 4: v = cista::pair<std::uint8_t, std::uint64_t>{static_cast<std::uint8_t>(r.value()), r.value()}; break;
    default: if (!v.valid()) v = std::uint32_t{7};
  }
}
using tup = cista::tuple<std::uint8_t, data::string, std::uint64_t, std::uint16_t>;
inline void gen(rng& r, tup& t, int d) {
  gen(r, cista::get<0>(t), d); gen(r, cista::get<1>(t), d); gen(r, cista::get<2>(t), d); gen(r, cista::get<3>(t), d);
}
struct values {
  VP_FIELDS(os_, oi_, var_, tup_, pr_, bs_, arr_, id_, dur_, tp_, vv_, ov_)
  cista::optional<data::string> os_;
  cista::optional<std::uint32_t> oi_;
  var var_{std::uint32_t{0}};
  tup tup_;
  cista::pair<data::string, std::uint16_t> pr_;
  cista::bitset<70> bs_{};
  cista::array<data::string, 3> arr_;
  sid id_{0U};
  std::chrono::duration<std::int32_t, std::milli> dur_{};
  std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int64_t, std::nano>> tp_{};
  data::vector<var> vv_;
  data::vector<cista::optional<std::uint16_t>> ov_;
};
inline void gen(rng& r, values& s, int d) {
  gen(r, s.os_, d); gen(r, s.oi_, d); gen(r, s.var_, d); gen(r, s.tup_, d); gen(r, s.pr_, d);
  for (std::size_t i = 0; i != 70; ++i) s.bs_.set(i, r.coin());
  gen(r, s.arr_, d);
  s.id_ = sid{static_cast<std::uint32_t>(r.value())};
  s.dur_ = decltype(s.dur_){static_cast<std::int32_t>(r.value())};
  s.tp_ = decltype(s.tp_){std::chrono::duration<std::int64_t, std::nano>{static_cast<std::int64_t>(r.value())}};
  for (auto n = some(r, d); n != 0U; --n) { s.vv_.emplace_back(var{std::uint32_t{0}}); gen(r, s.vv_.back(), d - 1); }
  gen(r, s.ov_, d);
}
struct tree {
  VP_FIELDS(v_, name_, l_, r_)
  std::uint16_t v_{};
  data::string name_;
  data::unique_ptr<tree> l_;
  data::unique_ptr<tree> r_;
};
inline void gen(rng& r, tree& t, int d) {
  gen(r, t.v_, d); gen(r, t.name_, d);
  if (d > 0 && r.chance(3, 4)) { t.l_ = data::make_unique<tree>(); gen(r, *t.l_, d - 1); }
  if (d > 0 && r.chance(3, 4)) { t.r_ = data::make_unique<tree>(); gen(r, *t.r_, d - 1); }
}
// pointers: to unique_ptr targets, elements of indexed vectors, indexed fields,
// forward and backward, cyclic, null
struct edge;
struct gnode {
  VP_FIELDS(id_, name_, best_, out_)
  std::uint32_t id_{};
  data::string name_;
  data::ptr<edge> best_{nullptr};
  data::vector<data::ptr<edge>> out_;
};
struct edge {
  VP_FIELDS(w_, from_, to_)
  std::uint16_t w_{};
  data::ptr<gnode> from_{nullptr};
  data::ptr<gnode> to_{nullptr};
};
struct inner {
  VP_FIELDS(x_, next_)
  std::uint64_t x_{};
  data::ptr<edge> next_{nullptr};
};
struct graph {
  VP_FIELDS(first_, in_ptr_, nodes_, edges_, in_, self_, last_, held_, extra_)
  data::ptr<gnode> first_{nullptr};
  data::ptr<inner> in_ptr_{nullptr};
  data::vector<data::unique_ptr<gnode>> nodes_;
  data::indexed_vector<edge> edges_;
  cista::indexed<inner> in_;
  data::ptr<inner> self_{nullptr};
  data::ptr<edge> last_{nullptr};
  data::unique_ptr<inner> held_;
  data::indexed_vector<std::uint32_t> extra_;
};
inline void gen(rng& r, graph& g, int d) {
  auto const n = d <= 0 ? 1U : 1U + r.below(6);
  for (std::size_t i = 0; i != n; ++i) {
    g.nodes_.emplace_back(data::make_unique<gnode>());
    g.nodes_.back()->id_ = static_cast<std::uint32_t>(r.value());
    gen(r, g.nodes_.back()->name_, d);
  }
  auto const m = r.below(10);
  g.edges_.resize(static_cast<std::uint32_t>(m));
  auto node = [&]() -> gnode* { return r.chance(1, 6) ? nullptr : &*g.nodes_[static_cast<std::uint32_t>(r.below(n))]; };
  auto ed = [&]() -> edge* { return m == 0U || r.chance(1, 6) ? nullptr : &g.edges_[static_cast<std::uint32_t>(r.below(m))]; };
  for (auto& e : g.edges_) { e.w_ = static_cast<std::uint16_t>(r.value()); e.from_ = node(); e.to_ = node(); }
  for (auto& x : g.nodes_) {
    x->best_ = ed();
    for (auto k = r.below(4); k != 0U; --k) { x->out_.emplace_back(ed()); }
  }
  g.first_ = node();
  g.in_.x_ = r.value();
  g.in_.next_ = ed();
  if (r.chance(2, 3)) { g.held_ = data::make_unique<inner>(); g.held_->x_ = r.value(); g.held_->next_ = ed(); }
  auto in = [&]() -> inner* {
    switch (r.below(3)) { case 0: return nullptr; case 1: return &g.in_; default: return g.held_.get(); }
  };
  g.in_ptr_ = in();
  g.self_ = in();
  g.last_ = ed();
  for (auto k = r.below(5); k != 0U; --k) g.extra_.emplace_back(static_cast<std::uint32_t>(r.value()));
}
#ifndef VP_NO_LINKS
// many indexed vectors, pointers to any of their elements, and to pointers
struct links {
  VP_FIELDS(early_, a_, many_, b_, names_, p_, q_, s_, pp_, m_, o_, c_, late_)
  data::ptr<std::uint32_t> early_{nullptr};
  data::indexed_vector<std::uint32_t> a_;
  data::vector<data::indexed_vector<std::uint16_t>> many_;
  data::indexed_vector<std::uint32_t> b_;
  data::indexed_vector<data::string> names_;
  data::indexed_vector<data::ptr<std::uint32_t>> p_;
  data::vector<data::ptr<std::uint16_t>> q_;
  data::vector<data::ptr<data::string>> s_;
  data::vector<data::ptr<data::ptr<std::uint32_t>>> pp_;
  data::hash_map<std::uint32_t, data::ptr<std::uint16_t>> m_;
  cista::optional<data::ptr<std::uint32_t>> o_;
  data::indexed_vector<std::uint32_t> c_;
  data::ptr<data::string> late_{nullptr};
};
inline void gen(rng& r, links& l, int d) {
  auto const some = [&](auto& v, std::size_t const max) { v.resize(static_cast<std::uint32_t>(r.below(max))); for (auto& x : v) gen(r, x, d); };
  some(l.a_, 9); some(l.b_, 5); some(l.c_, 40); some(l.names_, 6);
  l.many_.resize(static_cast<std::uint32_t>(r.below(8)));
  for (auto& x : l.many_) some(x, 6);
  // first and last elements above all
  auto const at = [&](auto& v) -> decltype(&v[0U]) {
    if (v.empty() || r.chance(1, 9)) return nullptr;
    auto const n = static_cast<std::uint32_t>(v.size());
    switch (r.below(3)) { case 0: return &v[0U]; case 1: return &v[n - 1U]; default: return &v[static_cast<std::uint32_t>(r.below(n))]; }
  };
  auto const u32 = [&]() { return r.coin() ? at(l.a_) : r.coin() ? at(l.b_) : at(l.c_); };
  auto const u16 = [&]() -> std::uint16_t* { return l.many_.empty() ? nullptr : at(l.many_[static_cast<std::uint32_t>(r.below(l.many_.size()))]); };
  l.early_ = u32();
  for (auto k = r.below(12); k != 0U; --k) l.p_.emplace_back(u32());
  for (auto k = r.below(12); k != 0U; --k) l.q_.emplace_back(u16());
  for (auto k = r.below(8); k != 0U; --k) l.s_.emplace_back(at(l.names_));
  for (auto k = r.below(8); k != 0U; --k) l.pp_.emplace_back(at(l.p_));
  for (auto k = r.below(8); k != 0U; --k) l.m_[static_cast<std::uint32_t>(r.below(30))] = u16();
  if (r.coin()) l.o_ = data::ptr<std::uint32_t>{u32()};
  l.late_ = at(l.names_);
}
#endif
struct alignas(32) wide_el {
  VP_FIELDS(a_, s_)
  std::uint64_t a_{};
  data::string s_;
};
inline void gen(rng& r, wide_el& s, int d) { gen(r, s.a_, d); gen(r, s.s_, d); }
struct alignas(16) aligned16 {
  VP_FIELDS(a_, v_, u_)
  std::uint8_t a_{};
  data::vector<std::uint64_t> v_;
  data::string u_;
};
inline void gen(rng& r, aligned16& s, int d) { gen(r, s.a_, d); gen(r, s.v_, d); gen(r, s.u_, d); }
struct aligned_holder {
  VP_FIELDS(pad_, v_, u_, x_, m_, y_)
  std::uint8_t pad_{};
  data::vector<wide_el> v_;
  data::unique_ptr<wide_el> u_;
  data::vector<std::uint8_t> x_;
  data::hash_map<std::uint16_t, wide_el> m_;
  std::uint8_t y_{};
};
inline void gen(rng& r, aligned_holder& s, int d) {
  gen(r, s.pad_, d); gen(r, s.v_, d);
  if (r.coin()) { s.u_ = data::make_unique<wide_el>(); gen(r, *s.u_, d); }
  gen(r, s.x_, d); gen(r, s.m_, d); gen(r, s.y_, d);
}
// containers over vectors
using vv_t = data::vecvec<std::uint32_t, std::uint16_t>;
using vs_t = data::vecvec<sid, char>;
using nv_t = data::nvec<std::uint32_t, std::uint16_t, 3U>;
using fm_t = data::fws_multimap<std::uint32_t, std::uint64_t>;
using mm_t = data::mutable_fws_multimap<std::uint32_t, std::uint32_t, 6U>;
using pv_t = cista::paged_vecvec<data::vector<cista::page<std::uint32_t, std::uint16_t>>, cista::paged<data::vector<std::uint16_t>>, std::uint32_t>;
using rt_t = data::rtree<std::uint32_t, 2U, float, 8U>;
using fl_t = data::flat_matrix<std::uint16_t>;
inline void gen(rng& r, vv_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) {
    std::vector<std::uint16_t> x(r.below(5));
    for (auto& y : x) y = static_cast<std::uint16_t>(r.value());
    v.emplace_back(x);
  }
}
inline void gen(rng& r, vs_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) { auto const s = rnd_str(r); v.emplace_back(std::string_view{s}); }
}
inline void gen(rng& r, nv_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) {
    std::vector<std::vector<std::vector<std::uint16_t>>> a(1U + r.below(3));
    for (auto& b : a) {
      b.resize(r.below(4));
      for (auto& c : b) { c.resize(r.below(4)); for (auto& x : c) x = static_cast<std::uint16_t>(r.value()); }
    }
    v.emplace_back(a);
  }
}
inline void gen(rng& r, fm_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) { for (auto k = r.below(4); k != 0U; --k) v.push_back(r.value()); v.finish_key(); }
  if (r.chance(4, 5)) v.finish_map();
}
inline void gen(rng& r, mm_t& v, int d) {
  auto const n = some(r, d);
  for (auto k = n * 3U; k != 0U; --k) {
    auto const b = static_cast<std::uint32_t>(r.below(n));
    v[b].push_back(static_cast<std::uint32_t>(r.value()));
    if (r.chance(1, 7)) v[b].clear();
  }
}
inline void gen(rng& r, pv_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) {
    std::vector<std::uint16_t> x(1U + r.below(12));
    for (auto& y : x) y = static_cast<std::uint16_t>(r.value());
    v.emplace_back(x);
  }
  if (!v.empty()) for (auto k = r.below(8); k != 0U; --k) v[static_cast<std::uint32_t>(r.below(v.size()))].push_back(static_cast<std::uint16_t>(r.value()));
}
inline void gen(rng& r, rt_t& v, int d) {
  for (auto n = some(r, d) * 4U; n != 0U; --n) {
    auto const x = static_cast<float>(r.range(-50, 50)), y = static_cast<float>(r.range(-50, 50));
    v.insert({x, y}, {x + static_cast<float>(r.below(4)), y + static_cast<float>(r.below(4))}, static_cast<std::uint32_t>(r.value()));
  }
}
inline void gen(rng& r, fl_t& v, int) {
  v.resize(static_cast<std::uint32_t>(r.below(9)), static_cast<std::uint32_t>(r.below(9)));
  for (auto& x : v.entries_) x = static_cast<std::uint16_t>(r.value());
}
struct bits {
  VP_FIELDS(a_, bv_, z_)
  std::uint8_t a_{};
  data::bitvec bv_;
  std::uint32_t z_{};
};
inline void gen(rng& r, bits& b, int d) {
  gen(r, b.a_, d); gen(r, b.z_, d);
  b.bv_.resize(static_cast<unsigned>(r.size(200)));
  for (auto i = 0U; i != b.bv_.size(); ++i) b.bv_.set(i, r.coin());
}
#ifdef VP_LARGE
// one container that holds very much, around the limits of 16 bit sizes
struct large {
  VP_FIELDS(before_, a_, b_, c_, e_, f_, g_, h_, v_, w_, i_, r_, after_, z_)
  data::vector<data::ptr<std::uint32_t>> before_;
  data::vector<std::uint8_t> a_;
  data::vector<std::uint32_t> b_;
  data::string c_;
  data::vector<data::string> e_;
  data::hash_map<std::uint32_t, std::uint16_t> f_;
  data::hash_set<data::string> g_;
  data::bitvec h_;
  vv_t v_;
  data::u16string w_;
  data::indexed_vector<std::uint32_t> i_;
  data::unique_ptr<cista::array<data::string, 300>> r_;
  data::vector<data::ptr<std::uint32_t>> after_;
  std::uint16_t z_{};
};
inline void gen(rng& r, large& l, int) {
  static constexpr std::size_t const edges[] = {255U, 256U, 257U, 4095U, 4096U, 32767U, 32768U, 32769U, 65535U, 65536U, 65537U};
  auto const which = r.below(11);
  auto const much = r.coin() ? 200U + r.below(3000) : r.chance(1, 2) ? edges[r.below(11)] : 2000U + r.below(68000);
  auto const size = [&](std::size_t const c, std::size_t const cut = 1U) { return static_cast<std::uint32_t>(which == c ? 1U + much / cut : r.below(7)); };
  auto x = r.next();
  auto const next = [&]() { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return static_cast<std::uint32_t>(x >> 33U); };
  l.a_.resize(size(0));
  for (auto& y : l.a_) y = static_cast<std::uint8_t>(next());
  l.b_.resize(size(1));
  for (auto& y : l.b_) y = next();
  {
    std::string t(size(2), 'x');
    for (auto& y : t) y = static_cast<char>('a' + next() % 26U);
    l.c_ = t;
  }
  l.e_.resize(size(3, 4));
  for (auto& y : l.e_) y = std::string(next() % 24U, static_cast<char>('a' + next() % 26U));
  for (auto n = size(4, 2); n != 0U; --n) l.f_[n * 7U] = static_cast<std::uint16_t>(next());
  if (r.coin()) for (auto n = size(4, 2) / 2U; n != 0U; --n) l.f_.erase(n * 7U);
  for (auto n = size(5, r.chance(1, 4) ? 1U : 8U); n != 0U; --n) l.g_.insert(data::string{"entry number " + std::to_string(n)});
  l.h_.resize(size(6));
  for (auto i = 0U; i != l.h_.size(); ++i) l.h_.set(i, (next() & 1U) != 0U);
  if (which == 7 && r.coin()) {
    l.v_.emplace_back(std::vector<std::uint16_t>{});
    for (auto n = size(7); n != 0U; --n) l.v_[0U].push_back(static_cast<std::uint16_t>(next()));
  } else {
    for (auto n = size(7, 2); n != 0U; --n) l.v_.emplace_back(std::vector<std::uint16_t>(next() % 4U, static_cast<std::uint16_t>(n)));
  }
  {
    std::u16string t(size(8), u'x');
    for (auto& y : t) y = static_cast<char16_t>(1U + next() % 60000U);
    l.w_ = std::u16string_view{t};
  }
  l.i_.resize(size(9, 4));
  for (auto& y : l.i_) y = next();
  if (which == 10U) {
    l.r_ = data::make_unique<cista::array<data::string, 300>>();
    for (auto& y : *l.r_) y = std::string(next() % 24U, static_cast<char>('a' + next() % 26U));
  }
  auto const at = [&]() -> std::uint32_t* { return l.i_.empty() || r.chance(1, 9) ? nullptr : r.chance(1, 3) ? &l.i_.back() : &l.i_[next() % l.i_.size()]; };
  for (auto n = r.below(9); n != 0U; --n) l.before_.emplace_back(at());
  for (auto n = r.below(9); n != 0U; --n) l.after_.emplace_back(at());
  l.z_ = static_cast<std::uint16_t>(next());
}
#endif
struct rtrees {
  VP_FIELDS(a_, t_)
  std::uint32_t a_{};
  rt_t t_;
};
inline void gen(rng& r, rtrees& s, int d) { gen(r, s.a_, d); gen(r, s.t_, d); }
struct multi {
  VP_FIELDS(vv_, vs_, nv_, fm_, mm_, pv_, fl_)
  vv_t vv_;
  vs_t vs_;
  nv_t nv_;
  fm_t fm_;
  mm_t mm_;
  pv_t pv_;
  fl_t fl_;
};
inline void gen(rng& r, multi& m, int d) {
  gen(r, m.vv_, d); gen(r, m.vs_, d); gen(r, m.nv_, d); gen(r, m.fm_, d); gen(r, m.mm_, d); gen(r, m.pv_, d); gen(r, m.fl_, d);
}
// everything nested once more
struct all {
  VP_FIELDS(s_, st_, ve_, ma_, va_, tr_, mv_)
  scalars s_;
  data::vector<strings> st_;
  cista::optional<vecs> ve_;
  data::hash_map<data::string, maps> ma_;
  data::vector<values> va_;
  data::unique_ptr<tree> tr_;
  data::vector<data::hash_map<std::uint32_t, data::vector<data::string>>> mv_;
};
inline void gen(rng& r, all& a, int d) {
  gen(r, a.s_, d); gen(r, a.st_, d - 1); gen(r, a.ve_, d); gen(r, a.ma_, d - 1); gen(r, a.va_, d - 1);
  if (r.coin()) { a.tr_ = data::make_unique<tree>(); gen(r, *a.tr_, d - 1); }
  gen(r, a.mv_, d);
}
