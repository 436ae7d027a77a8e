// Included once per pointer flavour: NS is cista::raw or cista::offset.
// Values holding objects with an observable lifetime at every place a container
// can put them.
struct singles {
  VP_FIELDS(o_, p_, a_, t_, vo_)
  cista::optional<tracked> o_;
  cista::pair<tracked, tracked> p_;
  cista::array<tracked, 3> a_;
  cista::tuple<tracked, std::uint8_t, tracked> t_;
  data::vector<cista::optional<tracked>> vo_;
};
using var = data::variant<std::uint32_t, tracked, data::string, data::vector<tracked>, cista::pair<tracked, std::uint8_t>>;
struct variants {
  VP_FIELDS(v_, vv_, ov_)
  var v_{std::uint32_t{0}};
  data::vector<var> vv_;
  cista::optional<var> ov_;
};
struct vectors {
  VP_FIELDS(a_, b_, c_, e_)
  data::vector<tracked> a_;
  data::vector<data::vector<tracked>> b_;
  data::vector<cista::pair<tracked, data::string>> c_;
  data::vector<data::cstring> e_;
};
struct hashes {
  VP_FIELDS(a_, b_, c_, e_)
  data::hash_map<std::uint32_t, tracked> a_;
  data::hash_map<tracked, data::vector<tracked>> b_;
  data::hash_set<tracked> c_;
  data::hash_map<std::uint16_t, data::hash_set<tracked>> e_;
};
struct node {
  VP_FIELDS(x_, l_, r_, k_)
  tracked x_;
  data::unique_ptr<node> l_;
  data::unique_ptr<node> r_;
  data::vector<data::unique_ptr<tracked>> k_;
};
using vv_t = data::vecvec<std::uint32_t, tracked>;
using nv_t = data::nvec<std::uint32_t, tracked, 3U>;
using fl_t = data::flat_matrix<tracked>;
using fm_t = data::fws_multimap<std::uint32_t, tracked>;
struct multis {
  VP_FIELDS(vv_, nv_, fl_, fm_)
  vv_t vv_;
  nv_t nv_;
  fl_t fl_;
  fm_t fm_;
};
struct everything {
  VP_FIELDS(s_, v_, h_, m_, n_, mh_)
  data::vector<singles> s_;
  cista::optional<variants> v_;
  data::hash_map<data::string, hashes> h_;
  data::vector<vectors> m_;
  data::vector<node> n_;
  data::hash_map<tracked, cista::optional<variants>> mh_;
};
inline void gen(rng& r, tracked& t, int) { t = tracked{static_cast<int>(r.below(60))}; }
inline void gen(rng& r, data::string& s, int) {
  std::string x(r.coin() ? r.below(12) : r.below(40), 'q');
  s = x;
}
inline void gen(rng& r, data::cstring& s, int) {
  std::string x(r.coin() ? r.below(12) : r.below(40), 'c');
  s = x;
}
template <typename T>
std::enable_if_t<std::is_integral_v<T>> gen(rng& r, T& v, int) { v = static_cast<T>(r.below(50)); }
inline std::size_t some(rng& r, int d) { return d <= 0 ? r.below(2) : r.chance(1, 4) ? 0U : 1U + r.below(5); }
template <typename T, template <typename> typename P, bool I, typename S>
void gen(rng& r, cista::basic_vector<T, P, I, S>& v, int d);
template <typename T> void gen(rng& r, cista::optional<T>& v, int d);
template <typename A, typename B> void gen(rng& r, cista::pair<A, B>& v, int d);
template <typename T, template <typename> typename P, typename K, typename G, typename H, typename E>
void gen(rng& r, cista::hash_storage<T, P, K, G, H, E>& v, int d);
inline void gen(rng& r, var& v, int d);
inline void gen(rng& r, singles& v, int d);
inline void gen(rng& r, variants& v, int d);
inline void gen(rng& r, vectors& v, int d);
inline void gen(rng& r, hashes& v, int d);
inline void gen(rng& r, node& v, int d);
inline void gen(rng& r, vv_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) { std::vector<tracked> x(r.below(4)); for (auto& y : x) gen(r, y, d); v.emplace_back(x); }
}
inline void gen(rng& r, nv_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) {
    std::vector<std::vector<std::vector<tracked>>> a(1U + r.below(2));
    for (auto& b : a) {
      b.resize(r.below(3));
      for (auto& c : b) { c.resize(r.below(3)); for (auto& x : c) gen(r, x, d); }
    }
    v.emplace_back(a);
  }
}
inline void gen(rng& r, fl_t& v, int d) {
  v.resize(static_cast<std::uint32_t>(r.below(3)), static_cast<std::uint32_t>(r.below(3)));
  for (auto& x : v.entries_) gen(r, x, d);
}
inline void gen(rng& r, fm_t& v, int d) {
  for (auto n = some(r, d); n != 0U; --n) { for (auto k = r.below(4); k != 0U; --k) { tracked t; gen(r, t, d); v.push_back(t); } v.finish_key(); }
  if (r.chance(4, 5)) v.finish_map();
}
template <typename P> void gen_ptr(rng& r, P& p, int d) {
  using T = std::decay_t<decltype(*p)>;
  p = data::make_unique<T>();
  gen(r, *p, d - 1);
}
inline void gen(rng& r, data::unique_ptr<tracked>& p, int d) { gen_ptr(r, p, d); }
template <typename T, template <typename> typename P, bool I, typename S>
void gen(rng& r, cista::basic_vector<T, P, I, S>& v, int d) {
  if (r.chance(1, 4)) v.reserve(static_cast<S>(r.below(9)));
  for (auto n = some(r, d); n != 0U; --n) { v.emplace_back(); gen(r, v.back(), d - 1); }
}
template <typename T> void gen(rng& r, cista::optional<T>& v, int d) {
  if (r.chance(1, 4)) { v.reset(); return; }
  T x{};
  gen(r, x, d - 1);
  if (r.coin()) v = std::move(x); else v = x;
}
template <typename A, typename B> void gen(rng& r, cista::pair<A, B>& v, int d) { gen(r, v.first, d - 1); gen(r, v.second, d - 1); }
template <typename K, typename V, template <typename> typename P, typename GK, typename GV, typename H, typename E>
void gen(rng& r, cista::hash_storage<cista::pair<K, V>, P, GK, GV, H, E>& m, int d) {
  for (auto n = some(r, d); n != 0U; --n) { K k{}; gen(r, k, d - 1); V v{}; gen(r, v, d - 1); m[k] = std::move(v); }
}
template <typename T, template <typename> typename P, typename GK, typename GV, typename H, typename E>
void gen(rng& r, cista::hash_storage<T, P, GK, GV, H, E>& m, int d) {
  for (auto n = some(r, d); n != 0U; --n) { T k{}; gen(r, k, d - 1); m.insert(k); }
}
inline void gen(rng& r, var& v, int d) {
  switch (r.below(6)) {
    case 0: v = static_cast<std::uint32_t>(r.below(99)); break;
    case 1: { tracked t; gen(r, t, d); if (r.coin()) v = t; else v = std::move(t); break; }
    case 2: { data::string s; gen(r, s, d); v = s; break; }
    case 3: { data::vector<tracked> x; gen(r, x, d); if (r.coin()) v = x; else v = std::move(x); break; }
    case 4: { cista::pair<tracked, std::uint8_t> x; gen(r, x, d); v = x; break; }
    default: { auto& t = v.template emplace<tracked>(7); gen(r, t, d); }
  }
}
inline void gen(rng& r, singles& v, int d) {
  gen(r, v.o_, d); gen(r, v.p_, d); for (auto& x : v.a_) gen(r, x, d); gen(r, cista::get<0>(v.t_), d); gen(r, cista::get<2>(v.t_), d); gen(r, v.vo_, d);
}
inline void gen(rng& r, variants& v, int d) { gen(r, v.v_, d); gen(r, v.vv_, d); gen(r, v.ov_, d); }
inline void gen(rng& r, vectors& v, int d) { gen(r, v.a_, d); gen(r, v.b_, d); gen(r, v.c_, d); gen(r, v.e_, d); }
inline void gen(rng& r, hashes& v, int d) { gen(r, v.a_, d); gen(r, v.b_, d); gen(r, v.c_, d); gen(r, v.e_, d); }
inline void gen(rng& r, node& v, int d) {
  gen(r, v.x_, d);
  if (d > 0 && r.chance(2, 3)) gen_ptr(r, v.l_, d);
  if (d > 0 && r.chance(2, 3)) gen_ptr(r, v.r_, d);
  for (auto n = some(r, d); n != 0U; --n) { v.k_.emplace_back(data::make_unique<tracked>()); gen(r, *v.k_.back(), d); }
}
inline void gen(rng& r, multis& v, int d) { gen(r, v.vv_, d); gen(r, v.nv_, d); gen(r, v.fl_, d); gen(r, v.fm_, d); }
inline void gen(rng& r, everything& v, int d) {
  gen(r, v.s_, d - 1); gen(r, v.v_, d - 1); gen(r, v.h_, d - 1); gen(r, v.m_, d - 1); gen(r, v.n_, d - 1); gen(r, v.mh_, d - 1);
}
