// values of graph parts made up on their own point nowhere
inline void gen(vp::rng& r, edge& e, int) { e.w_ = static_cast<std::uint16_t>(r.value()); }
inline void gen(vp::rng& r, inner& e, int) { e.x_ = r.value(); }
inline void gen(vp::rng& r, gnode& n, int d) { n.id_ = static_cast<std::uint32_t>(r.value()); gen(r, n.name_, d); }
inline void gen(vp::rng&, data::ptr<edge>& p, int) { p = nullptr; }
inline void gen(vp::rng&, data::ptr<gnode>& p, int) { p = nullptr; }
inline void gen(vp::rng&, data::ptr<inner>& p, int) { p = nullptr; }
inline void gen(vp::rng& r, data::unique_ptr<gnode>& p, int d) { p = data::make_unique<gnode>(); gen(r, *p, d); }
