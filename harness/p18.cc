#include "rtree_test.h"
using namespace vp;
namespace co = cista::offset;
namespace cr = cista::raw;
#if VP_PART == 0
VP_SUITE_NOBALANCE(off_2d_float_64, 3) { rtree_suite<co::rtree<std::uint32_t>>::run(r); }
VP_SUITE_NOBALANCE(off_2d_float_2, 2) { rtree_suite<co::rtree<std::uint32_t, 2U, float, 2U>>::run(r); }
VP_SUITE_NOBALANCE(off_2d_double_4_place, 3) { rtree_suite<co::rtree<place, 2U, double, 4U>>::run(r); }
VP_MAIN()
#elif VP_PART == 1
VP_SUITE_NOBALANCE(raw_1d_int_3, 3) { rtree_suite<cr::rtree<std::uint64_t, 1U, std::int32_t, 3U>>::run(r); }
VP_SUITE_NOBALANCE(raw_3d_float_10, 2) { rtree_suite<cr::rtree<std::int32_t, 3U, float, 10U>>::run(r); }
VP_SUITE_NOBALANCE(raw_2d_unsigned_5, 2) { rtree_suite<cr::rtree<std::uint32_t, 2U, std::uint32_t, 5U>>::run(r); }
#elif VP_PART == 2
// on files
template <typename Tree>
void on_files(rng& r) {
  using run_t = rtree_run<Tree>;
  auto const nodes = std::string{std::getenv("VP_SCRATCH") != nullptr ? std::getenv("VP_SCRATCH") : "/tmp"} + "/nodes" + std::to_string(::getpid()) + ".bin";
  auto const meta = nodes + ".meta";
  run_t x{r};
  typename run_t::model m;
  typename Tree::meta gone{};
  for (auto p = r.below(4) + 1U; p != 0U; --p) {
    auto const first = m.empty() && p > 1U && x.seq_ == 0U;
    (void)first;
    auto const fresh = x.seq_ == 0U;
    op(fresh ? "create" : "open again");
    Tree t{fresh ? gone : typename Tree::meta{}, decltype(Tree::nodes_){cista::mmap{nodes.c_str(), fresh ? cista::mmap::protection::WRITE : cista::mmap::protection::MODIFY}}};
    if (!fresh) t.read_meta(meta);
    x.judge(t, m, true);
    auto const n = 1U + r.size(300U);
    for (auto k = std::size_t{0U}; k != n; ++k) {
      x.step(t, m, fresh ? 80U : 50U);
      if (k < 10U || r.chance(1, 6)) x.judge(t, m, r.chance(1, 12));
    }
    if (r.chance(1, 6)) x.drain(t, m);
    if (x.seq_ == 0U) x.seq_ = 1U;
    t.write_meta(meta);
    if (r.coin()) {
      auto moved = std::move(t);
      x.judge(moved, m, true);
      ev("moves");
    }
    ev("on_files");
  }
  if (r.coin()) {
    Tree const t = [&]() { Tree u{gone, decltype(Tree::nodes_){cista::mmap{nodes.c_str(), cista::mmap::protection::READ}}}; u.read_meta(meta); return u; }();
    x.judge(t, m, true);
    ev("read_only_files");
  }
  std::remove(nodes.c_str());
  std::remove(meta.c_str());
}
VP_SUITE_NOBALANCE(mm_2d_float_64, 1) { on_files<cista::mm_rtree<std::uint32_t>>(r); }
VP_SUITE_NOBALANCE(mm_2d_float_6, 1) { on_files<cista::mm_rtree<place, 2U, float, 6U>>(r); }
#else
// deep trees: few entries per node, entries in order
VP_SUITE_NOBALANCE(deep_3, 1) {
  using tree = co::rtree<std::uint32_t, 1U, float, 3U>;
  using run_t = rtree_run<tree>;
  run_t x{r};
  run_t::model m;
  tree t;
  auto const up = r.coin();
  auto const n = 40000U + r.below(100000);
  for (auto i = 0U; i != n; ++i) {
    run_t::entry e{};
    auto const k = static_cast<float>(up ? i : n - i);
    e.min_[0] = k;
    e.max_[0] = k;
    make(e.data_, i);
    t.insert(e.min_, e.max_, e.data_);
    m.push_back(e);
  }
  x.structure(t, m);
  op("height %u", t.m_.height_);
  if (t.m_.height_ > 12U) ev("trees_of_12_levels");
  if (t.m_.height_ > 16U) ev("trees_of_16_levels");
  for (auto q = 0; q != 10; ++q) {
    auto const lo = typename tree::coord_t{static_cast<float>(r.below(n))};
    auto const hi = typename tree::coord_t{lo[0] + static_cast<float>(r.below(30))};
    x.window(t, m, lo, hi);
    auto const i = r.below(m.size());
    t.delete_element(m[i].min_, m[i].max_, m[i].data_);
    x.remove_from(m, i);
  }
  x.structure(t, m);
}
#endif
