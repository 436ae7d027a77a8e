// Lifetimes: after every operation the objects that are alive are exactly those
// that can be reached through the containers.
#include "mutate.h"
#include "tracked.h"
using namespace vp;

namespace vp {
inline std::vector<void const*>& reached() {
  static auto* v = new std::vector<void const*>;
  return *v;
}
template <>
struct W<tracked> {
  static void go(walker& w, tracked const& v) {
    v.alive("visit");
    auto const x = v.get();
    w.put(&x, sizeof(x));
    monitor_scope m;
    reached().push_back(&v);
  }
};
}  // namespace vp
#if VP_PART < 4
#define NS cista::offset
#define NSM lifeo
#else
#define NS cista::raw
#define NSM lifer
#endif
namespace NSM {
namespace data = NS;
#include "p13_types.inc"
#include "mutate.inc"
template <>
struct M<tracked> {
  static void go(mctx& c, tracked& v, rng& r) { c.note("t"); gen(r, v, 0); }
};
template <>
struct M<fm_t> {
  static void go(mctx& c, fm_t& v, rng& r) {
    if (r.chance(1, 3)) { fm_t o; gen(r, o, 2); return assign_like(c, v, r, std::move(o)); }
    if (v.finished()) { c.note("fm.reset"); fm_t o; gen(r, o, 2); v = std::move(o); return; }
    c.note("fm.add");
    for (auto k = r.below(3); k != 0U; --k) { if (r.coin()) v.push_back(tracked{static_cast<int>(r.below(9))}); else v.emplace_back(static_cast<int>(r.below(9))); }
    v.finish_key();
    if (r.coin()) v.finish_map();
  }
};

template <typename T>
std::size_t judge(T const& v, char const* after) {
  { monitor_scope m; reached().clear(); }
  { monitor_scope m; walker w; w.want_text = false; w.stored_index = false; walk(w, v); }
  monitor_scope m;
  auto& l = lf();
  auto& rs = reached();
  VP_CHECK(l.constructed - l.destroyed == l.live.size(), "lifetime-balance", "constructed=%llu destroyed=%llu live=%zu",
           (unsigned long long)l.constructed, (unsigned long long)l.destroyed, l.live.size());
  for (auto const* p : rs) {
    VP_CHECK(l.live.count(p) != 0U, "dead-element", "after %s an element of a container is not alive", after);
  }
  auto const n = rs.size();
  std::sort(rs.begin(), rs.end());
  VP_CHECK(std::unique(rs.begin(), rs.end()) == rs.end(), "shared-element", "after %s two containers hold the same element", after);
  VP_CHECK(n == l.live.size(), "live-count", "after %s %zu objects are alive, the containers hold %zu", after, l.live.size(), n);
  return n;
}

template <typename T>
void history(rng& r) {
  reset_life();
  auto const depth = static_cast<int>(1U + r.below(3));
  {
    auto v = std::make_unique<T>();
    gen(r, *v, depth);
    judge(*v, "construction");
    std::vector<bool> decisions;
    for (auto s = 1U + r.below(r.chance(1, 4) ? 50U : 14U); s != 0U; --s) {
      mctx c;
      decisions.clear();
      c.decisions = &decisions;
      c.keep = false;
      mutate(c, *v, r);
      op("%.150s", c.trace.c_str());
      auto const n = judge(*v, c.trace.c_str());
      ev("operations");
      ev("objects_alive_judged", n);
      { monitor_scope m; auto const t = render(*v); distinct(fnv(t.data(), t.size())); }
      if constexpr (dc<T>::value) {
        if (r.chance(1, 6)) {
          op("copy of the whole");
          {
            T t{*v};
            VP_CHECK(lf().live.size() == 2U * n, "copy-count", "a copy of %zu objects makes %zu alive", n, lf().live.size());
            if (r.coin()) { mctx d; d.decisions = &decisions; d.keep = false; mutate(d, t, r); }
            if (r.coin()) std::swap(t, *v); else *v = std::move(t);
          }
          judge(*v, "the copy was swapped in and the old value destroyed");
          ev("whole_copies");
        }
      }
      if (r.chance(1, 8)) {
        op("move of the whole");
        auto t = std::make_unique<T>(std::move(*v));
        v = std::move(t);
        judge(*v, "moving the whole");
        ev("whole_moves");
      }
    }
    ev("constructed", lf().constructed);
    ev("copied", lf().copies);
    ev("moved", lf().moves);
    lf().copies = lf().moves = 0U;
  }
  check_life(0U, "at the end");
  ev("all_destroyed");
}
}  // namespace NSM

#define TYPE(name, t, weight) VP_SUITE(name, weight) { NSM::history<NSM::t>(r); }
#if VP_PART == 0
TYPE(off_singles, singles, 2)
TYPE(off_variants, variants, 2)
VP_MAIN()
#elif VP_PART == 1
TYPE(off_vectors, vectors, 3)
TYPE(off_hashes, hashes, 3)
#elif VP_PART == 2
TYPE(off_node, node, 2)
TYPE(off_multis, multis, 3)
#elif VP_PART == 3
TYPE(off_everything, everything, 2)
#elif VP_PART == 4
TYPE(raw_singles, singles, 1)
TYPE(raw_variants, variants, 1)
TYPE(raw_vectors, vectors, 2)
#elif VP_PART == 5
TYPE(raw_hashes, hashes, 3)
TYPE(raw_node, node, 1)
#elif VP_PART == 6
TYPE(raw_multis, multis, 2)
#else
TYPE(raw_everything, everything, 1)
#endif
