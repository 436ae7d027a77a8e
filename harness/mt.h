// Threads for the monitors: differing paces, no synchronisation of their own
// beyond the start and the join.
#pragma once
#include <atomic>
#include <sched.h>
#include <thread>
#include "common.h"

namespace vp {

struct pacer {
  explicit pacer(std::uint64_t s) : r_{s}, mode_{static_cast<unsigned>(r_.below(4))} {}
  void step() {
    switch (mode_) {
      case 0: break;
      case 1: if (r_.below(8) == 0U) ::sched_yield(); break;
      case 2: for (auto n = r_.below(60); n != 0U; --n) asm volatile("" ::: "memory"); break;
      default: if (r_.below(64) == 0U) { for (auto n = r_.below(4000); n != 0U; --n) asm volatile("" ::: "memory"); }
    }
  }
  rng r_;
  unsigned mode_;
};

template <typename F>
void parallel(rng& r, unsigned const n, F&& f) {
  std::vector<std::uint64_t> seeds(n);
  for (auto& s : seeds) s = r.next();
  std::atomic<unsigned> ready{0};
  std::vector<std::thread> ts;
  monitor_scope m;
#if defined(VP_MT)
  auto const& s = st();
  std::vector<counters*> cs(n);
  std::vector<std::uint64_t> checks(n);
#endif
  for (auto t = 0U; t != n; ++t) {
    ts.emplace_back([&, t]() {
#if defined(VP_MT)
      st().seed = s.seed;
      st().case_no = s.case_no;
      st().suite = s.suite;
      cs[t] = &cnt();
#endif
      pacer p{seeds[t]};
      ready.fetch_add(1U, std::memory_order_relaxed);
      for (auto k = 0; ready.load(std::memory_order_relaxed) != n; ++k) if (k > 200) ::sched_yield();
      f(t, p);
#if defined(VP_MT)
      checks[t] = st().checks;
#endif
    });
  }
  for (auto& t : ts) t.join();
#if defined(VP_MT)
  for (auto t = 0U; t != n; ++t) {
    for (auto const& [k, v] : cs[t]->events) cnt().events[k] += v;
    for (auto const h : cs[t]->distinct) distinct(h);
    delete cs[t];
    st().checks += checks[t];
  }
#endif
}

}  // namespace vp
