// Concurrent atomic updates: real threads, every update logged with the value it
// returned; the logs are judged after the threads have joined.
#include <algorithm>
#include <atomic>
#include <set>

#include "cista/atomic.h"
#include "cista/containers/bitvec.h"
#include "mt.h"
using namespace vp;

namespace {
using bitvec = cista::basic_bitvec<cista::basic_vector<std::uint64_t, cista::raw::ptr>>;

struct upd {
  std::uint32_t word;
  std::uint8_t op;  // 0 or, 1 and
  std::uint64_t arg;
  std::uint64_t old{0};
};

// fetch_or / fetch_and on shared words
void words(rng& r, bool const only_or, bool const single_bits) {
  auto const nt = 2U + static_cast<unsigned>(r.below(7));
  auto const nw = 1U + r.below(3);
  auto const per = 20U + r.below(400);
  op("%u threads, %zu words, %zu updates each, %s, %s", nt, static_cast<std::size_t>(nw), static_cast<std::size_t>(per), only_or ? "or" : "or+and", single_bits ? "single bits" : "masks");
  std::vector<std::vector<upd>> logs(nt);
  auto const hot = 1U + static_cast<unsigned>(r.below(64));
  for (auto& l : logs) {
    l.resize(per);
    for (auto& u : l) {
      u.word = static_cast<std::uint32_t>(r.below(nw));
      u.op = only_or ? 0U : static_cast<std::uint8_t>(r.below(2));
      auto const b = std::uint64_t{1} << r.below(hot);
      auto m = single_bits ? b : r.next() & r.next();
      u.arg = u.op == 0U ? m : ~m;
    }
  }
  std::vector<std::uint64_t> w(nw), initial;
  for (auto& x : w) x = r.coin() ? 0U : r.next();
  initial = w;
  parallel(r, nt, [&](unsigned const t, pacer& p) {
    for (auto& u : logs[t]) {
      u.old = u.op == 0U ? cista::fetch_or(w[u.word], u.arg) : cista::fetch_and(w[u.word], u.arg);
      p.step();
    }
  });
  // per bit: transitions made = change of the value; alternation makes every
  // surplus or deficit a lost or doubled update
  std::uint64_t order = nt;
  for (std::size_t x = 0; x != nw; ++x) {
    for (auto b = 0U; b != 64U; ++b) {
      auto const bit = std::uint64_t{1} << b;
      long ups = 0, downs = 0;
      bool ored = false, anded = false;
      for (auto t = 0U; t != nt; ++t) {
        for (auto const& u : logs[t]) {
          if (u.word != x) continue;
          if (u.op == 0U && (u.arg & bit) != 0U) { ored = true; if ((u.old & bit) == 0U) { ++ups; order = mix(order, t * 64U + b); } }
          if (u.op == 1U && (u.arg & bit) == 0U) { anded = true; if ((u.old & bit) != 0U) { ++downs; order = mix(order, 7777U + t * 64U + b); } }
        }
      }
      long const before = (initial[x] & bit) != 0U, after = (w[x] & bit) != 0U;
      VP_CHECK(before + ups - downs == after, "lost-update", "bit %u of word %zu: %ld -> %ld with %ld settings and %ld clearings that reported to be the first", b, x, before, after, ups, downs);
      VP_CHECK(ups - downs <= 1 && downs - ups <= 1, "lost-update", "bit %u of word %zu: %ld settings, %ld clearings took effect", b, x, ups, downs);
      if (!anded) VP_CHECK(after == (before || ored), "lost-update", "bit %u of word %zu was%s set by an update, it is %ld", b, x, ored ? "" : " not", after);
      if (!ored) VP_CHECK(after == (before && !anded), "lost-update", "bit %u of word %zu was%s cleared, it is %ld", b, x, anded ? "" : " not", after);
      if (anded && ored) ev("bits_with_both");
    }
  }
  // each thread's own view: a bit it set is seen set by its next update unless cleared meanwhile
  if (only_or) {
    for (auto const& l : logs) {
      std::vector<std::uint64_t> seen(initial);
      for (auto const& u : l) {
        VP_CHECK((u.old & seen[u.word]) == seen[u.word], "went-back", "a thread saw %016llx after it had seen %016llx", (unsigned long long)u.old, (unsigned long long)seen[u.word]);
        if ((u.old & ~seen[u.word]) != 0U) ev("updates_seen_from_others");
        seen[u.word] = u.old | u.arg;
      }
    }
  }
  distinct(order);
  ev("word_updates", nt * per);
}

// atomic sets of a shared bit vector
void bits(rng& r) {
  auto const nt = 2U + static_cast<unsigned>(r.below(7));
  auto const n = 1U + r.size(300);
  auto const owned = r.coin();  // every bit has one writer: its last write stays
  auto const per = 30U + r.below(500);
  op("bitvec of %zu bits, %u threads, %zu updates each, %s", static_cast<std::size_t>(n), nt, static_cast<std::size_t>(per), owned ? "one writer per bit" : "setting only");
  bitvec v;
  v.resize(static_cast<unsigned>(n));
  std::vector<bool> want(n);
  for (auto i = 0U; i != n; ++i) { want[i] = r.chance(1, 4); v.set(i, want[i]); }
  std::vector<std::vector<std::pair<unsigned, bool>>> logs(nt);
  for (auto t = 0U; t != nt; ++t) {
    for (auto k = 0U; k != per; ++k) {
      auto i = static_cast<unsigned>(r.below(n));
      if (owned) i = static_cast<unsigned>(i / nt * nt + t);
      if (i >= n) continue;
      auto const val = !owned || r.coin();
      logs[t].emplace_back(i, val);
      want[i] = val;
    }
  }
  parallel(r, nt, [&](unsigned const t, pacer& p) {
    for (auto const& [i, val] : logs[t]) { v.set<true>(i, val); p.step(); }
  });
  std::size_t count = 0;
  for (auto i = 0U; i != n; ++i) {
    VP_CHECK(v.test(i) == want[i], "lost-update", "bit %u of %zu is %d instead of %d", i, static_cast<std::size_t>(n), v.test(i), static_cast<int>(want[i]));
    count += want[i];
  }
  VP_CHECK(v.count() == count, "count", "count() is %zu instead of %zu", v.count(), count);
  ev("bit_updates", nt * per);
  ev(owned ? "bits_one_writer" : "bits_many_writers");
  distinct(mix(fnv(v.blocks_.data(), v.blocks_.size() * 8U), nt));
}

// fetch_min / fetch_max on neighbouring 16 bit words
void minmax(rng& r) {
  auto const nt = 2U + static_cast<unsigned>(r.below(7));
  auto const nw = 1U + r.below(4);
  auto const per = 20U + r.below(300);
  auto const spread = r.coin();
  op("%u threads, %zu words, %zu min/max updates each", nt, static_cast<std::size_t>(nw), static_cast<std::size_t>(per));
  struct u16 { std::uint8_t word; std::int16_t val; std::int16_t old; };
  std::vector<std::vector<u16>> logs(nt);
  std::vector<std::int16_t> w(nw);
  std::vector<bool> is_min(nw);
  for (std::size_t i = 0; i != nw; ++i) { is_min[i] = r.coin(); w[i] = static_cast<std::int16_t>(r.coin() ? 0 : is_min[i] ? 32767 : -32768); }
  auto const initial = w;
  for (auto t = 0U; t != nt; ++t) {
    for (auto k = 0U; k != per; ++k) {
      auto const i = r.below(nw);
      // drifting values make nearly every update count
      auto const drift = static_cast<long>(k * 60U + r.below(100));
      auto const val = spread ? static_cast<std::int16_t>(r.value()) : static_cast<std::int16_t>(is_min[i] ? 30000 - drift : -30000 + drift);
      logs[t].push_back({static_cast<std::uint8_t>(i), val, 0});
    }
  }
  parallel(r, nt, [&](unsigned const t, pacer& p) {
    for (auto& u : logs[t]) {
      u.old = is_min[u.word] ? cista::fetch_min(w[u.word], u.val) : cista::fetch_max(w[u.word], u.val);
      p.step();
    }
  });
  std::uint64_t order = nt;
  for (std::size_t i = 0; i != nw; ++i) {
    auto const better = [&](std::int16_t a, std::int16_t b) { return is_min[i] ? a < b : a > b; };
    auto best = initial[i];
    std::multiset<std::int16_t> replaced, installed{initial[i]};
    for (auto t = 0U; t != nt; ++t) {
      auto seen = initial[i];
      for (auto const& u : logs[t]) {
        if (u.word != i) continue;
        if (better(u.val, best)) best = u.val;
        VP_CHECK(!better(seen, u.old), "went-back", "a thread saw %d after %d (%s)", u.old, seen, is_min[i] ? "min" : "max");
        if (u.old != seen) ev("values_seen_from_others");
        seen = better(u.val, u.old) ? u.val : u.old;
        if (better(u.val, u.old)) { replaced.insert(u.old); installed.insert(u.val); order = mix(order, t * 65536U + static_cast<std::uint16_t>(u.old)); }
      }
    }
    VP_CHECK(w[i] == best, "lost-update", "the %s of all values is %d, the word holds %d", is_min[i] ? "minimum" : "maximum", best, w[i]);
    // the successful updates form one chain from the initial to the final value
    auto it = installed.find(w[i]);
    VP_CHECK(it != installed.end(), "chain", "the final value %d was installed by nobody", w[i]);
    installed.erase(it);
    VP_CHECK(installed == replaced, "chain", "the values replaced by successful updates are not the values installed by others (%zu / %zu)", replaced.size(), installed.size());
    ev("successful_min_max", replaced.size());
  }
  distinct(order);
  ev("min_max_updates", nt * per);
}

// claiming set bits through a shared cursor
void claims(rng& r) {
  auto const nt = 2U + static_cast<unsigned>(r.below(7));
  auto const n = 1U + r.size(1500);
  auto const den = 1U + static_cast<unsigned>(r.below(40));
  bitvec v;
  v.resize(static_cast<unsigned>(n));
  std::vector<unsigned> want;
  auto const start = r.chance(1, 3) ? r.below(n + 70U) : 0U;
  for (auto i = 0U; i != n; ++i) if (r.below(den) == 0U) { v.set(i, true); if (i >= start) want.push_back(i); }
  op("%zu bits, %zu to claim from %zu on, %u threads", static_cast<std::size_t>(n), want.size(), static_cast<std::size_t>(start), nt);
  std::vector<std::vector<unsigned>> got(nt);
  for (auto& g : got) g.reserve(want.size() + 1U);
  std::atomic_size_t next{start};
  parallel(r, nt, [&](unsigned const t, pacer& p) {
    auto const& cv = v;
    while (auto const i = cv.get_next(next)) {
      if (got[t].size() > n) break;
      got[t].push_back(static_cast<unsigned>(*i));
      p.step();
    }
  });
  std::vector<unsigned> all;
  std::uint64_t order = 0;
  unsigned busy = 0;
  for (auto t = 0U; t != nt; ++t) {
    auto const& g = got[t];
    for (std::size_t k = 1; k < g.size(); ++k) VP_CHECK(g[k - 1U] < g[k], "claim-order", "one thread claimed bit %u after bit %u", g[k], g[k - 1U]);
    for (auto const i : g) { all.push_back(i); order = mix(order, t * 100000ULL + i); }
    busy += g.empty() ? 0U : 1U;
  }
  std::sort(all.begin(), all.end());
  for (std::size_t k = 1; k < all.size(); ++k) VP_CHECK(all[k - 1U] != all[k], "claimed-twice", "bit %u was claimed twice", all[k]);
  VP_CHECK(all == want, "not-claimed", "%zu of %zu set bits were claimed", all.size(), want.size());
  ev("claims", all.size());
  if (busy > 1U) ev("claims_by_several_threads");
  distinct(order);
}
}  // namespace

VP_SUITE_NOBALANCE(or_only, 2) { words(r, true, r.coin()); }
VP_SUITE_NOBALANCE(or_and_bits, 2) { words(r, false, true); }
VP_SUITE_NOBALANCE(or_and_masks, 1) { words(r, false, false); }
VP_SUITE_NOBALANCE(bitvec_atomic, 3) { bits(r); }
VP_SUITE_NOBALANCE(min_max, 3) { minmax(r); }
VP_SUITE_NOBALANCE(cursor, 2) { claims(r); }
VP_MAIN()
