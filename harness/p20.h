// Fault injection: every allocation and every file operation the code under
// test makes goes through here and can be made to fail.
#pragma once
#include <cerrno>
#include <new>

#include "ser_test.h"
#include "p19.h"

namespace vp {

enum kind : unsigned { MALLOC, ALIGNED, NEW, FOPEN, FREAD, FWRITE, FPUTC, FSEEK, FFLUSH, FSTAT, FTRUNCATE, MMAP, MSYNC, N_KINDS };
inline char const* kind_name(unsigned const k) {
  static char const* const n[] = {"malloc", "aligned_alloc", "operator_new", "fopen", "fread", "fwrite", "fputc", "fseek", "fflush", "fstat", "ftruncate", "mmap", "msync"};
  return n[k];
}

struct faults {
  bool armed{false};
  bool persistent{false};  // everything of the memory and transfer kind from there on
  unsigned long at{0};     // which call fails
  unsigned long seen{0};
  unsigned long hits{0};
  unsigned hit_kind{0};
  unsigned long last_sync{0};
  unsigned long per_kind[N_KINDS]{};
};
inline faults& fault() {
  static faults f;
  return f;
}
inline bool fails(kind const k) {
  auto& f = fault();
  if (!f.armed || in_monitor()) return false;
  auto const n = f.seen++;
  if (k == MSYNC) f.last_sync = n;
  auto const closing = k == MSYNC || k == FTRUNCATE || k == FFLUSH || k == FSTAT;
  if (n == f.at || (f.persistent && n > f.at && !closing)) {
    if (f.hits++ == 0U) f.hit_kind = k;
    f.per_kind[k]++;
    return true;
  }
  return false;
}

constexpr auto const kNever = ~0UL;
inline void plan(unsigned long const at, bool const persistent) {
  auto& f = fault();
  f.at = at;
  f.persistent = persistent;
  f.seen = f.hits = f.last_sync = 0U;
}
// the part of an operation that is watched
template <typename F>
void armed(F&& f) {
  struct guard {
    guard() { fault().armed = true; }
    ~guard() { fault().armed = false; }
  } g;
  f();
}

// Allocations made outside of the monitor, whoever releases them.
struct allocation_table {
  static constexpr auto const N = std::size_t{1} << 17U;
  void const* slot[N];
  long live{0};
  static std::size_t home(void const* p) { return static_cast<std::size_t>((reinterpret_cast<std::uintptr_t>(p) * 0x9e3779b97f4a7c15ULL) >> 47U); }
  void add(void const* p) {
    if (live * 2 > static_cast<long>(N)) return;
    auto i = home(p);
    while (slot[i] != nullptr) i = (i + 1U) % N;
    slot[i] = p;
    ++live;
  }
  void remove(void const* p) {
    auto i = home(p);
    while (slot[i] != p) {
      if (slot[i] == nullptr) return;
      i = (i + 1U) % N;
    }
    --live;
    for (auto j = i;;) {
      slot[i] = nullptr;
      for (;;) {
        j = (j + 1U) % N;
        if (slot[j] == nullptr) return;
        auto const h = home(slot[j]);
        if (i <= j ? (h <= i || h > j) : (h <= i && h > j)) break;
      }
      slot[i] = slot[j];
      i = j;
    }
  }
};
inline allocation_table& allocated() {
  static allocation_table t;
  return t;
}
inline void track_malloc(const volatile void* p, std::size_t) {
  if (p != nullptr && !in_monitor()) allocated().add(const_cast<void const*>(p));
}
inline void track_free(const volatile void* p) {
  if (p != nullptr && allocated().live != 0) allocated().remove(const_cast<void const*>(p));
}
inline long tracked_allocs() { return allocated().live; }
inline void track_allocations() {
#if defined(VP_ASAN)
  static bool const done = []() { __sanitizer_install_malloc_and_free_hooks(track_malloc, track_free); return true; }();
  (void)done;
#endif
}

template <typename F>
bool throws(F&& f, std::string* what) {
  try {
    f();
    return false;
  } catch (std::exception const& e) {
    monitor_scope m;
    *what = e.what();
    return true;
  }
}

// What is promised of an object after an operation on it failed.
enum promise {
  STRONG,  // as before
  EMPTY,   // as before or empty
  VALID,   // copying an element in the midst of several failed: any valid content
  WRECK    // the parts of a composed container may disagree: only destruction and assignment
};

template <typename C>
struct operation {
  char const* name;
  promise p;
  void (*fn)(C&, rng&);
};

template <typename C>
std::string text(C const& c) {
  monitor_scope m;
  return render(c);
}
template <typename C>
std::string const& empty_text() {
  static auto const* s = []() {
    monitor_scope m;
    auto c = std::make_unique<C>();
    return new std::string{render(*c)};
  }();
  return *s;
}

template <typename C>
struct copyable : std::is_copy_assignable<C> {};

// Runs one operation once for every position at which something can fail.
template <typename C, typename Build>
void every_fault(rng& r, char const* type, Build&& build, operation<C> const& o) {
  track_allocations();
  auto const seed = r.next(), op_seed = r.next();
  auto const make = [&]() {
    auto c = std::make_unique<C>();
    rng x{seed};
    build(x, *c);
    return c;
  };
  auto const apply = [&](C& c) {
    rng x{op_seed};
    o.fn(c, x);
  };
  std::string before, after;
  unsigned long total;
  {
    auto c = make();
    before = text(*c);
    plan(kNever, false);
    apply(*c);
    total = fault().seen;
    after = text(*c);
  }
  op("%s: %s, %lu things can fail: %.200s", type, o.name, total, before.c_str());
  ev("operations");
  if (total == 0U) ev("operations_that_cannot_fail");
  distinct(fnv(before.data(), before.size(), fnv(o.name, std::strlen(o.name))));
  auto const step = total > 60U ? total / 40U : 1U;
  for (auto k = 0UL; k < total; k += step == 1U ? 1U : 1U + r.below(2U * step)) {
    for (auto const persistent : {false, true}) {
      auto const allocs = tracked_allocs();
      {
        auto c = make();
        plan(k, persistent);
        std::string what;
        auto const thrown = throws([&]() { apply(*c); }, &what);
        auto const hit = fault().hits != 0U;
        auto const wreck = thrown && o.p == WRECK;
        auto const now = wreck ? std::string{} : text(*c);
        if (!hit) fail("not-repeatable", "%s: %s has fewer than %lu fault positions the second time", type, o.name, k);
        if (!thrown) {
          VP_CHECK(now == after, "silent-fault", "%s: %s: %s number %lu failed, no exception, and the result differs: %s", type, o.name, kind_name(fault().hit_kind), k,
                   diff_at(after, now).c_str());
          ev("absorbed");
        } else {
          VP_CHECK(!what.empty(), "no-reason", "%s: %s: the exception says nothing", type, o.name);
          auto const same = !wreck && now == before;
          VP_CHECK(wreck || o.p == VALID || same || (o.p == EMPTY && now == empty_text<C>()), "changed-by-fault", "%s: %s failed (%s number %lu, %s) and left something else behind: %s", type,
                   o.name, kind_name(fault().hit_kind), k, what.c_str(), diff_at(before, now).c_str());
          ev(wreck ? "only_assignable" : same ? "kept" : now == empty_text<C>() ? "emptied" : "changed");
          ev(kind_name(fault().hit_kind));
          // usable: the same again, now without fault
          plan(kNever, false);
          if (!wreck && (o.p != VALID || same)) {
            VP_CHECK(!throws([&]() { apply(*c); }, &what), "not-usable", "%s: %s once more, without fault: %s", type, o.name, what.c_str());
            if (same) {
              auto const again = text(*c);
              VP_CHECK(again == after, "retry-differs", "%s: %s after a failed attempt gives another result: %s", type, o.name, diff_at(after, again).c_str());
            }
          }
          // or given another value
          if constexpr (copyable<C>::value) {
            auto d = make();
            *c = *d;
            VP_CHECK(text(*c) == before, "not-usable", "%s: after a failed %s the object does not take another value", type, o.name);
          }
          ev("used_again");
        }
        ++st().checks;
      }
      VP_CHECK(tracked_allocs() <= allocs, "leak-after-fault", "%s: %s: after %s number %lu%s failed, %ld allocations were never released", type, o.name, kind_name(fault().hit_kind), k,
               persistent ? " and later ones" : "", tracked_allocs() - allocs);
      ev(persistent ? "faults_lasting" : "faults_single");
    }
  }
}

// an operation on `x` that must not change `x` when it fails
template <typename X, typename F>
void armed_keep(X const& x, F&& f) {
  auto const before = text(x);
  try {
    armed(f);
  } catch (std::exception const&) {
    VP_CHECK(text(x) == before, "source-changed", "a failed operation changed its source");
    throw;
  }
}
}  // namespace vp
