// Shared runtime-monitoring toolkit: deterministic case generation, operation
// log, event counters, distinct-state recording, allocation balance, and one
// way for every kind of failure to be reported.
#pragma once

#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define VP_TSAN 1
#endif

#if defined(VP_ASAN) || defined(VP_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)());
#endif
#if defined(VP_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void*, std::size_t),
    void (*)(const volatile void*));
extern "C" void __lsan_disable();
extern "C" void __lsan_enable();
#endif

namespace vp {

// ---------------------------------------------------------------- randomness
struct rng {
  std::uint64_t s_;
  explicit rng(std::uint64_t s = 0) : s_{s} {}
  std::uint64_t next() {
    s_ += 0x9E3779B97F4A7C15ULL;
    auto z = s_;
    z = (z ^ (z >> 30U)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27U)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31U);
  }
  // uniform in [0, n)
  std::uint64_t below(std::uint64_t n) { return n == 0U ? 0U : next() % n; }
  // uniform in [a, b]
  std::int64_t range(std::int64_t a, std::int64_t b) {
    return a + static_cast<std::int64_t>(
                   below(static_cast<std::uint64_t>(b - a) + 1U));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool coin() { return (next() >> 17U) & 1U; }
  template <typename T>
  T const& pick(std::vector<T> const& v) {
    return v[below(v.size())];
  }
  // mostly small, sometimes around powers of two, sometimes large
  std::size_t size(std::size_t max) {
    std::size_t r = 0;
    switch (below(8)) {
      case 0: r = 0; break;
      case 1: r = 1; break;
      case 2: r = below(4); break;
      case 3: r = below(20); break;
      case 4: {
        auto const p = std::size_t{1} << below(12);
        r = p + below(3) - 1U;
        break;
      }
      default: r = below(max + 1U);
    }
    return r > max ? below(max + 1U) : r;
  }
  // a large size, often around a power of two at which a narrower type ends
  std::size_t big(std::size_t max) {
#if defined(VP_VALGRIND)
    if (max > 5000U) max = 5000U;
#endif
    static std::size_t const at[] = {256, 1024, 4096, 32768, 65536, 65536, 131072};
    std::size_t n = 0;
    switch (below(4)) {
      case 0: n = at[below(7)] + below(3) - 1U; break;
      case 1: n = at[below(5)] + below(at[below(3)]); break;
      case 2: n = below(5000); break;
      default: n = below(chance(1, 4) ? max + 1U : 20000U);
    }
    return n > max ? below(max + 1U) : n;
  }
  // interesting 64bit value
  std::uint64_t value() {
    switch (below(7)) {
      case 0: return 0;
      case 1: return ~0ULL;
      case 2: return below(16);
      case 3: return std::uint64_t{1} << below(64);
      case 4: return (std::uint64_t{1} << below(64)) - 1U;
      default: return next();
    }
  }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  rng r{a ^ (b * 0xD6E8FEB86659FD93ULL)};
  r.next();
  return r.next();
}

inline std::uint64_t fnv(void const* p, std::size_t n,
                         std::uint64_t h = 1469598103934665603ULL) {
  auto const* c = static_cast<unsigned char const*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ULL;
  }
  return h;
}

// -------------------------------------------------------------------- state
struct state {
  std::uint64_t seed{1};
  std::uint64_t case_no{0};
  char const* suite{"-"};
  char log[1U << 15U]{};
  std::size_t log_len{0};
  bool log_truncated{false};
  bool verbose{false};
  std::uint64_t ops{0};
  std::uint64_t checks{0};
  std::uint64_t cases{0};
  bool reported{false};
  bool measure{true};
};
// one monitor state per thread in drivers that run several
#if defined(VP_MT)
#define VP_PER_THREAD thread_local
#else
#define VP_PER_THREAD
#endif
inline state& st() {
  static VP_PER_THREAD state s;
  return s;
}
struct counters {
  std::map<std::string, std::uint64_t> events;
  std::map<std::string, std::uint64_t> suites;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
};
inline counters& cnt() {
  static VP_PER_THREAD auto* c = new counters;
  return *c;
}

inline long& live_allocs() {
  static long n = 0;
  return n;
}
inline long& live_bytes() {
  static long n = 0;
  return n;
}
inline bool& in_monitor() {
  static VP_PER_THREAD bool b = false;
  return b;
}
// Allocations made by the monitor itself do not count for the balance.
struct monitor_scope {
  bool old_;
  monitor_scope() : old_{in_monitor()} { in_monitor() = true; }
  ~monitor_scope() { in_monitor() = old_; }
};

inline void ev(char const* name, std::uint64_t n = 1) {
  if (!st().measure) return;
  monitor_scope m;
  cnt().events[name] += n;
}
// Records the (hash of the) abstract state or input a monitor judged.
inline void distinct(std::uint64_t h) {
  if (!st().measure) return;
  monitor_scope m;
  if (cnt().distinct.size() < 400000U) {
    cnt().distinct.insert(h);
  }
}

__attribute__((format(printf, 1, 2))) inline void op(char const* fmt, ...) {
  auto& s = st();
  ++s.ops;
  if (s.log_len + 400U > sizeof(s.log)) {
    // keep the most recent half
    auto const keep = sizeof(s.log) / 2U;
    std::memmove(s.log, s.log + s.log_len - keep, keep);
    s.log_len = keep;
    s.log_truncated = true;
  }
  va_list ap;
  va_start(ap, fmt);
  auto const n = std::vsnprintf(s.log + s.log_len, 390U, fmt, ap);
  va_end(ap);
  if (n > 0) {
    s.log_len += static_cast<std::size_t>(n < 390 ? n : 389);
    s.log[s.log_len++] = ';';
    s.log[s.log_len++] = ' ';
  }
  if (s.verbose) {
    auto const c = s.log[s.log_len];
    (void)c;
    std::fprintf(stderr, "  op: %.*s\n", n,
                 s.log + s.log_len - 2 - (n < 390 ? n : 389));
  }
}

inline void report(char const* kind, char const* key, char const* detail) {
  auto& s = st();
  if (s.reported) {
    return;
  }
  s.reported = true;
  std::fflush(stdout);
  static char buf[sizeof(s.log) + 4096];
  auto const n = std::snprintf(
      buf, sizeof(buf),
      "\n@@FAIL kind=%s key=%s suite=%s case=%llu seed=%llu\n@@DETAIL %s\n"
      "@@OPLOG %s%.*s\n",
      kind, key, s.suite, static_cast<unsigned long long>(s.case_no),
      static_cast<unsigned long long>(s.seed), detail,
      s.log_truncated ? "... " : "", static_cast<int>(s.log_len), s.log);
  if (n > 0) {
    auto const r = ::write(1, buf, static_cast<std::size_t>(
                           n < (int)sizeof(buf) ? n : (int)sizeof(buf) - 1));
    (void)r;
  }
}

[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(
    char const* key, char const* fmt, ...) {
  char d[2048];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(d, sizeof(d), fmt, ap);
  va_end(ap);
  for (auto* c = d; *c != 0; ++c) {
    if (*c == '\n') *c = ' ';
  }
  report("monitor", key, d);
  ::_exit(77);
}

#define VP_CHECK(cond, key, ...)     \
  do {                               \
    ++::vp::st().checks;             \
    if (!(cond)) {                   \
      ::vp::fail(key, __VA_ARGS__);  \
    }                                \
  } while (0)

inline void on_death() { report("sanitizer", "sanitizer-report", "see sanitizer output"); }
inline void on_hang(int) {
  report("hang", "hang", "one case used up its CPU time budget");
  ::_exit(79);
}
// CPU time budget of one case (not wall time: a loaded machine is no hang)
inline void arm_watchdog(long seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  ::setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_signal(int sig) {
  report("signal", sig == SIGABRT ? "SIGABRT" : sig == SIGSEGV ? "SIGSEGV"
                   : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS"
                   : sig == SIGALRM ? "SIGALRM" : "signal", "killed by signal");
  std::signal(sig, SIG_DFL);
  std::raise(sig);
}
inline void on_terminate() {
  char const* what = "unknown";
  static char buf[512];
  if (auto p = std::current_exception()) {
    try {
      std::rethrow_exception(p);
    } catch (std::exception const& e) {
      std::snprintf(buf, sizeof(buf), "std::terminate with exception: %s", e.what());
      what = buf;
    } catch (...) {
      what = "std::terminate with unknown exception";
    }
  } else {
    what = "std::terminate";
  }
  report("terminate", "terminate", what);
  ::_exit(78);
}

#if defined(VP_ASAN)
inline void malloc_hook(const volatile void*, std::size_t) {
  if (!in_monitor()) {
    ++live_allocs();
  }
}
inline void free_hook(const volatile void* p) {
  if (p != nullptr && !in_monitor()) {
    --live_allocs();
  }
}
#endif

// -------------------------------------------------------------------- driver
struct suite {
  char const* name;
  unsigned weight;
  void (*fn)(rng&);
  bool leak_balance;  // require allocation balance over one case
};

inline std::vector<suite>& suites() {
  static auto* s = new std::vector<suite>;
  return *s;
}
struct finding {
  char const* name;
  void (*fn)(rng&);
};
inline std::vector<finding>& findings() {
  static auto* s = new std::vector<finding>;
  return *s;
}
struct reg {
  reg(char const* n, unsigned w, void (*f)(rng&), bool leak = true) {
    suites().push_back({n, w, f, leak});
  }
};
struct reg_finding {
  reg_finding(char const* n, void (*f)(rng&)) { findings().push_back({n, f}); }
};
#define VP_SUITE(name, weight)                             \
  static void name(::vp::rng&);                            \
  static ::vp::reg reg_##name{#name, weight, &name, true}; \
  static void name(::vp::rng& r)
#define VP_SUITE_NOBALANCE(name, weight)                    \
  static void name(::vp::rng&);                             \
  static ::vp::reg reg_##name{#name, weight, &name, false}; \
  static void name(::vp::rng& r)
#define VP_FINDING(name)                                  \
  static void name(::vp::rng&);                           \
  static ::vp::reg_finding regf_##name{#name, &name};     \
  static void name(::vp::rng& r)

inline void json_escape(std::string& out, std::string const& in) {
  for (auto const c : in) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (static_cast<unsigned char>(c) < 0x20 ||
               static_cast<unsigned char>(c) > 0x7e) {
      out += '?';
    } else {
      out += c;
    }
  }
}

inline void begin_case(std::uint64_t c, char const* name) {
  auto& s = st();
  s.case_no = c;
  s.suite = name;
  s.log_len = 0;
  s.log_truncated = false;
}

inline long& case_budget() {
#if defined(VP_VALGRIND)
  static long s = 180;
#else
  static long s = 40;
#endif
  return s;
}

inline void run_one(suite const& su, std::uint64_t c) {
  auto& s = st();
  auto const once = [&]() {
    begin_case(c, su.name);
    arm_watchdog(case_budget());
    rng r{mix(mix(s.seed, fnv(su.name, std::strlen(su.name))), c)};
    auto const before = live_allocs();
    su.fn(r);
    return live_allocs() - before;
  };
  auto const leak = once();
  if (su.leak_balance && leak > 0) {
    // A lazily initialised static would only show up once.
    s.measure = false;
    auto const again = once();
    s.measure = true;
    if (again > 0) {
      fail("leak", "%ld allocation(s) made by the case were never released "
           "(%ld on the first run)", again, leak);
    }
  }
  ++s.cases;
  monitor_scope m;
  cnt().suites[su.name]++;
  auto const& seen = cnt().suites[su.name];
  if (seen <= 1 && s.log_len != 0U && cnt().samples.size() < 12U) {
    cnt().samples.push_back(std::string{su.name} + " case " +
                            std::to_string(c) + ": " +
                            std::string{s.log, s.log_len < 400U ? s.log_len : 400U});
  }
}

inline int driver_main(int argc, char** argv) {
  auto& s = st();
  std::uint64_t from = 0, to = 100;
  char const* only_suite = nullptr;
  char const* finding_name = nullptr;
  char const* distinct_out = nullptr;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    auto const is = [&](char const* n) { return std::strcmp(argv[i], n) == 0; };
    if (is("--seed")) s.seed = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--from")) from = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--to")) to = std::strtoull(argv[++i], nullptr, 10);
    else if (is("--suite")) only_suite = argv[++i];
    else if (is("--finding")) finding_name = argv[++i];
    else if (is("--distinct-out")) distinct_out = argv[++i];
    else if (is("--verbose")) s.verbose = true;
    else if (is("--list")) list = true;
    else { std::fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
  }
  if (list) {
    for (auto const& x : suites()) std::printf("%s %u\n", x.name, x.weight);
    return 0;
  }
  std::set_terminate(on_terminate);
  std::signal(SIGABRT, on_signal);
  std::signal(SIGPROF, on_hang);
#if !defined(VP_ASAN) && !defined(VP_TSAN)
  std::signal(SIGSEGV, on_signal);
  std::signal(SIGBUS, on_signal);
  std::signal(SIGFPE, on_signal);
#endif
#if defined(VP_ASAN) || defined(VP_TSAN)
  __sanitizer_set_death_callback(on_death);
#endif
#if defined(VP_ASAN)
  __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
#endif
  if (finding_name != nullptr) {
    for (auto const& f : findings()) {
      if (std::strcmp(f.name, finding_name) == 0) {
        begin_case(0, f.name);
        arm_watchdog(case_budget());
        rng r{s.seed};
        f.fn(r);
        std::printf("@@FINDING-QUIET %s\n", f.name);
        return 0;
      }
    }
    std::fprintf(stderr, "unknown finding %s\n", finding_name);
    return 2;
  }
  unsigned total = 0;
  for (auto const& x : suites()) total += x.weight;
  if (total == 0) return 2;
  for (auto c = from; c < to; ++c) {
    suite const* chosen = nullptr;
    if (only_suite != nullptr) {
      for (auto const& x : suites())
        if (std::strcmp(x.name, only_suite) == 0) chosen = &x;
      if (chosen == nullptr) return 2;
    } else {
      // low-discrepancy assignment of case numbers to suites
      auto t = static_cast<unsigned>((c * 0x9E3779B1ULL & 0xffffffffULL) * total >> 32U);
      for (auto const& x : suites()) {
        if (t < x.weight) {
          chosen = &x;
          break;
        }
        t -= x.weight;
      }
    }
    run_one(*chosen, c);
  }
  std::string out = "@@STATS {\"cases\":" + std::to_string(s.cases) +
                    ",\"ops\":" + std::to_string(s.ops) +
                    ",\"checks\":" + std::to_string(s.checks) + ",\"suites\":{";
  bool first = true;
  for (auto const& [k, v] : cnt().suites) {
    out += (first ? "\"" : ",\"") + k + "\":" + std::to_string(v);
    first = false;
  }
  out += "},\"events\":{";
  first = true;
  for (auto const& [k, v] : cnt().events) {
    out += (first ? "\"" : ",\"") + k + "\":" + std::to_string(v);
    first = false;
  }
  out += "},\"samples\":[";
  first = true;
  for (auto const& x : cnt().samples) {
    out += first ? "\"" : ",\"";
    json_escape(out, x);
    out += "\"";
    first = false;
  }
  out += "]}\n";
  if (distinct_out != nullptr) {
    if (auto* f = std::fopen(distinct_out, "wb")) {
      for (auto const h : cnt().distinct) std::fwrite(&h, sizeof(h), 1, f);
      std::fclose(f);
    }
  }
  std::fputs(out.c_str(), stdout);
  std::fflush(stdout);
  return 0;
}

}  // namespace vp

#define VP_MAIN() \
  int main(int argc, char** argv) { return ::vp::driver_main(argc, argv); }
