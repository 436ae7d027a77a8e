// Files: what a fault leaves in the object and in the file.
#include "p19.h"
#include <sys/resource.h>
#include <csignal>
namespace vp {
using prot = cista::mmap::protection;
inline std::string const& path_of(unsigned const i) {
  static std::string const p[] = {scratch_path("a"), scratch_path("b"), scratch_path("c")};
  return p[i];
}
inline bytes some_bytes(rng& r, std::size_t const max) {
  bytes b(map_size(r, max));
  for (auto& x : b) x = static_cast<std::uint8_t>(r.next());
  return b;
}

// An object on a file; `want` is what both have to hold.
template <typename Obj>
struct on_file {
  std::optional<Obj> obj;
  bytes want;
  bool opened{false};
};
struct step_result {
  bool thrown{false};
  std::string what;
};

// Runs `run` once per fault position on a freshly prepared object; `judge`
// looks at object and file after the fault, `finish` closes everything.
template <typename State, typename Prepare, typename Run, typename Judge>
void every_file_fault(rng& r, char const* name, Prepare&& prepare, Run&& run, Judge&& judge, bool const closes = false) {
  track_allocations();
  auto const seed = r.next(), op_seed = r.next();
  unsigned long total;
  {
    State s;
    rng x{seed}, y{op_seed};
    prepare(x, s);
    plan(kNever, false);
    run(y, s);
    // (closing cannot report anything)
    total = closes ? fault().last_sync : fault().seen;
    judge(s, false);
  }
  nothing_held("after an operation without faults");
  op("%s: %lu things can fail", name, total);
  ev("file_operations");
  if (total == 0U) ev("operations_that_cannot_fail");
  for (unsigned long k = 0; k < total; k += total > 60U ? 1U + r.below(total / 20U) : 1U) {
    for (auto const persistent : {false, true}) {
      auto const allocs = tracked_allocs();
      {
        State s;
        rng x{seed}, y{op_seed};
        prepare(x, s);
        plan(k, persistent);
        std::string what;
        auto const thrown = throws([&]() { run(y, s); }, &what);
        if (fault().hits == 0U) fail("not-repeatable", "%s has fewer than %lu fault positions the second time", name, k);
        auto const kind = fault().hit_kind;
        op("%s number %lu fails%s: %s", kind_name(kind), k, persistent ? " and later ones" : "", thrown ? what.c_str() : "no exception");
        VP_CHECK(!thrown || !what.empty(), "no-reason", "%s: the exception says nothing", name);
        plan(kNever, false);
        ev(thrown ? "fault_reported" : "fault_absorbed");
        if (thrown) ev(kind_name(kind));
        judge(s, thrown);
      }
      nothing_held(name);
      VP_CHECK(tracked_allocs() <= allocs, "leak-after-fault", "%s: %ld allocations were never released", name, tracked_allocs() - allocs);
      ev(persistent ? "faults_lasting" : "faults_single");
    }
  }
  std::remove(path_of(0).c_str());
  std::remove(path_of(1).c_str());
}

// ------------------------------------------------------------------ mappings
struct map_state {
  std::optional<cista::mmap> m;
  bytes before, after;  // contents without and with the operation
  bytes other;          // of the second file
};
inline void prepare_map(rng& r, map_state& s) {
  s.before = some_bytes(r, 20000U);
  spill(path_of(0), s.before);
  s.m.emplace(path_of(0).c_str(), prot::MODIFY);
  s.after = s.before;
}
// the contents are those before or after, stay usable, and end up in the file
inline void judge_map(map_state& s, bool const thrown) {
  auto& want = thrown ? s.before : s.after;
  {
    monitor_scope mon;
    auto& m = *s.m;
    same_bytes("mapping after the fault", want.data(), want.size(), m.data(), m.size());
    if (thrown) {
      // goes on working
      want.push_back(0x77U);
      m.resize(want.size());
      m[want.size() - 1U] = 0x77U;
      same_bytes("mapping used again", want.data(), want.size(), m.data(), m.size());
      ev("used_again");
    }
    s.m.reset();
    file_is("file after the fault", want, path_of(0));
  }
}
}  // namespace vp
VP_SUITE_NOBALANCE(mappings, 3) {
  switch (r.below(5)) {
    case 0:
      return every_file_fault<map_state>(r, "growing a mapping", prepare_map, [](rng& x, map_state& s) {
        auto const n = map_size(x);
        armed([&]() { s.m->resize(n); });
        auto const old = s.after.size();
        s.after.resize(n);
        for (auto i = old; i < n; ++i) s.after[i] = (*s.m)[i] = static_cast<std::uint8_t>(i);
      }, judge_map);
    case 1:
      return every_file_fault<map_state>(r, "reserving", prepare_map, [](rng& x, map_state& s) {
        auto const n = map_size(x);
        armed([&]() { s.m->reserve(n); });
      }, judge_map);
    case 2:
      return every_file_fault<map_state>(r, "syncing", prepare_map, [](rng&, map_state& s) { armed([&]() { s.m->sync(); }); }, judge_map);
    case 3: {
      // opening: nothing happens to the file (but for WRITE, which empties it)
      auto const p = static_cast<prot>(r.below(3));
      return every_file_fault<map_state>(r, "opening a mapping", [](rng& x, map_state& s) {
        s.before = some_bytes(x, 9000U);
        spill(path_of(0), s.before);
      }, [p](rng&, map_state& s) { armed([&]() { s.m.emplace(path_of(0).c_str(), p); }); }, [p](map_state& s, bool const thrown) {
        monitor_scope mon;
        VP_CHECK(s.m.has_value() == !thrown, "half-open", "opening failed halfway");
        if (p != prot::WRITE) file_is("file after opening", s.before, path_of(0));
        if (thrown) {
          s.m.emplace(path_of(0).c_str(), p);
          ev("used_again");
        }
        if (p == prot::WRITE) s.before.clear();
        same_bytes("opened mapping", s.before.data(), s.before.size(), s.m->data(), s.m->size());
        s.m.reset();
        file_is("file after opening", s.before, path_of(0));
      });
    }
    default:
      // the mapping of another file is replaced; giving it up can fail
      return every_file_fault<map_state>(r, "replacing a mapping", [](rng& x, map_state& s) {
        prepare_map(x, s);
        s.other = some_bytes(x, 9000U);
        spill(path_of(1), s.other);
        s.m->resize(s.before.size() + 10U);
        for (unsigned i = 0; i != 10U; ++i) {
          (*s.m)[s.before.size()] = 9U;
          s.before.push_back(9U);
        }
      }, [](rng&, map_state& s) {
        auto o = cista::mmap{path_of(1).c_str(), prot::MODIFY};
        armed([&]() { *s.m = std::move(o); });
      }, [](map_state& s, bool const thrown) {
        monitor_scope mon;
        auto const* want = thrown ? &s.before : &s.other;
        if (!(thrown && s.m->data() == nullptr)) {
          same_bytes("mapping after replacing", want->data(), want->size(), s.m->data(), s.m->size());
        } else {
          ev("given_up");
        }
        s.m.reset();
        // in any case all that was stored is in the files
        auto f = slurp(path_of(0));
        VP_CHECK(f.size() >= s.before.size(), "stored-size", "%zu bytes are left of %zu", f.size(), s.before.size());
        same_bytes("first file", s.before.data(), s.before.size(), f.data(), s.before.size());
        file_is("second file", s.other, path_of(1));
      });
  }
}

// --------------------------------------------------------- mapped vectors
namespace vp {
struct vec_state {
  std::optional<cista::mmap_vec<std::uint32_t>> v;
  std::vector<std::uint32_t> before, after;
};
}  // namespace vp
VP_SUITE_NOBALANCE(mapped_vectors, 2) {
  auto const what = r.below(6);
  every_file_fault<vec_state>(r, "changing a mapped vector", [](rng& x, vec_state& s) {
    s.before.resize(map_size(x, 9000U) / 4U);
    for (auto& e : s.before) e = static_cast<std::uint32_t>(x.next());
    spill(path_of(0), s.before.data(), s.before.size() * 4U);
    s.v.emplace(cista::mmap{path_of(0).c_str(), prot::MODIFY});
    s.after = s.before;
  }, [what](rng& x, vec_state& s) {
    auto& v = *s.v;
    std::vector<std::uint32_t> e(map_size(x, 9000U) / 4U);
    for (auto& y : e) y = static_cast<std::uint32_t>(x.next());
    auto const at = x.below(s.before.size() + 1U);
    auto const n = static_cast<std::uint32_t>(map_size(x, 20000U) / 4U);
    switch (what) {
      case 0: armed([&]() { v.push_back(7U); }); s.after.push_back(7U); break;
      case 1: armed([&]() { v.resize(n); }); s.after.resize(n); break;
      case 2: armed([&]() { v.reserve(n); }); break;
      case 3: armed([&]() { v.insert(v.begin() + at, 9U); }); s.after.insert(s.after.begin() + static_cast<std::ptrdiff_t>(at), 9U); break;
      case 4: armed([&]() { v.insert(v.begin() + at, e.begin(), e.end()); }); s.after.insert(s.after.begin() + static_cast<std::ptrdiff_t>(at), e.begin(), e.end()); break;
      default: armed([&]() { v.set(e.begin(), e.end()); }); s.after = e;
    }
  }, [](vec_state& s, bool const thrown) {
    monitor_scope mon;
    auto& want = thrown ? s.before : s.after;
    auto& v = *s.v;
    VP_CHECK(v.size() == want.size(), "vec-size", "%u elements after the fault, expected %zu", v.size(), want.size());
    same_bytes("vector after the fault", want.data(), want.size() * 4U, v.data(), v.size() * 4U);
    if (thrown) {
      for (unsigned i = 0; i != 3U; ++i) {
        v.push_back(i);
        want.push_back(i);
      }
      ev("used_again");
    }
    s.v.reset();
    auto const f = slurp(path_of(0));
    same_bytes("file after the fault", want.data(), want.size() * 4U, f.data(), f.size());
  });
}

// ------------------------------------------------------------------- streams
namespace vp {
struct stream_state {
  std::optional<cista::file> f;
  bytes before, after;
  bytes got;
  std::uint64_t sum{0};
};
inline void prepare_stream(rng& r, stream_state& s) {
  s.before = some_bytes(r, 20000U);
  spill(path_of(0), s.before);
  s.f.emplace(path_of(0).c_str(), "r+");
  s.after = s.before;
}
inline void judge_stream(stream_state& s, bool const thrown) {
  monitor_scope mon;
  auto& want = thrown ? s.before : s.after;
  auto& f = *s.f;
  if (thrown) {
    // the same object goes on where it was
    static std::uint8_t const more[] = {1, 2, 3, 4, 5};
    auto const at = f.write(more, 5U, 0U);
    VP_CHECK(at == static_cast<cista::offset_t>(want.size()), "block-position", "after a failed operation a block is put at %lld, expected %zu", static_cast<long long>(at), want.size());
    auto const old = want.size();
    want.insert(want.end(), more, more + 5);
    // what a failed write left behind it is cut off or overwritten, never in front
    auto const c = f.content();
    VP_CHECK(c.size() >= want.size(), "stored-size", "%zu bytes, expected at least %zu", c.size(), want.size());
    same_bytes("stream used again", want.data(), old + 5U, c.data(), want.size());
    s.f.reset();
    ev("used_again");
    return;
  }
  auto const c = f.content();
  same_bytes("stream after a fault that was not reported", want.data(), want.size(), c.data(), c.size());
  s.f.reset();
  file_is("file after a fault that was not reported", want, path_of(0));
}
}  // namespace vp
VP_SUITE_NOBALANCE(streams, 3) {
  switch (r.below(7)) {
    case 0: {
      auto const w = r.coin();
      return every_file_fault<stream_state>(r, "opening a stream", [](rng& x, stream_state& s) {
        s.before = some_bytes(x, 5000U);
        spill(path_of(0), s.before);
      }, [w](rng&, stream_state& s) { armed([&]() { s.f.emplace(path_of(0).c_str(), w ? "r+" : "r"); }); }, [](stream_state& s, bool const thrown) {
        monitor_scope mon;
        VP_CHECK(s.f.has_value() == !thrown, "half-open", "opening failed halfway");
        if (!thrown) {
          auto const c = s.f->content();
          same_bytes("opened stream", s.before.data(), s.before.size(), c.data(), c.size());
        }
        s.f.reset();
        file_is("opened file", s.before, path_of(0));
      });
    }
    case 1:
      return every_file_fault<stream_state>(r, "size", prepare_stream, [](rng&, stream_state& s) {
        std::size_t n = 0;
        armed([&]() { n = s.f->size(); });
        VP_CHECK(n == s.before.size(), "stream-size", "size() is %zu, expected %zu", n, s.before.size());
      }, judge_stream);
    case 2:
      return every_file_fault<stream_state>(r, "content", prepare_stream, [](rng&, stream_state& s) {
        armed([&]() {
          auto const b = s.f->content();
          same_bytes("content()", s.before.data(), s.before.size(), b.data(), b.size());
        });
      }, judge_stream);
    case 3:
      return every_file_fault<stream_state>(r, "checksum", prepare_stream, [](rng& x, stream_state& s) {
        auto const from = x.below(s.before.size() + 1U);
        std::uint64_t sum = 0;
        armed([&]() { sum = s.f->checksum(static_cast<cista::offset_t>(from)); });
        VP_CHECK(sum == cista::hash(std::string_view{reinterpret_cast<char const*>(s.before.data()) + from, s.before.size() - from}), "checksum", "a wrong checksum instead of an exception");
      }, judge_stream);
    case 4:
    case 5:
      return every_file_fault<stream_state>(r, "appending to a stream", prepare_stream, [](rng& x, stream_state& s) {
        auto const b = some_bytes(x, 9000U);
        auto const align = std::size_t{1} << x.below(6);
        armed([&]() { s.f->write(b.data() == nullptr ? reinterpret_cast<std::uint8_t const*>("") : b.data(), b.size(), align); });
        s.after.resize((s.after.size() + align - 1U) / align * align);
        s.after.insert(s.after.end(), b.begin(), b.end());
      }, judge_stream);
    default:
      return every_file_fault<stream_state>(r, "updating a stream", prepare_stream, [](rng& x, stream_state& s) {
        if (s.before.size() < 8U) return;
        auto const at = x.below(s.before.size() - 7U);
        std::uint64_t v = 0;  // (a partial update must not be mistaken for a full one: same bytes)
        std::memcpy(&v, &s.before[at], 8U);
        armed([&]() { s.f->write(at, v); });
      }, judge_stream);
  }
}

// --------------------------------------------------- whole values and files
namespace vp {
struct value_state {
  offt::maps v;
  std::string before;
  bytes image;
  std::optional<cista::wrapped<offt::maps>> got;
};
}  // namespace vp
VP_SUITE_NOBALANCE(whole_values, 2) {
  constexpr auto const M = cista::kDefaultMode;
  using T = offt::maps;
  auto const prepare = [](rng& x, value_state& s) {
    gen(x, s.v, static_cast<int>(x.below(3)) - 1);
    s.before = render(s.v);
    s.image = cista::serialize<M>(s.v);
    spill(path_of(0), s.image);
  };
  auto const read_judge = [](value_state& s, bool const thrown) {
    monitor_scope mon;
    VP_CHECK(s.got.has_value() == !thrown, "half-read", "reading failed halfway");
    if (!thrown) VP_CHECK(render(*std::as_const(*s.got)) == s.before, "value-differs", "a fault was not reported and the value read differs");
    s.got.reset();
    file_is("read file", s.image, path_of(0));
  };
  switch (r.below(4)) {
    case 0: return every_file_fault<value_state>(r, "read", prepare, [](rng&, value_state& s) { armed([&]() { s.got.emplace(cista::read<T, M>(path_of(0))); }); }, read_judge);
    case 1: return every_file_fault<value_state>(r, "read_mmap", prepare, [](rng&, value_state& s) { armed([&]() { s.got.emplace(cista::read_mmap<T, M>(path_of(0))); }); }, read_judge);
    case 2:
      return every_file_fault<value_state>(r, "write", prepare, [](rng&, value_state& s) { armed([&]() { cista::write<M>(std::filesystem::path{path_of(1)}, s.v); }); }, [](value_state& s, bool const thrown) {
        monitor_scope mon;
        VP_CHECK(render(s.v) == s.before, "source-changed", "a failed writing changed the value");
        if (!thrown) file_is("written file", s.image, path_of(1));
        cista::write<M>(std::filesystem::path{path_of(1)}, s.v);
        file_is("written file", s.image, path_of(1));
        ev("used_again");
      }, true);
    default:
      return every_file_fault<value_state>(r, "serialize to a stream", prepare, [](rng&, value_state& s) {
        auto f = cista::file{path_of(1).c_str(), "w+"};
        armed([&]() { cista::serialize<M>(f, s.v); f.size(); });
      }, [](value_state& s, bool const thrown) {
        monitor_scope mon;
        VP_CHECK(render(s.v) == s.before, "source-changed", "a failed writing changed the value");
        if (!thrown) file_is("written file", s.image, path_of(1));
        ev("streamed");
      });
  }
}

// a device that is really full
VP_SUITE_NOBALANCE(full_device, 1) {
  cista::file f{"/dev/full", "w"};
  auto const b = some_bytes(r, 30000U);
  op("%zu bytes to a full device", b.size());
  auto const t = throws([&]() {
    f.write(b.data() == nullptr ? reinterpret_cast<std::uint8_t const*>("") : b.data(), b.size(), 0U);
    f.size();
  });
  VP_CHECK(t || b.empty(), "silent-fault", "%zu bytes written to a full device", b.size());
  ev(t ? "full_device_reported" : "nothing_written");
}

// a file that someone else made shorter: what is missing is not made up
VP_SUITE_NOBALANCE(shortened, 1) {
  auto b = some_bytes(r, r.chance(1, 4) ? 1200000U : 30000U);
  spill(path_of(0), b);
  {
    cista::file f{path_of(0).c_str(), r.coin() ? "r" : "r+"};
    auto const before = f.checksum();
    VP_CHECK(before == cista::hash(std::string_view{reinterpret_cast<char const*>(b.data()), b.size()}), "checksum", "a wrong checksum");
    if (r.coin()) f = cista::file{path_of(0).c_str(), "r"};
    auto const n = r.below(b.size() + 1U);
    auto const from = r.below(n + 1U);
    op("%zu bytes, shortened to %zu, read from %zu", b.size(), static_cast<std::size_t>(n), static_cast<std::size_t>(from));
    auto const all = b;
    b.resize(n);
    VP_CHECK(::truncate(path_of(0).c_str(), static_cast<off_t>(n)) == 0, "harness", "truncate");
    auto const hash_of = [&](bytes const& x) { return cista::hash(std::string_view{reinterpret_cast<char const*>(x.data()) + from, x.size() - from}); };
    std::uint64_t sum = 0;
    // (what was read before may still be in the stream's buffer)
    if (!throws([&]() { sum = f.checksum(static_cast<cista::offset_t>(from)); })) {
      VP_CHECK(sum == hash_of(b) || sum == hash_of(all), "checksum", "the checksum is that of neither what the file held nor of what it holds");
      ev("shortened_still_read");
    } else {
      ev("shortened_reported");
    }
    if (!throws([&]() { auto const c = f.content(); b.assign(c.begin(), c.end()); })) {
      VP_CHECK(b.size() <= all.size() && std::equal(b.begin(), b.end(), all.begin()), "content", "bytes that were never in the file");
    }
  }
  std::remove(path_of(0).c_str());
}

// ------------------------------------------------ more than there can be
namespace vp {
template <typename V>
void huge_vector(rng& r, char const* type) {
  using size = typename V::size_type;
  V v;
  for (auto n = r.below(20); n != 0U; --n) v.push_back({});
  auto const before = render(v);
  auto const max = std::numeric_limits<size>::max();
  auto const n = static_cast<size>(r.chance(1, 3) ? max - r.below(3) : r.coin() ? max / 2U + 1U + r.below(2) : (max >> r.below(8)) - r.below(2));
  auto const which = r.below(3);
  op("%s: %s %llu", type, which == 0U ? "reserve" : "resize", static_cast<unsigned long long>(n));
  std::string what;
  auto const refused = throws([&]() {
    switch (which) {
      case 0: v.reserve(n); break;
      case 1: v.resize(n); break;
      default: v.resize(n, typename V::value_type{}); break;
    }
  }, &what);
  VP_CHECK(refused, "huge-granted", "%s of %llu elements was granted", type, static_cast<unsigned long long>(n));
  VP_CHECK(render(v) == before, "changed-by-fault", "a refused request changed the vector");
  v.push_back({});
  ev("huge_refused");
}
}  // namespace vp
VP_SUITE_NOBALANCE(huge_requests, 1) {
  switch (r.below(6)) {
    case 0: return huge_vector<cista::basic_vector<std::uint64_t, cista::offset::ptr, false, std::uint64_t>>(r, "vector of 64 bit numbers");
    case 1: return huge_vector<cista::basic_vector<std::uint8_t, cista::raw::ptr, false, std::uint64_t>>(r, "vector of bytes");
    case 2: return huge_vector<cista::basic_vector<std::array<std::uint64_t, 512>, cista::offset::ptr>>(r, "vector of blocks");
    case 3: {
      // nothing can be of that size: contents and file stay
      auto const b = some_bytes(r, 9000U);
      spill(path_of(0), b);
      {
        cista::mmap m{path_of(0).c_str(), prot::MODIFY};
        auto const n = (std::size_t{1} << 63U) - r.below(3) + r.below(1000);
        op("mapping of %zu bytes: resize to %zu", b.size(), n);
        VP_CHECK(throws([&]() { if (r.coin()) m.resize(n); else m.reserve(n); }), "huge-granted", "a mapping of %zu bytes was granted", n);
        same_bytes("mapping after a refused request", b.data(), b.size(), m.data(), m.size());
      }
      file_is("file after a refused request", b, path_of(0));
      ev("huge_mapping_refused");
      break;
    }
    case 4: {
      auto const b = some_bytes(r, 9000U);
      spill(path_of(0), b);
      {
        cista::basic_mmap_vec<std::uint8_t, std::uint64_t> v{cista::mmap{path_of(0).c_str(), prot::MODIFY}};
        auto const n = ~std::uint64_t{0} - r.below(1000);
        op("mapped vector of %zu bytes: resize to %llu", b.size(), static_cast<unsigned long long>(n));
        VP_CHECK(throws([&]() { if (r.coin()) v.resize(n); else v.reserve(n); }), "huge-granted", "a mapped vector of %llu bytes was granted", static_cast<unsigned long long>(n));
        same_bytes("mapped vector after a refused request", b.data(), b.size(), v.data(), v.size());
      }
      file_is("file after a refused request", b, path_of(0));
      ev("huge_mapping_refused");
      break;
    }
    default: {
      // a file that may not grow any further
      auto const b = some_bytes(r, 9000U);
      spill(path_of(0), b);
      struct rlimit old, now;
      getrlimit(RLIMIT_FSIZE, &old);
      now = old;
      now.rlim_cur = 16384U;
      auto const handler = std::signal(SIGXFSZ, SIG_IGN);
      setrlimit(RLIMIT_FSIZE, &now);
      auto const restore = [&]() { setrlimit(RLIMIT_FSIZE, &old); std::signal(SIGXFSZ, handler); };
      std::size_t stored = 0U;
      {
        cista::mmap m{path_of(0).c_str(), prot::MODIFY};
        auto const n = 16385U + r.below(100000);
        op("mapping of %zu bytes: resize to %zu where files end at 16384", b.size(), n);
        auto const t = throws([&]() { m.resize(n); });
        restore();
        VP_CHECK(t, "huge-granted", "a mapping of %zu bytes was granted where files end at 16384", n);
        same_bytes("mapping after a refused request", b.data(), b.size(), m.data(), m.size());
        stored = m.size();
      }
      VP_CHECK(stored == b.size(), "mapping-size", "%zu", stored);
      file_is("file after a refused request", b, path_of(0));
      ev("limited_mapping_refused");
    }
  }
}
