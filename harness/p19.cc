#include "p19.h"
using namespace vp;
using prot = cista::mmap::protection;

#if VP_PART == 0
// ------------------------------------------------------------ plain mappings
namespace {
struct slot {
  std::string path;
  std::optional<cista::mmap> m;
  prot p{prot::READ};
  bytes content;   // what the storage holds (open) or the file holds (closed)
  bool on_disk{false};
  bool write() const { return p != prot::READ; }
};

void look(slot& s, char const* when) {
  auto const& m = std::as_const(*s.m);
  VP_CHECK(m.size() == s.content.size(), "map-size", "%s: size() is %zu, expected %zu", when, m.size(), s.content.size());
  VP_CHECK(m.view().size() == m.size() && m.end() == m.begin() + m.size() && static_cast<void const*>(m.view().data()) == m.data(), "map-view", "%s: view, begin and end disagree", when);
  same_bytes(when, s.content.data(), s.content.size(), m.data(), m.size());
  if (!s.content.empty()) {
    auto const i = s.content.size() / 2U;
    VP_CHECK(m[i] == s.content[i] && (*s.m)[i] == s.content[i] && s.m->data() == m.data() && s.m->begin() == m.begin() && s.m->end() == m.end(), "map-view", "%s: element access disagrees", when);
  }
  ev("map_compared");
}
void others_see(slot& s) {
  // the mapping is shared: the file already holds what was stored
  auto const now = slurp(s.path);
  VP_CHECK(now.size() >= s.content.size(), "stored-size", "the file of an open mapping of %zu bytes has %zu bytes", s.content.size(), now.size());
  same_bytes("file of an open mapping", s.content.data(), s.content.size(), now.data(), s.content.size());
  ev("seen_by_others");
}
void close_slot(slot& s, bool const by_assignment) {
  op(by_assignment ? "replaced by an empty mapping" : "closed");
  if (by_assignment) *s.m = cista::mmap{};
  else s.m.reset();
  if (by_assignment) {
    VP_CHECK(s.m->size() == 0U && s.m->data() == nullptr, "map-size", "a mapping without file is not empty");
    s.m.reset();
  }
  file_is("file after closing", s.content, s.path);
  ev(s.write() ? "closed_after_changes" : "closed_after_reading");
  distinct(fnv(s.content.data(), s.content.size(), static_cast<std::uint64_t>(s.p)));
}
void open_slot(rng& r, slot& s) {
  auto const p = static_cast<prot>(r.below(3));
  auto const ok = p == prot::WRITE || s.on_disk;
  op("%s open %s (%zu bytes)", s.path.c_str() + s.path.size() - 6, p == prot::WRITE ? "w+" : p == prot::READ ? "r" : "r+", s.content.size());
  auto const t = throws([&]() { s.m.emplace(s.path.c_str(), p); });
  VP_CHECK(t == !ok, "open-result", "opening a %s file was %s", s.on_disk ? "present" : "missing", t ? "refused" : "accepted");
  if (t) {
    s.m.reset();
    ev("open_refused");
    VP_CHECK(!exists(s.path), "file-made", "a refused opening made a file");
    return;
  }
  s.p = p;
  s.on_disk = true;
  if (p == prot::WRITE) s.content.clear();
  look(s, "just opened");
  ev(p == prot::WRITE ? "opened_to_write" : p == prot::READ ? "opened_to_read" : "opened_to_modify");
}
}  // namespace

VP_SUITE(mappings, 3) {
  slot slots[3];
  for (unsigned i = 0; i != 3U; ++i) {
    slots[i].path = scratch_path(i == 0U ? "m0" : i == 1U ? "m1" : "m2");
    if (r.coin()) {
      slots[i].content.resize(map_size(r));
      for (auto& x : slots[i].content) x = static_cast<std::uint8_t>(r.next());
      spill(slots[i].path, slots[i].content);
      slots[i].on_disk = true;
    }
  }
  auto const steps = 10U + r.below(50);
  for (unsigned k = 0; k != steps; ++k) {
    auto& s = slots[r.below(r.coin() ? 1U : 3U)];
    if (!s.m.has_value()) {
      open_slot(r, s);
      continue;
    }
    auto& m = *s.m;
    switch (r.below(10)) {
      case 0:
      case 1: {
        auto const n = r.chance(1, 4) ? s.content.size() - std::min<std::size_t>(s.content.size(), r.below(200)) : map_size(r);
        op("resize %zu", n);
        auto const t = throws([&]() { m.resize(n); });
        VP_CHECK(t == !s.write(), "resize-result", "resizing a mapping opened %s was %s", s.write() ? "to write" : "to read", t ? "refused" : "accepted");
        if (t) { ev("resize_refused"); break; }
        auto const old = s.content.size();
        s.content.resize(n);
        if (n > old) {  // new bytes: anything, but stable and usable
          VP_CHECK(m.size() == n, "map-size", "size() is %zu after resize(%zu)", m.size(), n);
          if (r.coin()) for (auto i = old; i != n; ++i) m[i] = static_cast<std::uint8_t>(r.next());
          std::copy(m.begin() + old, m.end(), s.content.begin() + static_cast<std::ptrdiff_t>(old));
        }
        ev(n > old ? "grown" : n < old ? "shrunk" : "same_size");
        break;
      }
      case 2: {
        auto const n = map_size(r);
        op("reserve %zu", n);
        auto const t = throws([&]() { m.reserve(n); });
        VP_CHECK(t == !s.write(), "resize-result", "reserving in a mapping opened %s was %s", s.write() ? "to write" : "to read", t ? "refused" : "accepted");
        ev(t ? "reserve_refused" : "reserved");
        break;
      }
      case 3:
      case 4:
        if (s.write() && !s.content.empty()) {
          auto const at = r.chance(1, 3) ? s.content.size() - 1U : r.below(s.content.size());
          auto const n = std::min<std::size_t>(s.content.size() - at, 1U + r.below(5000));
          op("write %zu at %zu", n, at);
          for (std::size_t i = at; i != at + n; ++i) s.content[i] = m[i] = static_cast<std::uint8_t>(r.next());
          ev("bytes_written");
        }
        break;
      case 5:
        op("sync");
        m.sync();
        others_see(s);
        break;
      case 6: {
        op("move around");
        auto a = std::move(m);
        VP_CHECK(m.size() == 0U && m.data() == nullptr, "moved-from", "a moved-from mapping still holds %zu bytes", m.size());
        if (r.coin()) {
          auto& self = a;
          a = std::move(self);
        }
        if (r.coin()) {
          cista::mmap b;
          b = std::move(a);
          m = std::move(b);
        } else {
          m = std::move(a);
        }
        ev("moved");
        break;
      }
      case 7: {
        // an open mapping of another file is given up for this one
        auto& o = slots[r.below(3)];
        if (&o != &s && o.m.has_value()) {
          op("mapping of %s replaced by that of %s", o.path.c_str() + o.path.size() - 6, s.path.c_str() + s.path.size() - 6);
          *o.m = std::move(m);
          file_is("file of a replaced mapping", o.content, o.path);
          s.m.reset();
          s.m.emplace(std::move(*o.m));
          o.m.reset();
          file_is("file of a replaced mapping", o.content, o.path);
          ev("replaced");
        }
        break;
      }
      case 8: close_slot(s, r.chance(1, 3)); continue;
      default: {
        unsigned open = 0;
        for (auto& x : slots) open += x.m.has_value() ? 1U : 0U;
        auto const c = take_census();
        VP_CHECK(c.fds == open, "descriptor-left", "%u mappings, %u descriptors", open, c.fds);
        VP_CHECK(c.maps <= open, "mapping-left", "%u mappings open, %u in place", open, c.maps);
        ev("census");
      }
    }
    if (s.m.has_value()) look(s, "after the operation");
  }
  for (auto& s : slots) {
    if (s.m.has_value()) close_slot(s, false);
    else if (s.on_disk) file_is("closed file", s.content, s.path);
  }
  nothing_held("after all were closed");
  for (auto& s : slots) std::remove(s.path.c_str());
}

// ---------------------------------------------------------- streams on files
namespace {
struct stream {
  std::string path;
  std::optional<cista::file> f;
  bool readable{false}, writable{false};
  bytes content;
  bool on_disk{false};
};
}  // namespace
VP_SUITE(streams, 3) {
  stream slots[3];
  for (unsigned i = 0; i != 3U; ++i) {
    slots[i].path = scratch_path(i == 0U ? "f0" : i == 1U ? "f1" : "f2");
    if (r.coin()) {
      slots[i].content.resize(map_size(r));
      for (auto& x : slots[i].content) x = static_cast<std::uint8_t>(r.next());
      spill(slots[i].path, slots[i].content);
      slots[i].on_disk = true;
    }
  }
  auto const steps = 10U + r.below(40);
  for (unsigned k = 0; k != steps; ++k) {
    auto& s = slots[r.below(r.coin() ? 1U : 3U)];
    if (!s.f.has_value()) {
      static char const* const modes[] = {"r", "w+", "r+", "w"};
      auto const w = r.below(4);
      auto const ok = w == 1U || w == 3U || s.on_disk;
      op("%s open %s (%zu bytes)", s.path.c_str() + s.path.size() - 6, modes[w], s.content.size());
      auto const t = throws([&]() { s.f.emplace(s.path.c_str(), modes[w]); });
      VP_CHECK(t == !ok, "open-result", "opening a %s file (%s) was %s", s.on_disk ? "present" : "missing", modes[w], t ? "refused" : "accepted");
      if (t) {
        s.f.reset();
        ev("stream_refused");
        continue;
      }
      s.readable = w != 3U;
      s.writable = w != 0U;
      s.on_disk = true;
      if (w == 1U || w == 3U) s.content.clear();
      ev("stream_opened");
    } else {
      auto& f = *s.f;
      switch (r.below(9)) {
        case 0:
        case 1:
        case 2: {
          auto n = r.chance(1, 6) ? 0U : map_size(r, 20000U);
          auto const align = r.chance(1, 3) ? 0U : std::size_t{1} << r.below(6);
          bytes b(n);
          for (auto& x : b) x = static_cast<std::uint8_t>(r.next());
          op("append %zu aligned %zu", n, align);
          auto start = s.content.size();
          if (align > 1U) start = (start + align - 1U) / align * align;
          cista::offset_t at = -1;
          auto const t = throws([&]() { at = f.write(b.data() == nullptr ? reinterpret_cast<std::uint8_t const*>("") : b.data(), n, align); });
          if (!s.writable) {
            VP_CHECK(t || (n == 0U && start == s.content.size()), "write-result", "writing to a stream opened to read was accepted");
            ev("append_refused");
            // the next one sees the file as it is
            s.f.reset();
            break;
          }
          VP_CHECK(!t && at == static_cast<cista::offset_t>(start), "write-result", "appending to %zu bytes: put at %lld, expected %zu", s.content.size(), static_cast<long long>(at), start);
          s.content.resize(start);
          s.content.insert(s.content.end(), b.begin(), b.end());
          ev("appended");
          break;
        }
        case 3: {
          if (!s.writable || s.content.size() < 8U) break;
          auto const at = r.below(s.content.size() - 7U);
          auto const v = r.next();
          op("update %zu", at);
          f.write(at, v);
          std::memcpy(&s.content[at], &v, 8U);
          ev("updated");
          break;
        }
        case 4: {
          if (!s.readable) break;
          op("content");
          auto const b = f.content();
          same_bytes("content()", s.content.data(), s.content.size(), b.data(), b.size());
          ev(s.content.empty() ? "read_empty" : "read_all");
          break;
        }
        case 5:
          op("size");
          VP_CHECK(f.size() == s.content.size(), "stream-size", "size() is %zu, expected %zu", f.size(), s.content.size());
          file_is("file of an open stream", s.content, s.path);
          break;
        case 6: {
          op("move around");
          auto a = std::move(f);
          VP_CHECK(f.size() == 0U, "moved-from", "a moved-from stream has a size");
          if (r.coin()) {
            auto& self = a;
            a = std::move(self);
          }
          if (r.coin()) {
            cista::file b;
            b = std::move(a);
            a = std::move(b);
          }
          auto& o = slots[r.below(3)];
          if (&o != &s && o.f.has_value()) {
            *o.f = std::move(a);
            file_is("file of a replaced stream", o.content, o.path);
            f = std::move(*o.f);
            o.f.reset();
            ev("stream_replaced");
          } else {
            f = std::move(a);
          }
          ev("stream_moved");
          break;
        }
        case 7:
          op("close");
          s.f.reset();
          file_is("file of a closed stream", s.content, s.path);
          distinct(fnv(s.content.data(), s.content.size()));
          break;
        default: {
          unsigned open = 0;
          for (auto& x : slots) open += x.f.has_value() ? 1U : 0U;
          auto const c = take_census();
          VP_CHECK(c.fds == open, "descriptor-left", "%u streams, %u descriptors", open, c.fds);
          ev("census");
        }
      }
    }
  }
  for (auto& s : slots) {
    s.f.reset();
    if (s.on_disk) file_is("file of a closed stream", s.content, s.path);
  }
  nothing_held("after all were closed");
  for (auto& s : slots) std::remove(s.path.c_str());
}
VP_MAIN()

#elif VP_PART == 1
// ------------------------------------------------------- vectors on mappings
namespace {
struct twelve {
  std::uint32_t a, b, c;
};
struct twenty_four {
  double x, y;
  std::uint32_t n, m;
};
using id = cista::strong<std::uint32_t, struct id_tag>;
using row = cista::strong<std::uint64_t, struct row_tag>;
using tiny = cista::strong<std::uint16_t, struct tiny_tag>;

void make(rng& r, std::uint8_t& x) { x = static_cast<std::uint8_t>(r.next()); }
void make(rng& r, char& x) { x = static_cast<char>(r.next()); }
void make(rng& r, std::uint32_t& x) { x = static_cast<std::uint32_t>(r.value()); }
void make(rng& r, std::uint64_t& x) { x = r.value(); }
void make(rng& r, double& x) { x = static_cast<double>(r.range(-99999, 99999)) / 8.0; }
void make(rng& r, twelve& x) { x = {static_cast<std::uint32_t>(r.next()), 2U, static_cast<std::uint32_t>(r.next())}; }
void make(rng& r, twenty_four& x) { x = {1.5, static_cast<double>(r.below(999)), static_cast<std::uint32_t>(r.next()), 0U}; }
void make(rng& r, id& x) { x = id{static_cast<std::uint32_t>(r.next())}; }
template <typename T>
T any(rng& r) {
  T x;
  make(r, x);
  return x;
}
template <typename T>
bool same(T const& a, T const& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <typename V>
void judge(V& v, std::vector<typename V::value_type> const& want, char const* when) {
  auto const& c = std::as_const(v);
  VP_CHECK(v.size() == want.size() && v.empty() == want.empty(), "vec-size", "%s: size() is %llu, expected %zu", when, static_cast<unsigned long long>(v.size()), want.size());
  VP_CHECK(v.end() - v.begin() == static_cast<std::ptrdiff_t>(want.size()) && c.end() - c.begin() == v.end() - v.begin() && c.cend() - c.cbegin() == v.end() - v.begin() &&
               end(c) == c.end() && begin(c) == c.begin() && begin(v) == v.begin() && end(v) == v.end() && v.data() == v.begin() && c.data() == c.begin(),
           "vec-range", "%s: begin, end and size disagree", when);
  for (std::size_t i = 0; i != want.size(); ++i) {
    if (!same(v.begin()[i], want[i])) fail("vec-element", "%s: element %zu of %zu differs", when, i, want.size());
    auto const k = static_cast<typename V::access_type>(static_cast<typename V::size_type>(i));
    if (!same(c[k], want[i]) || &v[k] != v.begin() + i) fail("vec-element", "%s: element %zu of %zu differs", when, i, want.size());
  }
  ++st().checks;
  ev("vec_compared");
}

template <typename V>
void vec_case(rng& r, std::size_t const max) {
  using T = typename V::value_type;
  auto const path = scratch_path("vec");
  std::vector<T> m;
  bytes tail;  // of a file that does not end with an element
  auto const as_bytes = [&]() {
    bytes b(m.size() * sizeof(T));
    if (!b.empty()) std::memcpy(b.data(), static_cast<void const*>(m.data()), b.size());
    b.insert(b.end(), tail.begin(), tail.end());
    return b;
  };
  auto fresh = true;
  if (r.chance(1, 3)) {
    m.resize(std::min(max, map_size(r, 20000U) / sizeof(T)));
    for (auto& x : m) make(r, x);
    if (sizeof(T) > 1U && r.chance(1, 3)) tail.resize(1U + r.below(sizeof(T) - 1U), 0x5AU);
    spill(path, as_bytes());
    fresh = false;
  }
  auto const cycles = 1U + r.below(4);
  for (unsigned cycle = 0; cycle != cycles; ++cycle) {
    auto const p = fresh ? prot::WRITE : r.chance(1, 4) ? prot::READ : r.chance(1, 8) ? prot::WRITE : prot::MODIFY;
    fresh = false;
    op("open %s with %zu elements", p == prot::WRITE ? "w+" : p == prot::READ ? "r" : "r+", m.size());
    if (p == prot::WRITE) {
      m.clear();
      tail.clear();
    }
    {
      std::optional<V> keep;
      keep.emplace(cista::mmap{path.c_str(), p});
      judge(*keep, m, "just opened");
      if (p == prot::READ) {
        if (!throws([&]() { keep->push_back(any<T>(r)); })) {
          fail("append-result", "appending to a vector opened to read was accepted");
        }
        if (!m.empty()) judge(*keep, m, "after a refused append");
        ev("append_refused");
      } else {
        auto const steps = 1U + r.below(30);
        for (unsigned k = 0; k != steps; ++k) {
          auto& v = *keep;
          auto const room = max - m.size();
          switch (r.below(13)) {
            case 0:
            case 1: {
              if (room == 0U) break;
              auto const x = any<T>(r);
              op("push_back");
              v.push_back(x);
              m.push_back(x);
              ev("appended");
              break;
            }
            case 2: {
              if (room == 0U) break;
              auto const x = any<T>(r);
              op("emplace_back");
              auto& y = v.emplace_back(x);
              VP_CHECK(&y == v.end() - 1, "emplace-result", "emplace_back() does not return the new element");
              m.push_back(x);
              ev("appended");
              break;
            }
            case 3: {
              if (room == 0U || m.empty()) break;
              auto const i = r.below(m.size());
              op("append own element %llu", static_cast<unsigned long long>(i));
              if (r.coin()) v.push_back(*(v.begin() + i));
              else v.emplace_back(*(v.begin() + i));
              m.push_back(T{m[i]});
              ev("appended_own");
              break;
            }
            case 4: {
              auto const n = r.coin() ? m.size() - r.below(m.size() + 1U) : std::min<std::size_t>(max, m.size() + map_size(r, 9000U) / sizeof(T));
              op("resize %zu", static_cast<std::size_t>(n));
              v.resize(static_cast<typename V::size_type>(n));
              tail.clear();
              m.resize(n, T{});
              // (the padding bytes of new elements hold anything)
              ev("resized");
              break;
            }
            case 5: {
              auto const n = std::min<std::size_t>(max, map_size(r) / sizeof(T));
              op("reserve %zu", n);
              v.reserve(static_cast<typename V::size_type>(n));
              ev("reserved");
              break;
            }
            case 6: {
              if (m.empty()) break;
              auto const i = r.below(m.size());
              auto const x = any<T>(r);
              op("element %llu written", static_cast<unsigned long long>(i));
              v[static_cast<typename V::access_type>(static_cast<typename V::size_type>(i))] = x;
              m[i] = x;
              ev("element_written");
              break;
            }
            case 7: {
              std::vector<T> x(std::min<std::size_t>(max, r.size(700)));
              for (auto& e : x) make(r, e);
              op("set %zu", x.size());
              if (r.coin()) v.set(x.begin(), x.end());
              else { std::list<T> l(x.begin(), x.end()); v.set(l.begin(), l.end()); }
              tail.clear();
              m = x;
              ev("set");
              break;
            }
            case 8: {
              if (room == 0U) break;
              auto const at = r.below(m.size() + 1U);
              auto const own = !m.empty() && r.coin();
              auto const i = own ? r.below(m.size()) : 0U;
              auto const x = own ? m[i] : any<T>(r);
              op("insert %s at %llu", own ? "own element" : "element", static_cast<unsigned long long>(at));
              auto* it = own ? v.insert(v.begin() + at, *(v.begin() + i)) : v.insert(v.begin() + at, x);
              VP_CHECK(it == v.begin() + at, "insert-result", "insert() does not return the inserted element");
              m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), x);
              ev("inserted");
              break;
            }
            case 9:
            case 10: {
              std::vector<T> x(std::min<std::size_t>(room, r.size(200)));
              for (auto& e : x) make(r, e);
              auto const at = r.below(m.size() + 1U);
              op("insert range of %zu at %llu", x.size(), static_cast<unsigned long long>(at));
              T* it;
              if (r.coin()) {
                it = v.insert(v.begin() + at, x.begin(), x.end());
              } else if (r.coin()) {
                std::list<T> l(x.begin(), x.end());
                it = v.insert(v.begin() + at, l.begin(), l.end());
              } else {
                it = v.insert(v.begin() + at, x.begin(), x.end(), std::input_iterator_tag{});
              }
              VP_CHECK(it == v.begin() + at, "insert-result", "insert() does not return the position");
              m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), x.begin(), x.end());
              if (!x.empty()) tail.clear();
              ev("range_inserted");
              break;
            }
            case 11: {
              op("move around");
              auto w = std::move(*keep);
              keep.reset();
              judge(w, m, "moved");
              keep.emplace(std::move(w));
              ev("vec_moved");
              break;
            }
            default:
              op("reverse");
              std::reverse(v.begin(), v.end());
              std::reverse(m.begin(), m.end());
              v.mmap_.sync();
              ev("reversed");
          }
          if (keep->mmap_.size() == m.size() * sizeof(T)) tail.clear();
          if (r.chance(1, 3) || k + 1U == steps) judge(*keep, m, "after the operation");
        }
      }
      judge(*keep, m, "before closing");
    }
    auto const want = as_bytes();
    file_is("file after closing", want, path);
    ev(p == prot::READ ? "closed_after_reading" : "closed_after_changes");
    distinct(fnv(want.data(), want.size(), sizeof(T)));
  }
  nothing_held("after closing");
  std::remove(path.c_str());
}
}  // namespace
VP_SUITE(vectors, 6) {
  constexpr auto const kMax = std::size_t{40000};
  switch (r.below(9)) {
    case 0: return vec_case<cista::mmap_vec<std::uint8_t>>(r, kMax);
    case 1: return vec_case<cista::mmap_vec<std::uint32_t>>(r, kMax);
    case 2: return vec_case<cista::mmap_vec_map<row, twelve>>(r, kMax);
    case 3: return vec_case<cista::mmap_vec<twenty_four>>(r, kMax);
    case 4: return vec_case<cista::mmap_vec<double>>(r, kMax);
    case 5: return vec_case<cista::basic_mmap_vec<id, row>>(r, kMax);
    case 6: return vec_case<cista::basic_mmap_vec<char, std::uint16_t>>(r, 65535U);
    case 7: return vec_case<cista::mmap_vec_map<tiny, std::uint64_t>>(r, 9000U);
    default: return vec_case<cista::basic_mmap_vec<std::uint32_t, std::uint8_t>>(r, 255U);
  }
}

// the largest index of the size type is a limit like any other
namespace {
template <typename V>
void limit_case(rng& r, std::size_t const max) {
  using T = typename V::value_type;
  auto const path = scratch_path("lim");
  std::vector<T> m;
  {
    V v{cista::mmap{path.c_str(), prot::WRITE}};
    m.resize(max - r.below(4));
    for (auto& x : m) make(r, x);
    v.set(m.begin(), m.end());
    for (unsigned k = 0; k != 8U; ++k) {
      auto const n = r.below(5);
      std::vector<T> x(n == 0U ? 1U : n);
      for (auto& e : x) make(r, e);
      auto const fits = m.size() + x.size() <= max;
      op("%zu more after %zu", x.size(), m.size());
      auto const t = throws([&]() {
        switch (n) {
          case 0: v.push_back(x[0]); break;
          case 1: v.emplace_back(x[0]); break;
          case 2: v.insert(v.end(), x.begin(), x.end(), std::forward_iterator_tag{}); break;
          default: v.insert(v.begin(), x.begin(), x.end());
        }
      });
      VP_CHECK(t == !fits, "limit", "%zu elements more than %zu (index type ends at %zu): %s", x.size(), m.size(), max, t ? "refused" : "accepted");
      if (fits) m.insert(n > 2U ? m.begin() : m.end(), x.begin(), x.end());
      judge(v, m, "at the limit of the index type");
      ev(fits ? "within_limit" : "beyond_limit");
    }
  }
  bytes want(m.size() * sizeof(T));
  std::memcpy(want.data(), static_cast<void const*>(m.data()), want.size());
  file_is("file after closing", want, path);
  nothing_held("after closing");
  std::remove(path.c_str());
}
}  // namespace
VP_SUITE(limits, 1) {
  switch (r.below(3)) {
    case 0: return limit_case<cista::basic_mmap_vec<std::uint32_t, std::uint8_t>>(r, 255U);
    case 1: return limit_case<cista::mmap_vec_map<tiny, std::uint32_t>>(r, 65535U);
    default: return limit_case<cista::basic_mmap_vec<char, std::uint16_t>>(r, 65535U);
  }
}

#elif VP_PART == 2
// ------------------------------------- containers on top of mapped vectors
namespace {
using key = cista::strong<std::uint32_t, struct key_tag>;
template <typename T>
T any(rng& r) { return static_cast<T>(r.next()); }

template <typename T>
std::vector<T> run_of(rng& r) {
  std::vector<T> x(r.size(120));
  for (auto& e : x) e = any<T>(r);
  return x;
}

template <typename T>
struct flat_kind {
  using idx_t = cista::mmap_vec<std::uint32_t>;
  using data_t = cista::mmap_vec<T>;
  using type = cista::basic_vecvec<key, data_t, idx_t>;
  static type open(std::string const& a, std::string const& b, prot const p) {
    return type{data_t{cista::mmap{a.c_str(), p}}, idx_t{cista::mmap{b.c_str(), p}}};
  }
  static constexpr auto const paged = false;
};
template <typename T>
struct paged_kind {
  using data_t = cista::paged<cista::mmap_vec<T>>;
  using idx_t = cista::mmap_vec<typename data_t::page_t>;
  using type = cista::paged_vecvec<idx_t, data_t, key>;
  static type open(std::string const& a, std::string const& b, prot const p) {
    return type{data_t{cista::mmap_vec<T>{cista::mmap{a.c_str(), p}}}, idx_t{cista::mmap{b.c_str(), p}}};
  }
  static constexpr auto const paged = true;
};

template <typename V, typename T>
void judge(V& v, std::vector<std::vector<T>> const& m, char const* when) {
  VP_CHECK(v.size() == m.size() && v.empty() == m.empty(), "outer-size", "%s: %llu buckets, expected %zu", when, static_cast<unsigned long long>(v.size()), m.size());
  for (std::size_t i = 0; i != m.size(); ++i) {
    auto const b = std::as_const(v)[key{static_cast<std::uint32_t>(i)}];
    VP_CHECK(b.size() == m[i].size(), "bucket-size", "%s: bucket %zu of %zu has %llu elements, expected %zu", when, i, m.size(), static_cast<unsigned long long>(b.size()), m[i].size());
    VP_CHECK(m[i].empty() || std::memcmp(b.begin(), m[i].data(), m[i].size() * sizeof(T)) == 0, "bucket-element", "%s: bucket %zu of %zu differs", when, i, m.size());
  }
  ev("jagged_compared");
}

template <typename Kind, typename T>
void jagged_case(rng& r) {
  auto const a = scratch_path("data"), b = scratch_path("idx");
  std::vector<std::vector<T>> m;
  auto const cycles = 1U + r.below(4);
  for (unsigned c = 0; c != cycles; ++c) {
    auto const p = c == 0U ? prot::WRITE : r.chance(1, 3) ? prot::READ : prot::MODIFY;
    op("open %s with %zu buckets", p == prot::WRITE ? "w+" : p == prot::READ ? "r" : "r+", m.size());
    {
      auto v = Kind::open(a, b, p);
      judge(v, m, "just opened");
      if (p == prot::READ) {
        ev("read_again");
        continue;
      }
      auto const steps = 1U + r.below(40);
      for (unsigned k = 0; k != steps; ++k) {
        auto const i = m.empty() ? 0U : r.below(m.size());
        auto const at = key{static_cast<std::uint32_t>(i)};
        switch (r.below(7)) {
          case 0:
          case 1:
          case 2: {
            auto x = run_of<T>(r);
            op("emplace_back %zu", x.size());
            if constexpr (Kind::paged) {
              if (x.empty()) { v.emplace_back_empty(); }
              else v.emplace_back(x);
            } else {
              v.emplace_back(x);
            }
            m.push_back(x);
            ev("buckets_added");
            break;
          }
          case 3: {
            if (m.empty()) break;
            auto const x = any<T>(r);
            op("push_back to %llu", static_cast<unsigned long long>(i));
            v[at].push_back(x);
            m[i].push_back(x);
            ev("bucket_appended");
            break;
          }
          case 4: {
            if (m.empty() || m[i].empty()) break;
            auto const j = r.below(m[i].size());
            op("element %llu/%llu", static_cast<unsigned long long>(i), static_cast<unsigned long long>(j));
            v[at][j] = m[i][j] = any<T>(r);
            ev("bucket_element_written");
            break;
          }
          case 5: {
            if constexpr (Kind::paged) {
              auto x = run_of<T>(r);
              auto const to = r.below(m.size() + 1U);
              op("bucket of %zu inserted at %llu", x.size(), static_cast<unsigned long long>(to));
              v.insert(key{static_cast<std::uint32_t>(to)}, x);
              m.insert(m.begin() + static_cast<std::ptrdiff_t>(to), x);
              ev("bucket_inserted");
            } else {
              auto const n = r.below(40);
              op("add_back_sized %llu", static_cast<unsigned long long>(n));
              v.add_back_sized(n);
              m.emplace_back(n);
              ev("sized_bucket_added");
            }
            break;
          }
          default: {
            op("move around");
            auto w = std::move(v);
            judge(w, m, "moved");
            v = std::move(w);
            ev("jagged_moved");
          }
        }
        if (r.chance(1, 3) || k + 1U == steps) judge(v, m, "after the operation");
      }
    }
    ev("jagged_closed");
    std::uint64_t h = 7;
    for (auto& x : m) h = fnv(x.data(), x.size() * sizeof(T), h + 1U);
    distinct(h);
  }
  if constexpr (!Kind::paged) {
    // the files hold exactly the elements and where each bucket starts
    bytes want;
    std::vector<std::uint32_t> starts;
    if (!m.empty()) starts.push_back(0U);
    for (auto& x : m) {
      want.insert(want.end(), reinterpret_cast<std::uint8_t const*>(x.data()), reinterpret_cast<std::uint8_t const*>(x.data() + x.size()));
      starts.push_back(static_cast<std::uint32_t>(starts.back() + x.size()));
    }
    file_is("elements of a closed jagged vector", want, a);
    file_is("starts of a closed jagged vector", bytes(reinterpret_cast<std::uint8_t const*>(starts.data()), reinterpret_cast<std::uint8_t const*>(starts.data() + starts.size())), b);
  }
  {
    auto const v = Kind::open(a, b, prot::READ);
    judge(v, m, "finally read");
  }
  nothing_held("after closing");
  std::remove(a.c_str());
  std::remove(b.c_str());
}
}  // namespace
VP_SUITE(jagged, 4) {
  switch (r.below(4)) {
    case 0: return jagged_case<flat_kind<char>, char>(r);
    case 1: return jagged_case<flat_kind<std::uint64_t>, std::uint64_t>(r);
    case 2: return jagged_case<paged_kind<char>, char>(r);
    default: return jagged_case<paged_kind<std::uint32_t>, std::uint32_t>(r);
  }
}

VP_SUITE(bits, 2) {
  using vec = cista::mmap_vec<std::uint64_t>;
  using bitvec = cista::basic_bitvec<vec>;
  auto const path = scratch_path("bits");
  std::vector<bool> m;
  auto const cycles = 1U + r.below(4);
  auto const judge = [&](bitvec const& v, char const* when) {
    VP_CHECK(v.size() == m.size(), "bits-size", "%s: %llu bits, expected %zu", when, static_cast<unsigned long long>(v.size()), m.size());
    std::size_t n = 0;
    for (std::size_t i = 0; i != m.size(); ++i) {
      if (v[static_cast<unsigned>(i)] != m[i]) fail("bit", "%s: bit %zu of %zu differs", when, i, m.size());
      n += m[i] ? 1U : 0U;
    }
    VP_CHECK(v.count() == n && v.any() == (n != 0U), "bits-count", "%s: count() is %llu, expected %zu", when, static_cast<unsigned long long>(v.count()), n);
    ev("bits_compared");
  };
  for (unsigned c = 0; c != cycles; ++c) {
    auto const p = c == 0U ? prot::WRITE : r.chance(1, 3) ? prot::READ : prot::MODIFY;
    op("open %zu bits", m.size());
    {
      auto v = bitvec{vec{cista::mmap{path.c_str(), p}}, static_cast<unsigned>(m.size())};
      judge(v, "just opened");
      if (p == prot::READ) continue;
      auto const steps = 1U + r.below(30);
      for (unsigned k = 0; k != steps; ++k) {
        switch (r.below(6)) {
          case 0: {
            auto const n = r.chance(1, 3) ? 64U * r.below(40) : r.below(3000);
            op("resize %llu", static_cast<unsigned long long>(n));
            v.resize(static_cast<unsigned>(n));
            m.resize(n);
            ev("bits_resized");
            break;
          }
          case 1:
            op("zero out");
            v.zero_out();
            m.assign(m.size(), false);
            break;
          default:
            for (unsigned q = 0; q != 8U && !m.empty(); ++q) {
              auto const i = r.below(m.size());
              auto const b = r.chance(2, 3);
              v.set(static_cast<unsigned>(i), b);
              m[i] = b;
            }
            ev("bits_set");
        }
        judge(v, "after the operation");
      }
    }
    bytes want((m.size() + 63U) / 64U * 8U);
    for (std::size_t i = 0; i != m.size(); ++i)
      if (m[i]) want[i / 8U] = static_cast<std::uint8_t>(want[i / 8U] | (1U << (i % 8U)));
    file_is("file after closing", want, path);
    distinct(fnv(want.data(), want.size()));
  }
  nothing_held("after closing");
  std::remove(path.c_str());
}

#elif VP_PART == 3
// ------------------------------------------------- values written and read
#include "ser_test.h"
namespace {
template <typename T, bool Raw, cista::mode M>
void io_case(rng& r) {
  constexpr auto const checked = (M & cista::mode::WITH_INTEGRITY) == cista::mode::WITH_INTEGRITY || (M & cista::mode::UNCHECKED) == cista::mode::NONE;
  auto const a = scratch_path("val"), b = scratch_path("copy");
  auto v = std::make_unique<T>();
  gen(r, *v, static_cast<int>(r.below(4)) - 1);
  auto const before = render(*v);
  bytes const want = cista::serialize<M>(*v);
  if (r.coin()) spill(a, bytes(r.below(2U * want.size() + 100U), 0xAAU));  // overwritten
  op("write %zu bytes", want.size());
  cista::write<M>(std::filesystem::path{a}, *v);
  file_is("written value", want, a);
  distinct(fnv(want.data(), want.size()));
  auto const judge = [&](cista::wrapped<T>& x, char const* how) {
    VP_CHECK(static_cast<bool>(x) && !(x == nullptr) && x.get() == &*x && x.operator->() == x.get(), "wrapped", "%s: no value", how);
    VP_CHECK(render(*std::as_const(x)) == before, "value-differs", "%s: the value differs", how);
    ev(how);
  };
  // (plain pointers have to be written when reading)
  auto const mapped = [](std::string const& p) { if constexpr (Raw) return cista::read<T, M>(p); else return cista::read_mmap<T, M>(p); };
  {
    op("read");
    auto x = cista::read<T, M>(a);
    judge(x, "read_copied");
    VP_CHECK(take_census().fds == 0U, "descriptor-left", "read() leaves the file open");
    op("read mapped");
    auto y = mapped(a);
    judge(y, "read_mapped");
    auto z = std::move(x);
    judge(z, "read_and_moved");
    VP_CHECK(x == nullptr && !x, "wrapped", "a moved-from wrapped value still has one");
    op("write wrapped");
    cista::write<M>(std::filesystem::path{b}, y);
    file_is("written wrapped value", want, b);
    x = std::move(y);
    judge(x, "read_and_moved");
    z = std::move(x);
    judge(z, "replaced");
    auto const c = take_census();
    VP_CHECK(Raw || (c.fds == 1U && c.maps == 1U), "descriptor-left", "one mapped value: %u descriptors, %u mappings", c.fds, c.maps);
    if (r.coin()) {
      op("reset");
      z.reset();
      VP_CHECK(z == nullptr && !z, "wrapped-reset", "a reset value is still there");
      nothing_held("after reset()");
      if (r.coin()) z.reset();
      if (r.coin()) {
        z = cista::read<T, M>(b);
        judge(z, "read_after_reset");
      }
      ev("wrapped_reset");
    }
  }
  nothing_held("after the values are gone");
  file_is("read file", want, a);
  // a value of its own
  {
    auto x = cista::wrapped<T>{cista::raw::make_unique<T>()};
    *x = std::move(*v);
    judge(x, "own_value");
    cista::write<M>(std::filesystem::path{b}, x);
    file_is("written own value", want, b);
    if (r.coin()) {
      auto y = mapped(b);
      x = std::move(y);
      judge(x, "own_value_replaced");
    } else if (r.coin()) {
      x.reset();
      VP_CHECK(x == nullptr && !x, "wrapped-reset", "a reset value is still there");
      ev("own_value_reset");
    }
  }
  nothing_held("after the values are gone");
  // files that do not hold a value
  if constexpr (checked) {
    auto bad = want;
    switch (r.below(3)) {
      case 0: bad.clear(); break;
      case 1: if constexpr ((M & cista::mode::WITH_INTEGRITY) == cista::mode::WITH_INTEGRITY) bad.resize(r.below(bad.size())); else bad.clear(); break;
      default: if constexpr ((M & cista::mode::WITH_INTEGRITY) == cista::mode::WITH_INTEGRITY) bad[r.below(bad.size())] ^= static_cast<std::uint8_t>(1U << r.below(8)); else bad.clear();
    }
    op("damaged: %zu bytes", bad.size());
    spill(b, bad);
    VP_CHECK(throws([&]() { cista::read<T, M>(b); }), "damage-read", "read() of a damaged file (%zu of %zu bytes) succeeded", bad.size(), want.size());
    VP_CHECK(throws([&]() { mapped(b); }), "damage-read", "read_mmap() of a damaged file (%zu of %zu bytes) succeeded", bad.size(), want.size());
    nothing_held("after refused reading");
    file_is("damaged file", bad, b);
    ev("damaged_refused");
  }
  std::remove(a.c_str());
  std::remove(b.c_str());
  VP_CHECK(throws([&]() { cista::read<T, M>(a); }) && throws([&]() { mapped(a); }), "missing-read", "reading a missing file succeeded");
  VP_CHECK(throws([&]() { cista::write<M>(std::filesystem::path{a + "/no/such"}, *v); }), "missing-write", "writing to a missing directory succeeded");
  VP_CHECK(!exists(a), "file-made", "reading made a file");
  nothing_held("after refused reading");
}
template <typename T, bool Raw>
void io_modes(rng& r) {
  switch (r.below(4)) {
    case 0: return io_case<T, Raw, cista::kDefaultMode>(r);
    case 1: return io_case<T, Raw, cista::mode::NONE>(r);
    case 2: return io_case<T, Raw, INTEG | DEEP>(r);
    default: return io_case<T, Raw, VER | INTEG>(r);
  }
}
}  // namespace
VP_SUITE(values_strings, 1) { io_modes<offt::strings, false>(r); }
VP_SUITE(values_maps, 1) { io_modes<offt::maps, false>(r); }
VP_SUITE(values_raw, 1) { io_modes<rawt::vecs, true>(r); }

// Heap buffers (what files are read into) and holders of them: always one owner.
VP_SUITE(buffers, 1) {
  constexpr auto const N = std::size_t{3};
  std::vector<cista::buffer> b(N);
  std::vector<bytes> m(N);
  std::vector<bool> some(N, false);
  auto const judge = [&]() {
    for (std::size_t i = 0; i != N; ++i) {
      auto& x = b[i];
      auto const& c = x;
      VP_CHECK(x.size() == m[i].size(), "buffer-size", "buffer %zu: %zu bytes instead of %zu", i, x.size(), m[i].size());
      VP_CHECK((x.data() != nullptr) == some[i] && c.data() == x.data() && x.begin() == x.data() && c.begin() == x.data() && x.end() == x.data() + x.size() && c.end() == x.end(), "buffer-range", "buffer %zu", i);
      for (std::size_t k = 0; k != m[i].size(); ++k) VP_CHECK(c[k] == m[i][k] && &x[k] == x.data() + k, "buffer-content", "buffer %zu: byte %zu is %u instead of %u", i, k, c[k], m[i][k]);
      distinct(fnv(m[i].data(), m[i].size()));
    }
  };
  auto const data = [&](bool const text) {
    bytes d(r.coin() ? r.below(20) : r.below(300));
    for (auto& x : d) x = static_cast<std::uint8_t>(text ? 1U + r.below(255) : r.below(256));
    return d;
  };
  for (auto k = 5U + r.below(40); k != 0U; --k) {
    auto const i = r.below(N), j = r.below(N);
    switch (r.below(9)) {
      case 0: {
        auto const n = 1U + r.below(300);
        op("buffer %zu of %zu", i, n);
        b[i] = cista::buffer{n};
        VP_CHECK(b[i].size() == n, "buffer-size", "asked for %zu bytes, is %zu", n, b[i].size());
        m[i].resize(n);
        for (std::size_t z = 0; z != n; ++z) b[i][z] = m[i][z] = static_cast<std::uint8_t>(r.next());
        some[i] = true;
        break;
      }
      case 1: {
        auto d = data(true);
        op("buffer %zu of text of %zu", i, d.size());
        std::string const t{d.begin(), d.end()};
        b[i] = cista::buffer{t.c_str()};
        m[i] = d;
        some[i] = true;
        break;
      }
      case 2: {
        auto d = data(false);
        d.push_back(7U);
        op("buffer %zu of %zu given bytes", i, d.size());
        b[i] = cista::buffer{reinterpret_cast<char const*>(d.data()), d.size()};
        m[i] = d;
        some[i] = true;
        break;
      }
      case 3:
      case 4:
        op("move %zu to %zu", j, i);
        b[i] = std::move(b[j]);
        if (i != j) {
          m[i] = std::move(m[j]);
          m[j].clear();
          some[i] = some[j];
          some[j] = false;
          ev("buffer_moved");
        } else {
          ev("buffer_moved_to_itself");
        }
        break;
      case 5: {
        op("through another one %zu", i);
        cista::buffer t{std::move(b[i])};
        VP_CHECK(b[i].size() == 0U && b[i].data() == nullptr, "buffer-moved-from", "a moved from buffer still has %zu bytes", b[i].size());
        b[i] = std::move(t);
        break;
      }
      case 6: {
        op("through a holder %zu", i);
        cista::memory_holder h{std::move(b[i])};
        cista::memory_holder h2{std::move(h)};
        h = cista::memory_holder{};
        b[i] = std::move(std::get<cista::buffer>(h2));
        ev("buffer_held");
        break;
      }
      case 7:
        op("free %zu", i);
        b[i].free();
        m[i].clear();
        some[i] = false;
        break;
      default:
        op("empty %zu", i);
        b[i] = cista::buffer{};
        m[i].clear();
        some[i] = false;
        break;
    }
    judge();
  }
}
#endif
