// Many threads on one constant object, and many threads on objects of their own.
#define VP_NO_LINKS 1
#include "mutate.h"
#include "mt.h"
#if VP_PART < 6
#define NSM offt
#define RAW 0
#else
#define NSM rawt
#define RAW 1
#endif
namespace NSM {
#include "p08_graph.inc"
#include "mutate.inc"
#include "p08_special.inc"

// further read-only questions, answered with a text
inline std::string ask(strings const& s) {
  std::string o;
  o += std::to_string(cista::hashing<data::string>{}(s.a_)) + (s.a_ == s.b_ ? "=" : "#") + (s.a_ < s.b_ ? "<" : ">") + (s.sv_ == s.a_.view() ? "v" : "w");
  for (auto const& x : s.v_) o += std::to_string(cista::hashing<data::string>{}(x)) + (x.starts_with(s.a_) ? "s" : "-") + (x.ends_with("x") ? "e" : "-");
  o += std::to_string(cista::hashing<data::vector<data::string>>{}(s.v_)) + (s.v_ == s.v_ ? "=" : "#");
  return o + s.a_.str();
}
inline std::string ask(vecs const& s) {
  std::string o = std::to_string(cista::hashing<data::vector<std::int32_t>>{}(s.a_)) + (s.b_ == s.b_ ? "=" : "#") + (s.a_ < s.a_ ? "<" : ">");
  for (auto i = s.a_.rbegin(); i != s.a_.rend(); ++i) o += std::to_string(*i);
  if (!s.b_.empty()) o += std::to_string(s.b_.front().size()) + std::to_string(s.b_.back().size()) + std::to_string(s.b_.at(0).size());
  return o;
}
inline std::string ask(maps const& s) {
  std::string o = s.a_ == s.a_ ? "=" : "#";
  o += s.c_ == s.c_ ? "=" : "#";
  for (auto k = 0U; k != 20U; ++k) {
    o += s.b_.find(k) == s.b_.end() ? "-" : "f";
    auto const g = s.b_.get(k);
    o += g.has_value() ? g->str() : "-";
    o += s.f_.find(k) == s.f_.end() ? "-" : "f";
    o += s.e_.find(static_cast<std::uint16_t>(k)) == s.e_.end() ? "-" : "f";
  }
  o += s.a_.find(std::string_view{"short"}) == s.a_.end() ? "-" : "f";
  for (auto const& [k, v] : s.a_) o += std::to_string(s.a_.at(k).size()) + std::to_string(v.size());
  o += std::to_string(s.c_.size()) + std::to_string(s.c_.capacity()) + (s.c_.empty() ? "e" : "-");
  return o;
}
inline std::string ask(values const& s) {
  std::string o = s.var_ == s.var_ ? "=" : "#";
  o += s.tup_ == s.tup_ ? "=" : "#";
  o += std::to_string(s.bs_.count()) + s.bs_.to_string() + (s.bs_ < s.bs_ ? "<" : ">");
  for (auto const& v : s.vv_) { o += std::to_string(v.index()); o += v == s.var_ ? "=" : "#"; o += cista::holds_alternative<data::string>(v) ? "s" : "-"; }
  return o + std::to_string(s.arr_.size());
}
inline std::string ask(bits const& s) {
  std::string o = std::to_string(s.bv_.count()) + s.bv_.str() + (s.bv_ < s.bv_ ? "<" : ">") + (s.bv_ == s.bv_ ? "=" : "#") + (s.bv_.any() ? "a" : "-");
  s.bv_.for_each_set_bit([&](auto const i) { o += std::to_string(i); });
  if (auto const n = s.bv_.next_set_bit(0U)) o += std::to_string(*n);
  return o;
}
inline std::string ask(multi const& s) {
  std::string o;
  for (auto const& b : s.vv_) for (auto const x : b) o += std::to_string(x);
  for (auto const& b : s.mm_) for (auto const x : b) o += std::to_string(x);
  for (auto i = 0U; i < s.pv_.size(); ++i) for (auto const x : s.pv_[i]) o += std::to_string(x);
  for (auto const& a : s.nv_) for (auto const& b : a) o += std::to_string(b.size());
  return o;
}
inline std::string ask(rtrees const& s) {
  std::vector<std::uint32_t> out;
  s.t_.search({-20.F, -20.F}, {10.F, 30.F}, [&](auto const&, auto const&, auto const d) { out.push_back(d); return out.size() < 40U; });
  std::string o;
  for (auto const d : out) o += std::to_string(d);
  return o;
}
template <typename T>
std::string ask(T const&) { return {}; }

enum kind_t { FULL, RECURSIVE, NOHASH };

template <typename T, kind_t Kind, cista::mode Mode>
struct shared {
  static std::string fingerprint() {
    if constexpr (Kind == NOHASH) return {};
    else if constexpr (Kind == FULL) return std::to_string(cista::type_hash<T>()) + "/" + std::to_string(cista::static_type_hash<T>());
    else return std::to_string(cista::type_hash<T>());
  }
  static void run(rng& r) {
    auto const depth = static_cast<int>(r.below(4));
    bytes img;
    {
      auto v = std::make_unique<T>();
      gen(r, *v, depth);
      img = to_image<Mode>(*v, r, false);
    }
    image i{img};
    auto const nt = 2U + static_cast<unsigned>(r.below(5));
    T* first = nullptr;
    // plain pointers are written once, before anybody shares the object
    if (RAW == 1 || r.coin()) must_accept("valid-rejected", [&]() { first = cista::deserialize<T, Mode>(i.begin(), i.end()); });
    // threads find everything out first: the answers are compared afterwards
    struct answers { std::string text, told, hash, copy, again; unsigned done{0}; };
    std::vector<answers> as(nt);
    parallel(r, nt, [&](unsigned const t, pacer& p) {
      auto& a = as[t];
      T const* v = first;
      try {
        for (auto k = 0U; k != 6U; ++k) {
          p.step();
          auto const what = k < 1U ? 0U : p.r_.below(7);
          if (v == nullptr || what == 0U) {
            if constexpr (RAW == 0) {
              v = p.r_.coin() ? cista::deserialize<T, Mode>(i.begin(), i.end()) : cista::unchecked_deserialize<T, Mode>(i.begin(), i.end());
              ev("concurrent_deserializations");
            }
          }
          switch (what) {
            case 1: case 2: a.text = render(*v); ev("concurrent_walks"); break;
            case 3: a.told = ask(*v); ev("concurrent_questions"); break;
            case 4: a.hash = fingerprint(); ev("concurrent_fingerprints"); break;
            case 5: {
              if constexpr (dc<T>::value && std::is_copy_constructible_v<T>) {
                auto const c = std::make_unique<T>(*v);
                a.copy = render(*c);
                ev("concurrent_copies");
              }
              break;
            }
            default: {
              auto const b = cista::serialize<Mode>(*const_cast<T*>(v));
              image i2{b};
              a.again = render(*cista::deserialize<T, Mode>(i2.begin(), i2.end()));
              ev("concurrent_serializations");
            }
          }
          ++a.done;
        }
      } catch (std::exception const& e) {
        fail("threw", "a thread got the exception '%s'", e.what());
      }
    });
    image again{img};
    T const* v = nullptr;
    must_accept("valid-rejected", [&]() { v = cista::deserialize<T, Mode>(again.begin(), again.end()); });
    auto const text = render(*v), told = ask(*v), hash = fingerprint();
    auto const judge = [&](std::string const& got, std::string const& want, char const* what) {
      VP_CHECK(got.empty() || got == want, what, "a thread got another answer than one thread alone: %s", diff_at(want, got).c_str());
    };
    std::uint64_t h = 0;
    for (auto const& a : as) {
      judge(a.text, text, "walk-differs");
      judge(a.told, told, "answer-differs");
      judge(a.hash, hash, "fingerprint-differs");
      judge(a.copy, text, "copy-differs");
      judge(a.again, text, "image-differs");
      h = mix(h, a.text.size() + 3U * a.told.size() + 7U * a.copy.size() + 11U * a.again.size() + 13U * a.hash.size());
    }
    VP_CHECK(RAW == 1 || std::memcmp(i.begin(), img.data(), img.size()) == 0, "image-changed", "reading a relative pointer image changed it");
    op("%u threads, %zu bytes, depth %d", nt, img.size(), depth);
    distinct(mix(h, fnv(img.data(), img.size())));
    ev("shared_objects");
  }
};

// threads with objects of their own do what they do alone
template <typename T>
void separate(rng& r) {
  auto const nt = 2U + static_cast<unsigned>(r.below(5));
  std::vector<std::uint64_t> seeds(nt);
  for (auto& s : seeds) s = r.next();
  auto const work = [](std::uint64_t const seed) {
    rng g{seed};
    auto v = std::make_unique<T>();
    gen(g, *v, static_cast<int>(g.below(4)));
    std::string log;
    std::vector<bool> decisions;
    for (auto k = 4U + g.below(8); k != 0U; --k) {
      mctx c;
      decisions.clear();
      c.decisions = &decisions;
      c.keep = false;
      mutate(c, *v, g);
      log += c.trace;
    }
    log += render(*v);
    if (log.find("valueless ") == std::string::npos) {
      auto const b = cista::serialize<INTEG>(*v);
      image i{b};
      log += std::to_string(b.size());
      log += render(*cista::deserialize<T, INTEG>(i.begin(), i.end()));
    }
    return log;
  };
  std::vector<std::string> got(nt);
  parallel(r, nt, [&](unsigned const t, pacer& p) {
    p.step();
    try { got[t] = work(seeds[t]); } catch (std::exception const& e) { fail("threw", "a thread got the exception '%s'", e.what()); }
  });
  for (auto t = 0U; t != nt; ++t) {
    auto const want = work(seeds[t]);
    VP_CHECK(got[t] == want, "separate-differs", "thread %u of %u got something else than alone: %s", t, nt, diff_at(want, got[t]).c_str());
    distinct(fnv(want.data(), want.size()));
  }
  op("%u threads with objects of their own", nt);
  ev("separate_objects", nt);
}
template <typename T, kind_t Kind>
void both(rng& r) {
  if (r.chance(1, 3)) return separate<T>(r);
  if (r.coin()) shared<T, Kind, INTEG>::run(r); else shared<T, Kind, NONE>::run(r);
}
}  // namespace NSM
#define TYPE(name, t, raw, weight, kind, a) \
  VP_SUITE_NOBALANCE(name, weight) { NSM::both<t, NSM::kind>(r); }
#include "ser_parts.inc"
#if VP_PART == 0
VP_MAIN()
#endif
