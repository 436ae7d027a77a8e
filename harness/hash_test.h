// P09: differential monitor of hash map / set against std::map / std::set.
#pragma once
#include <map>
#include <set>
#include "elems.h"

namespace vp {

// ---- hash functions from good to pathological
template <typename K>
struct h_const {
  template <typename T1> static constexpr h_const<K> create() { return {}; }
  template <typename T> cista::hash_t operator()(T const&) const { return 0x4242; }
};
template <typename K>
struct h_low2 {  // few h1 groups, few h2 tags
  template <typename T1> static constexpr h_low2<T1> create() { return {}; }
  cista::hash_t operator()(K const& k) const { return cista::hashing<K>{}(k) & 0x3U; }
};
template <typename K>
struct h_high {  // identical tag, different group
  template <typename T1> static constexpr h_high<T1> create() { return {}; }
  cista::hash_t operator()(K const& k) const { return cista::hashing<K>{}(k) << 7U; }
};
template <typename K>
struct h_tag {  // identical group, different tag
  template <typename T1> static constexpr h_tag<T1> create() { return {}; }
  cista::hash_t operator()(K const& k) const { return cista::hashing<K>{}(k) & 0x7FU; }
};
template <typename K>
struct h_ident {
  template <typename T1> static constexpr h_ident<T1> create() { return {}; }
  cista::hash_t operator()(K const& k) const { return static_cast<cista::hash_t>(k); }
};

// small key universes make collisions of operations likely
template <typename K> struct keygen;
template <> struct keygen<int> {
  static int gen(rng& r, unsigned u) { return static_cast<int>(r.below(u)) * (u % 3 == 0 ? 128 : 1) - 5; }
};
template <> struct keygen<std::uint64_t> {
  static std::uint64_t gen(rng& r, unsigned u) {
    auto const k = r.below(u);
    return u % 2 ? k << 57U | k : k * 0x9E3779B97F4A7C15ULL;
  }
};
template <> struct keygen<std::uint8_t> {
  static std::uint8_t gen(rng& r, unsigned u) { return static_cast<std::uint8_t>(r.below(u)); }
};
template <> struct keygen<tracked> {
  static int gen(rng& r, unsigned u) { return static_cast<int>(r.below(u)); }
};
template <> struct keygen<std::string> {
  static std::string gen(rng& r, unsigned u) {
    auto const k = r.below(u);
    auto s = std::to_string(k);
    // lengths straddle the inline limit; shared prefixes
    if (k % 3 == 1) s = std::string(15 - std::min<std::size_t>(15, s.size()), 'p') + s;
    if (k % 3 == 2) s = std::string(20, 'q') + s;
    if (k == 3) s.clear();
    return s;
  }
};
template <typename Ptr> struct keygen<cista::basic_string<Ptr>> : keygen<std::string> {};
template <> struct keygen<pod> {
  static pod gen(rng& r, unsigned u) {
    auto const k = r.below(u);
    return pod{static_cast<std::uint8_t>(k & 1), k / 4, static_cast<std::uint16_t>((k >> 1) & 1)};
  }
};

template <typename H, bool IsMap>
struct hash_test {
  using K = typename H::key_type;
  using EK = elem<K>;
  using MK = typename EK::model;
  using V = typename H::mapped_type;
  using EV = elem<V>;
  using MV = typename EV::model;
  using M = std::map<MK, MV>;

  H h;
  M m;
  unsigned universe{16};
  std::size_t peak{0};

  static MK mkey(K const& k) {
    if constexpr (std::is_same_v<K, tracked>) return k.get();
    else if constexpr (std::is_constructible_v<std::string, decltype(std::declval<K const&>())> || cista::is_string_v<K>) return std::string{k.view()};
    else return k;
  }
  static K const& key_of(typename H::entry_t const& e) {
    if constexpr (IsMap) return e.first; else return e;
  }
  void insert_model(MK const& k, MV const& v) { m.emplace(k, v); }

  void check(char const* w) {
    auto const& c = h;
    peak = std::max(peak, m.size());
    VP_CHECK(h.size() == m.size(), "size", "%s: size %llu, model %zu", w, (unsigned long long)h.size(), m.size());
    VP_CHECK(h.empty() == m.empty(), "empty", "%s", w);
    std::size_t n = 0;
    std::uint64_t sum = m.size();
    for (auto const& e : c) {
      ++n;
      VP_CHECK(n <= m.size(), "iteration-too-long", "%s: iteration visits more than %zu entries", w, m.size());
      auto const it = m.find(mkey(key_of(e)));
      VP_CHECK(it != m.end(), "phantom", "%s: iteration visits a key that is not stored", w);
      if constexpr (IsMap) VP_CHECK(EV::eq(e.second, it->second), "value", "%s: wrong value", w);
      sum += EK::h(it->first) * 0x9E3779B97F4A7C15ULL;
    }
    VP_CHECK(n == m.size(), "iteration-count", "%s: iteration visits %zu of %zu", w, n, m.size());
    // every entry reachable by key => with the exact count, each exactly once
    for (auto const& [k, v] : m) {
      K const kk = EK::make(k);
      auto const it = c.find(kk);
      VP_CHECK(it != c.end(), "lost", "%s: stored key not found", w);
      VP_CHECK(mkey(key_of(*it)) == k, "wrong-entry", "%s: find returned another entry", w);
      if constexpr (IsMap) VP_CHECK(EV::eq((*it).second, v), "value", "%s: find returned wrong value", w);
    }
    VP_CHECK(h.capacity() >= h.size(), "capacity", "%s", w);
    // every way to iterate visits the same entries
    {
      auto a = begin(h);
      auto b = begin(c);
      auto d = cbegin(c);
      auto e = c.cbegin();
      std::size_t k = 0;
      for (auto it = h.begin(); it != h.end(); ++it, ++k) {
        auto const* const p = &*it;
        VP_CHECK(a != end(h) && b != end(c) && d != cend(c) && e != c.cend(), "iteration-forms", "%s: an iteration ends after %zu entries", w, k);
        VP_CHECK(&*a == p && &*b == p && d.operator->() == p && a.operator->() == p && &*e == p && a == it, "iteration-forms", "%s: entry %zu differs between two iterations", w, k);
        auto const old_a = a++;
        auto const old_b = b++;
        VP_CHECK(&*old_a == p && &*old_b == p && (old_a == it) && (old_b != b), "iteration-forms", "%s: post increment of entry %zu", w, k);
        VP_CHECK(&++d != nullptr && &++e != nullptr, "iteration-forms", "-");
      }
      VP_CHECK(a == end(h) && b == end(c) && d == cend(c) && e == c.cend(), "iteration-forms", "%s: an iteration does not end", w);
    }
    distinct(mix(sum, h.capacity()));
  }

  template <typename F>
  void absent_or_present(MK const& k, F&& f) {
    auto const it = m.find(k);
    f(it != m.end(), it);
  }

  bool step(rng& r) {
    auto const mk = keygen<K>::gen(r, universe);
    auto const mv = [&] { if constexpr (IsMap) return EV::gen(r); else return mk; }();
    auto const present = m.find(mk) != m.end();
    switch (r.below(30)) {
      case 0: case 1: case 2: case 3: case 4: {
        op("insert(#%llu)", (unsigned long long)(EK::h(mk) % 100000));
        ev("insert");
        std::pair<typename H::iterator, bool> res;
        if constexpr (IsMap) res = h.insert(typename H::entry_t{EK::make(mk), EV::make(mv)});
        else res = h.insert(EK::make(mk));
        VP_CHECK(res.second == !present, "insert-flag", "insert returned %d, key present=%d", res.second, present);
        VP_CHECK(mkey(key_of(*res.first)) == mk, "insert-it", "insert returned another position");
        insert_model(mk, mv);
        break;
      }
      case 5: case 6: {
        op("emplace(#%llu)", (unsigned long long)(EK::h(mk) % 100000));
        ev("emplace");
        std::pair<typename H::iterator, bool> res;
        if constexpr (IsMap) res = h.emplace(EK::make(mk), EV::make(mv));
        else res = h.emplace(EK::make(mk));
        VP_CHECK(res.second == !present, "insert-flag", "emplace returned %d, key present=%d", res.second, present);
        insert_model(mk, mv);
        break;
      }
      case 7: case 8: case 9: case 10: case 11: {
        if constexpr (IsMap) {
          op("[#%llu] = v", (unsigned long long)(EK::h(mk) % 100000));
          ev("subscript");
          K const k = EK::make(mk);
          auto& ref = r.coin() ? h[k] : h[EK::make(mk)];
          if (present) VP_CHECK(EV::eq(ref, m.at(mk)), "subscript-value", "[] on a present key");
          else if constexpr (std::is_same_v<V, MV>) VP_CHECK(ref == V{}, "subscript-init", "[] on an absent key is not value-initialised");
          ref = EV::make(mv);
          m[mk] = mv;
        } else return false;
        break;
      }
      case 12: {
        if constexpr (IsMap && std::is_same_v<K, V>) {
          if (m.empty()) return false;
          auto const it = std::next(m.begin(), r.below(m.size()));
          op("[at(k)] = v (aliasing)");
          ev("alias_subscript");
          MK const nk = it->second;
          K const k = EK::make(it->first);
          auto& ref = h[h.at(k)];
          auto const was = m.find(nk) != m.end();
          if (was) VP_CHECK(EV::eq(ref, m.at(nk)), "subscript-value", "[] on a present key");
          ref = EV::make(mv);
          m[nk] = mv;
        } else return false;
        break;
      }
      case 13: case 14: case 15: case 16: case 17: case 18: {
        op("erase(#%llu)", (unsigned long long)(EK::h(mk) % 100000));
        ev("erase_key");
        K const k = EK::make(mk);
        auto const n = h.erase(k);
        VP_CHECK(n == (present ? 1U : 0U), "erase-count", "erase returned %zu, present=%d", (std::size_t)n, present);
        m.erase(mk);
        break;
      }
      case 19: {
        if (m.empty()) return false;
        op("erase(iterator)");
        ev("erase_it");
        auto it = h.begin();
        auto const n = r.below(m.size());
        for (std::size_t i = 0; i < n; ++i) ++it;
        auto const k = mkey(key_of(*it));
        h.erase(it);
        m.erase(k);
        break;
      }
      case 20: {
        // erase while iterating, as documented iterators stay valid
        op("erase-if during iteration");
        ev("erase_iterating");
        auto const md = 2 + r.below(4);
        for (auto it = h.begin(); it != h.end();) {
          auto const k = mkey(key_of(*it));
          auto cur = it++;
          if (EK::h(k) % md == 0) { h.erase(cur); m.erase(k); }
        }
        break;
      }
      case 21: {
        op("lookup(#%llu)", (unsigned long long)(EK::h(mk) % 100000));
        ev(present ? "lookup_hit" : "lookup_miss");
        auto const& c = h;
        K const k = EK::make(mk);
        VP_CHECK((h.find(k) != h.end()) == present, "find", "find present=%d", present);
        VP_CHECK((c.find(k) != c.end()) == present, "find-const", "find present=%d", present);
        if constexpr (IsMap) {
          auto const o = c.get(k);
          VP_CHECK(o.has_value() == present && (!present || EV::eq(*o, m.at(mk))), "get", "get");
          for (int q = 0; q < 2; ++q) {
            bool threw = false;
            try {
              auto const& x = q ? c.at(k) : h.at(k);
              VP_CHECK(present && EV::eq(x, m.at(mk)), "at", "at returned for present=%d", present);
            } catch (std::out_of_range const&) { threw = true; }
            VP_CHECK(threw == !present, "at-throw", "at threw=%d present=%d", threw, present);
          }
        }
        if constexpr (cista::is_string_v<K>) {
          std::string_view const sv{mk};
          VP_CHECK((c.find(sv) != c.end()) == present, "find-string_view", "present=%d", present);
          VP_CHECK((c.find(mk) != c.end()) == present, "find-std-string", "present=%d", present);
          VP_CHECK((c.find(mk.c_str()) != c.end()) == present, "find-c-string", "present=%d", present);
          ev("lookup_heterogeneous");
        }
        break;
      }
      case 22: {
        if (h.capacity() == 0U && r.coin()) return false;
        op("rehash");
        ev("rehash");
        h.rehash();
        break;
      }
      case 23: {
        if (!r.chance(1, 4)) return false;
        if (r.coin()) {
          auto const n = r.chance(1, 3) ? 0U : r.below(60);
          op("assigned another table of up to %zu", (size_t)n);
          ev("replaced_by_another");
          H c;
          M mc;
          for (std::size_t i = 0; i != n; ++i) {
            auto const k2 = keygen<K>::gen(r, universe);
            if constexpr (IsMap) { auto const v2 = EV::gen(r); c.emplace(EK::make(k2), EV::make(v2)); mc.emplace(k2, v2); }
            else { c.emplace(EK::make(k2)); mc.emplace(k2, k2); }
          }
          if (r.chance(1, 4)) { while (!c.empty()) c.erase(c.begin()); mc.clear(); }
          if (r.coin()) { h = static_cast<H const&>(c); VP_CHECK(h == c && h.size() == mc.size(), "copy-assign", "differs"); }
          else { h = std::move(c); VP_CHECK(c.empty(), "moved-from", "moved-from table not empty"); }
          m = mc;
          return true;
        }
        op("clear");
        ev("clear");
        h.clear();
        m.clear();
        break;
      }
      case 24: {
        op("copy-construct + compare");
        ev("copy_construct");
        H c(h);
        VP_CHECK(c == h && h == c, "copy-eq", "copy differs");
        if (r.coin()) {
          if constexpr (IsMap) c.insert(typename H::entry_t{EK::make(mk), EV::make(mv)}); else c.insert(EK::make(mk));
          if (!present) VP_CHECK(!(c == h) && !(h == c), "eq-superset", "superset compares equal");
        }
        if (!m.empty()) {
          K const k = EK::make(m.begin()->first);
          c.erase(k);
          VP_CHECK(h.find(k) != h.end(), "copy-aliased", "erasing from the copy affected the original");
          if (!present) VP_CHECK(!(c == h), "eq-other-key", "different key sets of equal size compare equal");
        }
        if constexpr (IsMap) {
          H d(h);
          if (!m.empty()) {
            auto const it = std::next(m.begin(), r.below(m.size()));
            auto nv = EV::gen(r);
            K const k = EK::make(it->first);
            d[k] = EV::make(nv);
            VP_CHECK((d == h) == (EV::h(nv) == EV::h(it->second)), "eq-value", "map equality ignores a value");
          }
        }
        break;
      }
      case 25: {
        op("copy-assign over other");
        ev("copy_assign");
        H c;
        for (int i = 0, n = (int)r.below(8); i < n; ++i) {
          auto const k2 = keygen<K>::gen(r, universe);
          if constexpr (IsMap) c.emplace(EK::make(k2), EV::make(EV::gen(r))); else c.emplace(EK::make(k2));
        }
        c = h;
        VP_CHECK(c == h, "copy-assign", "differs");
        auto& alias = h;
        h = alias;
        std::swap(h, c);
        break;
      }
      case 26: {
        op("move-assign over other");
        ev("move_assign");
        H c;
        for (int i = 0, n = (int)r.below(8); i < n; ++i) {
          auto const k2 = keygen<K>::gen(r, universe);
          if constexpr (IsMap) c.emplace(EK::make(k2), EV::make(EV::gen(r))); else c.emplace(EK::make(k2));
        }
        c = std::move(h);
        VP_CHECK(h.empty() && h.begin() == h.end(), "moved-from", "moved-from table not empty");
        VP_CHECK(h.find(EK::make(mk)) == h.end(), "moved-from", "finds in a moved-from table");
        // moved-from table stays usable
        if constexpr (IsMap) h.emplace(EK::make(mk), EV::make(mv)); else h.emplace(EK::make(mk));
        VP_CHECK(h.size() == 1U, "moved-from-reuse", "-");
        h = std::move(c);
        break;
      }
      case 27: {
        op("move-construct");
        ev("move_construct");
        H c(std::move(h));
        VP_CHECK(h.empty(), "moved-from", "moved-from table not empty");
        h = std::move(c);
        auto& alias = h;
        h = std::move(alias);
        break;
      }
      case 28: {
        op("insert(range)");
        ev("insert_range");
        std::vector<typename H::entry_t> src;
        for (int i = 0, n = (int)r.below(12); i < n; ++i) {
          auto const k2 = keygen<K>::gen(r, universe);
          if constexpr (IsMap) { auto v2 = EV::gen(r); src.push_back(typename H::entry_t{EK::make(k2), EV::make(v2)}); insert_model(k2, v2); }
          else { src.push_back(EK::make(k2)); insert_model(k2, k2); }
        }
        h.insert(src.begin(), src.end());
        break;
      }
      default: {
        // mutate values through iterators
        if constexpr (IsMap) {
          op("write through iterator");
          ev("iter_write");
          for (auto& e : h) {
            if (r.chance(1, 4)) { auto nv = EV::gen(r); e.second = EV::make(nv); m[mkey(e.first)] = nv; }
          }
        } else {
          H const x{EK::make(mk)};
          VP_CHECK(x.size() == 1 && (x == h) == (m.size() == 1 && present), "init-list", "-");
          MK const k2 = keygen<K>::gen(r, universe), k3 = keygen<K>::gen(r, universe);
          op("H{five keys, three distinct}");
          ev("init_list");
          H y{EK::make(mk), EK::make(k2), EK::make(k3), EK::make(mk), EK::make(k2)};
          M my;
          my.emplace(mk, mk), my.emplace(k2, k2), my.emplace(k3, k3);
          VP_CHECK(y.size() == my.size(), "init-list", "%zu entries, model %zu", (std::size_t)y.size(), my.size());
          for (auto const& q : my) VP_CHECK(y.find(EK::make(q.first)) != y.end(), "init-list", "key missing");
          if (r.chance(1, 4)) {
            h = std::move(y);
            m = std::move(my);
          }
        }
      }
    }
    return true;
  }

  static void run(rng& r) {
    hash_test t;
    static unsigned const us[] = {3, 5, 9, 16, 33, 64, 100, 200, 250};
    t.universe = us[r.below(9)];
    t.check("init");
    auto const steps = r.chance(1, 8) ? 400 : 1 + r.below(90);
    for (std::size_t i = 0; i < steps; ++i) {
      auto const k = r.below(40);
      if (k == 0) {  // burst of inserts: cross several growth steps
        for (unsigned q = 0; q < t.universe; ++q) {
          auto const mk = keygen<K>::gen(r, t.universe);
          if constexpr (IsMap) { auto v = EV::gen(r); t.h.emplace(EK::make(mk), EV::make(v)); t.insert_model(mk, v); }
          else { t.h.emplace(EK::make(mk)); t.insert_model(mk, mk); }
        }
        op("burst insert");
        t.check("burst");
      } else if (k == 1) {  // burst of erases: tombstones
        while (t.m.size() > t.universe / 8) {
          auto const it = std::next(t.m.begin(), r.below(t.m.size()));
          K const kk = EK::make(it->first);
          VP_CHECK(t.h.erase(kk) == 1U, "erase-count", "erase of a stored key returned 0");
          t.m.erase(it);
        }
        op("burst erase");
        t.check("burst");
      } else if (t.step(r)) {
        t.check("step");
      }
    }
  }

  // tables with many entries: their growth steps, mass erasure, copies
  static void run_large(rng& r) {
    hash_test t;
#if defined(VP_VALGRIND)
    t.universe = 700;
#else
    t.universe = static_cast<unsigned>(r.chance(1, 8) ? 20000 + r.big(120000) : 300 + r.below(4000));
#endif
    auto const insert = [&](std::size_t n) {
      for (std::size_t q = 0; q < n; ++q) {
        auto const mk = keygen<K>::gen(r, t.universe);
        auto const fresh = t.m.find(mk) == t.m.end();
        bool inserted = false;
        if constexpr (IsMap) { auto v = EV::gen(r); inserted = t.h.emplace(EK::make(mk), EV::make(v)).second; t.insert_model(mk, v); }
        else { inserted = t.h.emplace(EK::make(mk)).second; t.insert_model(mk, mk); }
        VP_CHECK(inserted == fresh, "insert-flag", "emplace returned %d in a table of %zu", inserted, t.m.size());
      }
    };
    auto const phases = 2 + r.below(5);
    for (std::size_t i = 0; i < phases; ++i) {
      switch (r.below(6)) {
        case 0: case 1: case 2: {
          auto const n = r.below(2 * t.universe);
          op("insert %zu", (size_t)n);
          insert(n);
          break;
        }
        case 3: {
          op("erase many");
          auto const md = 1 + r.below(5);
          std::size_t n = 0;
          for (auto it = t.m.begin(); it != t.m.end();) {
            if (EK::h(it->first) % md != 0) { ++it; continue; }
            K const kk = EK::make(it->first);
            VP_CHECK(t.h.erase(kk) == 1U, "erase-count", "erase of a stored key returned 0");
            VP_CHECK(t.h.erase(kk) == 0U, "erase-count", "erase of an erased key");
            it = t.m.erase(it);
            ++n;
          }
          op("erased %zu", n);
          break;
        }
        case 4: {
          op("copies");
          H c(t.h);
          VP_CHECK(c == t.h && c.size() == t.m.size(), "copy-eq", "copy differs");
          H d;
          d = c;
          if (!t.m.empty()) {
            K const kk = EK::make(t.m.begin()->first);
            c.erase(kk);
            VP_CHECK(!(c == t.h) && c.size() + 1 == t.m.size() && d == t.h, "copy-eq", "copy without one of %zu entries", t.m.size());
          }
          t.h = std::move(d);
          break;
        }
        default: t.step(r);
      }
      t.check("large");
      if (t.m.size() > 60000) ev("over_60000_entries");
      if (t.m.size() > 1000) ev("over_1000_entries");
    }
  }

  // long insert/erase churn with a bounded number of live entries
  static void churn(rng& r) {
    hash_test t;
    t.universe = 255;
    auto const live = 1 + r.below(60);
    std::size_t const n = 3000;
    std::size_t maxcap = 0;
    for (std::size_t i = 0; i < n; ++i) {
      auto const mk = keygen<K>::gen(r, t.universe);
      if (t.m.find(mk) != t.m.end() || t.m.size() >= live) {
        auto const it = std::next(t.m.begin(), r.below(t.m.size()));
        K const kk = EK::make(it->first);
        VP_CHECK(t.h.erase(kk) == 1U, "erase-count", "churn erase of a stored key returned 0");
        t.m.erase(it);
      } else {
        auto v = EV::gen(r);
        if constexpr (IsMap) { t.h.emplace(EK::make(mk), EV::make(v)); t.insert_model(mk, v); }
        else { t.h.emplace(EK::make(mk)); t.insert_model(mk, mk); }
      }
      maxcap = std::max<std::size_t>(maxcap, t.h.capacity());
      if (i % 500 == 499) t.check("churn");
    }
    op("churn live<=%zu max capacity %zu", (size_t)live, maxcap);
    ev("churn_steps", n);
    VP_CHECK(maxcap <= 64U * (live + 16U), "unbounded-capacity", "capacity %zu with at most %zu live entries after %zu operations", maxcap, (size_t)live, n);
  }
};

}  // namespace vp
