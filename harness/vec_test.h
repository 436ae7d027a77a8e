// P10: differential monitor of a vector against std::vector.
#pragma once
#include "elems.h"
#include <list>
#include <sstream>

using namespace vp;

template <typename V>
struct vec_test {
  using T = typename V::value_type;
  using E = elem<T>;
  using M = typename E::model;
  using S = typename V::size_type;
  using acc = typename V::access_type;
  // (a few histories use sizes beyond the range of narrower index types)
  std::size_t MAXN = sizeof(S) == 1 ? 200 : 300;
  bool large{false};
  std::size_t upto(rng& r, std::size_t n, std::size_t room) {
    return large ? std::min(r.big(MAXN), room) : r.below(std::min(n, room) + 1);
  }
  std::size_t sized(rng& r, std::size_t n) { return large ? r.big(MAXN) : r.size(n); }

  V v;
  std::vector<M> m;

  void check(char const* w) {
    auto const& c = v;
    VP_CHECK(v.size() == m.size(), "size", "%s: size %zu, model %zu", w, (std::size_t)v.size(), m.size());
    VP_CHECK(v.empty() == m.empty(), "empty", "%s", w);
    VP_CHECK(std::size_t(v.end() - v.begin()) == m.size(), "end-begin", "%s", w);
    std::size_t i = 0;
    for (auto const& x : c) {
      VP_CHECK(E::eq(x, m[i]), "content", "%s: element %zu of %zu differs", w, i, m.size());
      ++i;
    }
    VP_CHECK(i == m.size(), "iteration-count", "%s", w);
    if (!m.empty()) {
      VP_CHECK(E::eq(c.front(), m.front()) && E::eq(v.front(), m.front()), "front", "%s", w);
      VP_CHECK(E::eq(c.back(), m.back()) && E::eq(v.back(), m.back()), "back", "%s", w);
    }
    std::uint64_t h = m.size();
    for (std::size_t k = 0; k < m.size() && k < 16; ++k) h = mix(h, E::h(m[k]));
    distinct(h);
  }
  void deep(rng& r) {
    auto const& c = v;
    std::size_t i = 0;
    for (auto it = c.rbegin(); it != c.rend(); ++it, ++i)
      VP_CHECK(E::eq(*it, m[m.size() - 1 - i]), "reverse", "reverse element %zu", i);
    VP_CHECK(i == m.size(), "reverse-count", "%zu", i);
    i = 0;
    for (auto it = v.rbegin(); it != v.rend(); ++it, ++i)
      VP_CHECK(E::eq(*it, m[m.size() - 1 - i]), "reverse", "reverse element %zu", i);
    for (int k = 0; k < 4; ++k) {
      auto const idx = r.below(m.size() + 3);
      if (idx > std::numeric_limits<S>::max()) continue;
      bool threw = false;
      try {
        auto const& x = k % 2 == 0 ? v.at(acc(static_cast<S>(idx))) : c.at(acc(static_cast<S>(idx)));
        VP_CHECK(idx < m.size(), "at-no-throw", "at(%zu) of size %zu did not throw", idx, m.size());
        VP_CHECK(E::eq(x, m[idx]), "at", "at(%zu)", idx);
      } catch (std::out_of_range const&) { threw = true; }
      VP_CHECK(threw == (idx >= m.size()), "at-throw", "at(%zu) of size %zu threw=%d", idx, m.size(), threw);
      if (idx < m.size()) {
        VP_CHECK(E::eq(c[acc(static_cast<S>(idx))], m[idx]), "index", "[%zu]", idx);
        VP_CHECK(c.contains(&c[acc(static_cast<S>(idx))]), "contains", "own element");
        VP_CHECK(c.index_of(&c[acc(static_cast<S>(idx))]) == idx, "index_of", "%zu", idx);
      }
    }
    T outside = E::make(E::gen(r));
    VP_CHECK(!c.contains(&outside), "contains", "foreign element");
    VP_CHECK(!c.contains(c.data() + c.size()), "contains", "one past the end");
    VP_CHECK(std::distance(begin(v), end(v)) == (std::ptrdiff_t)m.size(), "adl", "begin/end");
    VP_CHECK(c.cbegin() == c.begin() && c.cend() == c.end() && c.data() == c.begin(), "cbegin", "-");
  }
  std::vector<T> mk(std::vector<M> const& x) {
    std::vector<T> r;
    r.reserve(x.size());
    for (auto const& e : x) r.push_back(E::make(e));
    return r;
  }
  std::vector<M> gens(rng& r, std::size_t n) {
    std::vector<M> x;
    for (std::size_t i = 0; i < n; ++i) x.push_back(E::gen(r));
    return x;
  }

  // returns false if the operation was skipped
  bool step(rng& r) {
    auto const room = MAXN - std::min(MAXN, m.size());
    auto const pos = r.below(m.size() + 1);
    auto const grow_ok = room > 0;
    switch (r.below(34)) {
      case 0: case 1: case 2: {
        if (!grow_ok) return false;
        auto x = E::gen(r);
        op("push_back(const&)");
        ev("push_back");
        T const t = E::make(x);
        v.push_back(t);
        VP_CHECK(E::eq(t, x), "source-changed", "push_back(const&)");
        m.push_back(x);
        break;
      }
      case 3: case 4: {
        if (!grow_ok) return false;
        auto x = E::gen(r);
        op("push_back(&&)");
        ev("push_back");
        v.push_back(E::make(x));
        m.push_back(x);
        break;
      }
      case 5: {
        if (!grow_ok) return false;
        auto x = E::gen(r);
        op("emplace_back");
        ev("emplace_back");
        auto& ref = v.emplace_back(E::make(x));
        m.push_back(x);
        VP_CHECK(&ref == &v.back(), "emplace-ref", "emplace_back returned another element");
        break;
      }
      case 6: {
        if (m.empty() || !grow_ok) return false;
        auto const i = r.below(m.size());
        auto const k = r.below(4);
        op("push_back(self[%zu]) kind %d", (size_t)i, (int)k);
        ev("alias_push_back");
        M const x = m[i];
        if (k == 0) v.push_back(v[acc(S(i))]);
        else if (k == 1) v.emplace_back(v[acc(S(i))]);
        else if (k == 3) {  // built from something that lives in an element
          ev("emplace_from_part");
          T const& from = v[acc(S(i))];
          if constexpr (std::is_same_v<T, tracked>) v.emplace_back(from.v_);
          else if constexpr (std::is_constructible_v<T, std::string_view> && !std::is_arithmetic_v<T>) v.emplace_back(std::string_view{from.data(), from.size()});
          else if constexpr (std::is_class_v<T> && !std::is_same_v<T, pod>) v.emplace_back(from.begin(), from.end());
          else v.emplace_back(from);
        }
        else { T const& cr = v[acc(S(i))]; v.insert(v.begin() + pos, cr); m.insert(m.begin() + pos, x); break; }
        m.push_back(x);
        break;
      }
      case 7: {
        if (m.empty() || room < 8) return false;
        auto const i = r.below(m.size());
        auto const n = r.below(6);
        op("insert(%zu, %zu, self[%zu])", (size_t)pos, (size_t)n, (size_t)i);
        ev("alias_insert_n");
        M const x = m[i];
        auto* it = v.insert(v.begin() + pos, S(n), v[acc(S(i))]);
        m.insert(m.begin() + pos, n, x);
        VP_CHECK(std::size_t(it - v.begin()) == pos, "insert-pos", "count insert returned %td, want %zu", it - v.begin(), (size_t)pos);
        break;
      }
      case 8: case 9: {
        if (!grow_ok) return false;
        auto x = E::gen(r);
        op("insert(%zu, x)", (size_t)pos);
        ev("insert_one");
        T* it;
        if (r.coin()) { T const t = E::make(x); it = v.insert(v.begin() + pos, t); }
        else it = v.insert(v.begin() + pos, E::make(x));
        m.insert(m.begin() + pos, x);
        VP_CHECK(std::size_t(it - v.begin()) == pos, "insert-pos", "insert returned %td, want %zu", it - v.begin(), (size_t)pos);
        break;
      }
      case 10: {
        auto const n = upto(r, 12, room);
        auto x = E::gen(r);
        op("insert(%zu, n=%zu, x)", (size_t)pos, (size_t)n);
        ev("insert_n");
        T const t = E::make(x);
        auto* it = v.insert(v.begin() + pos, S(n), t);
        m.insert(m.begin() + pos, n, x);
        VP_CHECK(std::size_t(it - v.begin()) == pos, "insert-pos", "count insert returned %td", it - v.begin());
        break;
      }
      case 11: case 12: case 13: {
        auto const n = upto(r, 20, room);
        auto x = gens(r, n);
        auto src = mk(x);
        op("insert(%zu, fwd range %zu)", (size_t)pos, (size_t)n);
        ev("insert_range");
        T* it;
        switch (r.below(3)) {
          case 0: it = v.insert(v.begin() + pos, src.begin(), src.end()); break;
          case 1: {
            std::list<T> l(src.begin(), src.end());
            it = v.insert(v.begin() + pos, l.begin(), l.end());
            break;
          }
          default:
            it = v.insert(v.begin() + pos, std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
        }
        m.insert(m.begin() + pos, x.begin(), x.end());
        VP_CHECK(std::size_t(it - v.begin()) == pos, "insert-pos", "range insert returned %td, want %zu", it - v.begin(), (size_t)pos);
        break;
      }
      case 14: {
        auto const n = upto(r, 9, room);
        auto x = gens(r, n);
        auto src = mk(x);
        op("insert(%zu, input range %zu)", (size_t)pos, (size_t)n);
        ev("insert_input_range");
        auto* it = v.insert(v.begin() + pos, src.begin(), src.end(), std::input_iterator_tag{});
        m.insert(m.begin() + pos, x.begin(), x.end());
        VP_CHECK(std::size_t(it - v.begin()) == pos, "insert-pos", "input range insert returned %td, want %zu", it - v.begin(), (size_t)pos);
        break;
      }
      case 15: case 16: {
        if (m.empty()) return false;
        auto const i = r.below(m.size());
        op("erase(%zu)", (size_t)i);
        ev("erase_one");
        auto* it = v.erase(v.begin() + i);
        m.erase(m.begin() + i);
        VP_CHECK(std::size_t(it - v.begin()) == i, "erase-pos", "erase returned %td, want %zu", it - v.begin(), (size_t)i);
        break;
      }
      case 17: case 18: {
        auto const a = r.below(m.size() + 1);
        auto const b = a + r.below(m.size() - a + 1);
        op("erase(%zu, %zu)", (size_t)a, (size_t)b);
        ev("erase_range");
        auto* it = v.erase(v.begin() + a, v.begin() + b);
        m.erase(m.begin() + a, m.begin() + b);
        VP_CHECK(std::size_t(it - v.begin()) == a, "erase-pos", "range erase returned %td, want %zu", it - v.begin(), (size_t)a);
        break;
      }
      case 19: case 20: {
        auto const n = r.coin() ? r.below(m.size() + 1) : sized(r, MAXN);
        op("resize(%zu)", (size_t)n);
        ev("resize");
        auto const old = m.size();
        v.resize(S(n));
        for (auto i = old; i < n; ++i) {
          // value-initialised elements
          T const t{};
          if constexpr (std::is_same_v<T, M>) VP_CHECK(v.begin()[i] == t, "resize-init", "element %zu not value-initialised", i);
        }
        if (n > old) {
          T t{};
          for (auto i = old; i < n; ++i) { M x = E::gen(r); v.begin()[i] = E::make(x); m.push_back(x); }
        } else m.resize(n);
        break;
      }
      case 21: {
        auto const n = r.coin() ? r.below(m.size() + 1) : sized(r, MAXN);
        auto x = E::gen(r);
        op("resize(%zu, x)", (size_t)n);
        ev("resize_init");
        v.resize(S(n), E::make(x));
        m.resize(n, x);
        break;
      }
      case 22: {
        auto const n = sized(r, MAXN);
        op("reserve(%zu)", (size_t)n);
        ev("reserve");
        v.reserve(S(n));
        // no relocation until the reserved size is exceeded
        auto const* base = v.data();
        while (m.size() < n && m.size() < MAXN && r.chance(9, 10)) {
          auto x = E::gen(r);
          v.push_back(E::make(x));
          m.push_back(x);
          VP_CHECK(v.data() == base, "reserve-moved", "storage moved below reserved size %zu", (size_t)n);
        }
        break;
      }
      case 23: {
        if (m.empty()) return false;
        op("pop_back");
        ev("pop_back");
        v.pop_back();
        m.pop_back();
        break;
      }
      case 24: {
        if (!r.chance(1, 3)) return false;
        op("clear");
        ev("clear");
        v.clear();
        m.clear();
        break;
      }
      case 25: {
        auto const n = sized(r, 30);
        auto x = gens(r, n);
        auto src = mk(x);
        op("set(range %zu)", (size_t)n);
        ev("assign_range");
        v.set(src.begin(), src.end());
        m = x;
        break;
      }
      case 26: {
        auto const n = sized(r, 40);
        auto x = gens(r, n);
        auto src = mk(x);
        V o(src.begin(), src.end());
        op("= other(%zu)", (size_t)n);
        ev("copy_assign");
        v = o;
        m = x;
        // independent
        if (!x.empty()) { o.begin()[0] = E::make(E::gen(r)); }
        break;
      }
      case 27: {
        auto const n = sized(r, 40);
        auto x = gens(r, n);
        auto src = mk(x);
        V o(src.begin(), src.end());
        op("= move(other(%zu))", (size_t)n);
        ev("move_assign");
        auto const* p = o.data();
        v = std::move(o);
        m = x;
        VP_CHECK(o.empty() && o.begin() == o.end(), "moved-from", "moved-from vector is not empty");
        VP_CHECK(x.empty() || v.data() == p, "move-stole", "move assignment copied");
        o.push_back(E::make(E::gen(r)));
        VP_CHECK(o.size() == 1, "moved-from-reuse", "%u", (unsigned)o.size());
        break;
      }
      case 28: {
        op("copy-construct, compare, swap back");
        ev("copy_construct");
        V c(v);
        VP_CHECK(c.size() == v.size() && (v.empty() || c.data() != v.data()), "copy", "shares storage");
        if constexpr (!std::is_same_v<T, double>) {
          VP_CHECK(c == v && !(c != v), "copy-eq", "copy differs");
        }
        V d(std::move(v));
        VP_CHECK(v.empty(), "moved-from", "not empty after move construct");
        if (r.coin()) v = std::move(c); else v = d;
        break;
      }
      case 29: {
        op("self copy-assign");
        ev("self_assign");
        auto& alias = v;
        v = alias;
        break;
      }
      case 30: {
        auto const n = sized(r, 20);
        auto x = gens(r, n);
        auto src = mk(x);
        V o;
        for (auto const& e : src) o.push_back(e);
        op("swap(other(%zu))", (size_t)n);
        ev("swap");
        using std::swap;
        swap(v, o);
        VP_CHECK(o.size() == m.size(), "swap-size", "%zu", (size_t)o.size());
        for (std::size_t i = 0; i < m.size(); ++i) VP_CHECK(E::eq(o.begin()[i], m[i]), "swap-content", "%zu", i);
        m = x;
        break;
      }
      case 31: {
        // comparisons against a near copy
        op("compare");
        ev("compare");
        auto x = m;
        if (!x.empty() && r.coin()) x[r.below(x.size())] = E::gen(r);
        if (!x.empty() && r.chance(1, 3)) x.pop_back();
        if (r.chance(1, 3)) x.push_back(E::gen(r));
        auto src = mk(x);
        V o(src.begin(), src.end());
        std::vector<T> mine = mk(m);
        VP_CHECK((v == o) == (mine == src), "eq", "operator==");
        VP_CHECK((v != o) == (mine != src), "ne", "operator!=");
        VP_CHECK((v < o) == (mine < src), "lt", "operator<");
        VP_CHECK((v > o) == (mine > src), "gt", "operator>");
        VP_CHECK((v <= o) == (mine <= src), "le", "operator<=");
        VP_CHECK((v >= o) == (mine >= src), "ge", "operator>=");
        break;
      }
      case 32: {
        if (m.empty()) return false;
        auto const i = r.below(m.size());
        auto x = E::gen(r);
        op("[%zu] = x", (size_t)i);
        ev("element_write");
        if (r.coin()) v[acc(S(i))] = E::make(x); else v.at(acc(S(i))) = E::make(x);
        m[i] = x;
        break;
      }
      default: {
        if constexpr (std::is_copy_constructible_v<T>) {
          if (r.chance(1, 3)) {
            auto const k = r.below(6);
            auto g = gens(r, 4);
            op("V{initializer list of %zu}", (size_t)k);
            ev("init_list_construct");
            auto const e = [&](std::size_t i) { return E::make(g[i]); };
            if (k == 0) { V o(std::initializer_list<T>{}); v = std::move(o); m = {}; }
            else if (k == 1) { V o(std::initializer_list<T>{e(0)}); v = std::move(o); m = {g[0]}; }
            else if (k == 2) { V o{e(0), e(1)}; v = std::move(o); m = {g[0], g[1]}; }
            else if (k == 3) { V o{e(0), e(1), e(2)}; v = std::move(o); m = {g[0], g[1], g[2]}; }
            else if (k == 4) { V o({e(0), e(1), e(2), e(3), e(0)}); v = std::move(o); m = {g[0], g[1], g[2], g[3], g[0]}; }
            else { v = V{e(3), e(2), e(1), e(0)}; m = {g[3], g[2], g[1], g[0]}; }
            break;
          }
        }
        auto const n = sized(r, sizeof(S) == 1 ? 200 : 150);
        auto x = E::gen(r);
        op("V(n=%zu[,x])", (size_t)n);
        ev("size_construct");
        if (r.coin()) {
          V o(S(n), E::make(x));
          v = std::move(o);
          m.assign(n, x);
        } else {
          V o(static_cast<S>(n));
          VP_CHECK(o.size() == n, "ctor-size", "%zu", n);
          v = std::move(o);
          m.clear();
          for (std::size_t i = 0; i < n; ++i) { M y = E::gen(r); v.begin()[i] = E::make(y); m.push_back(y); }
        }
      }
    }
    return true;
  }

  static void run(rng& r) {
    vec_test t;
    bool const non_owned = std::is_trivially_destructible_v<T> && r.chance(1, 4);
    if (non_owned) {
      // start from non-owned storage, as after deserialization
      auto const n = 1 + r.below(9);
      auto x = t.gens(r, n);
      auto buf = t.mk(x);
      op("non-owned start(%zu)", (size_t)n);
      ev("non_owned_start");
      t.v.el_ = buf.data();
      t.v.used_size_ = S(n);
      t.v.allocated_size_ = S(n);
      t.v.self_allocated_ = false;
      t.m = x;
      auto const steps = r.below(30);
      t.check("init");
      for (std::size_t i = 0; i < steps; ++i) {
        // operations that destroy non-owned elements would end the lifetime of
        // buf's elements; restrict to trivially destructible ones for those
        if (t.step(r)) t.check("step(non-owned)");
      }
      t.deep(r);
      if (t.v.begin() == buf.data()) {
        t.v.reset();
      }
    } else {
      auto const big = r.chance(1, 150);
      if (big && sizeof(S) > 1) {
        t.large = true;
        t.MAXN = sizeof(S) == 2 ? 65000 : std::is_trivially_copyable_v<T> ? 140000 : 70000;
        ev("large_history");
      }
      auto const steps = 1 + r.below(big ? 14 : 60);
      for (std::size_t i = 0; i < steps; ++i) {
        if (t.step(r)) t.check("step");
      }
      t.deep(r);
    }
  }
};

