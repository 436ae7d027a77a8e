// P11: differential monitor of the string types against std::basic_string.
#pragma once
#include <sstream>
#include "cista/hashing.h"
#include "elems.h"

namespace vp {

// a few histories use lengths beyond the range of narrower length types
inline bool& long_strings() {
  static bool b = false;
  return b;
}
template <typename C>
std::basic_string<C> gen_chars(rng& r, std::size_t max = 60) {
  std::size_t n = 0;
  switch (r.below(7)) {
    case 0: n = 0; break;
    case 1: n = r.below(5); break;
    case 2: n = 12 + r.below(7); break;
    case 3: n = 6 + r.below(4); break;
    case 4: n = r.chance(1, 10) ? 200 + r.below(400) : r.below(4); break;
    default: n = r.below(max + 1);
  }
  if (long_strings() && r.chance(3, 4)) n = r.big(140000);
  std::basic_string<C> s(n, C('x'));
  auto const mode = r.below(4);
  for (auto& c : s) {
    if (mode == 0) c = static_cast<C>('a' + r.below(2));
    else if (mode == 1) {
      c = static_cast<C>(r.value());
      if (c == C(0)) c = C(1);
      if constexpr (sizeof(C) == 1) { if (c == C(0)) c = C('z'); }
    } else c = static_cast<C>('a' + r.below(26));
  }
  return s;
}

template <typename C>
struct exact_buf {  // heap block that ends exactly at the last character
  explicit exact_buf(std::basic_string<C> const& s, bool nul = false) : n_{s.size() + (nul ? 1 : 0)} {
    monitor_scope m;
    p_ = static_cast<C*>(std::malloc(n_ * sizeof(C) + (n_ == 0)));
    std::memcpy(p_, s.data(), s.size() * sizeof(C));
    if (nul) p_[s.size()] = C(0);
  }
  ~exact_buf() { monitor_scope m; std::free(p_); }
  exact_buf(exact_buf const&) = delete;
  std::size_t n_;
  C* p_;
};

template <typename A, typename B>
void check_order(A const& a, B const& b, int want, char const* what) {
  VP_CHECK((a == b) == (want == 0), "eq", "%s ==", what);
  VP_CHECK((a != b) == (want != 0), "ne", "%s !=", what);
  VP_CHECK((a < b) == (want < 0), "lt", "%s <", what);
  VP_CHECK((a > b) == (want > 0), "gt", "%s >", what);
  VP_CHECK((a <= b) == (want <= 0), "le", "%s <=", what);
  VP_CHECK((a >= b) == (want >= 0), "ge", "%s >=", what);
}

// S: string type, Kind: 0 owning string, 1 view (non-owning)
template <typename S, bool CStr, bool View>
struct str_test {
  using C = typename S::value_type;
  using M = std::basic_string<C>;
  using SV = std::basic_string_view<C>;
  static constexpr std::size_t N = 4;

  static int cmp(M const& a, M const& b) { return a < b ? -1 : (b < a ? 1 : 0); }
  static bool has_nul(M const& m) { return m.find(C(0)) != M::npos; }

  static void check_one(S const& s, M const& m, char const* w) {
    VP_CHECK(s.size() == m.size(), "size", "%s: size %zu, model %zu", w, (std::size_t)s.size(), m.size());
    VP_CHECK(s.empty() == m.empty(), "empty", "%s", w);
    VP_CHECK(s.view() == SV{m}, "content", "%s: content differs", w);
    VP_CHECK(SV{s} == SV{m}, "conversion", "%s: conversion to view differs", w);
    VP_CHECK(s.str() == m, "str", "%s: str() differs", w);
    VP_CHECK(M(s.begin(), s.end()) == m, "iterators", "%s: begin/end differ", w);
    VP_CHECK(M(begin(s), end(s)) == m && static_cast<std::size_t>(end(s) - begin(s)) == m.size(), "iterators", "%s: free begin/end differ", w);
    auto& u = const_cast<S&>(s);
    VP_CHECK(u.begin() == s.begin() && u.end() == s.end() && begin(u) == s.begin() && end(u) == s.end() && u.data() == s.data(), "iterators", "%s: begin/end of a string that can change differ", w);
    if constexpr (std::is_constructible_v<M, S const&>) VP_CHECK(M(s) == m, "conversion", "%s: conversion to std::string differs", w);
    for (std::size_t i = 0; i < m.size(); ++i)
      VP_CHECK(s[i] == m[i] && u[i] == m[i], "subscript", "%s: [%zu]", w, i);
    if constexpr (CStr) if (s.is_owning()) {
      VP_CHECK(s.c_str()[m.size()] == '\0', "nul", "%s: no terminating NUL at %zu", w, m.size());
      VP_CHECK(s.c_str() == s.data(), "c_str", "%s", w);
    }
    if constexpr (sizeof(C) == 1) {
      VP_CHECK(cista::hashing<S>{}(s) == cista::hashing<SV>{}(SV{m}), "hash",
               "%s: hash differs from the hash of an equal view", w);
    }
    if constexpr (!CStr) {
      VP_CHECK(s.starts_with(SV{m}) && s.ends_with(SV{m}), "prefix-self", "%s", w);
    }
    distinct(fnv(m.data(), m.size() * sizeof(C), 77 + s.is_short()));
  }

  static void compare(S const& a, M const& ma, S const& b, M const& mb, rng& r) {
    auto const c = cmp(ma, mb);
    check_order(a, b, c, "string/string");
    check_order(a, SV{mb}, c, "string/view");
    check_order(SV{ma}, b, c, "view/string");
    if (!has_nul(mb)) check_order(a, mb.c_str(), c, "string/chars");
    if (!has_nul(ma)) check_order(ma.c_str(), b, c, "chars/string");
    if constexpr (sizeof(C) == 1) {
      VP_CHECK((c != 0) || cista::hashing<S>{}(a) == cista::hashing<S>{}(b), "hash-eq", "equal strings, different hash");
      std::ostringstream o;
      o << a;
      VP_CHECK(o.str() == ma, "print", "operator<<");
    }
    if constexpr (!CStr) {
      auto const pre = ma.substr(0, r.below(ma.size() + 2));
      auto const suf = ma.substr(r.below(ma.size() + 1));
      VP_CHECK(a.starts_with(SV{pre}), "starts", "prefix of itself");
      VP_CHECK(a.ends_with(SV{suf}), "ends", "suffix of itself");
      auto const sw = [](M const& x, M const& y) { return x.size() >= y.size() && x.compare(0, y.size(), y) == 0; };
      auto const ew = [](M const& x, M const& y) { return x.size() >= y.size() && x.compare(x.size() - y.size(), y.size(), y) == 0; };
      VP_CHECK(a.starts_with(b) == sw(ma, mb), "starts", "starts_with(string)");
      VP_CHECK(a.ends_with(b) == ew(ma, mb), "ends", "ends_with(string)");
      VP_CHECK(a.starts_with(mb.c_str()) == sw(ma, mb), "starts", "starts_with(chars)");
      VP_CHECK(a.ends_with(mb.c_str()) == ew(ma, mb), "ends", "ends_with(chars)");
      auto const ch = r.coin() || ma.empty() ? C('a') : (r.coin() ? ma.front() : ma.back());
      VP_CHECK(a.starts_with(ch) == (!ma.empty() && ma.front() == ch), "starts", "starts_with(char)");
      VP_CHECK(a.ends_with(ch) == (!ma.empty() && ma.back() == ch), "ends", "ends_with(char)");
    }
  }

  static M gen(rng& r) {
    auto m = gen_chars<C>(r);
    if (CStr && r.chance(1, 4) && !m.empty()) {
      m[r.below(m.size())] = C(0);
      if (r.coin()) m.back() = C(0);
    }
    return m;
  }

  static void run(rng& r) {
    std::vector<std::unique_ptr<exact_buf<C>>> bufs;
    {
      std::vector<S> s(N);
      std::vector<M> m(N);
      std::vector<M> hold;  // storage the views refer to
      { monitor_scope ms; hold.reserve(300); bufs.reserve(300); }
      auto const ext = [&](M const& v, bool nul = false) -> C const* {
        monitor_scope ms;
        bufs.push_back(std::make_unique<exact_buf<C>>(v, nul));
        return bufs.back()->p_;
      };
      long_strings() = r.chance(1, 250);
      if (long_strings()) ev("long_strings");
      auto const steps = 1 + r.below(long_strings() ? 10 : 40);
      for (std::size_t k = 0; k < steps; ++k) {
        auto const i = r.below(N), j = r.below(N);
        auto const c = r.below(20);
        auto const v = gen(r);
        op("op%d i=%d j=%d len=%zu", (int)c, (int)i, (int)j, v.size());
        switch (c) {
          case 0: ev("construct_view"); { S t{SV{ext(v), v.size()}}; check_one(t, v, "ctor(view)"); s[i] = std::move(t); m[i] = v; } break;
          case 1: if (has_nul(v)) break; ev("construct_chars"); { S t{ext(v, true)}; check_one(t, v, "ctor(chars)"); s[i] = std::move(t); m[i] = v; } break;
          case 2: {
            ev("construct_str");
            { monitor_scope ms; hold.push_back(v); }
            S t{hold.back()};
            check_one(t, v, "ctor(str)");
            s[i] = t;
            check_one(t, v, "copied-from");
            m[i] = v;
            break;
          }
          case 3: { ev("construct_len"); S t(ext(v), static_cast<std::uint32_t>(v.size())); check_one(t, v, "ctor(chars,len)"); s[i] = std::move(t); m[i] = v; } break;
          case 4: ev("assign_view"); s[i] = SV{ext(v), v.size()}; m[i] = v; break;
          case 5: if (has_nul(v)) break; ev("assign_chars"); s[i] = ext(v, true); m[i] = v; break;
          case 6: ev("assign_str"); { monitor_scope ms; hold.push_back(v); } s[i] = hold.back(); m[i] = v; break;
          case 7: ev("copy_assign"); s[i] = s[j]; m[i] = m[j]; break;
          case 8: ev("self_assign"); s[i] = *&s[i]; break;
          case 9: {
            ev("move_assign");
            s[i] = std::move(s[j]);
            if (i != j) {
              m[i] = m[j];
              // moved-from: unspecified, but a value and assignable
              m[j] = s[j].str();
              if (r.coin()) { s[j] = SV{}; m[j].clear(); }
            } else { m[i] = s[i].str(); VP_CHECK(s[i].size() == m[i].size(), "self-move", "self move"); }
            break;
          }
          case 10: { ev("move_construct"); S t{std::move(s[i])}; check_one(t, m[i], "move ctor"); s[i] = t; break; }
          case 11: { ev("copy_construct"); S t{s[i]}; check_one(t, m[i], "copy ctor"); s[i].reset(); check_one(t, m[i], "copy of reset string"); m[i].clear(); break; }
          case 12: ev("reset"); s[i].reset(); m[i].clear(); break;
          case 13: if constexpr (!View) {
            // from a part of itself
            auto const a = r.below(m[i].size() + 1);
            auto const n = r.below(m[i].size() - a + 1);
            ev("alias_assign");
            op("alias [%zu,%zu)", a, a + n);
            auto const sub = m[i].substr(a, n);
            if (r.coin()) s[i] = SV{s[i].data() + a, n};
            else s[i].set_owning(s[i].data() + a, static_cast<std::uint32_t>(n));
            m[i] = sub;
          } break;
          case 14: if constexpr (!View) {
            if (m[i].empty()) break;
            ev("write_element");
            auto const p = r.below(m[i].size());
            s[i][p] = C('w');
            m[i][p] = C('w');
          } break;
          case 15: if constexpr (!View && !CStr) {
            auto const a = r.below(m[i].size() + 1);
            auto n = r.below(m[i].size() - a + 1);
            if (r.chance(1, 4)) {  // more than there is
              auto const rest = static_cast<std::uint32_t>(m[i].size() - a);
              std::uint32_t const beyond[] = {0xFFFFFFFFU, 0xFFFFFFFFU - static_cast<std::uint32_t>(a), 0xFFFFFFFFU - rest, 0x80000000U, rest + 1U, rest + 16U};
              n = beyond[r.below(std::size(beyond))];
              ev("erase_to_end");
            }
            ev("erase");
            op("erase(%zu,%zu)", a, n);
            s[i].erase(static_cast<std::uint32_t>(a), static_cast<std::uint32_t>(n));
            m[i].erase(a, n);
          } break;
          case 16: if constexpr (!View) {
            ev("set_owning");
            s[i].set_owning(SV{ext(v), v.size()});
            m[i] = v;
            // owning: never refers to the source
            { monitor_scope ms; std::memset(bufs.back()->p_, 0x7f, bufs.back()->n_ * sizeof(C)); }
          } break;
          case 17: {
            ev("set_non_owning");
            auto const* p = ext(v);
            s[i].set_non_owning(SV{p, v.size()});
            m[i] = v;
            if (CStr ? !v.empty() : v.size() > 15U / sizeof(C))
              VP_CHECK(s[i].data() == p, "non-owning-copied", "non-owning string does not refer to the given memory");
            break;
          }
          case 18: { ev("swap"); using std::swap; swap(s[i], s[j]); swap(m[i], m[j]); break; }
          default: ev("compare"); break;
        }
        for (std::size_t x = 0; x < N; ++x) check_one(s[x], m[x], "after op");
        compare(s[i], m[i], s[j], m[j], r);
      }
    }
    monitor_scope ms;
    bufs.clear();
    bufs.shrink_to_fit();
  }
};

// generic_string: ownership is a property of the value
template <typename S>
struct generic_str_test {
  using C = typename S::value_type;
  using M = std::basic_string<C>;
  using SV = std::basic_string_view<C>;
  static constexpr std::size_t N = 4, limit = 15U / sizeof(C);
  struct model {
    M v_;
    C const* refers_{nullptr};  // memory it has to refer to, owned if none
  };
  static void check(S const& s, model const& m, char const* w) {
    VP_CHECK(s.size() == m.v_.size() && s.empty() == m.v_.empty(), "size", "%s: size %zu, model %zu", w, (std::size_t)s.size(), m.v_.size());
    VP_CHECK(s.view() == SV{m.v_}, "content", "%s: content differs", w);
    VP_CHECK(s.str() == m.v_ && M(s.begin(), s.end()) == m.v_ && M(begin(s), end(s)) == m.v_, "str", "%s: str() or iterators differ", w);
    if (m.refers_ != nullptr) VP_CHECK(s.data() == m.refers_, "non-owning-copied", "%s: does not refer to the given memory", w);
    distinct(fnv(m.v_.data(), m.v_.size() * sizeof(C), 79 + s.is_short() + 2 * (m.refers_ != nullptr)));
  }
  static void run(rng& r) {
    std::vector<std::unique_ptr<exact_buf<C>>> bufs;
    {
      std::vector<S> s(N);
      std::vector<model> m(N);
      { monitor_scope ms; bufs.reserve(120); }
      long_strings() = r.chance(1, 250);
      if (long_strings()) ev("long_strings");
      auto const steps = 1 + r.below(long_strings() ? 10 : 40);
      for (std::size_t k = 0; k < steps; ++k) {
        auto const i = r.below(N), j = r.below(N);
        auto const c = r.below(9);
        auto v = gen_chars<C>(r);
        auto const own = r.coin();
        auto const zero = v.find(C(0)) != M::npos;
        op("op%d i=%d j=%d len=%zu own=%d", (int)c, (int)i, (int)j, v.size(), (int)own);
        exact_buf<C>* src = nullptr;
        if (c < 3) {
          monitor_scope ms;
          bufs.push_back(std::make_unique<exact_buf<C>>(v, true));
          src = bufs.back().get();
        }
        auto const set_model = [&] { m[i] = {v, !own && v.size() > limit ? src->p_ : nullptr}; };
        switch (c) {
          case 0: {
            ev("construct");
            auto const sv = SV{src->p_, v.size()};
            auto const how = r.below(zero ? 2U : 3U);
            S t = own ? (how == 0 ? S{sv, S::owning} : how == 1 ? S(src->p_, static_cast<std::uint32_t>(v.size()), S::owning) : S(static_cast<C const*>(src->p_), S::owning))
                      : (how == 0 ? S{sv, S::non_owning} : how == 1 ? S(src->p_, static_cast<std::uint32_t>(v.size()), S::non_owning) : S(static_cast<C const*>(src->p_), S::non_owning));
            if (r.coin()) s[i] = std::move(t);
            else s[i] = t;
            set_model();
            break;
          }
          case 1: {
            ev("set");
            auto const sv = SV{src->p_, v.size()};
            switch (r.below(zero ? 2U : 3U)) {
              case 0: own ? s[i].set_owning(sv) : s[i].set_non_owning(sv); break;
              case 1: own ? s[i].set_owning(src->p_, static_cast<std::uint32_t>(v.size())) : s[i].set_non_owning(src->p_, static_cast<std::uint32_t>(v.size())); break;
              default: own ? s[i].set_owning(src->p_) : s[i].set_non_owning(src->p_); break;
            }
            set_model();
            break;
          }
          case 2: {
            ev("construct_std");
            auto const keep = v;
            s[i] = S{v, S::owning};
            std::fill(v.begin(), v.end(), C('x'));
            m[i] = {keep, nullptr};
            break;
          }
          case 3: ev("copy_assign"); s[i] = s[j]; m[i] = m[j]; break;
          case 4: {
            // the copy outlives its origin
            ev("copy_outlives");
            S t{s[i]};
            s[i].reset();
            check(t, m[i], "copy of a destroyed string");
            s[j] = t;
            m[j] = m[i];
            if (i != j) m[i] = {};
            break;
          }
          case 5: {
            ev("move");
            S t{std::move(s[i])};
            check(t, m[i], "move");
            s[i] = S{};
            s[j] = std::move(t);
            m[j] = m[i];
            if (i != j) m[i] = {};
            break;
          }
          case 6: ev("self"); s[i] = *&s[i]; break;
          case 7: ev("reset"); s[i].reset(); m[i] = {}; break;
          default: {
            ev("compare");
            auto const x = m[i].v_ < m[j].v_ ? -1 : m[j].v_ < m[i].v_ ? 1 : 0;
            check_order(s[i], s[j], x, "generic/generic");
            check_order(s[i], SV{m[j].v_}, x, "generic/view");
            break;
          }
        }
        // an owned string never refers to what it was made from
        if (src != nullptr && m[i].refers_ == nullptr && r.coin()) { monitor_scope ms; std::memset(src->p_, 0x7f, src->n_ * sizeof(C)); }
        for (std::size_t x = 0; x < N; ++x) check(s[x], m[x], "after op");
      }
    }
    monitor_scope ms;
    bufs.clear();
    bufs.shrink_to_fit();
  }
};

}  // namespace vp
