// Hostile images: any bytes are either refused with an exception or yield an
// object that can be read completely without leaving them.
#pragma once
#include "ser_test.h"

namespace vp {

using slots = std::vector<std::pair<std::size_t, unsigned>>;  // image offset, width

template <typename T, bool Raw, bool BigEndian = true>
struct hostile {
  enum verdict { REFUSED, ACCEPTED };
  static constexpr auto const kBudget = std::uint64_t{400000};

  // what a reader may do with an accepted object
  static void read_all(T const& v, std::uint8_t const* b, std::size_t const n, bool const deep) {
    walker w;
    w.lo = reinterpret_cast<std::uintptr_t>(b);
    w.hi = w.lo + n;
    w.what = deep ? "accepted-deep" : "accepted";
    w.want_text = false;
    w.check_find = false;
    w.probe_find = true;
    w.follow = deep;
    w.depth = deep ? 48U : 0U;
    w.budget = kBudget;
    walk(w, v);
    ev("elements_read", w.visits);
    if (w.spent()) ev("read_in_part");
  }

  template <cista::mode M, typename Byte>
  static verdict read(Byte* from, Byte* to, bool const look) {
    try {
      auto const* p = cista::deserialize<T, M>(from, to);
      if (look) read_all(*p, from, static_cast<std::size_t>(to - from), (M & DEEP) == DEEP);
      return ACCEPTED;
    } catch (std::exception const&) {
      return REFUSED;
    } catch (...) {
      fail("foreign-exception", "refused with something that is no std::exception");
    }
  }

  template <cista::mode M>
  static verdict judge(bytes const& b, rng& r, bool const look = true) {
    image i{b};
    auto const a = read<M>(i.begin(), i.end(), look);
    VP_CHECK(Raw || (M & BE) == BE || b.empty() || std::memcmp(i.begin(), b.data(), b.size()) == 0, "modified", "reading changed the bytes of a position independent image");
    // nothing but the bytes decides (plain pointers become absolute addresses while reading: objects
    // overlapping them in a hostile image look different at another address)
    if (r.chance(1, 3)) {
      image j{b, Raw ? 0U : 64U + 64U * r.below(5)};
      if (Raw && !b.empty()) std::memcpy(i.begin(), b.data(), b.size());
      auto const c = Raw ? read<M>(i.begin(), i.end(), false) : read<M>(j.begin(), j.end(), false);
      VP_CHECK(a == c, "verdict-address", "%s when read first, %s when read again", a ? "accepted" : "refused", c ? "accepted" : "refused");
      ev("same_verdict_elsewhere");
    }
    if constexpr (!Raw && (M & BE) != BE) {
      if (r.chance(1, 3)) {
        image j{b};
        auto const c = read<M>(static_cast<std::uint8_t const*>(j.begin()), static_cast<std::uint8_t const*>(j.end()), false);
        VP_CHECK(a == c, "verdict-const", "%s as mutable bytes, %s as constant bytes", a ? "accepted" : "refused", c ? "accepted" : "refused");
        ev("same_verdict_const");
      }
    }
    ev(a == ACCEPTED ? "accepted" : "refused");
    return a;
  }

  static void put(bytes& b, std::size_t const at, unsigned const w, std::uint64_t v, bool const swapped) {
    if (at + w > b.size()) return;
    for (unsigned k = 0; k != w; ++k) b[at + (swapped ? w - 1U - k : k)] = static_cast<std::uint8_t>(v >> (8U * k));
  }
  static std::uint64_t get(bytes const& b, std::size_t const at, unsigned const w, bool const swapped) {
    std::uint64_t v = 0;
    if (at + w > b.size()) return 0;
    for (unsigned k = 0; k != w; ++k) v |= std::uint64_t{b[at + (swapped ? w - 1U - k : k)]} << (8U * k);
    return v;
  }

  static void mutate(bytes& b, slots const& all, slots const& fields, rng& r, bool const swapped) {
    auto const n = b.size();
    auto const& s = !fields.empty() && r.chance(3, 4) ? fields : all;
    switch (r.below(s.empty() ? 5U : 18U)) {
      case 0: if (n != 0U) { auto const i = r.below(n); b[i] ^= static_cast<std::uint8_t>(1U << r.below(8)); op("flip bit of %zu", static_cast<std::size_t>(i)); ev("bit_flip"); } break;
      case 1: if (n != 0U) { auto const i = r.below(n); b[i] = static_cast<std::uint8_t>(r.coin() ? r.value() : 2U + r.below(254)); op("byte %zu = %u", static_cast<std::size_t>(i), b[i]); ev("byte_set"); } break;
      case 2: {
        if (n < 16U) break;
        auto const w = std::size_t{8} << r.below(4);
        auto const x = r.below(n / 8U) * 8U, y = r.below(n / 8U) * 8U;
        op("copy %zu: %zu->%zu", w, static_cast<std::size_t>(x), static_cast<std::size_t>(y));
        for (std::size_t k = 0; k != w && x + k < n && y + k < n; ++k) b[y + k] = b[x + k];
        ev("chunk_copied");
        break;
      }
      case 3: {
        auto const keep = r.chance(1, 2) ? r.below(n + 1U) : n - std::min<std::size_t>(n, r.below(17));
        op("truncate to %zu", static_cast<std::size_t>(keep));
        b.resize(keep);
        ev("truncate");
        break;
      }
      case 4: {
        auto const k = r.below(65);
        op("extend by %zu", static_cast<std::size_t>(k));
        for (std::size_t j = 0; j != k; ++j) b.push_back(static_cast<std::uint8_t>(r.value()));
        ev("extend");
        break;
      }
      case 5:
      case 6: {
        // any small, huge or boundary number
        auto const& t = s[r.below(s.size())];
        std::uint64_t v = 0;
        switch (r.below(8)) {
          case 0: v = 0; break;
          case 1: v = ~0ULL - r.below(9); break;
          case 2: v = r.below(40); break;
          case 3: v = n - r.below(std::min<std::uint64_t>(n + 1U, 24U)); break;
          case 4: v = std::uint64_t{1} << r.below(64); break;
          case 5: v = (std::uint64_t{1} << r.below(64)) - 1U; break;
          case 6: v = 0x8000000000000000ULL; break;  // the null of relative pointers
          default: v = r.next();
        }
        put(b, t.first, t.second, v, swapped);
        op("[%zu:%u] = %llx", t.first, t.second, static_cast<unsigned long long>(v));
        ev("slot_value");
        break;
      }
      case 7:
      case 8:
      case 9: {
        auto const& t = s[r.below(s.size())];
        if (r.chance(1, 4)) {
          // products and sums with it overflow to what they were
          auto const bits = 8U * t.second;
          auto v = get(b, t.first, t.second, swapped);
          if (r.chance(2, 3)) v ^= std::uint64_t{1} << (bits - 1U - r.below(6));
          else {
            static constexpr std::uint64_t const kSize[] = {3, 5, 6, 7, 12, 20, 24, 40};
            auto const max = bits == 64U ? ~0ULL : (std::uint64_t{1} << bits) - 1U;
            v = max / kSize[r.below(8)] + 1U + r.below(3);
          }
          put(b, t.first, t.second, v, swapped);
          op("[%zu:%u] => %llx", t.first, t.second, static_cast<unsigned long long>(v));
          ev("slot_overflowing");
          break;
        }
        // near misses
        static constexpr std::int64_t const kD[] = {1, -1, 2, -2, 4, -4, 8, -8, 16, -16, 24, -24, 32, 64, -64};
        auto const v = get(b, t.first, t.second, swapped) + static_cast<std::uint64_t>(kD[r.below(15)]);
        put(b, t.first, t.second, v, swapped);
        op("[%zu:%u] -> %llx", t.first, t.second, static_cast<unsigned long long>(v));
        ev("slot_adjusted");
        break;
      }
      case 12:
      case 13: {
        // neighbouring fields agree on it
        if (fields.empty()) break;
        auto const i = r.below(fields.size());
        auto const& t = fields[i];
        auto v = r.coin() ? get(b, t.first, t.second, swapped) : 0U;
        v = r.chance(1, 5) ? std::uint64_t{1} << (4U * t.second + r.below(2U * t.second)) : r.coin() ? v + 1U + r.below(4) : r.coin() ? v ^ (std::uint64_t{1} << (8U * t.second - 1U - r.below(6))) : r.coin() ? r.below(100) : n / (1U + r.below(9));
        for (auto j = i, k = std::uint64_t{0}; j < fields.size() && k <= 3U; ++j) {
          if (fields[j].second != t.second) continue;
          ++k;
          if (j == i || r.chance(2, 3)) put(b, fields[j].first, t.second, v, swapped);
        }
        op("[%zu:%u]... = %llx", t.first, t.second, static_cast<unsigned long long>(v));
        ev("slots_agree");
        break;
      }
      case 10:
      case 11: {
        auto const& t = s[r.below(s.size())];
        auto const& u = s[r.below(s.size())];
        put(b, t.first, t.second, get(b, u.first, u.second, swapped), swapped);
        op("[%zu:%u] = [%zu:%u]", t.first, t.second, u.first, u.second);
        ev("slot_copied");
        break;
      }
      default: {
        // refer to another place of the image
        slots wide;
        for (auto const& t : s) if (t.second == 8U) wide.push_back(t);
        if (wide.empty()) for (auto const& t : all) if (t.second == 8U) wide.push_back(t);
        if (wide.empty()) break;
        auto const& t = wide[r.below(wide.size())];
        std::uint64_t to = 0;
        switch (r.below(5)) {
          case 0: to = s[r.below(s.size())].first; break;
          case 1: { auto const& u = wide[r.below(wide.size())]; to = u.first + get(b, u.first, 8U, swapped); break; }
          case 2: to = n - r.below(std::min<std::uint64_t>(n + 1U, 72U)); break;
          case 3: to = r.below(n / 8U + 1U) * 8U; break;
          default: to = r.coin() ? ~0ULL - r.below(16) : 0U;
        }
        put(b, t.first, 8U, to - t.first, swapped);
        op("[%zu] -> image %lld", t.first, static_cast<long long>(to));
        ev("slot_pointed");
      }
    }
  }

  static void all_modes(bytes const& b, rng& r) {
    auto const a = judge<NONE>(b, r);
    if (r.coin()) {
      auto const d = judge<DEEP>(b, r);
      VP_CHECK(Raw || d == REFUSED || a == ACCEPTED, "deep-laxer", "accepted with the deep check but not without");
      ev("deep");
    }
  }

  static void run(rng& r) {
    std::unique_ptr<T> v;
    bytes b;
    for (auto depth = static_cast<int>(r.below(4)) - 1;; --depth) {
      v = std::make_unique<T>();
      gen(r, *v, depth);
      cista::buf<bytes> out;
      cista::serialize<NONE>(out, *v);
      b = std::move(out.buf_);
      if (b.size() < 6000U || depth < -1) break;
    }
    distinct(fnv(b.data(), b.size()));
    op("image of %zu bytes", b.size());
    slots s, fields;
    {
      image i{b};
      auto const* p = cista::unchecked_deserialize<T, NONE>(i.begin(), i.end());
      walker w;
      w.want_text = false;
      w.scalars_on = true;
      w.check_find = false;
      walk(w, *p);
      auto const lo = reinterpret_cast<std::uintptr_t>(i.begin());
      for (auto const& x : w.scalars) if (x.first >= lo && x.first < lo + i.size()) s.emplace_back(x.first - lo, x.second);
      for (auto const& x : w.fields) if (x.first >= lo && x.first < lo + i.size()) fields.emplace_back(x.first - lo, x.second);
    }
    auto const log = st().log_len;
    for (auto k = 0U; k != 14U; ++k) {
      st().log_len = log;
      auto m = b;
      for (auto n = 1U + r.below(r.chance(1, 3) ? 5U : 2U); n != 0U; --n) mutate(m, s, fields, r, false);
      all_modes(m, r);
    }
    if constexpr (BigEndian) {
      if (r.chance(1, 4)) {
        cista::buf<bytes> out;
        cista::serialize<BE>(out, *v);
        for (auto k = 0U; k != 5U; ++k) {
          st().log_len = log;
          op("big endian");
          auto m = out.buf_;
          for (auto n = 1U + r.below(2); n != 0U; --n) mutate(m, s, fields, r, true);
          judge<BE>(m, r);
          ev("big_endian");
        }
      }
    }
    st().log_len = log;
    // nothing valid about it
    {
      bytes m(r.coin() ? r.below(sizeof(T) + 64U) : sizeof(T) + r.below(300));
      auto const kind = r.below(4);
      for (auto& x : m) x = static_cast<std::uint8_t>(kind == 0U ? 0U : kind == 1U ? r.next() : kind == 2U ? r.below(2) : r.chance(1, 6) ? r.value() : 0U);
      op("arbitrary %zu bytes, kind %u", m.size(), static_cast<unsigned>(kind));
      all_modes(m, r);
      // the headers are read within the bytes as well
      image i{m};
      auto h = [&](auto mode) {
        try {
          (void)cista::deserialize<T, decltype(mode)::value>(i.begin(), i.end());
          fail("foreign-accepted", "arbitrary bytes carry no valid checksum, yet were accepted");
        } catch (std::exception const&) {}
      };
      if (!m.empty()) {
        h(std::integral_constant<cista::mode, INTEG>{});
        ev("headers");
      }
      ev("arbitrary");
    }
    // misplaced
    if constexpr (alignof(T) > 1U) {
      if (r.chance(1, 4)) {
        image i{b, 1U + r.below(alignof(T) - 1U)};
        VP_CHECK(read<NONE>(i.begin(), i.end(), false) == REFUSED, "misaligned-accepted", "accepted at an address that is not aligned for the type");
        ev("misaligned");
      }
    }
  }
};

}  // namespace vp
