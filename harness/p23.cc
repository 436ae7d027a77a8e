// P23: relative pointers next to plain pointers.
#include <sys/mman.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <string>

#include "common.h"

#include "cista/containers.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"

using namespace vp;

#ifndef VP_PART
#define VP_PART 0
#endif

namespace {

struct rec { std::uint64_t a; std::uint32_t b; std::uint16_t c[3]; };
struct base { std::uint64_t x; };
struct derived : base { std::uint32_t y; };
struct idx_tag {};

template <typename T>
T const* as_const(T* p) { return p; }

// One world: pointers of all kinds of places, each with a plain twin.
template <typename T>
struct world {
  using P = cista::offset_ptr<T>;
  using C = cista::offset_ptr<T const>;
  static constexpr auto const SLOTS = 24U;

  // targets (never dereferenced out of their array) in blocks far apart
  struct block { T* at; std::size_t n; };
  std::vector<block> blocks;
  std::vector<std::pair<void*, std::size_t>> maps;
  std::vector<char*> heap;

  // places for pointers
  std::vector<char*> places;
  std::vector<P*> ps;
  std::vector<T*> plain;

  explicit world(rng& r) {
    {
      monitor_scope m;
      auto const n = 2U + r.below(30);
      auto* h = new char[n * sizeof(T) + 16U];
      heap.push_back(h);
      auto* t = reinterpret_cast<T*>((reinterpret_cast<std::uintptr_t>(h) + 15U) & ~std::uintptr_t{15U});
      blocks.push_back({t, n});
      // low and high addresses
      static std::uintptr_t const hints[] = {0x10000000UL, 0x200000000UL, 0x500000000000UL, 0x7e0000000000UL};
      for (auto k = r.below(4); k != 0U; --k) {
        auto* const m2 = ::mmap(reinterpret_cast<void*>(hints[r.below(4)] + r.below(1000) * 4096U), 8192U, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m2 == MAP_FAILED) continue;
        maps.emplace_back(m2, 8192U);
        blocks.push_back({static_cast<T*>(m2), 4096U / sizeof(T)});
        places.push_back(static_cast<char*>(m2) + 4096U);
      }
      auto* pl = new char[SLOTS * 16U + 16U];
      heap.push_back(pl);
      places.push_back(pl);
    }
    for (auto i = 0U; i != SLOTS; ++i) {
      auto* at = places[r.below(places.size())];
      at = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(at) + 7U) & ~std::uintptr_t{7U}) + i * 16U;
      ps.push_back(new (at) P);
      plain.push_back(nullptr);
    }
  }
  ~world() {
    for (auto* p : ps) p->~P();
    monitor_scope m;
    for (auto* h : heap) delete[] h;
    for (auto& [p, n] : maps) ::munmap(p, n);
  }
  T* any(rng& r) {
    if (r.chance(1, 10)) return nullptr;
    auto const& b = blocks[r.below(blocks.size())];
    return b.at + r.below(b.n);
  }
  std::pair<std::ptrdiff_t, std::ptrdiff_t> room(T* p) const {
    for (auto const& b : blocks) if (p >= b.at && p < b.at + b.n) return {p - b.at, static_cast<std::ptrdiff_t>(b.n) - 1 - (p - b.at)};
    return {0, 0};
  }

  void judge_one(P const& p, T* const q, char const* what) const {
    VP_CHECK(p.get() == q, "target", "%s: leads to %p, the plain pointer to %p (the pointer itself is at %p)", what, static_cast<void const*>(p.get()), static_cast<void const*>(q), static_cast<void const*>(&p));
    VP_CHECK(static_cast<bool>(p) == (q != nullptr) && (p == nullptr) == (q == nullptr) && (nullptr != p) == (q != nullptr), "null", "%s: null-ness differs from the plain pointer", what);
    VP_CHECK(static_cast<T*>(p) == q && static_cast<void*>(p) == q && static_cast<void const*>(p) == q && cista::ptr_cast(p) == q, "conversion", "%s: conversions lead elsewhere", what);
    if (q != nullptr) VP_CHECK(&*p == q && p.operator->() == q && &p[0] == q, "dereference", "%s: dereferencing leads elsewhere", what);
  }
  void judge(rng& r) const {
    for (auto i = 0U; i != SLOTS; ++i) judge_one(*ps[i], plain[i], "slot");
    for (auto k = 0; k != 12; ++k) {
      auto const i = r.below(SLOTS), j = r.below(SLOTS);
      auto const &a = *ps[i], &b = *ps[j];
      auto* const x = plain[i];
      auto* const y = plain[j];
      std::less<T*> const lt;
      VP_CHECK((a == b) == (x == y) && (a != b) == (x != y), "compare", "== of relative pointers");
      VP_CHECK((a == y) == (x == y) && (x == b) == (x == y) && (a != y) == (x != y), "compare", "== of relative and plain pointer");
      VP_CHECK((a < b) == lt(x, y) && (a > b) == lt(y, x) && (a <= b) == !lt(y, x) && (a >= b) == !lt(x, y), "compare", "order of relative pointers");
      VP_CHECK(cista::equal_to<P>{}(a, b) == (x == y), "compare", "equal_to of relative pointers");
      VP_CHECK(x != y || cista::hashing<P>{}(a) == cista::hashing<P>{}(b), "compare", "hash of equal relative pointers");
      ev(x == y ? "compared_equal" : "compared_unequal");
    }
  }
  void step(rng& r) {
    auto const i = r.below(SLOTS), j = r.below(SLOTS);
    auto& p = *ps[i];
    auto& q = plain[i];
    auto& op_ = *ps[j];
    auto*& oq = plain[j];
    auto const back = room(q).first, forth = room(q).second;
    switch (r.below(25)) {
      case 0: case 1: { q = any(r); p = q; op("assign"); break; }
      case 2: { q = any(r); p = as_const(q); op("assign const"); break; }
      case 3: p = op_; q = oq; op("%zu=%zu", static_cast<std::size_t>(i), static_cast<std::size_t>(j)); break;
      case 4: p = std::move(op_); q = oq; op("move"); break;  // a moved-from pointer is like a plain one
      case 5: p = nullptr; q = nullptr; op("null"); break;
      case 6: { q = any(r); p.~P(); new (&p) P(q); op("construct"); break; }
      case 7: if (i != j) { p.~P(); new (&p) P(op_); q = oq; op("copy construct"); } break;
      case 8: if (i != j) { p.~P(); new (&p) P(std::move(op_)); q = oq; op("move construct"); } break;
      case 9: { q = nullptr; p.~P(); new (&p) P(nullptr); op("construct null"); break; }
      case 10: { q = nullptr; p.~P(); new (&p) P; op("default construct"); break; }
      case 11: if (forth > 0) { auto& res = ++p; ++q; VP_CHECK(&res == &p, "result", "++ gives something else than the pointer"); op("++p"); ev("steps"); } break;
      case 12: if (back > 0) { auto& res = --p; --q; VP_CHECK(&res == &p, "result", "-- gives something else than the pointer"); op("--p"); ev("steps"); } break;
      case 13: if (forth > 0) { auto const res = p++; VP_CHECK(res.get() == q, "result", "p++ gives another position than where the pointer was"); ++q; op("p++"); ev("steps"); } break;
      case 14: if (back > 0) { auto const res = p--; VP_CHECK(res.get() == q, "result", "p-- gives another position than where the pointer was"); --q; op("p--"); ev("steps"); } break;
      case 15: if (q != nullptr) { auto const k = r.range(-back, forth); p = p + k; q += k; op("+%td", static_cast<std::ptrdiff_t>(k)); ev("jumps"); } break;
      case 16: if (q != nullptr) { auto const k = r.range(-forth, back); p = p - k; q -= k; op("-%td", static_cast<std::ptrdiff_t>(k)); ev("jumps"); } break;
      case 17: if (q != nullptr && forth > 0) { auto const k = static_cast<std::uint8_t>(r.below(static_cast<std::uint64_t>(std::min<std::ptrdiff_t>(forth, 255)) + 1U)); p = p + k; q += k; op("+u8"); ev("jumps"); } break;
      case 18: if (q != nullptr && back > 0) { auto const k = static_cast<std::uint32_t>(r.below(static_cast<std::uint64_t>(back) + 1U)); p = p - k; q -= k; op("-u32"); ev("jumps"); } break;
      case 19: if (q != nullptr) { cista::strong<std::uint32_t, idx_tag> const k{static_cast<std::uint32_t>(r.below(static_cast<std::uint64_t>(forth) + 1U))}; p = p + k; q += k.v_; op("+strong"); ev("jumps"); } break;
      case 20: if (q != nullptr) { cista::strong<std::uint16_t, idx_tag> const k{static_cast<std::uint16_t>(r.below(static_cast<std::uint64_t>(back) + 1U))}; p = p - k; q -= k.v_; op("-strong"); ev("jumps"); } break;
      case 21: if (q != nullptr) { auto const k = r.below(static_cast<std::uint64_t>(forth) + 1U); VP_CHECK(&p[k] == &q[k], "index", "p[%zu] is elsewhere", static_cast<std::size_t>(k)); op("index"); } break;
      case 22: { std::swap(p, op_); std::swap(q, oq); op("swap"); ev("swaps"); break; }
      case 23: {  // through others: const, void, by value, on the stack
        C const c{static_cast<T*>(op_)};
        VP_CHECK(c.get() == oq && (c == nullptr) == (oq == nullptr), "const-pointer", "a pointer to const made from a pointer leads elsewhere");
        cista::offset_ptr<void> const v{static_cast<T*>(op_)};
        cista::offset_ptr<void> v2{v};
        cista::offset_ptr<void> v3;
        v3 = v2;
        v2 = nullptr;
        VP_CHECK(v.get() == oq && v3.get() == oq && static_cast<bool>(v) == (oq != nullptr) && (v == nullptr) == (oq == nullptr) && (nullptr == v3) == (oq == nullptr), "void-pointer", "a void pointer made from a pointer leads elsewhere");
        VP_CHECK(v2 == nullptr && v2.get() == nullptr && !v2, "void-pointer", "a void pointer set to null is not");
        VP_CHECK(v == v3 && !(v != v3) && (v == v2) == (oq == nullptr), "void-pointer", "equality of void pointers");
        cista::offset_ptr<void> const w{static_cast<T*>(p)};
        VP_CHECK((v == w) == (oq == q) && (v != w) == (oq != q) && cista::equal_to<cista::offset_ptr<void>>{}(v, w) == (oq == q), "void-pointer", "two void pointers compare %d, their targets %d", v == w, oq == q);
        auto const by_value = [](P x) { return x; };
        p = by_value(op_);
        q = oq;
        op("through others");
        ev("detours");
        break;
      }
      default: {  // equal bytes moved along with an array of pointers
        P arr[4];
        T* tw[4];
        for (auto k = 0; k != 4; ++k) { tw[k] = any(r); arr[k] = tw[k]; }
        std::rotate(arr, arr + 1 + r.below(3), arr + 4);
        std::sort(arr, arr + 4, [](P const& a, P const& b) { return a < b; });
        std::sort(tw, tw + 4, std::less<T*>{});
        for (auto k = 0; k != 4; ++k) judge_one(arr[k], tw[k], "sorted array");
        p = arr[r.below(4)];
        q = p.get();
        op("sorted");
        ev("sorted");
      }
    }
    auto const where = q == nullptr ? 0 : reinterpret_cast<char*>(q) - reinterpret_cast<char*>(&p);
    distinct(mix(static_cast<std::uint64_t>(where), sizeof(T)));
    if (q != nullptr) ev(where > (1L << 32) || where < -(1L << 32) ? "targets_far_away" : "targets_near");
    ev("operations");
  }
};

template <typename T>
void histories(rng& r) {
  world<T> w{r};
  for (auto n = 20U + r.below(80); n != 0U; --n) {
    w.step(r);
    if (r.chance(1, 4)) w.judge(r);
  }
  w.judge(r);
}

// Every magnitude of distance: the addresses pointed to are only compared, not used.
template <typename T>
void distances(rng& r) {
  using P = cista::offset_ptr<T>;
  alignas(16) static char pool[65536];
  auto const lowest = std::intptr_t{0x1000}, highest = std::intptr_t{0x7fff'ffff'f000};
  static std::uintptr_t const hints[] = {0x10000000UL, 0x200000000UL, 0x500000000000UL, 0x7e0000000000UL};
  auto* const there = static_cast<char*>(::mmap(reinterpret_cast<void*>(hints[r.below(4)] + r.below(1000) * 4096U), 4096U, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  VP_CHECK(there != MAP_FAILED, "harness", "mmap");
  auto const place = [&]() { return r.coin() ? there + r.below(200) * 16U : pool + 8U * (r.below(8000) + 1U); };
  for (auto k = 0; k != 60; ++k) {
    auto* const at = place();
    auto const here = reinterpret_cast<std::intptr_t>(at);
    // +-2^i, +-(2^i + 2^j), or anything
    auto d = std::intptr_t{1} << r.below(47);
    if (r.chance(1, 3)) d += std::intptr_t{1} << r.below(47);
    if (r.chance(1, 4)) d = static_cast<std::intptr_t>(r.next() >> (17U + r.below(40)));
    d += static_cast<std::intptr_t>(r.range(-2, 2)) * static_cast<std::intptr_t>(sizeof(T));
    if (r.coin()) d = -d;
    auto addr = here + d;
    addr -= addr % static_cast<std::intptr_t>(alignof(T));
    if (addr < lowest || addr > highest) continue;
    auto* const q = reinterpret_cast<T*>(addr);
    distinct(static_cast<std::uint64_t>(addr - here));
    auto const judge = [&](P const& p, T* const t, char const* what) {
      VP_CHECK(p.get() == t && static_cast<T*>(p) == t && cista::ptr_cast(p) == t, "target", "%s at distance %lld: leads to %p, the plain pointer to %p", what,
               static_cast<long long>(d), static_cast<void const*>(p.get()), static_cast<void const*>(t));
      VP_CHECK(static_cast<bool>(p) && p != nullptr && !(p == nullptr) && p == t && !(p != t), "null", "%s at distance %lld: compares as if it was elsewhere", what, static_cast<long long>(d));
      ev("distances_judged");
    };
    auto* const p = new (at) P{q};
    judge(*p, q, "constructed");
    auto* const at2 = place();
    if (std::abs(at2 - at) < 16) continue;
    auto* const c = new (at2) P{*p};
    judge(*c, q, "copied");
    VP_CHECK(*p == *c && !(*p < *c) && !(*p > *c), "compare", "a copy compares unequal at distance %lld", static_cast<long long>(d));
    auto const n = static_cast<std::ptrdiff_t>(r.range(-3, 3));
    auto const moved = addr + n * static_cast<std::intptr_t>(sizeof(T));
    if (moved >= lowest && moved <= highest) {
      if (r.coin()) *c = *c + n; else *c = *c - (-n);
      judge(*c, reinterpret_cast<T*>(moved), "advanced");
      VP_CHECK((*p == *c) == (n == 0) && (*p < *c) == (n > 0), "compare", "order after advancing at distance %lld", static_cast<long long>(d));
    }
    *c = nullptr;
    VP_CHECK(*c == nullptr && c->get() == nullptr && !static_cast<bool>(*c), "null", "null assignment");
    *c = std::move(*p);
    judge(*c, q, "moved");
    cista::offset_ptr<T const> const cc{*c};
    VP_CHECK(cc.get() == q, "target", "const pointer at distance %lld", static_cast<long long>(d));
    cista::offset_ptr<void> const v{static_cast<void*>(q)};
    VP_CHECK(v.get() == static_cast<void*>(q) && static_cast<bool>(v) && !(v == nullptr), "target", "void pointer at distance %lld", static_cast<long long>(d));
    p->~P();
    c->~P();
  }
  ::munmap(there, 4096U);
}

// Nodes that point to themselves, to each other and into each other.
struct node {
  cista::offset_ptr<node> self, next, prev;
  cista::offset_ptr<node const> c;
  cista::offset_ptr<void> v;
  cista::offset_ptr<cista::offset_ptr<node>> to_field;
  std::uint64_t id{};
};
struct twin { int self{-1}, next{-1}, prev{-1}, c{-1}, v{-1}, field_of{-1}; int field{0}; };

void relocation(rng& r) {
  auto const n = 1U + static_cast<unsigned>(r.below(20));
  auto const bytes = n * sizeof(node);
  std::unique_ptr<char[]> from{new char[bytes + 64U]};
  auto* at = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(from.get()) + 7U) & ~std::uintptr_t{7U});
  auto* ns = reinterpret_cast<node*>(at);
  std::vector<twin> ts(n);
  for (auto i = 0U; i != n; ++i) { new (ns + i) node; ns[i].id = i; }
  auto const pick = [&]() { return r.chance(1, 6) ? -1 : static_cast<int>(r.below(n)); };
  auto const ptr = [&](node* base_, int const i) { return i == -1 ? nullptr : base_ + i; };
  auto const judge = [&](node* b, char const* what) {
    for (auto i = 0U; i != n; ++i) {
      auto const& t = ts[i];
      auto const& x = b[i];
      VP_CHECK(x.self.get() == ptr(b, t.self) && x.next.get() == ptr(b, t.next) && x.prev.get() == ptr(b, t.prev), "relocated", "%s: a pointer of node %u leads elsewhere", what, i);
      VP_CHECK(x.c.get() == ptr(b, t.c) && x.v.get() == ptr(b, t.v), "relocated", "%s: a const or void pointer of node %u leads elsewhere", what, i);
      auto* const want = t.field_of == -1 ? nullptr : t.field == 0 ? &b[t.field_of].self : t.field == 1 ? &b[t.field_of].next : &b[t.field_of].prev;
      VP_CHECK(x.to_field.get() == want, "relocated", "%s: the pointer to a pointer of node %u leads elsewhere", what, i);
      if (want != nullptr) {
        auto const inner = t.field == 0 ? ts[t.field_of].self : t.field == 1 ? ts[t.field_of].next : ts[t.field_of].prev;
        VP_CHECK((*x.to_field).get() == ptr(b, inner), "relocated", "%s: two steps from node %u lead elsewhere", what, i);
      }
      VP_CHECK((x.self == nullptr) == (t.self == -1) && static_cast<bool>(x.v) == (t.v != -1), "relocated", "%s: null-ness of node %u", what, i);
      if (t.self == static_cast<int>(i)) ev("self_pointers");
      if (t.field_of == static_cast<int>(i)) ev("pointers_into_self");
    }
  };
  for (auto k = 10U + r.below(60); k != 0U; --k) {
    auto const i = r.below(n);
    auto const j = pick();
    auto& x = ns[i];
    auto& t = ts[i];
    op("%u->%d", static_cast<unsigned>(i), j);
    switch (r.below(9)) {
      case 0: x.self = &x; t.self = static_cast<int>(i); break;
      case 1: x.next = ptr(ns, j); t.next = j; break;
      case 2: x.prev = ptr(ns, j); t.prev = j; break;
      case 3: x.c = ptr(ns, j); t.c = j; break;
      case 4: x.v = ptr(ns, j); t.v = j; break;
      case 5: {
        t.field_of = j;
        t.field = static_cast<int>(r.below(3));
        if (j == -1) x.to_field = nullptr;
        else x.to_field = t.field == 0 ? &ns[j].self : t.field == 1 ? &ns[j].next : &ns[j].prev;
        break;
      }
      case 6: x.next = x.self; t.next = t.self; break;
      case 7: if (j != -1) { x.prev = ns[j].next; t.prev = ts[j].next; } break;
      default: if (j != -1) { x.self = std::move(ns[j].self); t.self = ts[j].self; } break;
    }
    // a pointer to the very pointer itself
    if (r.chance(1, 10)) {
      cista::offset_ptr<void> me;
      me = &me;
      VP_CHECK(me.get() == &me && me != nullptr && static_cast<bool>(me), "self", "a pointer to itself is taken for null or leads elsewhere");
      cista::offset_ptr<void> const you{me};
      VP_CHECK(you.get() == &me, "self", "the copy of a pointer to itself does not lead to the original");
      struct ring { cista::offset_ptr<ring> r; } a;
      a.r = &a;
      VP_CHECK(a.r.get() == &a && &*a.r->r->r == &a, "self", "a ring of one does not close");
      ev("self_pointers");
    }
    if (r.chance(1, 5)) judge(ns, "in place");
  }
  judge(ns, "in place");
  // together with its targets, bytewise, to any other place
  for (auto k = 0; k != 3; ++k) {
    auto const shift = r.below(8) * 8U;
    std::unique_ptr<char[]> to{new char[bytes + 128U]};
    auto* dst = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(to.get()) + 7U) & ~std::uintptr_t{7U}) + shift;
    std::memcpy(dst, ns, bytes);
    std::memset(static_cast<void*>(ns), 0x5a, bytes);
    judge(reinterpret_cast<node*>(dst), "relocated");
    from = std::move(to);
    ns = reinterpret_cast<node*>(dst);
    ev("relocations");
  }
  distinct(fnv(ns, bytes));
}

// Collections of relative pointers move their elements around.
void collections(rng& r) {
  using P = cista::offset::ptr<rec>;
  std::vector<rec> targets(64);
  cista::offset::vector<P> v;
  std::vector<rec*> ref;
  cista::offset::hash_map<std::uint32_t, P> m;
  std::map<std::uint32_t, rec*> mref;
  auto const any = [&]() { return r.chance(1, 8) ? nullptr : &targets[r.below(64)]; };
  for (auto n = 20U + r.below(60); n != 0U; --n) {
    auto* t = any();
    switch (r.below(12)) {
      case 0: case 1: case 2: v.push_back(P{t}); ref.push_back(t); op("push"); break;
      case 3: v.emplace_back(t); ref.push_back(t); op("emplace"); break;
      case 4: if (!ref.empty()) { auto const i = r.below(ref.size()); v.erase(v.begin() + static_cast<long>(i)); ref.erase(ref.begin() + static_cast<long>(i)); op("erase"); } break;
      case 5: { auto const i = r.below(ref.size() + 1U); v.insert(v.begin() + static_cast<long>(i), P{t}); ref.insert(ref.begin() + static_cast<long>(i), t); op("insert"); break; }
      case 6: { std::sort(v.begin(), v.end()); std::sort(ref.begin(), ref.end()); op("sort"); break; }
      case 7: { auto const k = r.below(40); v.resize(static_cast<unsigned>(k)); ref.resize(k); op("resize"); break; }
      case 8: { auto c = v; v.clear(); v = std::move(c); op("copy and move"); break; }
      case 9: if (!ref.empty()) { v.push_back(v[0]); ref.push_back(ref[0]); op("push own"); } break;
      case 10: { auto const k = static_cast<std::uint32_t>(r.below(200)); m[k] = t; mref[k] = t; op("map"); break; }
      default: { auto const k = static_cast<std::uint32_t>(r.below(200)); m.erase(k); mref.erase(k); op("unmap"); break; }
    }
    VP_CHECK(v.size() == ref.size(), "collection-size", "vector of pointers has %zu, expected %zu", static_cast<std::size_t>(v.size()), ref.size());
    for (std::size_t i = 0; i != ref.size(); ++i) VP_CHECK(v[static_cast<unsigned>(i)].get() == ref[i], "collection", "element %zu of a vector of pointers leads elsewhere", i);
    ev("elements_judged", ref.size());
    std::uint64_t h = 7U;
    for (auto* x : ref) h = mix(h, x == nullptr ? 99U : static_cast<std::uint64_t>(x - targets.data()));
    distinct(h);
  }
  VP_CHECK(m.size() == mref.size(), "collection-size", "map of pointers");
  for (auto const& [k, x] : mref) VP_CHECK(m.at(k).get() == x, "collection", "value of key %u of a map of pointers leads elsewhere", k);
  // bases, members, elements of other objects
  derived d{};
  cista::offset_ptr<derived> pd{&d};
  cista::offset_ptr<base> pb{pd.get()};
  VP_CHECK(pb.get() == static_cast<base*>(&d) && pd->y == 0U, "base-pointer", "a pointer to a base leads elsewhere");
  std::string s = "text";
  cista::offset_ptr<char const> pc{s.c_str()};
  VP_CHECK(std::string{pc.get()} == s && pc[1] == 'e' && *(pc + 3) == 't', "char-pointer", "a pointer to characters");
  std::unique_ptr<cista::offset_ptr<rec>> far{new cista::offset_ptr<rec>{&targets[3]}};
  auto near = *far;
  far.reset();
  VP_CHECK(near.get() == &targets[3], "copy-outlives", "the copy of a pointer depends on the original");
}

}  // namespace

VP_SUITE(pointer_histories, 10) {
  switch (r.below(6)) {
    case 0: histories<char>(r); break;
    case 1: histories<std::uint32_t>(r); break;
    case 2: histories<std::uint64_t>(r); break;
    case 3: histories<cista::offset_ptr<std::uint32_t>>(r); break;
    case 4: histories<void*>(r); break;
    default: histories<rec>(r); break;
  }
}
VP_SUITE(all_distances, 3) { if (r.coin()) distances<char>(r); else if (r.coin()) distances<std::uint64_t>(r); else distances<rec>(r); }
VP_SUITE(relocations, 5) { relocation(r); }
VP_SUITE(pointer_collections, 5) { collections(r); }

int main(int argc, char** argv) { return driver_main(argc, argv); }
