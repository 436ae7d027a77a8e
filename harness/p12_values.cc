// P12: optional and owning pointer against std::optional / an ownership model.
#include <memory>
#include <optional>
#include "elems.h"
using namespace vp;
namespace cr = cista::raw;
namespace co = cista::offset;

namespace {
template <typename T>
struct opt_test {
  using O = cista::optional<T>;
  using E = elem<T>;
  using M = std::optional<typename E::model>;
  static constexpr std::size_t N = 3;
  static void check(O const& o, M const& m, char const* w) {
    VP_CHECK(o.has_value() == m.has_value(), "has_value", "%s: has_value %d, model %d", w, o.has_value(), m.has_value());
    VP_CHECK(static_cast<bool>(o) == m.has_value(), "bool", "%s", w);
    auto& mut = const_cast<O&>(o);
    if (m.has_value()) {
      VP_CHECK(E::eq(o.value(), *m), "value", "%s: value()", w);
      VP_CHECK(E::eq(*o, *m), "value", "%s: *", w);
      VP_CHECK(o.operator->() == &o.value() && mut.operator->() == &mut.value() && &*mut == &o.value(), "address", "%s", w);
      distinct(mix(3, E::h(*m)));
    } else {
      int n = 0;
      try { (void)o.value(); } catch (std::bad_optional_access const&) { ++n; }
      try { (void)mut.value(); } catch (std::bad_optional_access const&) { ++n; }
      VP_CHECK(n == 2, "no-throw", "%s: value() of an empty optional does not throw", w);
      distinct(3);
    }
  }
  static void run(rng& r) {
    if constexpr (std::is_same_v<T, tracked>) reset_life();
    {
      O o[N];
      M m[N];
      auto const steps = 1 + r.below(40);
      for (std::size_t k = 0; k < steps; ++k) {
        auto const i = r.below(N), j = r.below(N);
        auto const c = r.below(13);
        op("op%d %d %d", (int)c, (int)i, (int)j);
        switch (c) {
          case 0: { auto const v = E::gen(r); o[i] = E::make(v); m[i] = v; ev("opt_assign_value"); break; }
          case 1: { auto const v = E::gen(r); auto e = E::make(v); o[i] = e; m[i] = v; break; }
          case 2: o[i] = o[j]; m[i] = m[j]; ev("opt_copy_assign"); break;
          case 3: o[i] = static_cast<O const&>(o[j]); m[i] = m[j]; break;
          case 4:
            o[i] = std::move(o[j]);
            ev("opt_move_assign");
            m[i] = m[j];
            if (i != j && m[j]) {  // moved-from value is unspecified; give it a known one
              VP_CHECK(o[j].has_value(), "moved-from", "moved-from optional loses its engagement");
              auto const v = E::gen(r); o[j] = E::make(v); m[j] = v;
            }
            break;
          case 5: o[i] = O{}; m[i].reset(); ev("opt_empty"); break;
          case 6: o[i] = O{std::nullopt}; m[i].reset(); break;
          case 7: { O t{o[i]}; check(t, m[i], "copy of an lvalue"); ev("opt_copy_ctor"); break; }
          case 8: { O const t{static_cast<O const&>(o[i])}; check(t, m[i], "copy of a const lvalue"); break; }
          case 9: { O t{O{o[i]}}; check(t, m[i], "moved copy"); break; }
          case 10: { auto const v = E::gen(r); O t{E::make(v)}; check(t, M{v}, "from value"); break; }
          case 11: if (m[i]) { auto const v = E::gen(r); *o[i] = E::make(v); m[i] = v; ev("opt_write"); } break;
          default: { std::swap(o[i], o[j]); std::swap(m[i], m[j]); break; }
        }
        for (std::size_t x = 0; x < N; ++x) check(o[x], m[x], "after op");
      }
      if constexpr (std::is_same_v<T, tracked>) {
        std::size_t n = 0;
        for (auto& x : m) n += x.has_value();
        check_life(n, "optional");
      }
    }
    if constexpr (std::is_same_v<T, tracked>) check_life(0, "optional end");
  }
};

template <typename P>
void uptr_test(rng& r) {
  reset_life();
  {
    static constexpr std::size_t N = 3;
    std::unique_ptr<tracked> foreign[N];  // targets of non-owning pointers
    P p[N];
    tracked* m[N]{};
    bool own[N]{};
    int val[N]{};
    auto const steps = 1 + r.below(40);
    for (std::size_t k = 0; k < steps; ++k) {
      auto const i = r.below(N), j = r.below(N);
      auto const c = r.below(10);
      op("op%d %d %d", (int)c, (int)i, (int)j);
      switch (c) {
        case 0: { auto* t = new tracked{(int)k}; p[i] = P{t}; m[i] = t; own[i] = true; val[i] = (int)k; ev("uptr_own"); break; }
        case 1: { foreign[i] = std::make_unique<tracked>((int)k + 1000);
                  for (std::size_t x = 0; x < N; ++x) if (m[x] && !own[x]) { p[x] = nullptr; m[x] = nullptr; }
                  p[i] = P{foreign[i].get(), false}; m[i] = foreign[i].get(); own[i] = false; val[i] = (int)k + 1000; ev("uptr_non_own"); break; }
        case 2: case 3: p[i] = std::move(p[j]); ev("uptr_move_assign");
                if (i != j) { m[i] = m[j]; own[i] = own[j]; val[i] = val[j]; m[j] = nullptr; own[j] = false; } break;
        case 4: { P t{std::move(p[i])}; VP_CHECK(t.get() == m[i], "move", "move ctor"); VP_CHECK(p[i] == nullptr, "moved-from", "moved-from pointer still refers to the object"); p[i] = std::move(t); break; }
        case 5: p[i].reset(); m[i] = nullptr; own[i] = false; ev("uptr_reset"); break;
        case 6: p[i] = nullptr; m[i] = nullptr; own[i] = false; break;
        case 7: { using std::swap; swap(p[i], p[j]); std::swap(m[i], m[j]); std::swap(own[i], own[j]); std::swap(val[i], val[j]); break; }
        case 8: if (m[i]) { p[i]->v_ = (int)k; val[i] = (int)k; for (std::size_t x = 0; x < N; ++x) if (m[x] == m[i]) val[x] = (int)k; } break;
        default: { P t{nullptr}; VP_CHECK(t == nullptr && !t && nullptr == t, "null", "null"); break; }
      }
      std::size_t live = 0;
      for (std::size_t x = 0; x < N; ++x) {
        live += (m[x] && own[x]) + (foreign[x] ? 1 : 0);
        P const& cp = p[x];
        VP_CHECK(cp.get() == m[x], "target", "get() refers to the wrong object");
        VP_CHECK(static_cast<bool>(cp) == (m[x] != nullptr) && (cp != nullptr) == (m[x] != nullptr) && (nullptr != cp) == (m[x] != nullptr) && (nullptr == cp) == !m[x] && (cp == nullptr) == !m[x], "null", "null tests");
        if (m[x]) VP_CHECK(cp->get() == val[x] && (*cp).get() == val[x] && (*p[x]).get() == val[x], "value", "value behind the pointer");
      }
      check_life(live, "unique_ptr");
      distinct(mix(live, (m[0] != nullptr) + 2 * (m[1] != nullptr) + 4 * own[0] + 8 * own[1] + 16 * own[2]));
    }
  }
  check_life(0, "unique_ptr end");
}
// chains: the pointer that is moved in is often owned by the object that is
// given up (pop: head = move(head->next_))
template <template <typename> typename P>
struct chain_node {
  explicit chain_node(int const v) : v_{v} {}
  tracked v_;
  P<chain_node> next_;
};

template <template <typename> typename P>
void chain_test(rng& r) {
  using node = chain_node<P>;
  reset_life();
  {
    P<node> head;
    std::vector<int> m;
    auto const steps = 1 + r.below(40);
    for (std::size_t k = 0; k < steps; ++k) {
      auto const c = r.below(8);
      op("op%d n%zu", (int)c, m.size());
      auto const at = [&](std::size_t const i) {
        auto* p = &head;
        for (std::size_t x = 0; x < i; ++x) p = &(*p)->next_;
        return p;
      };
      switch (c) {
        case 0: case 1: case 2: {  // insert in front of position i
          auto const i = r.below(m.size() + 1);
          P<node> n{new node{(int)k}};
          auto* const p = at(i);
          n->next_ = std::move(*p);
          *p = std::move(n);
          m.insert(m.begin() + (std::ptrdiff_t)i, (int)k);
          ev("chain_insert");
          break;
        }
        case 3: case 4: case 5:  // remove position i
          if (!m.empty()) {
            auto const i = r.below(m.size());
            auto* const p = at(i);
            *p = std::move((*p)->next_);
            m.erase(m.begin() + (std::ptrdiff_t)i);
            ev("chain_remove");
          }
          break;
        case 6:  // only the rest behind position i remains
          if (!m.empty()) {
            auto const i = r.below(m.size());
            auto* const p = at(i);
            head = std::move((*p)->next_);
            m.erase(m.begin(), m.begin() + (std::ptrdiff_t)i + 1);
            ev("chain_skip");
          }
          break;
        default:  // cut off behind position i
          if (!m.empty()) {
            auto const i = r.below(m.size());
            *at(i) = nullptr;
            m.resize(i);
            ev("chain_cut");
          }
          break;
      }
      std::size_t i = 0;
      for (auto const* n = head.get(); n != nullptr; n = n->next_.get(), ++i) {
        VP_CHECK(i < m.size() && n->v_.get() == m[i], "value", "chain of owning pointers: element %zu", i);
      }
      VP_CHECK(i == m.size(), "value", "chain of owning pointers: length %zu instead of %zu", i, m.size());
      check_life(m.size(), "chain");
      distinct(mix(m.size(), (std::uint64_t)c));
    }
  }
  check_life(0, "chain end");
}
}  // namespace

VP_SUITE(chain_raw, 2) { chain_test<cr::unique_ptr>(r); }
VP_SUITE(chain_off, 2) { chain_test<co::unique_ptr>(r); }
VP_SUITE(optional_int, 2) { opt_test<int>::run(r); }
VP_SUITE(optional_tracked, 4) { opt_test<tracked>::run(r); }
VP_SUITE(optional_string, 3) { opt_test<co::string>::run(r); }
VP_SUITE(optional_vector, 2) { opt_test<cr::vector<int>>::run(r); }
VP_SUITE(unique_ptr_raw, 3) { uptr_test<cr::unique_ptr<tracked>>(r); }
VP_SUITE(unique_ptr_off, 3) { uptr_test<co::unique_ptr<tracked>>(r); }
VP_SUITE(make_unique_test, 1) {
  reset_life();
  {
    auto const n = (int)r.below(1000);
    auto a = cr::make_unique<tracked>(n);
    auto b = co::make_unique<tracked>(n + 1);
    VP_CHECK(a->get() == n && b->get() == n + 1, "value", "make_unique");
    distinct(n);
  }
  check_life(0, "make_unique");
}
VP_MAIN()
