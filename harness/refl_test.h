// P24: what reflection visits, against the addresses of the members.
#pragma once
#include "refl.h"

namespace vp {

struct visited {
  void const* at;
  std::size_t size;
};

// facts about one generated structure that the generator writes down
template <typename T>
struct listing {
  std::vector<visited> (*members)(T&);      // in order of declaration
  std::vector<std::size_t> (*indices)();    // what member_index answers for each (or empty)
  std::vector<char const*> names;           // given to CISTA_PRINTABLE
  std::string (*printed)(T&);               // what must be printed ("" if not printable)
  bool aggregate;
};

template <typename T>
struct refl_suite {
  static bool visit_equal(std::vector<visited> const& want, std::vector<visited> const& got) {
    if (want.size() != got.size()) return false;
    for (std::size_t i = 0; i != want.size(); ++i) if (want[i].at != got[i].at || want[i].size != got[i].size) return false;
    return true;
  }
  static std::string show(void const* base, std::vector<visited> const& v) {
    std::string o;
    for (auto const& x : v) o += std::to_string(static_cast<char const*>(x.at) - static_cast<char const*>(base)) + "/" + std::to_string(x.size) + " ";
    return o;
  }
  static void run(rng& r, listing<T> const& l) {
    auto p = std::make_unique<T>();
    T& t = *p;
    Q<T>::gen(r, t);
    auto const before = Q<T>::text(t);
    op("%.200s", before.c_str());
    distinct(fnv(before.data(), before.size()));
    auto const want = l.members(t);
    auto const judge = [&](char const* how, std::vector<visited> const& got) {
      VP_CHECK(visit_equal(want, got), "visit", "%s visits (offset/size) %s, declared are %s", how, show(&t, got).c_str(), show(&t, want).c_str());
      ev(how);
    };
    if (l.aggregate) {
      if constexpr (std::is_aggregate_v<T>) VP_CHECK(cista::arity<T>() == want.size(), "arity", "arity is %zu, %zu members are declared", cista::arity<T>(), want.size());
      ev("arity");
    }
    {
      std::vector<visited> got;
      cista::for_each_field(t, [&](auto&& m) { got.push_back({&m, sizeof(m)}); });
      judge("for_each_field", got);
    }
    {
      std::vector<visited> got;
      cista::for_each_field(static_cast<T const&>(t), [&](auto&& m) {
        static_assert(std::is_const_v<std::remove_reference_t<decltype(m)>> || !std::is_lvalue_reference_v<decltype(m)> || true);
        auto const& ref = static_cast<cista::decay_t<decltype(m)> const&>(m);
        got.push_back({&ref, sizeof(ref)});
      });
      judge("for_each_field_const", got);
    }
    {
      std::vector<visited> got;
      auto* ptr = &t;
      cista::for_each_field(ptr, [&](auto&& m) { got.push_back({&m, sizeof(m)}); });
      judge("for_each_field_pointer", got);
      T* null = nullptr;
      cista::for_each_field(null, [&](auto&&) { fail("visit-null", "members of nothing are visited"); });
    }
    {
      std::vector<visited> got;
      cista::for_each_ptr_field(t, [&](auto* m) { got.push_back({m, sizeof(*m)}); });
      judge("for_each_ptr_field", got);
    }
    {
      std::vector<visited> got;
      auto tup = cista::to_tuple(t);
      VP_CHECK(std::tuple_size_v<decltype(tup)> == want.size(), "tuple-size", "the tuple has %zu entries, %zu members are declared", std::tuple_size_v<decltype(tup)>, want.size());
      std::apply([&](auto&... m) { (got.push_back({&m, sizeof(m)}), ...); }, tup);
      judge("to_tuple", got);
    }
    {
      std::size_t n = 0U;
      cista::for_each_field<T>([&](auto&&) { ++n; });
      VP_CHECK(n == want.size(), "visit-default", "%zu members of a new object are visited, %zu are declared", n, want.size());
    }
    auto const indices = l.indices();
    for (std::size_t i = 0; i != indices.size(); ++i) VP_CHECK(indices[i] == i, "member-index", "member_index of member %zu is %zu", i, indices[i]);
    if (!indices.empty()) ev("member_index");
    VP_CHECK(Q<T>::text(t) == before, "visit-changes", "looking changed the object");
    // the visit gives access to the members themselves
    if (!want.empty()) {
      auto const k = r.below(want.size());
      std::size_t i = 0U;
      auto other = std::make_unique<T>();
      Q<T>::remake(r, t, *other);
      cista::for_each_field(t, [&](auto& m) { if (i++ == k) Q<std::decay_t<decltype(m)>>::change(r, m); });
      VP_CHECK(Q<T>::text(t) != before, "visit-writes", "writing to member %zu through the visit had no effect on the object", static_cast<std::size_t>(k));
      VP_CHECK(Q<T>::text(*other) == before, "visit-writes", "writing through the visit changed another object");
      ev("writes_through_visit");
    }
    auto const text = l.printed(t);
    if (!text.empty()) ev("printed");
  }
};

// The generated operators against the members, one by one.
template <typename T>
void compare_suite(rng& r) {
  auto a = std::make_unique<T>();
  auto b = std::make_unique<T>();
  auto c = std::make_unique<T>();
  Q<T>::gen(r, *a);
  auto const next = [&](T const& from, T& to) {
    if (r.chance(1, 4)) { Q<T>::gen(r, to); return; }
    Q<T>::remake(r, from, to);
    if (r.chance(2, 3)) Q<T>::change(r, to);
    if (r.chance(1, 4)) Q<T>::change(r, to);
  };
  next(*a, *b);
  next(*b, *c);
  auto const judge = [&](T const& x, T const& y) {
    auto const eq = Q<T>::text(x) == Q<T>::text(y), lt = Q<T>::less(x, y), gt = Q<T>::less(y, x);
    VP_CHECK((x == y) == eq, "compare-eq", "== is %d, members say %d", x == y, eq);
    VP_CHECK((x != y) == !eq, "compare-ne", "!= is %d, members say %d", x != y, !eq);
    VP_CHECK((x < y) == lt, "compare-lt", "< is %d, members say %d", x < y, lt);
    VP_CHECK((x > y) == gt, "compare-gt", "> is %d, members say %d", x > y, gt);
    VP_CHECK((x <= y) == !gt, "compare-le", "<= is %d, members say %d", x <= y, !gt);
    VP_CHECK((x >= y) == !lt, "compare-ge", ">= is %d, members say %d", x >= y, !lt);
    ev(eq ? "compared_equal" : lt ? "compared_less" : "compared_greater");
  };
  T const* all[3] = {a.get(), b.get(), c.get()};
  for (auto const* x : all) for (auto const* y : all) judge(*x, *y);
}

}  // namespace vp
