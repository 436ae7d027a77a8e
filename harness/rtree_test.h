// P18: the spatial index against a plain list of entries.
#pragma once
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <set>
#include "ser_test.h"
#include "cista/containers/rtree.h"

namespace vp {

// an entry's payload that has a layout of its own
struct place {
  friend bool operator==(place const& a, place const& b) { return a.id_ == b.id_ && a.tag_ == b.tag_; }
  std::uint32_t id_;
  std::uint16_t tag_;
};
inline std::uint64_t ident(std::uint64_t const x) { return x; }
inline std::uint64_t ident(place const& p) { return (std::uint64_t{p.tag_} << 32U) | p.id_; }
template <typename T>
void make(T& t, std::uint64_t const i) { t = static_cast<T>(i); }
inline void make(place& t, std::uint64_t const i) {
  std::memset(&t, 0, sizeof(t));
  t.id_ = static_cast<std::uint32_t>(i);
  t.tag_ = static_cast<std::uint16_t>(i * 7U);
}

template <typename Tree>
struct rtree_facts;
template <typename D, template <typename, typename...> typename V, std::uint32_t N, typename Num, std::uint32_t Max, typename S>
struct rtree_facts<cista::basic_rtree<D, V, N, Num, Max, S>> {
  using data_t = D;
  using num_t = Num;
  using size_type = S;
  static constexpr auto const dims = N;
  static constexpr auto const max_items = Max;
};

// One tree and the list of what it must hold.
template <typename Tree>
struct rtree_run {
  using facts = rtree_facts<Tree>;
  using data_t = typename facts::data_t;
  using num_t = typename facts::num_t;
  using coord_t = typename Tree::coord_t;
  using idx_t = typename Tree::node_idx_t;
  using kind = typename Tree::kind;
  static constexpr auto const N = facts::dims;

  struct entry {
    coord_t min_, max_;
    data_t data_;
  };
  using model = std::vector<entry>;

  explicit rtree_run(rng& r) : r_{r}, shape_{static_cast<unsigned>(r.below(6))}, span_{span(r)} {}

  static num_t span(rng& r) {
    switch (r.below(3)) {
      case 0: return static_cast<num_t>(4);
      case 1: return static_cast<num_t>(40);
      default: return static_cast<num_t>(100);
    }
  }

  // ---- coordinates: many that touch, some far away, some in order
  num_t number() {
    if constexpr (std::is_floating_point_v<num_t>) {
      switch (r_.below(8)) {
        case 0: return static_cast<num_t>(r_.range(-1000, 1000)) / static_cast<num_t>(64);
        case 1: return static_cast<num_t>(-0.0);
        default: return static_cast<num_t>(static_cast<std::int64_t>(r_.below(static_cast<std::uint64_t>(span_)))) - span_ / 2;
      }
    } else if constexpr (std::is_signed_v<num_t>) {
      return static_cast<num_t>(static_cast<std::int64_t>(r_.below(static_cast<std::uint64_t>(span_))) - static_cast<std::int64_t>(span_) / 2);
    } else {
      return static_cast<num_t>(r_.below(static_cast<std::uint64_t>(span_)));
    }
  }
  void rect(coord_t& lo, coord_t& hi) {
    auto const point = shape_ == 0U || (shape_ != 1U && r_.chance(1, 3));
    for (auto d = 0U; d != N; ++d) {
      auto a = number();
      auto b = point ? a : shape_ == 2U ? static_cast<num_t>(a + 1) : number();
      if (shape_ == 3U) {  // a diagonal, in order
        a = static_cast<num_t>(seq_ % 97U);
        b = static_cast<num_t>(a + 1);
      }
      if (shape_ == 4U && d == 0U) a = b = static_cast<num_t>(3);  // no extent in one direction
      lo[d] = std::min(a, b);
      hi[d] = std::max(a, b);
    }
    ++seq_;
  }
  static bool meets(entry const& e, coord_t const& lo, coord_t const& hi) {
    for (auto d = 0U; d != N; ++d) if (e.min_[d] > hi[d] || e.max_[d] < lo[d]) return false;
    return true;
  }
  static bool same(coord_t const& a, coord_t const& b) {
    for (auto d = 0U; d != N; ++d) if (!(a[d] == b[d])) return false;
    return true;
  }
  static bool encloses(coord_t const& lo, coord_t const& hi, coord_t const& l, coord_t const& h) {
    for (auto d = 0U; d != N; ++d) if (l[d] < lo[d] || h[d] > hi[d]) return false;
    return true;
  }
  static std::string text(coord_t const& c) {
    std::string o = "(";
    for (auto d = 0U; d != N; ++d) o += (d == 0U ? "" : " ") + std::to_string(c[d]);
    return o + ")";
  }

  // ---- the monitors
  static std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
  static std::string key(coord_t const& lo, coord_t const& hi, data_t const& d) {
    std::string o;
    for (auto i = 0U; i != N; ++i) { o += std::to_string(lo[i] == 0 ? num_t{0} : lo[i]) + "," + std::to_string(hi[i] == 0 ? num_t{0} : hi[i]) + ";"; }
    return o + std::to_string(ident(d));
  }
  void window(Tree const& t, model const& m, coord_t const& lo, coord_t const& hi) {
    std::vector<std::string> want, got;
    for (auto const& e : m) if (meets(e, lo, hi)) want.push_back(key(e.min_, e.max_, e.data_));
    t.search(lo, hi, [&](coord_t const& a, coord_t const& b, data_t const& d) {
      got.push_back(key(a, b, d));
      VP_CHECK(got.size() <= want.size(), "search-extra", "a search for %s-%s reports more than the %zu matching entries", text(lo).c_str(), text(hi).c_str(), want.size());
      return true;
    });
    VP_CHECK(sorted(want) == sorted(got), "search", "a search for %s-%s reports %zu entries, %zu match (or they differ)", text(lo).c_str(), text(hi).c_str(), got.size(), want.size());
    ev(want.empty() ? "searches_without_match" : want.size() == m.size() ? "searches_matching_all" : "searches_matching_some");
    if (want.size() > 1U && r_.coin()) {
      auto const stop = 1U + r_.below(want.size());
      std::vector<std::string> some;
      t.search(lo, hi, [&](coord_t const& a, coord_t const& b, data_t const& d) {
        some.push_back(key(a, b, d));
        VP_CHECK(some.size() <= stop, "search-stop", "the search went on after being stopped (%zu)", static_cast<std::size_t>(stop));
        return some.size() != stop;
      });
      VP_CHECK(some.size() == stop, "search-stop", "a search stopped after %zu entries reported %zu", static_cast<std::size_t>(stop), some.size());
      auto const w = sorted(want);
      auto const s = sorted(some);
      VP_CHECK(std::includes(w.begin(), w.end(), s.begin(), s.end()), "search-stop", "a stopped search reports entries that do not match, or twice");
      ev("searches_stopped");
    }
  }
  // every node is used once: in the tree or waiting for reuse
  void structure(Tree const& t, model const& m) {
    VP_CHECK(static_cast<std::size_t>(t.m_.count_) == m.size(), "count", "count is %zu, %zu entries are stored", static_cast<std::size_t>(t.m_.count_), m.size());
    std::vector<char> used(t.nodes_.size());
    auto const use = [&](idx_t const i, char const* what) {
      auto const n = static_cast<std::size_t>(cista::to_idx(i));
      VP_CHECK(n < used.size(), "node-index", "%s refers to node %zu of %zu", what, n, used.size());
      VP_CHECK(used[n] == 0, "node-shared", "node %zu is used twice (%s)", n, what);
      used[n] = 1;
    };
    std::size_t items = 0U;
    std::function<std::size_t(idx_t, coord_t const*, coord_t const*)> visit = [&](idx_t const i, coord_t const* lo, coord_t const* hi) -> std::size_t {
      use(i, "the tree");
      auto const& n = t.get_node(i);
      VP_CHECK(n.kind_ == kind::kLeaf || n.kind_ == kind::kBranch, "node-kind", "a node in the tree is neither leaf nor branch");
      VP_CHECK(n.count_ >= 1U && n.count_ <= facts::max_items, "node-count", "a node holds %u of %u", n.count_, facts::max_items);
      std::size_t height = 0U;
      for (auto k = 0U; k != n.count_; ++k) {
        auto const& q = n.rects_[k];
        if (lo != nullptr) VP_CHECK(encloses(*lo, *hi, q.min_, q.max_), "enclose", "%s-%s does not enclose %s-%s", text(*lo).c_str(), text(*hi).c_str(), text(q.min_).c_str(), text(q.max_).c_str());
        if (n.kind_ == kind::kLeaf) { ++items; continue; }
        auto const h = visit(n.children_[k], &q.min_, &q.max_);
        VP_CHECK(k == 0U || h == height, "balance", "leaves at different depths");
        height = h;
      }
      return height + 1U;
    };
    std::size_t height = 0U;
    if (t.m_.root_ != idx_t::invalid()) height = visit(t.m_.root_, &t.m_.rect_.min_, &t.m_.rect_.max_);
    VP_CHECK(items == m.size(), "items", "%zu entries in the tree, %zu were stored", items, m.size());
    VP_CHECK(static_cast<std::size_t>(t.m_.height_) == height, "height", "height is %zu, counted %zu", static_cast<std::size_t>(t.m_.height_), height);
    std::size_t free = 0U;
    for (auto f = t.m_.free_list_; f != idx_t::invalid();) {
      use(f, "the free list");
      ++free;
      auto const& n = t.get_node(f);
      f = n.kind_ == kind::kEndFreeList ? idx_t::invalid() : idx_t{static_cast<typename facts::size_type>(n.count_)};
    }
    for (auto i = std::size_t{0U}; i != used.size(); ++i) VP_CHECK(used[i] == 1, "node-lost", "node %zu of %zu is neither in the tree nor free", i, used.size());
    if (height > 1U) ev("trees_with_branches");
    if (height > 2U) ev("trees_of_three_levels");
    if (free > 1U) ev("several_free_nodes");
  }
  void judge(Tree const& t, model const& m, bool const thorough) {
    if (thorough || m.size() < 60U || r_.chance(1, 8)) structure(t, m);
    coord_t lo{}, hi{};
    rect(lo, hi);
    window(t, m, lo, hi);
    if (!m.empty()) {
      auto const& e = m[r_.below(m.size())];
      window(t, m, e.min_, e.max_);
      window(t, m, e.max_, e.max_);  // touches the corner
    }
    if (thorough) {
      for (auto d = 0U; d != N; ++d) { lo[d] = std::numeric_limits<num_t>::lowest(); hi[d] = std::numeric_limits<num_t>::max(); }
      window(t, m, lo, hi);
      std::uint64_t h = 0U;
      for (auto const& e : m) { auto const k = key(e.min_, e.max_, e.data_); h += fnv(k.data(), k.size()); }
      distinct(h);
    }
  }

  // ---- the operations
  void insert(Tree& t, model& m) {
    entry e{};
    rect(e.min_, e.max_);
    if (!m.empty() && r_.chance(1, 6)) { auto const& o = m[r_.below(m.size())]; e.min_ = o.min_; e.max_ = o.max_; ev("same_rectangle"); }
    make(e.data_, r_.chance(1, 8) && !m.empty() ? ident(m[r_.below(m.size())].data_) & 0xFFFFU : next_++ & 0xFFFFU);
    op("insert %s-%s %llu", text(e.min_).c_str(), text(e.max_).c_str(), (unsigned long long)ident(e.data_));
    t.insert(e.min_, e.max_, e.data_);
    { monitor_scope ms; m.push_back(e); }
    ev("insertions");
  }
  void remove_from(model& m, std::size_t const i) { monitor_scope ms; m.erase(m.begin() + static_cast<long>(i)); }
  void erase(Tree& t, model& m) {
    if (m.empty() || r_.chance(1, 8)) {  // something that is not there
      entry e{};
      rect(e.min_, e.max_);
      if (!m.empty() && r_.coin()) { auto const& o = m[r_.below(m.size())]; e.min_ = o.min_; e.max_ = o.max_; }
      make(e.data_, 0x1FFFFU);
      if (ident(e.data_) < 0x1FFFFU) return;
      op("delete absent %s-%s", text(e.min_).c_str(), text(e.max_).c_str());
      t.delete_element(e.min_, e.max_, e.data_);
      ev("deletions_of_absent");
      return;
    }
    auto const i = r_.below(m.size());
    auto const e = m[i];
    op("delete %s-%s %llu", text(e.min_).c_str(), text(e.max_).c_str(), (unsigned long long)ident(e.data_));
    t.delete_element(e.min_, e.max_, e.data_);
    remove_from(m, i);  // (equal entries cannot be told apart)
    ev("deletions");
  }
  void erase_if(Tree& t, model& m) {
    coord_t lo{}, hi{};
    rect(lo, hi);
    if (!m.empty() && r_.coin()) { auto const& o = m[r_.below(m.size())]; lo = o.min_; hi = o.max_; }
    auto const mod = 1U + r_.below(4);
    op("delete if %s-%s %u", text(lo).c_str(), text(hi).c_str(), static_cast<unsigned>(mod));
    std::string took;
    auto const size = t.m_.count_;
    t.delete_element_with_function(lo, hi, [&](coord_t const& a, coord_t const& b, data_t const& d) {
      VP_CHECK(took.empty(), "delete-two", "asked for another entry after one had been chosen");
      if (ident(d) % mod != 0U) return false;
      took = key(a, b, d);
      return true;
    });
    if (took.empty()) {
      // an entry that encloses the rectangle is always asked about
      for (auto const& e : m) VP_CHECK(!(encloses(e.min_, e.max_, lo, hi) && ident(e.data_) % mod == 0U), "delete-missed", "%s-%s is there but was not deleted", text(e.min_).c_str(), text(e.max_).c_str());
      VP_CHECK(t.m_.count_ == size, "delete-count", "nothing was chosen but the count changed");
      ev("conditional_deletions_without_match");
      return;
    }
    for (auto i = std::size_t{0U}; i != m.size(); ++i) {
      if (key(m[i].min_, m[i].max_, m[i].data_) == took) { remove_from(m, i); ev("conditional_deletions"); return; }
    }
    fail("delete-unknown", "an entry was offered for deletion that was never stored: %s", took.c_str());
  }
  void step(Tree& t, model& m, unsigned const grow) {
    auto const w = r_.below(100);
    if (w < grow) insert(t, m);
    else if (w < grow + (100U - grow) / 2U + 8U) erase(t, m);
    else erase_if(t, m);
  }
  void drain(Tree& t, model& m) {
    op("delete all %zu", m.size());
    while (!m.empty()) {
      auto const i = r_.below(m.size());
      auto const e = m[i];
      t.delete_element(e.min_, e.max_, e.data_);
      remove_from(m, i);
      if (r_.chance(1, 16)) structure(t, m);
    }
    structure(t, m);
    ev("emptied");
  }

  rng& r_;
  unsigned shape_;
  num_t span_;
  std::uint64_t seq_{0U};
  std::uint64_t next_{0U};
};

template <typename Tree>
struct rtree_suite {
  using run_t = rtree_run<Tree>;
  static void run(rng& r) {
    run_t x{r};
    typename run_t::model m;
    auto t = std::make_unique<Tree>();
    x.structure(*t, m);
    std::vector<std::unique_ptr<image>> images;  // outlive the trees in them
    Tree* in = t.get();
    auto const phases = 1U + r.below(4);
    for (auto p = 0U; p != phases; ++p) {
      auto const grow = static_cast<unsigned>(p == 0U ? 80U : r.pick(std::vector<unsigned>{90U, 60U, 45U, 20U}));
      auto const n = r.size(p == 0U ? 500U : 200U);
      for (auto k = std::size_t{0U}; k != n; ++k) {
        x.step(*in, m, grow);
        if (k < 20U || r.chance(1, 6)) x.judge(*in, m, r.chance(1, 12));
      }
      x.judge(*in, m, true);
      switch (r.below(6)) {
        case 0: {
          op("copy");
          auto c = std::make_unique<Tree>(*in);
          if (r.coin()) { *c = *in; ev("copy_assigned"); }
          auto cm = m;
          for (auto k = r.below(60); k != 0U; --k) x.step(*c, cm, 50U);
          x.judge(*c, cm, true);
          x.judge(*in, m, true);  // unchanged by what happened to the copy
          ev("copies");
          if (r.coin()) { t = std::move(c); in = t.get(); { monitor_scope ms; m = cm; } }
          break;
        }
        case 1: {
          op("move");
          auto c = std::make_unique<Tree>(std::move(*in));
          t = std::move(c);
          in = t.get();
          ev("moves");
          break;
        }
        case 2: case 3: {
          op("write and read back");
          bytes b = cista::serialize<INTEG>(*in);
          {
            monitor_scope ms;
            images.push_back(std::make_unique<image>(b));
          }
          auto& i = *images.back();
          must_accept("valid-rejected", [&]() { in = cista::deserialize<Tree, INTEG>(i.begin(), i.end()); });
          t.reset();
          ev("read_back");
          break;
        }
        case 4: x.drain(*in, m); break;
        default: break;
      }
      x.judge(*in, m, true);
    }
  }
};

}  // namespace vp
