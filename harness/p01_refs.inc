// Included once per pointer flavour: NS is cista::raw or cista::offset.
namespace data = NS;

struct node {
  std::uint32_t x_{};
  data::ptr<node> next_{nullptr};
  std::uint32_t y_{};
  data::string name_;
};

struct holder {
  data::ptr<node> first_{nullptr};
  data::vector<data::ptr<node>> before_;
  data::ptr<void> any_{nullptr};
  data::vector<data::unique_ptr<node>> own_;
  data::vector<node> plain_;
  data::indexed_vector<node> idx_;
  cista::indexed<node> in_;
  node loose_;
  data::vector<data::ptr<std::uint32_t>> fields_;
  data::vector<data::ptr<node>> after_;
  data::ptr<node> last_{nullptr};
};

// where a pointer points: what (0 nothing, 1 an owned object, 2 an indexed element, 3 the indexed
// member) and which, or that it points to something a pointer cannot be stored to
struct where {
  int what{0};
  std::size_t i{0};
  int field{0};  // (of pointers to fields)
};

inline node* to(holder& h, where const& w) {
  switch (w.what) {
    case 1: return h.own_[static_cast<std::uint32_t>(w.i)].get();
    case 2: return &h.idx_[static_cast<std::uint32_t>(w.i)];
    case 3: return &h.in_;
    default: return nullptr;
  }
}

struct expected {
  std::vector<where> before, after, fields, own_next, plain_next, idx_next;
  where first, last, in_next, loose_next;
  std::vector<std::uint32_t> own_x, plain_x, idx_x;
  std::vector<std::string> own_n, plain_n, idx_n;
  std::uint32_t in_x{}, loose_x{};
  std::size_t outsiders{0}, insiders{0};
};

inline void fill(rng& r, node& n, std::uint32_t& x, std::string& name) {
  x = static_cast<std::uint32_t>(r.value());
  name = rnd_name(r);
  n.x_ = x;
  n.y_ = ~x;
  n.name_ = name;
}

template <typename P>
void expect(holder& h, P const& p, where const& w, char const* what, std::size_t const i) {
  auto const* const want = to(h, w);
  node const* const got = p;
  VP_CHECK(got == want, "reference", "%s %zu (to %d/%zu): points to %p instead of %p", what, i, w.what, w.i, static_cast<void const*>(got),
           static_cast<void const*>(want));
}

inline void expect_node(holder& h, node const& n, std::uint32_t const x, std::string const& name, where const& next, char const* what, std::size_t const i) {
  VP_CHECK(n.x_ == x && n.y_ == ~x && n.name_.view() == name, "value-differs", "%s %zu reads %u/%u/\"%s\"", what, i, n.x_, n.y_, std::string{n.name_.view()}.c_str());
  expect(h, n.next_, next, what, i);
}

inline void judge(holder& h, expected const& e, char const* how) {
  VP_CHECK(h.before_.size() == e.before.size() && h.after_.size() == e.after.size() && h.fields_.size() == e.fields.size() && h.own_.size() == e.own_x.size() &&
               h.plain_.size() == e.plain_x.size() && h.idx_.size() == e.idx_x.size(),
           "size", "%s", how);
  expect(h, h.first_, e.first, "first", 0);
  expect(h, h.last_, e.last, "last", 0);
  VP_CHECK(h.any_ == nullptr, "reference", "an untyped pointer reads back as something");
  for (std::size_t i = 0; i != e.before.size(); ++i) expect(h, h.before_[static_cast<std::uint32_t>(i)], e.before[i], "before", i);
  for (std::size_t i = 0; i != e.after.size(); ++i) expect(h, h.after_[static_cast<std::uint32_t>(i)], e.after[i], "after", i);
  for (std::size_t i = 0; i != e.own_x.size(); ++i) expect_node(h, *h.own_[static_cast<std::uint32_t>(i)], e.own_x[i], e.own_n[i], e.own_next[i], "owned", i);
  for (std::size_t i = 0; i != e.plain_x.size(); ++i) expect_node(h, h.plain_[static_cast<std::uint32_t>(i)], e.plain_x[i], e.plain_n[i], e.plain_next[i], "plain", i);
  for (std::size_t i = 0; i != e.idx_x.size(); ++i) expect_node(h, h.idx_[static_cast<std::uint32_t>(i)], e.idx_x[i], e.idx_n[i], e.idx_next[i], "indexed", i);
  VP_CHECK(h.in_.x_ == e.in_x && h.loose_.x_ == e.loose_x, "value-differs", "%s", how);
  expect(h, h.in_.next_, e.in_next, "member", 0);
  expect(h, h.loose_.next_, e.loose_next, "loose", 0);
  for (std::size_t i = 0; i != e.fields.size(); ++i) {
    auto const& w = e.fields[i];
    auto* const n = to(h, w);
    std::uint32_t const* const want = n == nullptr ? nullptr : w.field == 0 ? &n->x_ : &n->y_;
    std::uint32_t const* const got = h.fields_[static_cast<std::uint32_t>(i)];
    VP_CHECK(got == want, "reference", "pointer %zu to field %d of %d/%zu", i, w.field, w.what, w.i);
  }
  ev(how);
}

template <cista::mode M>
void with(rng& r) {
  node outside;
  std::vector<node> other(3);
  expected e;
  auto h = std::make_unique<holder>();
  for (auto n = r.below(5); n != 0U; --n) {
    h->own_.emplace_back(data::make_unique<node>());
    e.own_x.push_back(0);
    e.own_n.emplace_back();
    fill(r, *h->own_.back(), e.own_x.back(), e.own_n.back());
  }
  auto const some = [&](auto& v, auto& xs, auto& ns) {
    auto const n = r.below(6);
    if (r.coin()) v.reserve(static_cast<std::uint32_t>(n + r.below(4)));
    v.resize(static_cast<std::uint32_t>(n));
    xs.resize(n);
    ns.resize(n);
    for (std::size_t i = 0; i != n; ++i) fill(r, v[static_cast<std::uint32_t>(i)], xs[i], ns[i]);
  };
  some(h->plain_, e.plain_x, e.plain_n);
  some(h->idx_, e.idx_x, e.idx_n);
  std::string ignore;
  fill(r, h->in_, e.in_x, ignore);
  fill(r, h->loose_, e.loose_x, ignore);

  auto const pick = [&](where& w) -> node* {
    switch (r.below(9)) {
      case 0: return nullptr;
      case 1:
      case 2:
        if (!e.own_x.empty()) { w = {1, r.below(e.own_x.size()), 0}; break; }
        return nullptr;
      case 3:
      case 4:
        if (!e.idx_x.empty()) { w = {2, r.below(e.idx_x.size()), 0}; break; }
        return nullptr;
      case 5: w = {3, 0, 0}; break;
      case 6: ++e.outsiders; return r.coin() ? &outside : &other[r.below(3)];
      case 7:
        if (e.plain_x.empty()) return nullptr;
        ++e.outsiders;
        return &h->plain_[static_cast<std::uint32_t>(r.below(e.plain_x.size()))];
      default:
        ++e.outsiders;
        if (e.idx_x.empty() || r.coin()) return &h->loose_;
        return h->idx_.end();  // one past the last element is none of them
    }
    ++e.insiders;
    return to(*h, w);
  };
  h->first_ = pick(e.first);
  h->last_ = pick(e.last);
  if (r.coin()) h->any_ = r.coin() ? static_cast<void*>(&outside) : static_cast<void*>(&h->in_);
  auto const list = [&](auto& v, std::vector<where>& ws) {
    ws.resize(r.below(8));
    for (auto& w : ws) v.emplace_back(pick(w));
  };
  list(h->before_, e.before);
  list(h->after_, e.after);
  e.own_next.resize(e.own_x.size());
  e.plain_next.resize(e.plain_x.size());
  e.idx_next.resize(e.idx_x.size());
  for (std::size_t i = 0; i != e.own_x.size(); ++i) h->own_[static_cast<std::uint32_t>(i)]->next_ = pick(e.own_next[i]);
  for (std::size_t i = 0; i != e.plain_x.size(); ++i) h->plain_[static_cast<std::uint32_t>(i)].next_ = pick(e.plain_next[i]);
  for (std::size_t i = 0; i != e.idx_x.size(); ++i) h->idx_[static_cast<std::uint32_t>(i)].next_ = pick(e.idx_next[i]);
  h->in_.next_ = pick(e.in_next);
  h->loose_.next_ = pick(e.loose_next);
  for (auto n = r.below(6); n != 0U; --n) {
    // any part of an indexed element can be pointed to
    where w;
    w.field = static_cast<int>(r.below(2));
    auto* const p = pick(w);
    auto const storable = w.what == 2 || w.field == 0;
    std::uint32_t* f = p == nullptr || (w.what == 0 && p == h->idx_.end()) ? nullptr : w.field == 0 ? &p->x_ : &p->y_;
    if (!storable) w.what = 0;
    h->fields_.emplace_back(f);
    e.fields.push_back(w);
  }
  distinct(fnv(&e.insiders, sizeof(e.insiders), mix(e.outsiders, mix(e.own_x.size() * 64U + e.idx_x.size() * 8U + e.plain_x.size(), e.before.size() * 8U + e.after.size()))));
  op("%zu owned, %zu indexed, %zu plain; %zu pointers to them, %zu to something else", e.own_x.size(), e.idx_x.size(), e.plain_x.size(), e.insiders, e.outsiders);
  if (e.outsiders != 0U) ev("pointers_elsewhere");
  if (e.insiders != 0U) ev("pointers_inside");

  auto const b = to_image<M>(*h, r);
  h.reset();
  auto const forget_elsewhere = [&](char const* how, auto&& get) {
    image i{b};
    must_accept("valid-rejected", [&]() { judge(*get(i), e, how); });
  };
  forget_elsewhere("references_checked", [](image& i) { return cista::deserialize<holder, M>(i.begin(), i.end()); });
  forget_elsewhere("references_deep", [](image& i) { return cista::deserialize<holder, M | DEEP>(i.begin(), i.end()); });
  forget_elsewhere("references_unchecked", [](image& i) { return cista::unchecked_deserialize<holder, M>(i.begin(), i.end()); });
  image i{b};
  must_accept("valid-rejected", [&]() {
    auto* const p = cista::deserialize<holder, M>(i.begin(), i.end());
    auto const b2 = to_image<M>(*p, r);
    image i2{b2};
    judge(*cista::deserialize<holder, M>(i2.begin(), i2.end()), e, "references_second_generation");
  });
}

inline void run(rng& r) {
  switch (r.below(3)) {
    case 0: return with<NONE>(r);
    case 1: return with<VER | INTEG>(r);
    default: return with<INTEG>(r);
  }
}
