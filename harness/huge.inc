// (included with data: cista::raw or cista::offset)
struct holder {
  auto cista_members() { return std::tie(early_, to_string_, a_, s_, names_, b_, map_, u_, late_, end_); }
  data::ptr<std::uint64_t> early_{nullptr};  // points beyond everything
  data::ptr<data::string> to_string_{nullptr};
  data::string a_;  // > 2 GB
  data::string s_;
  data::indexed_vector<data::string> names_;
  data::string b_;  // > 2 GB
  data::hash_map<std::uint32_t, data::string> map_;
  data::unique_ptr<std::uint64_t> u_;
  data::ptr<data::string> late_{nullptr};
  std::uint32_t end_{0U};
};
template <cista::mode M>
void with(rng& r) {
  auto const tag = r.next();
  std::size_t const na = (2300ULL << 20U) + r.below(1000), nb = (2100ULL << 20U) + r.below(1000);
  auto const mark = [&](std::size_t const i) { return static_cast<std::uint8_t>(1U + mix(tag, i) % 255U); };
  auto const marks = [](std::size_t const n) {
    return std::vector<std::size_t>{0U, 1U, 4097U, n / 3U, (1ULL << 31U) - 1U, 1ULL << 31U, (1ULL << 31U) + 1U, n - 2U, n - 1U};
  };
  lazy image;
  {
    lazy ma, mb;
    auto h = std::make_unique<holder>();
    auto const lend = [&](data::string& v, lazy& m, std::size_t const n, std::uint64_t const t) {
      for (auto const i : marks(n)) m.p_[i] = mark(i + t);
      v.set_non_owning(reinterpret_cast<char const*>(m.p_), static_cast<std::uint32_t>(n));
    };
    lend(h->a_, ma, na, 0U);
    lend(h->b_, mb, nb, 7U);
    h->s_ = std::string{"between the large ones, not short at all"};
    for (auto k = 0U; k != 40U; ++k) h->names_.emplace_back(std::string(k, 'n'));
    for (auto k = 0U; k != 300U; ++k) h->map_[k * 11U] = data::string{std::string(k % 50U, 'm')};
    h->u_ = data::make_unique<std::uint64_t>(tag);
    h->early_ = h->u_.get();
    h->to_string_ = &h->names_[33U];
    h->late_ = &h->names_[7U];
    h->end_ = 4711U;
    op("%zu + %zu bytes", na, nb);
    cista::buf<lazy> target;
    cista::serialize<M>(target, *h);
    image.n_ = target.buf_.n_;
    std::swap(image.p_, target.buf_.p_);
    VP_CHECK(reinterpret_cast<std::uint8_t const*>(h->a_.data()) == ma.p_ && h->a_.size() == na && h->early_ == h->u_.get(), "source-changed", "serializing changed its source");
  }
  VP_CHECK(image.n_ > na + nb && image.n_ < na + nb + 100000U, "image-size", "an image of %zu bytes for %zu bytes of content", image.n_, na + nb);
  auto const judge = [&](holder const* p, char const* how) {
    auto const in = [&](void const* x) { return x >= image.p_ && x < image.p_ + image.n_; };
    VP_CHECK(in(p) && p->a_.size() == na && p->b_.size() == nb && in(p->a_.data()) && in(p->a_.data() + na - 1U) && in(p->b_.data()) && in(p->b_.data() + nb - 1U), "value-differs", "%s: the large strings", how);
    for (auto const i : marks(na)) VP_CHECK(static_cast<std::uint8_t>(p->a_.data()[i]) == mark(i), "value-differs", "%s: byte %zu of the first one", how, i);
    for (auto const i : marks(nb)) VP_CHECK(static_cast<std::uint8_t>(p->b_.data()[i]) == mark(i + 7U), "value-differs", "%s: byte %zu of the second one", how, i);
    VP_CHECK(p->a_.data()[77U] == 0 && p->b_.data()[nb - 77U] == 0, "value-differs", "%s: a byte that was zero", how);
    VP_CHECK(p->s_ == "between the large ones, not short at all" && p->end_ == 4711U, "value-differs", "%s: the small members", how);
    VP_CHECK(p->names_.size() == 40U && p->map_.size() == 300U, "value-differs", "%s: sizes", how);
    for (auto k = 0U; k != 40U; ++k) VP_CHECK(p->names_[k].view() == std::string(k, 'n'), "value-differs", "%s: name %u", how, k);
    for (auto k = 0U; k != 300U; ++k) {
      auto const it = p->map_.find(k * 11U);
      VP_CHECK(it != p->map_.end() && it->second.view() == std::string(k % 50U, 'm'), "value-differs", "%s: entry %u", how, k);
    }
    VP_CHECK(p->u_.get() != nullptr && *p->u_ == tag, "value-differs", "%s: owned value", how);
    VP_CHECK(static_cast<std::uint64_t const*>(p->early_) == p->u_.get() && static_cast<data::string const*>(p->to_string_) == &p->names_[33U] && static_cast<data::string const*>(p->late_) == &p->names_[7U], "pointer-differs", "%s: where the pointers point", how);
    ev(how);
  };
  try {
    judge(cista::deserialize<holder, M>(image.p_, image.p_ + image.n_), "huge_read");
  } catch (cista::cista_exception const& e) {
    VP_CHECK(false, "valid-rejected", "an image of %zu bytes was rejected: %s", image.n_, e.what());
  }
  // one bit in the last bytes is not what was written
  // (a pointer layout image has been changed by reading it)
  if constexpr ((M & cista::mode::WITH_INTEGRITY) == cista::mode::WITH_INTEGRITY && !std::is_pointer_v<data::ptr<int>>) {
    auto const at = image.n_ - 1U - r.below(40);
    image.p_[at] ^= 0x20U;
    auto refused = false;
    try { (void)cista::deserialize<holder, M>(image.p_, image.p_ + image.n_); } catch (cista::cista_exception const&) { refused = true; }
    VP_CHECK(refused, "corruption-accepted", "a bit changed at %zu of %zu was not noticed", at, image.n_);
    ev("huge_corruption_refused");
  }
  distinct(mix(tag, image.n_));
}
inline void run(rng& r) {
  if (st().case_no % 4U < 2U) with<cista::mode::NONE>(r); else with<cista::mode::WITH_VERSION | cista::mode::WITH_INTEGRITY>(r);
}
