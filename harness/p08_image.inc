// the comparison itself
template <typename T>
struct in_image {
  template <cista::mode Mode>
  static void with(rng& r) {
    auto const depth = static_cast<int>(r.below(4));
    auto const seed = r.next();
    auto twin = std::make_unique<T>();
    { rng g{seed}; gen(g, *twin, depth); }
    bytes img;
    {
      auto src = std::make_unique<T>();
      rng g{seed};
      gen(g, *src, depth);
      img = to_image<Mode>(*src, r, false);
    }
    op("depth %d: %.200s", depth, render(*twin).c_str());
    auto i = std::make_unique<image>(img);
    T* d = nullptr;
    must_accept("valid-rejected", [&]() { d = cista::deserialize<T, Mode>(i->begin(), i->end()); });

    std::vector<bool> decisions;
    std::vector<std::pair<std::unique_ptr<kept_base>, std::string>> kept;
    auto before = render(*twin);
    auto const start = render(*d);
    VP_CHECK(before == start, "start-differs", "the deserialized object differs from its twin: %s", diff_at(before, start).c_str());
    auto const steps = 1U + r.below(r.chance(1, 4) ? 60U : 16U);
    for (auto s = 0U; s != steps; ++s) {
      auto const x = r.next();
      decisions.clear();
      mctx a, b;
      a.decisions = b.decisions = &decisions;
      a.leader = true;
      b.leader = false;
      b.image = true;
      a.kept = b.kept = &kept;
      { rng g{x}; mutate(a, *twin, g); }
      op("%.120s", a.trace.c_str());
      { rng g{x}; mutate(b, *d, g); }
      VP_CHECK(a.trace == b.trace, "answers-differ", "the operation answered differently: %s", diff_at(a.trace, b.trace).c_str());
      auto const ra = render(*twin), rb = render(*d);
      VP_CHECK(ra == rb, "contents-differ", "after the operation the deserialized object differs: %s", diff_at(ra, rb).c_str());
      if (ra != before) ev("changing_operations");
      before = ra;
      ev("operations_on_image_objects");
      distinct(fnv(ra.data(), ra.size(), fnv(a.trace.data(), a.trace.size())));
    }
    // what it is now can be written and read again (a variant without a value can not be written)
    if (r.coin() && before.find("valueless ") == std::string::npos) {
      auto const again = to_image<Mode>(*d, r, false);
      image i2{again};
      must_accept("valid-rejected", [&]() {
        auto const got = render(*cista::deserialize<T, Mode>(i2.begin(), i2.end()));
        VP_CHECK(got == before, "second-generation", "written again after the changes the value differs: %s", diff_at(before, got).c_str());
      });
      ev("written_again");
    }
    // a whole copy, moved-to object
    if constexpr (dc<T>::value && std::is_copy_constructible_v<T>) {
      if (r.coin()) {
        auto k = std::make_unique<kept_copy<T>>(*d);
        auto t = k->text();
        VP_CHECK(t == before, "copy-differs", "a copy of the root differs: %s", diff_at(before, t).c_str());
        kept.emplace_back(std::move(k), std::move(t));
        ev("root_copies");
      }
    }
    switch (r.below(3)) {
      case 0: op("destroy root"); std::destroy_at(d); ev("destroyed_in_image"); break;
      case 1: {
        if constexpr (may_move<T>::value) {
          op("move root out");
          T t{std::move(*d)};
          auto const now = render(t);
          VP_CHECK(now == before, "moved-differs", "moved out of the image the value differs: %s", diff_at(before, now).c_str());
          ev("moved_out");
        }
        break;
      }
      default: break;
    }
    i.reset();  // overwritten and freed
    for (auto& [k, t] : kept) {
      auto const now = k->text();
      VP_CHECK(now == t, "copy-not-independent", "a copy changed when the image went away: %s", diff_at(t, now).c_str());
      std::string trace;
      k->mutate(rng{r.next()}, trace);
      ev("copies_outliving_the_image");
    }
    auto const fin = render(*twin);
    VP_CHECK(fin == before, "twin-changed", "the independent twin changed: %s", diff_at(before, fin).c_str());
  }
  static void run(rng& r) {
    if (r.coin()) with<NONE>(r); else with<INTEG>(r);
  }
};

