// Included once per pointer flavour, after ser_types.inc: operations on every kind of value.
template <typename T, typename = void>
struct M;
template <typename T>
inline void mutate(mctx& c, T& v, rng& r) {
  if (--c.budget < 0) return;
  M<T>::go(c, v, r);
}

template <typename T>
struct kept_copy final : kept_base {
  explicit kept_copy(T const& v) : v_{v} {}
  std::string text() const override { return render(v_); }
  void mutate(rng r, std::string& trace) override {
    std::vector<bool> d;
    mctx c;
    c.decisions = &d;
    c.keep = false;
    NSM::mutate(c, v_, r);
    trace = c.trace;
  }
  T v_;
};

// copies of parts, to be looked at when the image is gone
template <typename T>
void keep_copy(mctx& c, T const& v) {
  if constexpr (dc<T>::value) {
    if (!c.keep || c.kept->size() > 12U) return;
    auto k = std::make_unique<kept_copy<T>>(v);
    auto t = k->text();
    auto const now = render(v);
    VP_CHECK(t == now, "copy-differs", "a copy differs from the original: %s", diff_at(now, t).c_str());
    c.kept->emplace_back(std::move(k), std::move(t));
    if (c.image) ev("copies_kept_of_image_parts");
  }
}

// assignments between values of one type, through temporaries of every kind
template <typename T>
void assign_like(mctx& c, T& v, rng& r, T other) {
  switch (r.below(7)) {
    case 0: c.note("copy-assign"); v = other; break;
    case 1: c.note("move-assign"); v = std::move(other); break;
    case 2: { c.note("swap"); std::swap(v, other); (void)render(other); break; }
    case 3: { c.note("self"); auto& self = v; v = self; break; }
    case 4: { c.note("out-and-back"); T t{std::move(v)}; v = std::move(other); v = std::move(t); break; }
    case 5: { c.note("copy-out-and-back"); T t{v}; v = other; v = t; keep_copy(c, v); break; }
    default: { c.note("move-out"); T t{std::move(v)}; v = other; (void)render(t); break; }
  }
}

template <typename T>
struct M<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
  static void go(mctx& c, T& v, rng& r) { c.note("n"); T x{}; gen(r, x, 0); v = x; }
};
template <typename T>
struct M<T, std::enable_if_t<std::is_enum_v<T>>> {
  static void go(mctx& c, T&, rng&) { c.note("e"); }
};
template <typename T> struct M<T*> { static void go(mctx&, T*&, rng&) {} };
template <typename T> struct M<cista::offset_ptr<T>> {
  static void go(mctx& c, cista::offset_ptr<T>& v, rng& r) {
    if (r.chance(1, 4)) { c.note("p=self"); auto const t = v; v = t; }
  }
};
template <typename T>
struct M<T, std::enable_if_t<has_tie<T>::value && !cista::is_indexed_v<T>>> {
  static void go(mctx& c, T& v, rng& r) {
    c.note("{");
    if constexpr (dc<T>::value) {
      if (r.chance(1, 8)) { T o{}; gen(r, o, 2); return assign_like(c, v, r, std::move(o)); }
      if (r.chance(1, 6)) keep_copy(c, v);
    }
    auto fields = v.vp_tie();
    constexpr auto const N = std::tuple_size_v<decltype(fields)>;
    for (auto k = 1U + r.below(2); k != 0U; --k) {
      auto const i = r.below(N);
      pick(c, fields, i, r, std::make_index_sequence<N>{});
    }
  }
  template <typename F, std::size_t... I>
  static void pick(mctx& c, F& f, std::size_t const i, rng& r, std::index_sequence<I...>) {
    ((i == I ? (c.num(I), mutate(c, std::get<I>(f), r)) : void()), ...);
  }
};
template <typename T>
struct M<cista::indexed<T>> {
  static void go(mctx& c, cista::indexed<T>& v, rng& r) { mutate(c, static_cast<T&>(v), r); }
};
template <typename S>
struct mutate_string {
  static void go(mctx& c, S& v, rng& r) {
    using C = std::decay_t<decltype(*v.data())>;
    using str = std::basic_string<C>;
    auto const fresh = [&]() {
      str x(r.chance(1, 2) ? r.below(20) : r.size(80), C('x'));
      for (auto& ch : x) ch = static_cast<C>(1U + r.below(255));
      return x;
    };
    switch (r.below(12)) {
      case 0: { c.note("s=fresh"); auto const x = fresh(); v = x; break; }
      case 1: { c.note("s=view"); auto const x = fresh(); v = std::basic_string_view<C>{x}; break; }
      case 2: { c.note("s=own-part"); if (v.size() != 0U) { auto const at = r.below(v.size()); v = v.view().substr(at, 1U + r.below(v.size() - at)); } break; }
      case 3: {
        c.note("s.erase");
        auto const n = static_cast<std::size_t>(v.size());
        auto const at = r.below(n + 1U);
        v.erase(static_cast<typename S::msize_t>(at), static_cast<typename S::msize_t>(r.below(n - at + 1U)));
        break;
      }
      case 4: {
        c.note("s[]");
        if (v.size() != 0U && c.decide(v.is_short() || v.h_.self_allocated_)) {
          auto const at = r.below(v.size());
          v[at] = static_cast<C>(1U + r.below(255));
        }
        break;
      }
      case 5: { c.note("s.reset"); v.reset(); break; }
      case 6: {
        c.note("s.non-owning");
        if constexpr (sizeof(C) == 1U) v.set_non_owning(kStatic[r.below(4)]); else v = fresh();
        break;
      }
      case 7: { c.note("s-cmp"); c.num(v == v.view()); c.num(v.size()); if constexpr (sizeof(C) == 1U) c.num(static_cast<std::uint64_t>(cista::hashing<S>{}(v) & 0xffU)); break; }
      case 8: { c.note("s=literal"); if constexpr (sizeof(C) == 1U) v = kStatic[r.below(4)]; break; }
      default: { S o{fresh()}; assign_like(c, v, r, std::move(o)); }
    }
    if (r.chance(1, 6)) keep_copy(c, v);
  }
  static constexpr char const* kStatic[] = {"", "tiny", "0123456789abcde", "some static text that is longer than a short string"};
};
template <typename P> struct M<cista::basic_string<P>> : mutate_string<cista::basic_string<P>> {};
template <typename P> struct M<cista::basic_string_view<P>> {
  static void go(mctx& c, cista::basic_string_view<P>& v, rng& r) {
    if (r.coin()) { c.note("sv=static"); v = cista::basic_string_view<P>{"another static text, kept by reference"}; }
    else { c.note("sv-copy"); auto t = v; v = t; c.num(t.size()); }
  }
};
template <typename P> struct M<cista::basic_cstring<P>> {
  using S = cista::basic_cstring<P>;
  static void go(mctx& c, S& v, rng& r) {
    auto const fresh = [&]() {
      std::string x(r.chance(1, 2) ? r.below(20) : r.size(80), 'x');
      for (auto& ch : x) ch = static_cast<char>(1U + r.below(255));
      return x;
    };
    switch (r.below(6)) {
      case 0: { c.note("c=fresh"); auto const x = fresh(); v = x; break; }
      case 1: { c.note("c=own-part"); if (v.size() != 0U) { auto const at = r.below(v.size()); v = v.view().substr(at); } break; }
      case 2: { c.note("c.reset"); v.reset(); break; }
      case 3: {
        c.note("c[]");
        if (v.size() != 0U && c.decide(v.is_short() || v.h_.self_allocated_)) v[r.below(v.size())] = static_cast<char>(1U + r.below(255));
        break;
      }
      default: { S o{fresh()}; assign_like(c, v, r, std::move(o)); }
    }
    if (r.chance(1, 6)) keep_copy(c, v);
  }
};

template <typename T> struct fresh_of { static T make(rng& r) { T x{}; gen(r, x, 1); return x; } };

template <typename T, template <typename> typename P, bool I, typename S>
struct M<cista::basic_vector<T, P, I, S>> {
  using V = cista::basic_vector<T, P, I, S>;
  static constexpr auto const copyable = std::is_copy_constructible_v<T>;
  static void into(mctx& c, V& v, rng& r) {
    if (v.empty()) return;
    auto const i = r.below(v.size());
    c.num(i);
    mutate(c, v[static_cast<S>(i)], r);
  }
  static void go(mctx& c, V& v, rng& r) {
    if constexpr (I) {
      // others point at the elements: they stay where they are
      c.note("iv");
      into(c, v, r);
    } else {
      auto const n = static_cast<std::size_t>(v.size());
      auto const any = [&]() { return static_cast<std::size_t>(r.below(n)); };
      auto const at = [&](std::size_t const i) { return v.begin() + i; };
      switch (r.below(18)) {
        case 0: { c.note("push_back"); v.push_back(fresh_of<T>::make(r)); break; }
        case 1: { c.note("emplace_back"); auto& x = v.emplace_back(fresh_of<T>::make(r)); c.num(static_cast<std::uint64_t>(&x - v.begin())); break; }
        case 2: {
          c.note("push_back(own)");
          if constexpr (copyable) if (n != 0U && n < 5000U) v.push_back(v[static_cast<S>(any())]);
          break;
        }
        case 3: {
          c.note("insert");
          auto* p = v.insert(at(r.below(n + 1U)), fresh_of<T>::make(r));
          c.num(static_cast<std::uint64_t>(p - v.begin()));
          break;
        }
        case 4: {
          c.note("insert(own)");
          if constexpr (copyable) if (n != 0U && n < 5000U) {
            auto const from = any();
            auto* p = v.insert(at(r.below(n + 1U)), T{v[static_cast<S>(from)]});
            c.num(static_cast<std::uint64_t>(p - v.begin()));
          }
          break;
        }
        case 5: {
          c.note("insert-range");
          if constexpr (copyable) {
            std::vector<T> o;
            for (auto k = r.below(4); k != 0U; --k) o.push_back(fresh_of<T>::make(r));
            auto* p = v.insert(at(r.below(n + 1U)), o.begin(), o.end());
            c.num(static_cast<std::uint64_t>(p - v.begin()));
          }
          break;
        }
        case 6: { c.note("erase"); if (n != 0U) { auto* p = v.erase(at(any())); c.num(static_cast<std::uint64_t>(p - v.begin())); } break; }
        case 7: {
          c.note("erase-range");
          auto const a = r.below(n + 1U), b = a + r.below(n - a + 1U);
          auto* p = v.erase(at(a), at(b));
          c.num(static_cast<std::uint64_t>(p - v.begin()));
          break;
        }
        case 8: { c.note("resize"); if constexpr (copyable && std::is_default_constructible_v<T>) v.resize(static_cast<S>(r.below(n + 5U))); break; }
        case 9: { c.note("pop_back"); if (n != 0U) v.pop_back(); break; }
        case 10: { if (r.chance(1, 3)) { c.note("clear"); v.clear(); } break; }
        case 11: { c.note("reserve"); v.reserve(static_cast<S>(r.below(2U * n + 9U))); break; }
        case 12: {
          if constexpr (copyable) { V o; gen(r, o, 2); assign_like(c, v, r, std::move(o)); }
          else { c.note("out-and-back"); V t{std::move(v)}; c.num(v.size()); v = std::move(t); }
          break;
        }
        case 13: { c.note("swap"); if constexpr (copyable) { V o{v}; o.push_back(fresh_of<T>::make(r)); std::swap(o, v); } break; }
        case 14: {
          c.note("look");
          if constexpr (copyable) { V const t{v}; c.num(t.size()); keep_copy(c, v); }
          for (auto i = v.rbegin(); i != v.rend(); ++i) c.num(1);
          break;
        }
        default: into(c, v, r);
      }
    }
  }
};
template <typename T, template <typename> typename P, typename K, typename G, typename H, typename E>
struct M<cista::hash_storage<T, P, K, G, H, E>> {
  using V = cista::hash_storage<T, P, K, G, H, E>;
  using key = typename V::key_type;
  static constexpr auto const is_map = !std::is_same_v<key, T>;
  static std::vector<T*> sorted(V& v) {
    std::vector<std::pair<std::string, T*>> s;
    for (auto& e : v) s.emplace_back(render(K{}(e)), &e);
    std::sort(s.begin(), s.end(), [](auto const& a, auto const& b) { return a.first < b.first; });
    std::vector<T*> out;
    for (auto& [t, p] : s) out.push_back(p);
    return out;
  }
  static key fresh_key(rng& r, int d) { key k{}; gen(r, k, d); return k; }
  static void go(mctx& c, V& v, rng& r) {
    auto const own = [&]() -> T* {
      auto s = sorted(v);
      return s.empty() ? nullptr : s[r.below(s.size())];
    };
    switch (r.below(12)) {
      case 0: case 1: {
        c.note("h.insert");
        for (auto n = 1U + r.below(r.chance(1, 5) ? 30U : 3U); n != 0U; --n) {
          if constexpr (is_map) {
            T e{fresh_key(r, 1), {}};
            gen(r, e.second, 1);
            auto const [it, fresh] = v.insert(e);
            c.num(fresh);
            VP_CHECK(render(it->first) == render(e.first), "insert-position", "insert() returned another key");
          } else {
            auto const k = fresh_key(r, 1);
            auto const [it, fresh] = v.insert(k);
            c.num(fresh);
            VP_CHECK(render(*it) == render(k), "insert-position", "insert() returned another key");
          }
        }
        break;
      }
      case 2: {
        c.note("h[]");
        if constexpr (is_map) {
          auto const k = fresh_key(r, 1);
          auto& x = v[k];
          std::decay_t<decltype(x)> val{};
          gen(r, val, 1);
          x = std::move(val);
        }
        break;
      }
      case 3: case 4: {
        c.note("h.erase");
        for (auto n = 1U + r.below(3); n != 0U; --n) {
          auto* e = own();
          if (e == nullptr) break;
          auto const k = K{}(*e);
          c.num(v.erase(k));
          c.num(v.erase(k));
        }
        break;
      }
      case 5: { c.note("h.erase(it)"); if (auto* e = own()) { auto const it = v.find(K{}(*e)); VP_CHECK(it != v.end(), "lookup", "an own key is not found"); v.erase(it); } break; }
      case 6: { c.note("h.find"); c.num(v.find(fresh_key(r, 0)) != v.end()); if (auto* e = own()) c.num(v.find(K{}(*e)) != v.end()); break; }
      case 7: { if (r.chance(1, 3)) { c.note("h.clear"); v.clear(); } break; }
      case 8: { c.note("h.rehash"); v.rehash(); break; }
      case 9: { V o; gen(r, o, 2); assign_like(c, v, r, std::move(o)); break; }
      case 10: { c.note("h=="); V const t{v}; c.num(t.size()); keep_copy(c, v); break; }
      default: {
        c.note("h.into");
        if constexpr (is_map) { if (auto* e = own()) mutate(c, e->second, r); }
      }
    }
  }
};
template <typename T>
struct M<cista::optional<T>> {
  static void go(mctx& c, cista::optional<T>& v, rng& r) {
    switch (r.below(5)) {
      case 0: { c.note("o.reset"); v.reset(); break; }
      case 1: { c.note("o=value"); v = fresh_of<T>::make(r); break; }
      case 2: { cista::optional<T> o; gen(r, o, 2); assign_like(c, v, r, std::move(o)); break; }
      default: if (v.has_value()) { c.note("o.into"); mutate(c, *v, r); }
    }
  }
};
template <typename... T>
struct M<cista::variant<T...>> {
  static void go(mctx& c, cista::variant<T...>& v, rng& r) {
    if (r.chance(1, 3)) {
      cista::variant<T...> o{v};
      gen(r, o, 2);
      return assign_like(c, v, r, std::move(o));
    }
    if (r.chance(1, 4)) { c.note("v=gen"); gen(r, v, 2); return; }
    c.num(v.index());
    if (!v.valid()) return;
    v.apply([&](auto& x) { mutate(c, x, r); });
  }
};
template <typename A, typename B>
struct M<cista::pair<A, B>> {
  static void go(mctx& c, cista::pair<A, B>& v, rng& r) { if (r.coin()) mutate(c, v.first, r); else mutate(c, v.second, r); }
};
template <typename... T>
struct M<cista::tuple<T...>> {
  static void go(mctx& c, cista::tuple<T...>& v, rng& r) {
    if (r.chance(1, 4)) { auto t = v; v = t; c.note("t=copy"); if (r.coin()) v = std::move(t); }
    ix(c, v, r, std::make_index_sequence<sizeof...(T)>{});
  }
  template <std::size_t... I>
  static void ix(mctx& c, cista::tuple<T...>& v, rng& r, std::index_sequence<I...>) {
    auto const i = r.below(sizeof...(T));
    ((i == I ? mutate(c, cista::get<I>(v), r) : void()), ...);
  }
};
template <typename T, std::size_t N>
struct M<cista::array<T, N>> {
  static void go(mctx& c, cista::array<T, N>& v, rng& r) {
    if (r.chance(1, 4)) { c.note("a=copy"); auto t = v; v = t; }
    mutate(c, v[r.below(N)], r);
  }
};
template <typename U>
void stay(mctx& c, U& v, rng& r) {
  c.num(v ? 1U : 0U);
  if (r.chance(1, 4)) { c.note("u-out-and-back"); auto t = std::move(v); c.num(v ? 1U : 0U); v = std::move(t); }
  else if (v) { c.note("u.into"); mutate(c, *v, r); }
}
template <typename T, typename P>
struct M<cista::basic_unique_ptr<T, P>> {
  static void go(mctx& c, cista::basic_unique_ptr<T, P>& v, rng& r) {
    auto const k = r.below(10);
    switch (k) {
      case 0: { c.note("u.reset"); v.reset(); break; }
      case 1: { c.note("u=null"); v = nullptr; break; }
      case 2: { c.note("u=new"); v = cista::basic_unique_ptr<T, P>{new T{}, true}; gen(r, *v, 1); break; }
      case 3: { c.note("u-out"); auto t = std::move(v); c.num(v ? 1U : 0U); v = cista::basic_unique_ptr<T, P>{new T{}, true}; break; }
      default: stay(c, v, r);
    }
  }
};
template <typename T, typename Tag>
struct M<cista::strong<T, Tag>> {
  static void go(mctx& c, cista::strong<T, Tag>& v, rng& r) { c.note("id"); T x{}; gen(r, x, 0); v = cista::strong<T, Tag>{x}; }
};
template <typename R, typename P>
struct M<std::chrono::duration<R, P>> {
  static void go(mctx& c, std::chrono::duration<R, P>& v, rng& r) { c.note("dur"); v = std::chrono::duration<R, P>{static_cast<R>(r.value())}; }
};
template <typename C, typename D>
struct M<std::chrono::time_point<C, D>> {
  static void go(mctx& c, std::chrono::time_point<C, D>& v, rng& r) { c.note("tp"); v = std::chrono::time_point<C, D>{D{static_cast<typename D::rep>(r.value())}}; }
};
template <std::size_t N>
struct M<cista::bitset<N>> {
  static void go(mctx& c, cista::bitset<N>& v, rng& r) {
    switch (r.below(5)) {
      case 0: { c.note("b.flip"); auto const i = r.below(N); v.set(i, !v.test(i)); break; }
      case 1: { c.note("b<<"); v <<= r.below(N + 3U); break; }
      case 2: { c.note("b>>"); v >>= r.below(N + 3U); break; }
      case 3: { c.note("b~"); v = ~v; c.num(v.count()); break; }
      default: { c.note("b.any"); c.num(v.any()); v ^= v << 3U; }
    }
  }
};
template <typename Vec, typename K>
struct M<cista::basic_bitvec<Vec, K>> {
  using V = cista::basic_bitvec<Vec, K>;
  static void go(mctx& c, V& v, rng& r) {
    switch (r.below(8)) {
      case 0: { c.note("bv.set"); if (!v.empty()) v.set(K(static_cast<unsigned>(r.below(v.size()))), r.coin()); break; }
      case 1: { c.note("bv.resize"); v.resize(static_cast<unsigned>(r.size(300))); break; }
      case 2: { c.note("bv.one"); v.one_out(); c.num(v.count()); break; }
      case 3: { c.note("bv.zero"); v.zero_out(); c.num(v.any()); break; }
      case 4: { c.note("bv<<"); v <<= r.below(v.size() + 3U); break; }
      case 5: { c.note("bv~"); v = ~v; c.num(v.count()); break; }
      case 6: { c.note("bv=copy"); V t{v}; V o; o.resize(77U); v = o; v = std::move(t); keep_copy(c, v); break; }
      default: { c.note("bv-each"); v.for_each_set_bit([&](auto const i) { c.num(cista::to_idx(i)); }); }
    }
  }
};
template <typename K, typename D, typename I>
struct M<cista::basic_vecvec<K, D, I>> {
  using V = cista::basic_vecvec<K, D, I>;
  using T = typename V::data_value_type;
  static void go(mctx& c, V& v, rng& r) {
    auto const n = static_cast<std::size_t>(v.size());
    auto const key = [&]() { return K(static_cast<cista::base_t<K>>(r.below(n))); };
    auto const fresh = [&]() { std::vector<T> x(r.below(6)); for (auto& y : x) y = static_cast<T>(r.value()); return x; };
    switch (r.below(8)) {
      case 0: { c.note("vv.emplace_back"); v.emplace_back(fresh()); break; }
      case 1: { c.note("vv.add_back_sized"); auto b = v.add_back_sized(r.below(5)); for (auto& x : b) x = static_cast<T>(r.value()); c.num(b.size()); break; }
      case 2: { c.note("vv[].push_back"); if (n != 0U) v[key()].push_back(static_cast<T>(r.value())); break; }
      case 3: { c.note("vv[].grow"); if (n != 0U) { auto b = v[key()]; b.grow(b.size() + r.below(4), static_cast<T>(3)); } break; }
      case 4: { c.note("vv.resize"); v.resize(r.below(n + 3U)); break; }
      case 5: { if (r.chance(1, 4)) { c.note("vv.clear"); v.clear(); } break; }
      case 6: { V o; gen(r, o, 2); assign_like(c, v, r, std::move(o)); break; }
      default: { c.note("vv[]="); if (n != 0U) { auto b = v[key()]; c.num(b.size()); if (b.size() != 0U) b[r.below(b.size())] = static_cast<T>(r.value()); } }
    }
  }
};
template <typename K, typename D, typename I, typename S>
struct M<cista::basic_nvec<K, D, I, 3U, S>> {
  using V = cista::basic_nvec<K, D, I, 3U, S>;
  static void go(mctx& c, V& v, rng& r) {
    if (r.chance(1, 3)) { V o; gen(r, o, 2); return assign_like(c, v, r, std::move(o)); }
    c.note("nv.emplace_back");
    gen(r, v, 1);
    for (auto a : v) for (auto b : a) for (auto x : b) { c.num(x.size()); if (x.size() != 0U) x[r.below(x.size())] = static_cast<std::uint16_t>(r.value()); }
  }
};
template <typename D, typename I>
struct M<cista::fws_multimap<D, I>> {
  using V = cista::fws_multimap<D, I>;
  static void go(mctx& c, V& v, rng& r) {
    if (r.chance(1, 3)) { V o; gen(r, o, 2); return assign_like(c, v, r, std::move(o)); }
    c.num(v.finished());
    if (v.finished()) { c.note("fm.reset"); V o; gen(r, o, 2); v = std::move(o); return; }
    c.note("fm.add");
    for (auto k = r.below(3); k != 0U; --k) v.push_back(r.value());
    v.finish_key();
    if (r.coin()) v.finish_map();
  }
};
template <typename T, typename S, template <typename> typename Vec, std::size_t L>
struct M<cista::dynamic_fws_multimap_base<T, S, Vec, L>> {
  using V = cista::dynamic_fws_multimap_base<T, S, Vec, L>;
  static void go(mctx&, V&, rng&) {}
};
template <typename T, typename S, std::size_t L, typename V>
void mutate_mm(mctx& c, V& v, rng& r) {
  auto const n = static_cast<std::size_t>(v.size());
  auto const key = [&]() { return static_cast<S>(r.below(n)); };
  switch (r.below(9)) {
    case 0: { c.note("mm.emplace_back"); v.emplace_back().push_back(static_cast<T>(r.value())); break; }
    case 1: case 2: { c.note("mm.push"); if (n != 0U) { auto b = v[key()]; if (b.size() < 30U) c.num(b.push_back(static_cast<T>(r.value()))); } break; }
    case 3: { c.note("mm.pop"); if (n != 0U) { auto b = v[key()]; if (!b.empty()) b.pop_back(); } break; }
    case 4: { c.note("mm.clear[]"); if (n != 0U) v[key()].clear(); break; }
    case 5: { c.note("mm.insert"); if (n != 0U) { auto b = v[key()]; if (b.size() < 30U) { auto const at = r.below(b.size() + 1U); auto it = b.insert(b.begin() + at, static_cast<T>(r.value())); c.num(static_cast<std::uint64_t>(it - b.begin())); } } break; }
    case 6: { c.note("mm.erase[]"); if (n != 0U) { auto b = v[key()]; if (!b.empty()) b.erase(b.begin() + r.below(b.size())); } break; }
    case 7: { if (r.chance(1, 4)) { c.note("mm.clear"); v.clear(); } else if (n != 0U) { c.note("mm.erase"); v.erase(key()); } break; }
    default: { V o; gen(r, o, 2); c.note("mm=copy"); if (r.coin()) v = o; else { V t{v}; v = std::move(o); v = std::move(t); } }
  }
}
template <typename I, typename P, typename K>
struct M<cista::paged_vecvec<I, P, K>> {
  using V = cista::paged_vecvec<I, P, K>;
  using T = typename V::data_value_type;
  static void go(mctx& c, V& v, rng& r) {
    auto const n = static_cast<std::size_t>(v.size());
    auto const key = [&]() { return K(static_cast<cista::base_t<K>>(r.below(n))); };
    switch (r.below(7)) {
      case 0: { c.note("pv.emplace_back"); std::vector<T> x(1U + r.below(20)); for (auto& y : x) y = static_cast<T>(r.value()); v.emplace_back(x); break; }
      case 1: { c.note("pv.empty"); v.emplace_back_empty(); break; }
      case 2: case 3: { c.note("pv.push"); if (n != 0U) { auto b = v[key()]; for (auto k = 1U + r.below(8); k != 0U; --k) b.push_back(static_cast<T>(r.value())); c.num(b.size()); } break; }
      case 4: { c.note("pv.resize"); v.resize(static_cast<typename V::size_type>(r.below(n + 3U))); break; }
      case 5: { if (r.chance(1, 4)) { c.note("pv.clear"); v.clear(); } break; }
      default: { V o; gen(r, o, 2); assign_like(c, v, r, std::move(o)); }
    }
  }
};
template <typename T>
struct M<cista::base_flat_matrix<T>> {
  using V = cista::base_flat_matrix<T>;
  static void go(mctx& c, V& v, rng& r) {
    switch (r.below(4)) {
      case 0: { c.note("fl.resize"); v.resize(static_cast<std::uint32_t>(r.below(5)), static_cast<std::uint32_t>(1U + r.below(4))); break; }
      case 1: { c.note("fl.reset"); v.reset(static_cast<typename V::value_type>(r.value())); break; }
      case 2: { V o; gen(r, o, 1); assign_like(c, v, r, std::move(o)); break; }
      default: {
        c.note("fl[]");
        if (v.n_rows_ != 0U && v.n_columns_ != 0U) v[static_cast<std::uint32_t>(r.below(v.n_rows_))][static_cast<std::uint32_t>(r.below(v.n_columns_))] = static_cast<typename V::value_type>(r.value());
      }
    }
  }
};
template <typename T, template <typename, typename...> typename Vec, std::uint32_t N, typename Num, std::uint32_t Mx, typename S>
struct M<cista::basic_rtree<T, Vec, N, Num, Mx, S>> {
  using V = cista::basic_rtree<T, Vec, N, Num, Mx, S>;
  static void go(mctx& c, V& v, rng& r) {
    switch (r.below(4)) {
      case 0: case 1: { c.note("rt.insert"); gen(r, v, 1); break; }
      case 2: {
        c.note("rt.delete");
        std::vector<std::tuple<typename V::coord_t, typename V::coord_t, T>> all;
        typename V::coord_t lo{}, hi{};
        for (auto i = 0U; i != N; ++i) { lo[i] = -1000; hi[i] = 1000; }
        v.search(lo, hi, [&](auto const& a, auto const& b, auto const& d) { all.emplace_back(a, b, d); return true; });
        std::sort(all.begin(), all.end(), [](auto const& a, auto const& b) { return std::get<2>(a) < std::get<2>(b); });
        c.num(all.size());
        if (!all.empty()) { auto const& [a, b, d] = all[r.below(all.size())]; v.delete_element(a, b, d); }
        break;
      }
      default: { V o; gen(r, o, 1); assign_like(c, v, r, std::move(o)); }
    }
  }
};

