// Traverses a cista value through its public observers, producing a canonical
// rendering of what it holds (for comparison), and judging on the way that
// every object reached lies in the permitted memory and is properly aligned.
// Written per container against its documented interface; user defined structs
// list their members themselves (VP_FIELDS), not through cista's reflection.
#pragma once

#include <algorithm>
#include <chrono>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "common.h"
#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/indexed.h"
#include "cista/serialization.h"
#include "cista/strong.h"

namespace vp {

struct walker {
  std::string out;
  std::uintptr_t lo{0}, hi{0};  // permitted memory when hi != 0
  char const* what{"walk"};     // key prefix for findings
  bool want_text{true};
  bool scalars_on{false};
  bool follow{false};  // follow plain pointers as deep as `depth`
  bool stored_index{true};  // visit containers that address by stored index
  std::vector<std::pair<std::uintptr_t, unsigned>> scalars, fields;
  std::map<std::pair<std::uintptr_t, void const*>, unsigned> labels;
  std::map<std::pair<std::uintptr_t, void const*>, bool> followed;
  bool labelling{false};
  bool check_find{true};
  bool probe_find{false};  // look keys up without judging the answer
  bool blocks_on{false};
  std::vector<std::pair<std::uintptr_t, std::size_t>> blocks;  // storage owned by exactly one object
  std::uint64_t visits{0};
  std::uint64_t budget{~0ULL};
  unsigned depth{0};

  void put(char const* s) { if (want_text) out += s; }
  void put(void const* p, std::size_t n) {
    if (want_text) {
      static char const* hex = "0123456789abcdef";
      auto const* c = static_cast<unsigned char const*>(p);
      for (auto i = n; i != 0U; --i) {
        out += hex[c[i - 1U] >> 4U];
        out += hex[c[i - 1U] & 15U];
      }
      out += ' ';
    }
  }
  void num(std::uint64_t v) {
    if (want_text) { out += std::to_string(v); out += ' '; }
  }
  bool spent() { return visits > budget; }

  void range(void const* p, std::size_t n, std::size_t al, char const* kind) {
    ++visits;
    auto const a = reinterpret_cast<std::uintptr_t>(p);
    if (hi != 0U) {
      ++st().checks;
      if (a < lo || a > hi || n > hi - a) {
        fail((std::string{what} + "-outside").c_str(),
             "%s at %p (+%zu bytes) lies outside of the image [%zu bytes], at image offset %lld",
             kind, p, n, static_cast<std::size_t>(hi - lo), static_cast<long long>(a - lo));
      }
    }
    ++st().checks;
    if (a % al != 0U) {
      fail((std::string{what} + "-misaligned").c_str(),
           "%s at image offset %lld needs alignment %zu", kind,
           static_cast<long long>(a - lo), al);
    }
    // make the sanitizer look at it
    if (n != 0U) {
      auto const* c = static_cast<unsigned char const volatile*>(p);
      (void)c[0];
      (void)c[n - 1U];
    }
  }
  void block(void const* p, std::size_t n) {
    if (blocks_on && n != 0U) blocks.emplace_back(reinterpret_cast<std::uintptr_t>(p), n);
  }
  void judge_blocks() {
    std::sort(blocks.begin(), blocks.end());
    for (std::size_t i = 1; i < blocks.size(); ++i) {
      VP_CHECK(blocks[i - 1U].first + blocks[i - 1U].second <= blocks[i].first, (std::string{what} + "-overlap").c_str(),
               "two objects share storage: image offsets %zu (+%zu) and %zu (+%zu)", static_cast<std::size_t>(blocks[i - 1U].first - lo),
               blocks[i - 1U].second, static_cast<std::size_t>(blocks[i].first - lo), blocks[i].second);
    }
  }
  template <typename T>
  void obj(T const* p, char const* kind) { range(p, sizeof(T), alignof(T), kind); }
  template <typename T>
  void scalar(T const* p) {
    if (scalars_on && sizeof(T) > 1U) {
      scalars.emplace_back(reinterpret_cast<std::uintptr_t>(p), sizeof(T));
    }
  }
  // what an object is made of besides its contents
  template <typename T>
  void field(T const* p) {
    scalar(p);
    if (scalars_on) fields.emplace_back(reinterpret_cast<std::uintptr_t>(p), sizeof(T));
  }
  template <typename T>
  void also_field(T const& x) {  // one that is visited as a value already
    if (scalars_on) fields.emplace_back(reinterpret_cast<std::uintptr_t>(&x), sizeof(T));
  }
  void flag(void const* p) {
    if (scalars_on) fields.emplace_back(reinterpret_cast<std::uintptr_t>(p), 1U);
  }
  template <typename T>
  void target(T const* p) {
    if (labelling) {
      labels.try_emplace({reinterpret_cast<std::uintptr_t>(p), &tag_of<std::remove_cv_t<T>>()},
                         static_cast<unsigned>(labels.size()) + 1U);
    }
  }
  template <typename T>
  static char const& tag_of() { static char const c{}; return c; }
  template <typename T>
  void pointer(T const* p) {
    if (p == nullptr) { put("null "); return; }
    auto const it = labels.find({reinterpret_cast<std::uintptr_t>(p), &tag_of<std::remove_cv_t<T>>()});
    put("->");
    if (it == labels.end()) put("? "); else num(it->second);
  }
};

template <typename T, typename = void>
struct W;
template <typename V>
inline void bookkeeping(walker& w, V const& v) { if (w.scalars_on) W<V>::inner(w, v); }
template <typename T>
inline void walk(walker& w, T const& v) {
  if (w.spent()) return;
  W<std::decay_t<T>>::go(w, v);
}

#define VP_FIELDS(...)                            \
  auto vp_tie() const { return std::tie(__VA_ARGS__); } \
  auto vp_tie() { return std::tie(__VA_ARGS__); }

template <typename T, typename = void>
struct has_tie : std::false_type {};
template <typename T>
struct has_tie<T, std::void_t<decltype(std::declval<T const&>().vp_tie())>> : std::true_type {};

template <typename T>
struct W<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void go(walker& w, T const& v) {
    w.obj(&v, "scalar");
    w.scalar(&v);
    if constexpr (std::is_same_v<T, bool>) {
      VP_CHECK(*reinterpret_cast<unsigned char const*>(&v) <= 1U,
               (std::string{w.what} + "-bool").c_str(), "bool holds the byte value %u",
               *reinterpret_cast<unsigned char const*>(&v));
    }
    w.put(&v, sizeof(T));
  }
};
template <typename T>
struct W<T, std::enable_if_t<has_tie<T>::value && !cista::is_indexed_v<T>>> {
  static void go(walker& w, T const& v) {
    w.obj(&v, "struct");
    w.put("{");
    std::apply([&](auto const&... f) { (walk(w, f), ...); }, v.vp_tie());
    w.put("}");
  }
};
template <typename T>
struct follow_ptr {
  static void go(walker& w, T const* p) {
    if (p == nullptr) return;
    if constexpr (!std::is_void_v<T>) {
      w.obj(p, "pointer target");
      if (w.follow && w.depth != 0U) {
        if (w.followed.try_emplace({reinterpret_cast<std::uintptr_t>(p), &walker::tag_of<T>()}, true).second) {
          --w.depth;
          walk(w, *p);
          ++w.depth;
        }
      }
    }
  }
};
template <typename T>
struct W<T*> {
  static void go(walker& w, T* const& v) {
    w.obj(&v, "pointer");
    w.field(&v);
    w.pointer(v);
    follow_ptr<std::remove_cv_t<T>>::go(w, v);
  }
};
template <typename T>
struct W<cista::offset_ptr<T>> {
  static void go(walker& w, cista::offset_ptr<T> const& v) {
    w.obj(&v, "offset_ptr");
    w.field(&v);
    w.pointer(v.get());
    follow_ptr<std::remove_cv_t<T>>::go(w, v.get());
  }
};
template <typename S>
struct walk_string {
  static void go(walker& w, S const& v) {
    w.obj(&v, "string");
    using C = std::decay_t<decltype(*v.data())>;
    auto const n = static_cast<std::size_t>(v.size());
    w.put("'");
    w.num(n);
    if (w.scalars_on) {
      w.flag(&v);
      if (v.is_short()) {
        for (std::size_t i = 0; i != S::short_length_limit; ++i) w.scalar(v.s_.s_ + i);
      } else {
        w.flag(&v.h_.self_allocated_);
        w.field(&v.h_.ptr_);
        w.field(&v.h_.size_);
        for (std::size_t i = 0; i != n; ++i) w.scalar(v.data() + i);
      }
    }
    if (n != 0U) {
      w.range(static_cast<void const*>(v.data()), n * sizeof(C), alignof(C), "characters");
      auto const a = reinterpret_cast<std::uintptr_t>(v.data()), o = reinterpret_cast<std::uintptr_t>(&v);
      if (a < o || a >= o + sizeof(v)) w.block(v.data(), n * sizeof(C));
      w.put(v.data(), n * sizeof(C));
      // every byte, for the sanitizer
      unsigned char acc = 0;
      for (std::size_t i = 0; i != n * sizeof(C); ++i) acc ^= reinterpret_cast<unsigned char const*>(v.data())[i];
      volatile unsigned char keep = acc;
      (void)keep;
    }
  }
};
template <typename P> struct W<cista::basic_string<P>> : walk_string<cista::basic_string<P>> {};
template <typename P> struct W<cista::basic_string_view<P>> : walk_string<cista::basic_string_view<P>> {};
template <typename P> struct W<cista::generic_string<P>> : walk_string<cista::generic_string<P>> {};
template <typename S>
struct walk_cstring {
  static void go(walker& w, S const& v) {
    w.obj(&v, "cstring");
    auto const s = v.view();
    w.flag(&v);
    w.flag(reinterpret_cast<char const*>(&v) + 15);
    if (w.scalars_on && !v.is_short()) { w.field(&v.h_.ptr_); w.field(&v.h_.size_); }
    w.put("c'");
    w.num(s.size());
    w.range(s.data(), s.size() + 1U, 1U, "characters and terminator");
    auto const a = reinterpret_cast<std::uintptr_t>(s.data()), o = reinterpret_cast<std::uintptr_t>(&v);
    if (a < o || a >= o + sizeof(v)) w.block(s.data(), s.size() + 1U);
    if (w.hi != 0U || v.is_short() || v.is_owning()) VP_CHECK(s.data()[s.size()] == 0, (std::string{w.what} + "-unterminated").c_str(),
             "a NUL-terminated string of %zu characters is followed by the byte %d", s.size(), s.data()[s.size()]);
    w.put(s.data(), s.size());
  }
};
template <typename P> struct W<cista::basic_cstring<P>> : walk_cstring<cista::basic_cstring<P>> {};

template <typename T, template <typename> typename P, bool I, typename S>
struct W<cista::basic_vector<T, P, I, S>> {
  // bookkeeping fields
  static void inner(walker& w, cista::basic_vector<T, P, I, S> const& v) {
    w.field(&v.el_);
    w.field(&v.used_size_);
    w.field(&v.allocated_size_);
    w.flag(&v.self_allocated_);
  }
  static void go(walker& w, cista::basic_vector<T, P, I, S> const& v) {
    w.obj(&v, "vector");
    inner(w, v);
    w.put("[");
    w.num(v.size());
    if (v.size() != 0U) {
      w.range(static_cast<void const*>(v.data()), sizeof(T) * static_cast<std::size_t>(v.size()), alignof(T), "vector elements");
      w.block(v.data(), sizeof(T) * static_cast<std::size_t>(v.size()));
    }
    for (auto const& x : v) {
      if (w.spent()) break;
      if constexpr (I) w.target(&x);
      walk(w, x);
    }
    w.put("]");
  }
};
template <typename T>
struct W<cista::indexed<T>> {
  static void go(walker& w, cista::indexed<T> const& v) {
    w.target(static_cast<T const*>(&v));
    walk(w, static_cast<T const&>(v));
  }
};
template <typename T, typename P>
struct W<cista::basic_unique_ptr<T, P>> {
  static void go(walker& w, cista::basic_unique_ptr<T, P> const& v) {
    w.obj(&v, "unique_ptr");
    w.field(&v.el_);
    w.flag(&v.self_allocated_);
    if (v.get() == nullptr) { w.put("none "); return; }
    w.put("own(");
    w.obj(v.get(), "unique_ptr target");
    w.block(v.get(), sizeof(T));
    w.target(v.get());
    walk(w, *v.get());
    w.put(")");
  }
};
template <typename T, template <typename> typename P, typename K, typename G, typename H, typename E>
struct W<cista::hash_storage<T, P, K, G, H, E>> {
  using table = cista::hash_storage<T, P, K, G, H, E>;
  static void go(walker& w, table const& v) {
    w.obj(&v, "hash table");
    w.field(&v.entries_); w.field(&v.ctrl_); w.field(&v.size_); w.field(&v.capacity_); w.field(&v.growth_left_); w.flag(&v.self_allocated_);
    w.put("<");
    w.num(v.size());
    if (v.capacity_ != 0U) {
      w.range(static_cast<void const*>(cista::ptr_cast(v.entries_)), sizeof(T) * v.capacity_, alignof(T), "hash table entries");
      w.block(static_cast<void const*>(cista::ptr_cast(v.entries_)), sizeof(T) * v.capacity_);
    }
    w.range(static_cast<void const*>(cista::ptr_cast(v.ctrl_)), v.capacity_ + 1U + table::WIDTH, 1U, "hash table control bytes");
    w.block(static_cast<void const*>(cista::ptr_cast(v.ctrl_)), v.capacity_ + 1U + table::WIDTH);
    if (w.scalars_on) for (std::size_t k = 0; k < v.capacity_ + 1U + table::WIDTH; k += 1U + k / 8U) w.flag(cista::ptr_cast(v.ctrl_) + k);
    std::vector<std::string> parts;
    std::size_t n = 0;
    for (auto const& e : v) {
      if (w.spent()) break;
      ++n;
      std::string part;
      std::swap(part, w.out);
      walk(w, e);
      std::swap(part, w.out);
      parts.push_back(std::move(part));
      if (w.check_find) {
        auto const it = v.find(K{}(e));
        VP_CHECK(it != v.end() && &*it == &e, (std::string{w.what} + "-lookup").c_str(),
                 "a key of the table is not found by lookup (size %zu)", static_cast<std::size_t>(v.size()));
      }
    }
    if (w.probe_find && !w.spent()) {
      w.visits += v.capacity_ + 16U * v.size();
      for (auto const& e : v) (void)v.find(K{}(e));
    }
    if (!w.spent()) {
      VP_CHECK(n == v.size(), (std::string{w.what} + "-size").c_str(), "a table of size %zu iterates %zu entries",
               static_cast<std::size_t>(v.size()), n);
    }
    std::sort(parts.begin(), parts.end());
    for (auto const& p : parts) w.out += p;
    w.put(">");
  }
};
template <typename A, typename B>
struct W<cista::pair<A, B>> {
  static void go(walker& w, cista::pair<A, B> const& v) { w.put("("); walk(w, v.first); walk(w, v.second); w.put(")"); }
};
template <typename A, typename B>
struct W<std::pair<A, B>> {
  static void go(walker& w, std::pair<A, B> const& v) { w.put("("); walk(w, v.first); walk(w, v.second); w.put(")"); }
};
template <typename... T>
struct W<cista::tuple<T...>> {
  static void go(walker& w, cista::tuple<T...> const& v) {
    w.obj(&v, "tuple");
    w.put("(");
    ix(w, v, std::make_index_sequence<sizeof...(T)>{});
    w.put(")");
  }
  template <std::size_t... I>
  static void ix(walker& w, cista::tuple<T...> const& v, std::index_sequence<I...>) { (walk(w, cista::get<I>(v)), ...); }
};
template <typename T>
struct W<cista::optional<T>> {
  static void go(walker& w, cista::optional<T> const& v) {
    w.obj(&v, "optional");
    w.flag(&v.valid_);
    if (!v.has_value()) { w.put("no "); return; }
    w.put("some(");
    walk(w, *v);
    w.put(")");
  }
};
template <typename... T>
struct W<cista::variant<T...>> {
  static void go(walker& w, cista::variant<T...> const& v) {
    w.obj(&v, "variant");
    w.field(&v.idx_);
    auto const i = static_cast<std::size_t>(v.index());
    if (i >= sizeof...(T)) {
      w.put("valueless ");
      return;
    }
    w.put("|");
    w.num(i);
    ix(w, v, i, std::make_index_sequence<sizeof...(T)>{});
  }
  template <std::size_t... I>
  static void ix(walker& w, cista::variant<T...> const& v, std::size_t i, std::index_sequence<I...>) {
    ([&]() { if (i == I) walk(w, cista::get<I>(v)); }(), ...);
  }
};
template <typename T, std::size_t N>
struct W<cista::array<T, N>> {
  static void go(walker& w, cista::array<T, N> const& v) {
    w.obj(&v, "array");
    w.put("[");
    for (std::size_t i = 0; i != N; ++i) walk(w, v[i]);
    w.put("]");
  }
};
template <typename T, typename Tag>
struct W<cista::strong<T, Tag>> {
  static void go(walker& w, cista::strong<T, Tag> const& v) { walk(w, v.v_); }
};
template <std::size_t N>
struct W<cista::bitset<N>> {
  static void go(walker& w, cista::bitset<N> const& v) {
    w.obj(&v, "bitset");
    if (w.scalars_on) for (auto const& b : v.blocks_) w.scalar(&b);
    std::string s;
    for (std::size_t i = 0; i != N; ++i) s += v.test(i) ? '1' : '0';
    w.put(s.c_str());
    w.num(v.count());
  }
};
template <typename V, typename K>
struct W<cista::basic_bitvec<V, K>> {
  static void go(walker& w, cista::basic_bitvec<V, K> const& v) {
    w.obj(&v, "bitvec");
    w.field(&v.size_);
    w.put("bits ");
    w.num(v.size());
    if (v.size() != 0U) {
      w.range(static_cast<void const*>(v.blocks_.data()), sizeof(*v.blocks_.data()) * v.blocks_.size(), alignof(decltype(*v.blocks_.data())), "bit blocks");
    }
    if (w.scalars_on) { bookkeeping(w, v.blocks_); for (auto const& b : v.blocks_) w.scalar(&b); }
    for (std::size_t i = 0; i < v.size() && !w.spent(); ++i, ++w.visits) w.put(v.test(K(static_cast<cista::base_t<K>>(i))) ? "1" : "0");
    w.put(" ");
  }
};
template <typename R, typename P>
struct W<std::chrono::duration<R, P>> {
  static void go(walker& w, std::chrono::duration<R, P> const& v) {
    w.obj(&v, "duration");
    w.scalar(&v);
    auto const c = v.count();
    w.put(&c, sizeof(c));
  }
};
template <typename C, typename D>
struct W<std::chrono::time_point<C, D>> {
  static void go(walker& w, std::chrono::time_point<C, D> const& v) {
    w.obj(&v, "time_point");
    w.scalar(&v);
    auto const c = v.time_since_epoch().count();
    w.put(&c, sizeof(c));
  }
};
// ---- containers addressing their elements by stored index
template <typename K, typename D, typename I>
struct W<cista::basic_vecvec<K, D, I>> {
  static void go(walker& w, cista::basic_vecvec<K, D, I> const& v) {
    w.obj(&v, "vecvec");
    walk(w, v.data_);
    walk(w, v.bucket_starts_);
    if (w.scalars_on) for (auto const& x : v.bucket_starts_) w.also_field(x);
    if (!w.stored_index) return;
    w.put("vv");
    w.num(v.size());
    for (std::size_t i = 0; i != v.size(); ++i) {
      auto const b = v[K(static_cast<cista::base_t<K>>(i))];
      w.num(b.size());
      for (auto const& x : b) walk(w, x);
    }
  }
};
template <typename K, typename D, typename I, typename S>
struct W<cista::basic_nvec<K, D, I, 3U, S>> {
  static void go(walker& w, cista::basic_nvec<K, D, I, 3U, S> const& v) {
    w.obj(&v, "nvec");
    walk(w, v.data_);
    for (auto const& i : v.index_) walk(w, i);
    if (w.scalars_on) for (auto const& i : v.index_) for (auto const& x : i) w.also_field(x);
    if (!w.stored_index) return;
    w.put("nv");
    w.num(v.size());
    for (auto const& a : v) {
      w.num(a.size());
      for (auto const& b : a) {
        w.num(b.size());
        for (auto const& c : b) {
          w.num(c.size());
          for (auto const& x : c) walk(w, x);
        }
      }
    }
  }
};
template <typename D, typename I>
struct W<cista::fws_multimap<D, I>> {
  static void go(walker& w, cista::fws_multimap<D, I> const& v) {
    w.obj(&v, "fws_multimap");
    walk(w, v.data_);
    walk(w, v.index_);
    if (w.scalars_on) for (auto const& x : v.index_) w.also_field(x);
    w.also_field(v.current_start_);
    w.also_field(v.complete_);
    walk(w, v.current_start_);
    walk(w, v.complete_);
    if (!w.stored_index) return;
    w.put("fm");
    if (v.finished()) {
      for (std::size_t k = 0; k + 1U < v.index_size(); ++k) {
        auto const e = v[static_cast<typename cista::fws_multimap<D, I>::index_t>(k)];
        w.num(e.size());
        for (auto const& x : e) walk(w, x);
      }
    }
  }
};
template <typename T, typename S, template <typename> typename V, std::size_t L>
struct W<cista::dynamic_fws_multimap_base<T, S, V, L>> {
  static void go(walker& w, cista::dynamic_fws_multimap_base<T, S, V, L> const& v) {
    w.obj(&v, "mutable_fws_multimap");
    w.num(v.index_.size());
    walk(w, v.data_);
    w.field(&v.element_count_);
    w.num(v.element_count());
    if (w.scalars_on) {
      bookkeeping(w, v.index_);
      for (auto const& f : v.free_buckets_) bookkeeping(w, f);
      for (auto const& i : v.index_) { w.field(&i.begin_); w.field(&i.size_); w.field(&i.capacity_); }
      for (auto const& f : v.free_buckets_) for (auto const& i : f) { w.field(&i.begin_); w.field(&i.size_); w.field(&i.capacity_); }
    }
    if (!w.stored_index) return;
    for (auto const& f : v.free_buckets_) w.num(f.size());
    for (std::size_t k = 0; k != v.size(); ++k) {
      auto const b = v[S(static_cast<cista::base_t<S>>(k))];
      w.num(b.size());
      w.num(b.capacity());
      for (auto const& x : b) walk(w, x);
    }
  }
};
template <typename I, typename P, typename K>
struct W<cista::paged_vecvec<I, P, K>> {
  static void go(walker& w, cista::paged_vecvec<I, P, K> const& v) {
    w.obj(&v, "paged_vecvec");
    if (w.scalars_on) {
      bookkeeping(w, v.paged_.data_);
      bookkeeping(w, v.idx_);
      for (auto const& x : v.paged_.data_) w.scalar(&x);
      for (auto const& i : v.idx_) { w.field(&i.size_); w.field(&i.capacity_); w.field(&i.start_); }
      for (auto const& f : v.paged_.free_list_) w.field(&f.next_);
    }
    if (!w.stored_index) return;
    w.put("pv");
    w.num(v.size());
    for (std::size_t k = 0; k != v.size(); ++k) {
      auto const b = v[K(static_cast<cista::base_t<K>>(k))];
      w.num(b.size());
      for (auto const& x : b) walk(w, x);
    }
  }
};
template <typename T>
struct W<cista::base_flat_matrix<T>> {
  static void go(walker& w, cista::base_flat_matrix<T> const& v) {
    w.obj(&v, "flat_matrix");
    w.also_field(v.n_rows_);
    w.also_field(v.n_columns_);
    walk(w, v.n_rows_);
    walk(w, v.n_columns_);
    walk(w, v.entries_);
    if (!w.stored_index) return;
    for (std::size_t i = 0; i != v.n_rows_ && !w.spent(); ++i, ++w.visits) {
      for (std::size_t j = 0; j != v.n_columns_; ++j) walk(w, v[i][j]);
    }
  }
};

template <typename T>
std::string render(T const& v, walker proto = {}) {
  proto.labelling = true;
  proto.out.clear();
  auto const text = proto.want_text;
  proto.want_text = false;
  walk(proto, v);
  proto.want_text = text;
  proto.labelling = false;
  proto.followed.clear();
  proto.scalars.clear();
  proto.blocks.clear();
  walk(proto, v);
  if (proto.blocks_on) proto.judge_blocks();
  return std::move(proto.out);
}

inline std::string diff_at(std::string const& a, std::string const& b) {
  std::size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  auto const from = i > 40U ? i - 40U : 0U;
  return "at " + std::to_string(i) + ": ..." + a.substr(from, 100) + "  /  ..." + b.substr(from, 100);
}

}  // namespace vp

namespace vp {
template <typename T, template <typename, typename...> typename V, std::uint32_t N, typename Num, std::uint32_t M, typename S>
struct W<cista::basic_rtree<T, V, N, Num, M, S>> {
  using tree = cista::basic_rtree<T, V, N, Num, M, S>;
  static void go(walker& w, tree const& v) {
    w.obj(&v, "rtree");
    if (w.scalars_on) {
      W<std::decay_t<decltype(v.nodes_)>>::inner(w, v.nodes_);
      w.also_field(v.m_.root_); w.also_field(v.m_.free_list_); w.also_field(v.m_.count_); w.also_field(v.m_.height_);
      for (auto const& x : v.m_.path_hint_) w.also_field(x);
      for (auto const& n : v.nodes_) {
        w.also_field(n.count_);
        w.also_field(n.kind_);
        if (n.kind_ == tree::kind::kBranch) for (auto i = 0U; i != std::min<std::uint32_t>(n.count_, M); ++i) w.also_field(n.children_[i]);
      }
    }
    if (v.nodes_.size() != 0U) {
      w.range(static_cast<void const*>(v.nodes_.data()), sizeof(*v.nodes_.data()) * v.nodes_.size(), alignof(decltype(*v.nodes_.data())), "rtree nodes");
    }
    if (!w.stored_index) return;
    std::vector<std::string> parts;
    typename tree::coord_t lo{}, hi{};
    for (auto i = 0U; i != N; ++i) { lo[i] = std::numeric_limits<Num>::lowest(); hi[i] = std::numeric_limits<Num>::max(); }
    v.search(lo, hi, [&](auto const& a, auto const& b, auto const& d) {
      std::string part;
      std::swap(part, w.out);
      for (auto i = 0U; i != N; ++i) { walk(w, a[i]); walk(w, b[i]); }
      walk(w, d);
      std::swap(part, w.out);
      parts.push_back(std::move(part));
      return true;
    });
    std::sort(parts.begin(), parts.end());
    w.put("rt");
    w.num(parts.size());
    for (auto const& p : parts) w.out += p;
  }
};
}  // namespace vp
