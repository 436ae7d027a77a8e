// Random operations on any value, chosen only by what can be observed of it, so
// that two equal values go through exactly the same history. Used to compare an
// object inside a deserialized image with an equal one built normally.
#pragma once
#include "ser_test.h"

namespace vp {

struct kept_base {
  virtual ~kept_base() = default;
  virtual std::string text() const = 0;
  virtual void mutate(rng, std::string&) = 0;
};

struct mctx {
  std::string trace;                 // what the operations returned
  std::vector<bool>* decisions{};    // questions only the normal object can answer
  std::size_t next{0};
  bool leader{true};
  bool image{false};
  bool keep{true};
  std::vector<std::pair<std::unique_ptr<kept_base>, std::string>>* kept{};
  int budget{60};
  bool decide(bool const v) {
    if (leader) { decisions->push_back(v); return v; }
    if (next >= decisions->size()) fail("diverged", "monitor: the histories of the two objects diverged");
    return (*decisions)[next++];
  }
  void note(char const* n) { trace += n; trace += ' '; }
  void num(std::uint64_t n) { trace += std::to_string(n); trace += ' '; }
};

// does a copy own everything it shows?
template <typename T, typename = void> struct dc : std::true_type {};
template <typename T> struct dc<T*> : std::false_type {};
template <typename T> struct dc<cista::offset_ptr<T>> : std::false_type {};
template <typename P> struct dc<cista::basic_string_view<P>> : std::false_type {};
template <typename T, typename P> struct dc<cista::basic_unique_ptr<T, P>> : std::false_type {};
template <typename T> struct dc<cista::indexed<T>> : std::false_type {};
template <typename T, template <typename> typename P, bool I, typename S>
struct dc<cista::basic_vector<T, P, I, S>> : std::bool_constant<!I && dc<T>::value> {};
template <typename T> struct dc<cista::optional<T>> : dc<T> {};
template <typename A, typename B> struct dc<cista::pair<A, B>> : std::bool_constant<dc<A>::value && dc<B>::value> {};
template <typename... T> struct dc<cista::variant<T...>> : std::bool_constant<(dc<T>::value && ...)> {};
template <typename... T> struct dc<cista::tuple<T...>> : std::bool_constant<(dc<T>::value && ...)> {};
template <typename T, std::size_t N> struct dc<cista::array<T, N>> : dc<T> {};
template <typename T, template <typename> typename P, typename K, typename G, typename H, typename E>
struct dc<cista::hash_storage<T, P, K, G, H, E>> : dc<T> {};
template <typename T> struct dc_tie;
template <typename... F> struct dc_tie<std::tuple<F&...>> : std::bool_constant<(dc<std::decay_t<F>>::value && ...)> {};
template <typename T>
struct dc<T, std::enable_if_t<has_tie<T>::value && !cista::is_indexed_v<T>>> : dc_tie<decltype(std::declval<T&>().vp_tie())> {};

}  // namespace vp
