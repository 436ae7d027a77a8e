// Element type with an observable lifetime: every construction and destruction
// is an event checked online against the set of live objects.
#pragma once

#include <functional>
#include <ostream>
#include <unordered_set>

#include "common.h"

namespace vp {

struct life {
  std::unordered_set<void const*> live;
  std::uint64_t constructed{0}, destroyed{0}, copies{0}, moves{0};
};
inline life& lf() {
  static auto* l = new life;
  return *l;
}

struct tracked {
  static constexpr std::uint64_t ALIVE = 0xA11FEA11FEA11FE0ULL;
  static constexpr std::uint64_t DEAD = 0xDEADDEADDEADDEADULL;

  tracked() : v_{0} { born(); }
  tracked(int v) : v_{v} { born(); }  // NOLINT
  tracked(tracked const& o) : v_{o.get()} {
    ++lf().copies;
    born();
  }
  tracked(tracked&& o) noexcept : v_{o.get()} {
    ++lf().moves;
    born();
    if (&o != this) o.v_ = -777;
  }
  tracked& operator=(tracked const& o) {
    alive("copy-assign target");
    v_ = o.get();
    return *this;
  }
  tracked& operator=(tracked&& o) noexcept {
    alive("move-assign target");
    auto const v = o.get();
    o.v_ = -777;
    v_ = v;  // self-move keeps the value
    return *this;
  }
  ~tracked() {
    alive("destroy");
    monitor_scope m;
    lf().live.erase(this);
    ++lf().destroyed;
    magic_ = DEAD;
    self_ = nullptr;
    std::free(const_cast<char*>(heap_));
  }
  void born() {
    monitor_scope m;
    if (!lf().live.insert(this).second) {
      fail("constructed-twice",
           "object constructed over a live object (never destroyed)");
    }
    ++lf().constructed;
    magic_ = ALIVE;
    self_ = this;
    heap_ = static_cast<char*>(std::malloc(3));
  }
  void alive(char const* what) const {
    if (magic_ != ALIVE) {
      fail(magic_ == DEAD ? "use-after-destroy" : "use-before-construct",
           "%s on an object that is not alive", what);
    }
    if (self_ != this) {
      fail("bitwise-relocated", "%s on an object relocated bytewise", what);
    }
  }
  int get() const {
    alive("read");
    return v_;
  }
  friend bool operator==(tracked const& a, tracked const& b) {
    return a.get() == b.get();
  }
  friend bool operator!=(tracked const& a, tracked const& b) {
    return a.get() != b.get();
  }
  friend bool operator<(tracked const& a, tracked const& b) {
    return a.get() < b.get();
  }
  friend bool operator>(tracked const& a, tracked const& b) {
    return a.get() > b.get();
  }
  friend bool operator<=(tracked const& a, tracked const& b) {
    return a.get() <= b.get();
  }
  friend bool operator>=(tracked const& a, tracked const& b) {
    return a.get() >= b.get();
  }
  friend std::ostream& operator<<(std::ostream& o, tracked const& t) {
    return o << t.get();
  }
  std::uint64_t hash() const { return static_cast<std::uint64_t>(get()); }

  std::uint64_t magic_;
  tracked* self_;
  char* heap_;
  int v_;
};

// Two live objects never overlap, so the live count is a conservation law:
// constructed == destroyed + live.
inline void check_life(std::size_t expected_live, char const* where) {
  auto& l = lf();
  VP_CHECK(l.constructed - l.destroyed == l.live.size(), "lifetime-balance",
           "%s: constructed=%llu destroyed=%llu live=%zu", where,
           (unsigned long long)l.constructed, (unsigned long long)l.destroyed,
           l.live.size());
  VP_CHECK(l.live.size() == expected_live, "live-count",
           "%s: %zu live objects, containers hold %zu", where, l.live.size(),
           expected_live);
}
inline void reset_life() {
  monitor_scope m;
  lf().live.clear();
  lf().constructed = lf().destroyed = 0;
}

}  // namespace vp

namespace std {
template <>
struct hash<vp::tracked> {
  std::size_t operator()(vp::tracked const& t) const noexcept {
    return static_cast<std::size_t>(t.get());
  }
};
}  // namespace std
