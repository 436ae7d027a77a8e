#pragma once
#include "common.h"

#include "cista/containers.h"
#include "cista/reflection/comparable.h"
#include "cista/serialization.h"
#include "cista/type_hash/static_type_hash.h"
#include "cista/type_hash/type_hash.h"

namespace p06e {
struct tag {};
enum class e8 : std::uint8_t { A, B };
enum class e32 : std::uint32_t { A, B };
enum e64 : std::uint64_t { C, D };
}  // namespace p06e

namespace vp {

struct fingerprint {
  std::uint64_t (*dynamic_)();
  std::uint64_t (*static_)();
};
template <typename T>
fingerprint fp() {
  return {[]() -> std::uint64_t { return cista::type_hash<T>(); }, []() -> std::uint64_t { return cista::static_type_hash<T>(); }};
}
enum relation { types_equal, types_differ };
struct related {
  char const* what;
  relation rel;
  fingerprint f;
  char const* structure;
};
struct group {
  char const* structure;
  fingerprint base;
  std::vector<related> others;
};
inline std::vector<group>& groups() {
  static auto* g = new std::vector<group>;
  return *g;
}
struct register_groups {
  register_groups(std::vector<group> g) {
    for (auto& x : g) groups().push_back(std::move(x));
  }
};

}  // namespace vp
using vp::fp;
using vp::types_differ;
using vp::types_equal;
