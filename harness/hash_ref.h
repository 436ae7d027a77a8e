// The byte hashes as published, written down once more: bytes only, no
// vector code, nothing shared with what is under test.
#pragma once
#include <cstdint>
#include <cstring>

namespace vp {
namespace href {
using u64 = std::uint64_t;
using u8 = unsigned char;
inline u64 le(u8 const* p, unsigned const n) {
  u64 v = 0U;
  for (auto i = 0U; i != n; ++i) v |= u64{p[i]} << (8U * i);
  return v;
}
inline u64 fold(u64 const a, u64 const b) {
  auto const r = static_cast<unsigned __int128>(a) * b;
  return static_cast<u64>(r) ^ static_cast<u64>(r >> 64U);
}
inline u64 rotr(u64 const v, unsigned const k) { return (v >> k) | (v << (64U - k)); }

inline u64 fnv1a(u8 const* p, std::size_t n, u64 h) {
  while (n-- != 0U) { h ^= *p++; h *= 0x100000001B3ULL; }
  return h;
}

// wyhash, "alpha" as bundled
constexpr u64 const WY0 = 0xa0761d6478bd642fULL, WY1 = 0xe7037ed1a0b428dbULL;
inline u64 wy3(u8 const* p, std::size_t const k) { return (u64{p[0]} << 16U) | (u64{p[k >> 1U]} << 8U) | p[k - 1U]; }
inline u64 wyhash(u8 const* p, std::size_t const len, u64 seed) {
  std::size_t i = len;
  seed ^= WY1;
  if (i > 64U) {
    u64 s[4] = {seed, rotr(seed, 16U), rotr(seed, 32U), rotr(seed, 48U)};
    for (; i > 64U; i -= 64U, p += 64) for (auto k = 0U; k != 4U; ++k) s[k] = fold(le(p + 16U * k, 8U) ^ WY0, le(p + 16U * k + 8U, 8U) ^ s[k]);
    seed = s[0] ^ s[1] ^ s[2] ^ s[3];
  }
  for (; i > 16U; i -= 16U, p += 16) seed = fold(le(p, 8U) ^ WY0, le(p + 8, 8U) ^ seed);
  u64 r;
  if (i > 8U) r = fold(le(p, 8U) ^ WY0, le(p + i - 8U, 8U) ^ seed);
  else if (i >= 4U) r = fold(le(p, 4U) ^ WY0, le(p + i - 4U, 4U) ^ seed);
  else if (i != 0U) r = fold(wy3(p, i) ^ WY0, seed);
  else r = fold(WY0, seed);
  return fold(r ^ len, WY0);
}
inline u64 fastest(u8 const* p, std::size_t const n, u64 const seed) {
  if (n >= 4U) return (le(p, 4U) + le(p + n - 4U, 4U)) * (le(p + (n >> 1U) - 2U, 4U) ^ seed);
  return n != 0U ? wy3(p, n) * (WY0 ^ seed) : seed;
}

// XXH3, 64 bit, as of 0.7.2
constexpr u8 const SECRET[192] = {
    0xb8, 0xfe, 0x6c, 0x39, 0x23, 0xa4, 0x4b, 0xbe, 0x7c, 0x01, 0x81, 0x2c, 0xf7, 0x21, 0xad, 0x1c, 0xde, 0xd4, 0x6d, 0xe9, 0x83, 0x90, 0x97, 0xdb,
    0x72, 0x40, 0xa4, 0xa4, 0xb7, 0xb3, 0x67, 0x1f, 0xcb, 0x79, 0xe6, 0x4e, 0xcc, 0xc0, 0xe5, 0x78, 0x82, 0x5a, 0xd0, 0x7d, 0xcc, 0xff, 0x72, 0x21,
    0xb8, 0x08, 0x46, 0x74, 0xf7, 0x43, 0x24, 0x8e, 0xe0, 0x35, 0x90, 0xe6, 0x81, 0x3a, 0x26, 0x4c, 0x3c, 0x28, 0x52, 0xbb, 0x91, 0xc3, 0x00, 0xcb,
    0x88, 0xd0, 0x65, 0x8b, 0x1b, 0x53, 0x2e, 0xa3, 0x71, 0x64, 0x48, 0x97, 0xa2, 0x0d, 0xf9, 0x4e, 0x38, 0x19, 0xef, 0x46, 0xa9, 0xde, 0xac, 0xd8,
    0xa8, 0xfa, 0x76, 0x3f, 0xe3, 0x9c, 0x34, 0x3f, 0xf9, 0xdc, 0xbb, 0xc7, 0xc7, 0x0b, 0x4f, 0x1d, 0x8a, 0x51, 0xe0, 0x4b, 0xcd, 0xb4, 0x59, 0x31,
    0xc8, 0x9f, 0x7e, 0xc9, 0xd9, 0x78, 0x73, 0x64, 0xea, 0xc5, 0xac, 0x83, 0x34, 0xd3, 0xeb, 0xc3, 0xc5, 0x81, 0xa0, 0xff, 0xfa, 0x13, 0x63, 0xeb,
    0x17, 0x0d, 0xdd, 0x51, 0xb7, 0xf0, 0xda, 0x49, 0xd3, 0x16, 0x55, 0x26, 0x29, 0xd4, 0x68, 0x9e, 0x2b, 0x16, 0xbe, 0x58, 0x7d, 0x47, 0xa1, 0xfc,
    0x8f, 0xf8, 0xb8, 0xd1, 0x7a, 0xd0, 0x31, 0xce, 0x45, 0xcb, 0x3a, 0x8f, 0x95, 0x16, 0x04, 0x28, 0xaf, 0xd7, 0xfb, 0xca, 0xbb, 0x4b, 0x40, 0x7e};
constexpr u64 const P32_1 = 0x9E3779B1U, P32_2 = 0x85EBCA77U, P32_3 = 0xC2B2AE3DU;
constexpr u64 const P1 = 0x9E3779B185EBCA87ULL, P2 = 0xC2B2AE3D27D4EB4FULL, P3 = 0x165667B19E3779F9ULL, P4 = 0x85EBCA77C2B2AE63ULL, P5 = 0x27D4EB2F165667C5ULL;
inline u64 avalanche(u64 h) { h ^= h >> 37U; h *= P3; h ^= h >> 32U; return h; }
inline u64 mix16(u8 const* p, u8 const* s, u64 const seed) { return fold(le(p, 8U) ^ (le(s, 8U) + seed), le(p + 8, 8U) ^ (le(s + 8, 8U) - seed)); }
inline u64 xxh3(u8 const* p, std::size_t const n, u64 const seed) {
  if (n == 0U) return 0U;
  if (n <= 3U) {
    auto const c = u64{p[0]} | (u64{p[n >> 1U]} << 8U) | (u64{p[n - 1U]} << 16U) | (u64{n} << 24U);
    return avalanche((c ^ (le(SECRET, 4U) + seed)) * P1);
  }
  if (n <= 8U) {
    auto const k = (le(p, 4U) | (le(p + n - 4U, 4U) << 32U)) ^ (le(SECRET, 8U) + seed);
    auto const m = n + (k ^ (k >> 51U)) * P32_1;
    return avalanche((m ^ (m >> 47U)) * P2);
  }
  if (n <= 16U) {
    auto const lo = le(p, 8U) ^ (le(SECRET, 8U) + seed), hi = le(p + n - 8U, 8U) ^ (le(SECRET + 8, 8U) - seed);
    return avalanche(n + (lo + hi) + fold(lo, hi));
  }
  if (n <= 128U) {
    auto acc = n * P1;
    for (auto k = static_cast<int>((n - 1U) / 32U); k >= 0; --k) {
      acc += mix16(p + 16 * k, SECRET + 32 * k, seed);
      acc += mix16(p + n - 16U * static_cast<unsigned>(k + 1), SECRET + 32 * k + 16, seed);
    }
    return avalanche(acc);
  }
  if (n <= 240U) {
    auto acc = n * P1;
    for (auto i = 0U; i != 8U; ++i) acc += mix16(p + 16U * i, SECRET + 16U * i, seed);
    acc = avalanche(acc);
    for (auto i = 8U; i < n / 16U; ++i) acc += mix16(p + 16U * i, SECRET + 16U * (i - 8U) + 3U, seed);
    return avalanche(acc + mix16(p + n - 16U, SECRET + 136 - 17, seed));
  }
  u8 key[192];
  for (auto i = 0U; i != 192U; i += 8U) {
    auto const v = le(SECRET + i, 8U) + ((i / 8U) % 2U == 0U ? seed : 0U - seed);
    for (auto b = 0U; b != 8U; ++b) key[i + b] = static_cast<u8>(v >> (8U * b));
  }
  u64 acc[8] = {P32_3, P1, P2, P3, P4, P32_2, P5, P32_1};
  auto const stripe = [&](u8 const* in, u8 const* k) {
    for (auto i = 0U; i != 8U; ++i) {
      auto const v = le(in + 8U * i, 8U), x = v ^ le(k + 8U * i, 8U);
      acc[i] += v + (x & 0xFFFFFFFFU) * (x >> 32U);
    }
  };
  std::size_t at = 0U, in_block = 0U;
  for (auto s = n / 64U; s != 0U; --s) {
    stripe(p + at, key + 8U * in_block);
    at += 64U;
    if (++in_block == 16U) {
      for (auto i = 0U; i != 8U; ++i) acc[i] = ((acc[i] ^ (acc[i] >> 47U)) ^ le(key + 128U + 8U * i, 8U)) * P32_1;
      in_block = 0U;
    }
  }
  if (n % 64U != 0U) stripe(p + n - 64U, key + 192 - 64 - 7);
  auto r = n * P1;
  for (auto i = 0U; i != 8U; i += 2U) r += fold(acc[i] ^ le(key + 11U + 8U * i, 8U), acc[i + 1U] ^ le(key + 11U + 8U * i + 8U, 8U));
  return avalanche(r);
}
}  // namespace href

inline std::uint64_t hash_ref(void const* p, std::size_t const n, std::uint64_t const seed) {
  auto const* b = static_cast<unsigned char const*>(p);
#if defined(CISTA_XXH3)
  return href::xxh3(b, n, seed);
#elif defined(CISTA_WYHASH)
  return href::wyhash(b, n, seed);
#elif defined(CISTA_WYHASH_FASTEST)
  return href::fastest(b, n, seed);
#else
  return href::fnv1a(b, n, seed);
#endif
}
}  // namespace vp
