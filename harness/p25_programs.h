// Programs built against the separate headers, the single header, and the headers with a regenerated reflection header.
// Each of them writes images the others must read, and says what it sees.
namespace {

struct type_gen {
  explicit type_gen(rng& r) : r_{r} {}
  std::string scalar() {
    static char const* const s[] = {"std::uint8_t", "std::int16_t", "std::uint32_t", "std::int64_t", "double", "float", "bool", "char", "kind", "big"};
    return s[r_.below(10)];
  }
  std::string key() {
    static char const* const s[] = {"std::uint32_t", "std::int16_t", "std::uint64_t", "data::string"};
    return s[r_.below(4)];
  }
  std::string type(int const depth) {
    if (depth <= 0) return r_.chance(1, 4) ? "data::string" : scalar();
    switch (r_.below(15)) {
      case 0: case 1: return "data::vector<" + type(depth - 1) + ">";
      case 2: return "data::hash_map<" + key() + ", " + type(depth - 1) + ">";
      case 3: return "data::hash_set<" + key() + ">";
      case 4: return "data::unique_ptr<" + type(depth - 1) + ">";
      case 5: return "cista::optional<" + type(depth - 1) + ">";
      case 6: return "data::variant<" + scalar() + ", data::vector<" + type(depth - 1) + ">>";
      case 7: return "data::array<" + type(depth - 1) + ", " + std::to_string(1U + r_.below(5)) + ">";
      case 8: return "data::pair<" + type(depth - 1) + ", " + scalar() + ">";
      case 9: return "cista::tuple<" + scalar() + ", " + type(depth - 1) + ">";
      case 10: return "cista::bitset<" + std::to_string(1U + r_.below(200)) + ">";
      case 11: return "either";
      case 12: return "id_t_";
      case 13: return structs_ == 0U ? scalar() : "s" + std::to_string(r_.below(structs_));
      default: return type(0);
    }
  }
  // structures of chosen sizes, one after the other
  std::string text(std::size_t const n, std::size_t const max_members, std::size_t const last) {
    std::string o;
    for (std::size_t i = 0U; i != n; ++i) {
      auto const m = i + 1U == n && last != 0U ? last : r_.chance(1, 3) ? 1U + r_.below(max_members) : 1U + r_.below(std::min<std::size_t>(max_members, 6U));
      largest_ = std::max<std::size_t>(largest_, m);
      std::string body, names;
      for (std::size_t k = 0U; k != m; ++k) {
        body += "  " + type(m > 8U ? r_.chance(1, 5) ? 1 : 0 : static_cast<int>(r_.below(3))) + " m" + std::to_string(k) + "{};\n";
        names += (k == 0U ? "m" : ", m") + std::to_string(k);
      }
      if (r_.chance(1, 4)) body += "  auto cista_members() { return std::tie(" + names + "); }\n";
      o += "struct s" + std::to_string(i) + " {\n" + body + "};\n";
      ++structs_;
    }
    return o;
  }
  // structures of numbers
  std::string every(std::size_t const n, std::size_t const cls) {
    std::string o;
    for (std::size_t i = 0U; i != n; ++i) {
      o += "struct s" + std::to_string(i) + " {";
      for (std::size_t k = 0U; k != i * 5U + cls + 1U; ++k) o += " " + scalar() + " m" + std::to_string(k) + "{};";
      o += " };\n";
    }
    largest_ = (n - 1U) * 5U + cls + 1U;
    return o;
  }
  rng& r_;
  std::size_t structs_{0U}, largest_{0U};
};

char const* const prelude = R"cc(
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#if defined(SINGLE)
#include "cista_single.h"
#else
#include "cista/reflection/comparable.h"
#include "cista/reflection/member_index.h"
#include "cista/reflection/printable.h"
#include "cista/serialization.h"
#endif
namespace data = cista::NS;
enum class kind : std::uint16_t { A, B = 300, C };
enum class big : std::int64_t { X = -1, Y = 1LL << 40 };
union either { std::uint32_t u; float f; };
// what the library must not take apart, and what it may
union wide_either { char c[24]; std::uint64_t u; };
struct has_virtual { virtual ~has_virtual() = default; std::uint32_t a{1}; };
struct derived_virtual : has_virtual { std::uint32_t b{2}; };
struct one { std::uint32_t a{1}; };
struct none {};
class hidden { public: explicit hidden(int x) : x_{x} {} private: int x_; };
template <typename... T> void works(char const* name) { std::cout << name; ((std::cout << ' ' << cista::to_tuple_works_v<T>), ...); std::cout << '\n'; }
cista::hash_t type_hash(either const&, cista::hash_t h, std::map<cista::hash_t, unsigned>&) { return cista::hash_combine(h, 4711U); }
template <std::size_t N> constexpr auto static_type_hash(either const*, cista::hash_data<N> h) noexcept { return h.combine(4711U); }
using id_t_ = cista::strong<std::uint32_t, struct id_tag_>;
struct rnd { std::uint64_t s; std::uint64_t next() { s += 0x9E3779B97F4A7C15ULL; auto z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); } unsigned below(unsigned n) { return static_cast<unsigned>(next() % n); } };
struct cmp { CISTA_COMPARABLE() CISTA_PRINTABLE(cmp, "a", "b") std::int32_t a; std::uint64_t b; kind c; };

template <typename T> void fill(rnd& r, T& t);
template <typename T> void show(std::ostream& o, T const& t);
template <typename T> struct rule { 
  static void fill(rnd& r, T& t) {
    if constexpr (std::is_same_v<T, bool>) t = r.below(2) == 1;
    else if constexpr (std::is_enum_v<T>) t = static_cast<T>(r.below(3));
    else if constexpr (std::is_floating_point_v<T>) t = static_cast<T>(static_cast<int>(r.below(2000)) - 1000) / 8;
    else if constexpr (std::is_scalar_v<T>) t = static_cast<T>(r.next());
    else cista::for_each_field(t, [&](auto& m) { ::fill(r, m); });
  }
  static void show(std::ostream& o, T const& t) {
    if constexpr (std::is_enum_v<T>) o << static_cast<std::int64_t>(t);
    else if constexpr (std::is_floating_point_v<T>) o << t;
    else if constexpr (std::is_signed_v<T> && std::is_scalar_v<T>) o << static_cast<std::int64_t>(t);
    else if constexpr (std::is_scalar_v<T>) o << static_cast<std::uint64_t>(t);
    else { o << '{'; cista::for_each_field(t, [&](auto const& m) { ::show(o, m); o << ' '; }); o << '}'; }
  }
};
template <> struct rule<either> { static void fill(rnd& r, either& t) { t.u = static_cast<std::uint32_t>(r.next()); } static void show(std::ostream& o, either const& t) { o << t.u; } };
template <> struct rule<id_t_> { static void fill(rnd& r, id_t_& t) { t = id_t_{r.below(9)}; } static void show(std::ostream& o, id_t_ const& t) { o << '#' << t.v_; } };
template <> struct rule<data::string> { static void fill(rnd& r, data::string& t) { t = data::string{std::string(r.below(40), static_cast<char>('a' + r.below(26)))}; } static void show(std::ostream& o, data::string const& t) { o << '"' << t.view() << '"' << cista::hashing<data::string>{}(t); } };
template <typename T> struct rule<data::vector<T>> {
  static void fill(rnd& r, data::vector<T>& t) { for (auto n = r.below(6); n != 0; --n) { t.emplace_back(); ::fill(r, t.back()); } }
  static void show(std::ostream& o, data::vector<T> const& t) { o << '['; for (auto const& x : t) { ::show(o, x); o << ','; } o << ']'; }
};
template <typename K, typename V> struct rule<data::hash_map<K, V>> {
  static void fill(rnd& r, data::hash_map<K, V>& t) { for (auto n = r.below(12); n != 0; --n) { K k{}; ::fill(r, k); ::fill(r, t[k]); } }
  static void show(std::ostream& o, data::hash_map<K, V> const& t) { o << t.size() << '<'; for (auto const& [k, v] : t) { ::show(o, k); o << '='; ::show(o, v); o << (t.find(k) == t.end() ? '!' : ','); } o << '>'; }
};
template <typename K> struct rule<data::hash_set<K>> {
  static void fill(rnd& r, data::hash_set<K>& t) { for (auto n = r.below(12); n != 0; --n) { K k{}; ::fill(r, k); t.emplace(k); } }
  static void show(std::ostream& o, data::hash_set<K> const& t) { o << t.size() << '<'; for (auto const& k : t) { ::show(o, k); o << (t.find(k) == t.end() ? '!' : ','); } o << '>'; }
};
template <typename T> struct rule<data::unique_ptr<T>> {
  static void fill(rnd& r, data::unique_ptr<T>& t) { if (r.below(4) != 0) { t = data::make_unique<T>(); ::fill(r, *t); } }
  static void show(std::ostream& o, data::unique_ptr<T> const& t) { if (t.get() == nullptr) o << "null"; else { o << '*'; ::show(o, *t); } }
};
template <typename T> struct rule<cista::optional<T>> {
  static void fill(rnd& r, cista::optional<T>& t) { if (r.below(4) != 0) { T x{}; ::fill(r, x); t = std::move(x); } }
  static void show(std::ostream& o, cista::optional<T> const& t) { if (!t.has_value()) o << "none"; else { o << '?'; ::show(o, t.value()); } }
};
template <typename A, typename B> struct rule<data::variant<A, B>> {
  static void fill(rnd& r, data::variant<A, B>& t) { if (r.below(2) != 0) { A x{}; ::fill(r, x); t = std::move(x); } else { B x{}; ::fill(r, x); t = std::move(x); } }
  static void show(std::ostream& o, data::variant<A, B> const& t) { o << int(t.index()) << ':'; t.apply([&](auto const& x) { ::show(o, x); }); }
};
template <typename T, std::size_t N> struct rule<data::array<T, N>> {
  static void fill(rnd& r, data::array<T, N>& t) { for (auto& x : t) ::fill(r, x); }
  static void show(std::ostream& o, data::array<T, N> const& t) { for (auto const& x : t) { ::show(o, x); o << ';'; } }
};
template <typename A, typename B> struct rule<data::pair<A, B>> {
  static void fill(rnd& r, data::pair<A, B>& t) { ::fill(r, t.first); ::fill(r, t.second); }
  static void show(std::ostream& o, data::pair<A, B> const& t) { ::show(o, t.first); o << '|'; ::show(o, t.second); }
};
template <typename A, typename B> struct rule<cista::tuple<A, B>> {
  static void fill(rnd& r, cista::tuple<A, B>& t) { ::fill(r, cista::get<0>(t)); ::fill(r, cista::get<1>(t)); }
  static void show(std::ostream& o, cista::tuple<A, B> const& t) { ::show(o, cista::get<0>(t)); o << '/'; ::show(o, cista::get<1>(t)); }
};
template <std::size_t N> struct rule<cista::bitset<N>> {
  static void fill(rnd& r, cista::bitset<N>& t) { for (std::size_t i = 0; i != N; ++i) t.set(i, r.below(3) == 0); }
  static void show(std::ostream& o, cista::bitset<N> const& t) { o << t.to_string() << t.count(); }
};
template <typename T> void fill(rnd& r, T& t) { rule<T>::fill(r, t); }
template <typename T> void show(std::ostream& o, T const& t) { rule<T>::show(o, t); }

template <typename T> void arity(std::string const& what, char const* name) {
  T t{};
  rnd r{SEED};
  fill(r, t);
  std::cout << name << ' ' << cista::arity<T>();
  if (what == "facts") {
    auto const tup = cista::to_tuple(t);
    std::cout << ' ' << std::tuple_size_v<std::decay_t<decltype(tup)>>;
    cista::for_each_ptr_field(t, [&](auto* m) { std::cout << ' ' << (reinterpret_cast<char const*>(m) - reinterpret_cast<char const*>(&t)) << '+' << sizeof(*m); });
  } else show(std::cout << ' ', t);
  std::cout << '\n';
}
template <typename T, cista::mode M> void write(std::string const& dir, std::string const& name, T& v) {
  auto const b = cista::serialize<M>(v);
  std::ofstream{dir + "/" + name, std::ios::binary}.write(reinterpret_cast<char const*>(b.data()), static_cast<std::streamsize>(b.size()));
}
template <typename T, cista::mode M> void read(std::string const& dir, std::string const& name, unsigned const flip) {
  std::ifstream f{dir + "/" + name, std::ios::binary};
  std::string s{std::istreambuf_iterator<char>{f}, {}};
  void* mem = nullptr;
  if (::posix_memalign(&mem, 64, s.size() + 1) != 0) std::abort();
  auto* p = static_cast<std::uint8_t*>(mem);
  std::memcpy(p, s.data(), s.size());
  if (flip != 0U && !s.empty()) p[flip % s.size()] ^= 0x41;
  try {
    auto const* v = cista::deserialize<T, M>(p, p + s.size());
    std::ostringstream o;
    if (flip == 0U) show(o, *v); else o << "accepted";
    std::cout << name << ' ' << s.size() << ' ' << o.str() << '\n';
  } catch (std::exception const& e) { std::cout << name << ' ' << s.size() << " rejected: " << e.what() << '\n'; }
  std::free(mem);
}
template <typename T> void facts(char const* name) {
  T t{};
  std::cout << name << " size " << sizeof(T) << " arity " << cista::arity<T>() << " fingerprints " << cista::type_hash<T>();
#if !defined(CISTA_XXH3) && !defined(CISTA_WYHASH)
  std::cout << ' ' << cista::static_type_hash<T>();
#endif
  std::cout << " offsets";
  cista::for_each_ptr_field(t, [&](auto* m) { std::cout << ' ' << (reinterpret_cast<char const*>(m) - reinterpret_cast<char const*>(&t)) << '+' << sizeof(*m); });
  auto const tup = cista::to_tuple(t);
  std::cout << " tuple " << std::tuple_size_v<std::decay_t<decltype(tup)>> << " works " << cista::to_tuple_works_v<T> << cista::to_tuple_works_v<either> << " first " << cista::member_index(&T::m0) << '\n';
}
constexpr auto const M1 = cista::mode::NONE;
constexpr auto const M2 = cista::mode::WITH_VERSION | cista::mode::WITH_INTEGRITY;
#if defined(CISTA_XXH3) || defined(CISTA_WYHASH)  // not computed at compile time
constexpr auto const M3 = cista::mode::WITH_VERSION | cista::mode::DEEP_CHECK;
#else
constexpr auto const M3 = cista::mode::WITH_STATIC_VERSION | cista::mode::DEEP_CHECK;
#endif
constexpr auto const M4 = cista::mode::WITH_INTEGRITY | cista::mode::SERIALIZE_BIG_ENDIAN;
template <typename T> void all(std::string const& what, std::string const& dir, char const* name) {
  if (what == "facts") { facts<T>(name); return; }
  for (unsigned i = 0; i != 6; ++i) {
    auto const n = std::string{name} + "-" + std::to_string(i);
    if (what == "write") {
      auto v = std::make_unique<T>();
      rnd r{i * 77ULL + SEED};
      fill(r, *v);
      std::ostringstream o;
      show(o, *v);
      std::cout << n << ' ' << o.str() << '\n';
      write<T, M1>(dir, n + "a", *v); write<T, M2>(dir, n + "b", *v); write<T, M3>(dir, n + "c", *v); write<T, M4>(dir, n + "d", *v);
    } else {
      read<T, M1>(dir, n + "a", 0); read<T, M2>(dir, n + "b", 0); read<T, M3>(dir, n + "c", 0); read<T, M4>(dir, n + "d", 0);
      read<T, M2>(dir, n + "b", i + 1); read<T, M3>(dir, n + "c", 1 + i % 7);
    }
  }
}
)cc";

struct program {
  std::string dir_;
  std::string exe(char const* which) const { return dir_ + "/" + which; }
  // -> compiles?
  bool compile(char const* which, std::string const& flags, std::string* why) const {
    auto const log = dir_ + "/" + which + ".log";
    auto const rc = sh("clang++-18 -std=c++17 -O0 -w " + flags + " '" + dir_ + "/program.cc' -o '" + exe(which) + "' > '" + log + "' 2>&1");
    if (rc != 0) *why = tail(slurp(log));
    return rc == 0;
  }
  std::string say(char const* which, char const* what, std::string const& images) const {
    fs::create_directories(images);
    auto const out = dir_ + "/" + which + "-" + what + ".txt";
    auto const rc = sh("timeout 60 '" + exe(which) + "' " + what + " '" + images + "' > '" + out + "' 2>&1");
    auto s = slurp(out);
    if (rc != 0) s += "\nended with " + std::to_string(rc);
    return s;
  }
};

std::string first_difference(std::string const& a, std::string const& b) {
  auto const x = lines(a), y = lines(b);
  for (std::size_t i = 0U; i != std::max(x.size(), y.size()); ++i) {
    auto const p = i < x.size() ? x[i] : std::string{"(end)"};
    auto const q = i < y.size() ? y[i] : std::string{"(end)"};
    if (p != q) {
      std::size_t k = 0U;
      while (k < p.size() && k < q.size() && p[k] == q[k]) ++k;
      auto const from = k < 60U ? 0U : k - 60U;
      return "line " + std::to_string(i) + ": '" + p.substr(from, 140U) + "' / '" + q.substr(from, 140U) + "'";
    }
  }
  return {};
}

void copy_headers(std::string const& to) {
  fs::create_directories(to);
  fs::copy(repo + "/include/cista", to + "/cista", fs::copy_options::recursive);
}

constexpr std::size_t const EVERY = 1000U;  // structures of every size

// flags of the other way to get the library
template <typename Make>
void compare(rng& r, char const* ns, std::string const& hash, std::size_t const max_members, std::size_t const last, char const* what, Make&& make) {
  program p{scratch("prog")};
  fs::create_directories(p.dir_);
  type_gen g{r};
  auto const every = last >= EVERY;
  auto const n = every ? (64U - static_cast<unsigned>(last - EVERY) + 4U) / 5U : static_cast<unsigned>(2U + r.below(4));
  auto const types = every ? g.every(n, last - EVERY) : g.text(n, max_members, last);
  std::string text = prelude + types + "int main(int, char** a) {\n  std::string const w = a[1], d = a[2];\n";
  for (auto i = 0U; i != n; ++i) text += every ? "  arity<s" + std::to_string(i) + ">(w, \"s" + std::to_string(i) + "\");\n" : "  all<s" + std::to_string(i) + ">(w, d, \"s" + std::to_string(i) + "\");\n";
  text += "  works<either, wide_either, has_virtual, derived_virtual, one, none, hidden, cmp, id_t_, kind, int, int*, int[4], data::string, data::vector<int>, std::string, std::unique_ptr<int>>(\"works\");\n";
  text += "  cmp x{1, 2, kind::B}, y{1, 3, kind::A}; std::cout << x << y << (x < y) << (x == y) << (x != y) << (x >= y) << '\\n';\n}\n";
  spill(p.dir_ + "/program.cc", text);
  auto const defs = std::string{"-DNS="} + ns + " -DSEED=" + std::to_string(r.below(100000)) + "ULL " + hash;
  auto const other = make(p.dir_);
  op("%s: %u structures, up to %zu members, %s, %s", what, static_cast<unsigned>(n), g.largest_, ns, hash.c_str());
  std::string why;
  if (!p.compile("own", defs + " -I'" + repo + "/include'", &why)) {
    // (the workload: not one of this library's programs)
    std::fprintf(stderr, "the program does not compile against the library itself: %s\n", why.c_str());
    ev("programs_not_compiling");
    fs::remove_all(p.dir_);
    return;
  }
  VP_CHECK(p.compile("other", defs + " " + other, &why), "does-not-compile", "a program that uses the library does not compile with %s: %s", what, why.c_str());
  auto const same = [&](std::string const& a, std::string const& b, char const* key) {
    VP_CHECK(a == b, key, "with %s: %s", what, first_difference(a, b).c_str());
    VP_CHECK(a.find("ended with") == std::string::npos, "program-failed", "%s", a.substr(a.size() < 200U ? 0U : a.size() - 200U).c_str());
  };
  auto const ia = p.dir_ + "/images_own", ib = p.dir_ + "/images_other";
  auto const facts = p.say("own", "facts", ia);
  same(facts, p.say("other", "facts", ia), "facts-differ");
  same(p.say("own", "write", ia), p.say("other", "write", ib), "values-differ");
  auto const seen = p.say("own", "read", ia);
  same(seen, p.say("other", "read", ia), "image-of-library");  // the library's images
  same(seen, p.say("own", "read", ib), "image-of-other");  // the other one's images
  same(seen, p.say("other", "read", ib), "image-differs");
  if (!every) ev("images_exchanged", static_cast<std::uint64_t>(n) * 24U);
  distinct(fnv(seen.data(), seen.size()));
  distinct(fnv(facts.data(), facts.size()));
  fs::remove_all(p.dir_);
}

// what users of the single header get (and what the project's build makes)
std::string single(std::string const& dir) {
  auto const inc = repo + "/include";
  auto const h = dir + "/single/cista_single.h";
  fs::create_directories(dir + "/single");
  run_tool("uniter", {repo + "/LICENSE", inc, inc + "/cista/serialization.h", inc + "/cista/reflection/comparable.h", inc + "/cista/reflection/printable.h", inc + "/cista/reflection/member_index.h"}, h);
  return "-DSINGLE=1 -I'" + dir + "/single'";
}
std::string regenerated(std::string const& dir, std::size_t const max) {
  copy_headers(dir + "/regenerated");
  auto const h = dir + "/regenerated/cista/reflection/to_tuple.h";
  auto const text = run_tool("to_tuple_generator", {std::to_string(max)}, dir + "/to_tuple.h");
  spill(h, text);
  return "-I'" + dir + "/regenerated'";
}
std::string hash_flags(rng& r) {
  switch (r.below(4)) {
    case 0: return "-DCISTA_XXH3=1 -I'" + repo + "/tools/xxh3'";
    case 1: return "-DCISTA_WYHASH=1 -I'" + repo + "/tools/wyhash'";
    case 2: return "-DCISTA_FNV1A=1";
    default: return "";
  }
}
// structures of 1 + class, 6 + class, .. members
void arities(rng& r, std::size_t const cls) {
  compare(r, "raw", "", 64U, EVERY + cls, "a regenerated reflection header", [&](std::string const& dir) { return regenerated(dir, 64U); });
  static char const* const names[] = {"arities_0", "arities_1", "arities_2", "arities_3", "arities_4"};
  ev(names[cls]);
  ev("every_arity");
}
}  // namespace

VP_SUITE_NOBALANCE(single_header, 3) {
  auto const flags = hash_flags(r);
  compare(r, r.coin() ? "raw" : "offset", flags, 20U, 0U, "the single header", [](std::string const& dir) { return single(dir); });
  ev("single_header_programs");
  if (flags.find("-I") != std::string::npos) ev("single_header_with_external_hash");
}
VP_SUITE_NOBALANCE(regenerated_header, 3) {
  // as many members as it is made for, sometimes the library's own limit
  auto const max = r.chance(1, 3) ? 64U : 6U + r.below(25);
  compare(r, r.coin() ? "raw" : "offset", "", max, r.coin() ? max : 0U, "a regenerated reflection header", [&](std::string const& dir) { return regenerated(dir, max); });
  ev("regenerated_header_programs");
}

// (the sizes are split: all 64 in one program take half a minute to compile)
VP_SUITE_NOBALANCE(every_arity_0, 1) { arities(r, 0U); }
VP_SUITE_NOBALANCE(every_arity_1, 1) { arities(r, 1U); }
VP_SUITE_NOBALANCE(every_arity_2, 1) { arities(r, 2U); }
VP_SUITE_NOBALANCE(every_arity_3, 1) { arities(r, 3U); }
VP_SUITE_NOBALANCE(every_arity_4, 1) { arities(r, 4U); }
