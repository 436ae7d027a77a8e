// P25: headers that tools write - the single header and the regenerated reflection header - against the library's own.
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "common.h"

namespace fs = std::filesystem;
using namespace vp;

namespace {

std::string const repo = VP_REPO_DIR;

// commands run in the scratch directory; -> exit code
int sh(std::string const& cmd) {
  auto const rc = std::system(cmd.c_str());
  return WIFEXITED(rc) ? WEXITSTATUS(rc) : 128;
}
std::string slurp(std::string const& p) {
  std::ifstream f{p, std::ios::binary};
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
std::string scratch(char const* name) {
  auto const* d = std::getenv("VP_SCRATCH");
  return std::string{d == nullptr ? "/tmp" : d} + "/" + name + std::to_string(::getpid()) + "-" + std::to_string(st().case_no);
}
std::string tail(std::string const& s) {
  auto const at = s.find("error");
  return at == std::string::npos ? s.substr(0U, 300U) : s.substr(at, 300U);
}
// a tool, built under the sanitizers the first time it is needed
std::string const& tool(std::string const& name) {
  static std::map<std::string, std::string> built;
  auto& exe = built[name];
  if (exe.empty()) {
    auto const* d = std::getenv("VP_SCRATCH");
    exe = std::string{d == nullptr ? "/tmp" : d} + "/" + name + std::to_string(::getpid());
    auto const rc = sh("clang++-18 -std=c++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all '" + repo + "/tools/" + name + "/" + name + ".cc' -o '" + exe + "' > '" + exe + ".log' 2>&1");
    VP_CHECK(rc == 0, "tool-build", "%s does not compile: %s", name.c_str(), tail(slurp(exe + ".log")).c_str());
  }
  return exe;
}
// what it writes
std::string run_tool(std::string const& name, std::vector<std::string> const& args, std::string const& out) {
  std::string cmd = "'" + tool(name) + "'";
  for (auto const& a : args) cmd += " '" + a + "'";
  auto const rc = sh(cmd + " > '" + out + "' 2> '" + out + ".err'");
  VP_CHECK(rc == 0, "tool-failed", "%s ended with %d: %s", name.c_str(), rc, tail(slurp(out + ".err")).c_str());
  return slurp(out);
}
void spill(std::string const& p, std::string const& text) {
  fs::create_directories(fs::path{p}.parent_path());
  std::ofstream{p, std::ios::binary} << text;
}
std::vector<std::string> lines(std::string const& s) {
  std::vector<std::string> v;
  std::istringstream f{s};
  for (std::string l; std::getline(f, l);) v.push_back(l);
  return v;
}

// --------------------------------------------------------------- random trees of headers
// What the preprocessor makes of them, as text: every header once, where it is first included.
struct tree {
  struct item {
    int inc;  // header included, or -1: text
    std::string text;
  };
  std::vector<std::string> name;
  std::vector<std::vector<item>> body;

  void expand(std::size_t const i, std::set<std::size_t>& seen, std::vector<std::string>& out) const {
    if (!seen.insert(i).second) return;
    for (auto const& x : body[i]) {
      if (x.inc >= 0) expand(static_cast<std::size_t>(x.inc), seen, out);
      else out.push_back(x.text);
    }
  }
};

}  // namespace

#if VP_PART == 0
VP_SUITE_NOBALANCE(trees, 1) {
  auto const base = scratch("tree");
  auto const root = base + "/include";
  tree t;
  auto const n = 1U + r.below(r.chance(1, 6) ? 60U : 12U);
  static char const* const dirs[] = {"cista/", "cista/containers/", "", "a/b/c/", "cista/reflection/"};
  for (auto i = 0U; i != n; ++i) {
    auto const is_long = r.chance(1, 6);
    if (is_long) ev("long_header_names");
    t.name.push_back(dirs[r.below(5)] + std::string(is_long ? 20U + r.below(180U) : 0U, 'd') + (is_long ? "/" : "") + "h" + std::to_string(i) + (r.chance(1, 5) ? ".hpp" : ".h"));
  }
  t.body.resize(n);
  unsigned cycles = 0U, incs = 0U;
  std::vector<std::string> files;
  for (auto i = 0U; i != n; ++i) {
    std::string file;
    auto const eol = std::string{"\n"};
    auto const put = [&](std::string const& l) { file += l + eol; };
    if (!r.chance(1, 10)) put(r.chance(1, 10) ? "#pragma once  // guard" : "#pragma once");
    auto const m = r.below(12);
    for (auto k = 0U; k != m; ++k) {
      if (r.coin()) {
        auto const j = r.chance(3, 4) && i + 1U < n ? i + 1U + r.below(n - i - 1U) : r.below(n);
        if (j <= i) ++cycles;
        ++incs;
        t.body[i].push_back({static_cast<int>(j), {}});
        static char const* const tails[] = {"", "", "", "", "  // why", " ", "\t// IWYU pragma: export", "  // like \"that\" one"};
        put("#include \"" + t.name[j] + "\"" + tails[r.below(8)]);
      } else {
        std::string l;
        auto const kind = r.below(14);
        if (kind == 13U) {  // not part of the tree: stays an include
          l = std::string{"#include \""} + (r.coin() ? "xxh3" : "fmt/ostream") + ".h\"" + (r.coin() ? "" : "  // external");
          ev("external_headers");
        }
        switch (kind) {
          case 0: l = "#include <vector>"; break;
          case 1: l = ""; break;
          case 2: l = "// #include \"not/included.h\""; break;
          case 3: l = "auto const s" + std::to_string(i) + "_" + std::to_string(k) + " = \"#include \\\"x.h\\\"\";"; break;
          case 4: l = "#define M(x) \\"; break;
          case 5: l = "#if defined(_WIN32)"; break;
          case 6: l = "#endif"; break;
          case 7: l = std::string(r.below(r.chance(1, 20) ? 70000U : 300U), 'x'); break;
          case 8: l = "  int a;\t// caf\xc3\xa9  "; break;
          case 9: l = "#pragma warning(push)"; break;
          case 10: l = "#pragma"; break;
          case 13: break;
          default: l = "int const v" + std::to_string(i) + "_" + std::to_string(k) + " = " + std::to_string(r.next()) + ";";
        }
        t.body[i].push_back({-1, l});
        put(l);
      }
    }
    if (!file.empty() && file.back() == '\n' && file.size() > 1U && r.chance(1, 5)) {
      file.pop_back();  // no newline at the end of the file
      if (file.empty() || file.back() == '\n') file += "\n";
      ev("no_newline_at_end");
    }
    spill(root + "/" + t.name[i], file);
    files.push_back(file);
  }
  std::string license;
  for (auto k = r.below(6); k != 0U; --k) license += r.chance(1, 4) ? "\n" : "License text " + std::to_string(r.next()) + "\n";
  spill(base + "/LICENSE", license);
  std::vector<std::string> args{base + "/LICENSE", root};
  std::set<std::size_t> seen;
  std::vector<std::string> want;
  for (auto k = 1U + r.below(4); k != 0U; --k) {
    auto const i = r.below(n);
    if (seen.count(i) != 0U) ev("inputs_already_included");
    args.push_back(root + "/" + t.name[i]);
    t.expand(i, seen, want);
  }
  op("%u headers, %u includes, %u against the order", static_cast<unsigned>(n), incs, cycles);
  auto const out = run_tool("uniter", args, base + "/out.h");
  auto const got = lines(out);
  // the licence in a comment, one guard, then the text
  std::vector<std::string> head{"/*"};
  for (auto const& l : lines(license)) head.push_back(l);
  head.push_back("*/");
  std::size_t at = 0U;
  for (auto const& h : head) {
    VP_CHECK(at < got.size() && got[at] == h, "licence", "line %zu is '%.80s', expected '%.80s'", at, at < got.size() ? got[at].c_str() : "(end)", h.c_str());
    ++at;
  }
  while (at < got.size() && got[at].empty()) ++at;
  VP_CHECK(at < got.size() && got[at] == "#pragma once", "guard", "the single header has no guard");
  ++at;
  // (empty lines do not matter)
  std::vector<std::string> text;
  for (; at < got.size(); ++at) if (!got[at].empty()) text.push_back(got[at]);
  want.erase(std::remove(want.begin(), want.end(), std::string{}), want.end());
  for (std::size_t i = 0U; i != std::max(text.size(), want.size()); ++i) {
    VP_CHECK(i < text.size(), "text-lost", "the single header ends after %zu of %zu lines, '%.80s' is missing", text.size(), want.size(), want[i].c_str());
    VP_CHECK(i < want.size(), "text-extra", "there is a line that should not be: '%.80s'", text[i].c_str());
    VP_CHECK(text[i] == want[i], "text-differs", "line %zu is '%.80s', expected '%.80s'", i, text[i].c_str(), want[i].c_str());
  }
  ev("trees_united");
  ev("headers_united", seen.size());
  if (cycles != 0U) ev("trees_with_cycles");
  if (seen.size() > 20U) ev("large_trees");
  distinct(fnv(out.data(), out.size()));
  fs::remove_all(base);
}
#endif

#if VP_PART == 1
#include "p25_programs.h"
#endif

VP_MAIN()
