// Programs written, built and run by a check: code snippets with their results computed in this process, and a shell.
#pragma once
#include <pbt.hpp>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <filesystem>
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/quadratures/all.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/util/legendre.hpp>
#include <integratorxx/util/bound_transform.hpp>
namespace fs = std::filesystem;
using namespace IntegratorXX;
using Nums = std::vector<double>;
namespace refs {
#define SNIP(name, w, im, hdr, late, ...) static void name(Nums& o) { __VA_ARGS__ }
#include "c31_snips.inc"
#undef SNIP
}
struct Snip { const char* name; int heavy, impl; const char *hdr, *late, *code; void (*ref)(Nums&); };
static const Snip SN[] = {
#define SNIP(name, w, im, hdr, late, ...) {#name, w, im, hdr, late, #__VA_ARGS__, refs::name},
#include "c31_snips.inc"
#undef SNIP
};
static constexpr int64_t NS = int64_t(sizeof(SN) / sizeof(SN[0]));
static std::string repo() { const char* r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
static std::string exedir() { return fs::read_symlink("/proc/self/exe").parent_path().string(); }
static const char* CXX[2] = {"g++", "clang++"};
static const char* STD[3] = {"-std=c++17", "-std=c++20", "-std=c++23"};
static const char* OPT[4] = {"-O0", "-O2 -DNDEBUG", "-O0 -D_GLIBCXX_ASSERTIONS", "-O0 -DINTEGRATORXX_VERBOSITY_LEVEL=1"};
struct Out { int rc; std::string text; };
static Out sh(const std::string& cmd) {
  Out o{-1, ""};
  FILE* f = popen(("exec 2>&1; " + cmd).c_str(), "r");
  if (!f) return o;
  char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) if (o.text.size() < 200000) o.text.append(b, n);
  int st = pclose(f);
  o.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000;
  return o;
}
static std::string firsterr(const std::string& t) {
  std::istringstream in(t); std::string l;
  while (std::getline(in, l)) if (l.find("error:") != std::string::npos || l.find("multiple definition") != std::string::npos || l.find("undefined reference") != std::string::npos) return l;
  return t.substr(0, 300);
}
// the compiler's verdict on the program, as opposed to a compiler that was killed or ran out of room
static bool verdict(const Out& o) {
  if (o.rc != 1) return false;
  for (const char* k : {"internal compiler error", "No space left", "Killed", "out of memory", "annot allocate memory", "emporary file"}) if (o.text.find(k) != std::string::npos) return false;
  return o.text.find("error:") != std::string::npos || o.text.find("multiple definition") != std::string::npos || o.text.find("undefined reference") != std::string::npos;
}
