// Every way of building a program with the library gives the same grids: any public header first, alone, twice, in any
// order, in any number of translation units; implementation headers in one of them or the compiled library; gcc or clang,
// C++17 or later, optimised or not, with further code-generation options, assertions on or off; used before main, in main, or while static objects are destroyed.
#include <snippets.hpp>
struct Scratch {
  std::string d;
  Scratch() { std::string t = exedir() + "/c31-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (mkdtemp(b.data())) d = b.data(); }
  ~Scratch() { if (d.find("/c31-") != std::string::npos) { std::error_code e; for (auto& f : fs::directory_iterator(d, e)) ::unlink(f.path().c_str()); ::rmdir(d.c_str()); } }
};
// further flags; those from ABI on change the layout of standard types, so the library is built into the program
static const char* EXTRA[] = {"", "-march=native", "-funsigned-char", "-fvisibility=hidden", "-fno-inline", "-ffp-contract=off", "-fwrapv -fno-strict-aliasing", "-flto", "-fopenmp", "-DINTEGRATORXX_DISABLE_SANITY_CHECK", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_USE_CXX11_ABI=0"};
static constexpr int64_t NX = int64_t(sizeof(EXTRA) / sizeof(EXTRA[0])), ABI = 10;
struct P {
  struct TU {
    int64_t when = 0;            // 0: in main; 1: before main and in main; 2: in main and while static objects are destroyed
    std::vector<int64_t> hs;     // headers in order, repeats allowed
    template <class A> void io(A& a) { a("when", when); a("hs", hs); }
  };
  struct Case {
    int64_t cxx = 0, std = 0, opt = 0, extra = 0;   // of the program
    int64_t lib = 0;                     // 0: header-only; else compiled library built with configuration lib-1
    int64_t place = 0, implfirst = 0, implkind = 0;
    std::vector<TU> tus;
    template <class A> void io(A& a) { a("cxx", cxx); a("std", std); a("opt", opt); a("lib", lib); a("place", place); a("implfirst", implfirst); a("implkind", implkind); a("extra", extra); a("tus", tus); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    c.cxx = s.range(0, 1); c.std = s.range(0, 2); c.opt = s.range(0, 3); c.lib = s.range(0, 4); c.extra = s.coin() ? 0 : s.range(0, NX - 1);
    c.place = s.range(0, 2); c.implfirst = s.range(0, 1); c.implkind = s.range(0, 5);
    const bool heavy = s.range(0, 5) == 5;
    auto tu = [heavy](pbt::Src& t) {
      TU u;
      u.when = t.range(0, 2);
      std::vector<int64_t> ok;
      for (int64_t k = 0; k < NS; ++k) if (heavy || !SN[k].heavy) ok.push_back(k);
      for (int64_t i = t.range(1, 5); i > 0; --i) u.hs.push_back(t.pick(ok));
      if (heavy && t.coin()) u.hs.push_back(t.range(NS - 3, NS - 1));
      return u;
    };
    c.tus = pbt::vec<TU>(s, 1, heavy ? 2 : 3, tu);
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    // every header on its own, twice, and in two translation units, with either compiler
    for (int64_t heavy = 0; heavy < 2; ++heavy)
      for (int64_t k = NS - 1; k >= 0; --k)
        for (int64_t v = 0; v < 2 && SN[k].heavy == heavy; ++v) {
          Case c;
          c.cxx = v; c.std = (k + v) % 3; c.opt = (k + v) % 4; c.lib = SN[k].impl == 3 ? v * 2 : (k + v) % 2 ? 1 + (k + v) % 4 : 0; c.implkind = k % 6; c.implfirst = v; c.place = v; c.extra = k % (2 * NX) < NX ? k % NX : 0; if (c.extra >= ABI) c.lib = 0;
          TU u; u.hs = {k}; u.when = 1; c.tus.push_back(u);
          u.hs = {k, k}; u.when = 2; c.tus.push_back(u);
          if (!emit(c)) return;
        }
    // most of the library in one program, under each of the flags that change what is compiled most
    for (int64_t ex : {8, 1})
      for (int64_t half = 0; half < 2; ++half) {
        Case c;
        c.opt = 2; c.extra = ex; c.std = half; c.lib = 0; c.implkind = 0;
        TU u; u.when = 2;
        for (int64_t k = half; k < NS; k += 2) if (!SN[k].heavy) u.hs.push_back(k);
        c.tus.push_back(u);
        if (!emit(c)) return;
      }
  }
  static std::string inc(const std::string& h) { return "#include <integratorxx/" + h + ">\n"; }
  // the library as CMake builds it, one archive per configuration, built once
  static Out library(int64_t cfg, std::string& path) {
    const std::string d = exedir();
    path = d + "/c31lib" + std::to_string(cfg) + ".a";
    int fd = open((path + ".lock").c_str(), O_CREAT | O_RDWR, 0644);
    flock(fd, LOCK_EX);
    Out o{0, ""};
    if (!fs::exists(path)) {
      std::string cmd = "set -e; T=$(mktemp -d " + d + "/c31l-XXXXXX); for f in " + repo() + "/src/*.cxx; do " + CXX[cfg & 1] + " -std=c++17 -w " + OPT[(cfg >> 1) & 1] + " -I" + repo() +
                        "/include -c $f -o $T/$(basename $f).o; done; ar rc $T/a.a $T/*.o; mv $T/a.a " + path + "; rm -f $T/*.o; rmdir $T";
      o = sh(cmd);
    }
    close(fd);
    return o;
  }
  static pbt::Result check(const Case& c0, pbt::Ctx& x) {
    Case c = c0;
    if (c.tus.empty() || c.lib < 0 || c.lib > 4 || c.cxx < 0 || c.cxx > 1 || c.std < 0 || c.std > 2 || c.opt < 0 || c.opt > 3 || c.extra < 0 || c.extra >= NX) return pbt::pass();
    if (c.extra >= ABI) c.lib = 0;
    if ((c.extra == 7 || c.extra == 8) && c.cxx) c.extra = 0;   // no LTO plug-in or OpenMP runtime for clang here
    if (c.extra) x.label(EXTRA[c.extra]);
    size_t nh = 0;
    int need = 0;   // bits: radial, angular, spherical
    for (auto& t : c.tus) for (auto h : t.hs) { if (h < 0 || h >= NS) return pbt::pass(); ++nh; if (SN[h].impl) need |= 1 << (SN[h].impl - 1); }
    x.nontrivial = nh >= 2;
    x.label(std::string(CXX[c.cxx]) + " " + STD[c.std] + " " + OPT[c.opt]);
    x.label(need ? c.lib ? "compiled library" : "header-only" : "no factory needed");
    if (c.tus.size() > 1) x.label("several translation units");
    Scratch sc;
    if (sc.d.empty()) return pbt::pass();
    std::string cmd = std::string("cd ") + sc.d + "; ulimit -v 6000000; set -e; ", objs, decl, calls;
    const std::string flags = std::string(CXX[c.cxx]) + " " + STD[c.std] + " -w " + OPT[c.opt] + " " + EXTRA[c.extra] + " -I" + repo() + "/include ";
    const size_t place = size_t(c.place) % c.tus.size();
    for (size_t t = 0; t < c.tus.size(); ++t) {
      auto& u = c.tus[t];
      std::string src, late, fn, impl;
      if (need && !c.lib && t == place) {
        std::vector<std::string> ih = {"radial_factory", "s2_factory", "unpruned_grid", "pruned_grid"};
        if (c.implkind == 0) ih = {"impl"};
        else if (need == 1) ih = {"radial_factory"};
        else if (need == 2 && c.implkind < 3) ih = {"s2_factory"};
        else { std::rotate(ih.begin(), ih.begin() + c.implkind % 4, ih.end()); if (c.implkind == 5) ih.push_back("impl"); }
        for (auto& h : ih) impl += inc("generators/impl/" + h + ".hpp");
      }
      if (c.implfirst) src += impl;
      std::set<int64_t> done;
      std::string name = "tu" + std::to_string(t);
      for (auto h : u.hs) {
        src += inc(SN[h].hdr);
        if (!done.insert(h).second) continue;
        std::istringstream l(SN[h].late); std::string w;
        while (l >> w) late += inc(w);
        fn += std::string("static void f_") + SN[h].name + "(std::vector<double>& o) { using namespace IntegratorXX; " + SN[h].code + " }\n";
      }
      if (!c.implfirst) src += impl;
      src += late + "#include <cstdio>\n#include <vector>\n" + fn + "void " + name + "(int w) {\n";
      for (auto h : done)
        src += std::string("  { std::vector<double> o; f_") + SN[h].name + "(o); std::printf(\"" + std::to_string(h) + " %d %zu\", w, o.size()); for (double v : o) std::printf(\" %a\", v); std::printf(\"\\n\"); }\n";
      src += "}\n";
      if (u.when == 1) src += "static const int early = (" + name + "(1), 0);\n";
      if (u.when == 2) src += "namespace { struct Late { ~Late() { " + name + "(2); } } atexit_; }\n";
      std::ofstream(sc.d + "/" + name + ".cxx") << src;
      decl += "void " + name + "(int);\n";
      calls += "  " + name + "(0);\n";
      cmd += flags + "-c " + name + ".cxx -o " + name + ".o; ";
      objs = (t % 2 ? objs + " " + name + ".o" : name + ".o " + objs);
    }
    std::ofstream(sc.d + "/main.cxx") << decl << "int main() {\n" << calls << "}\n";
    std::string lib;
    if (need && c.lib) {
      Out o = library(c.lib - 1, lib);
      if (o.rc) { o = library(c.lib - 1, lib); if (o.rc) { PBT_REQUIRE(!verdict(o), "the library itself does not compile: %s", firsterr(o.text).c_str()); x.label("inconclusive"); return pbt::pass(); } }
    }
    cmd += flags + "main.cxx " + objs + " " + lib + " -o p";
    Out o = sh(cmd);
    if (o.rc && !verdict(o)) o = sh(cmd);
    if (o.rc) {
      PBT_REQUIRE(!verdict(o), "a program of these headers does not build: %s", firsterr(o.text).c_str());
      x.label("inconclusive");
      return pbt::pass();
    }
    o = sh("cd " + sc.d + "; ulimit -t 60; ./p");
    PBT_REQUIRE(o.rc == 0, "the program ended with status %d: %s", o.rc, o.text.substr(0, 300).c_str());
    // what must have been printed
    std::map<std::pair<int64_t, int>, int> want;
    for (auto& u : c.tus) {
      std::set<int64_t> d(u.hs.begin(), u.hs.end());
      for (auto h : d) { ++want[{h, 0}]; if (u.when) ++want[{h, int(u.when)}]; }
    }
    std::istringstream in(o.text);
    std::string l;
    while (std::getline(in, l)) {
      if (c.opt == 3 && !(l.size() && isdigit((unsigned char)l[0]))) continue;   // progress messages, as asked for
      std::istringstream ln(l);
      int64_t h; int w; size_t n;
      PBT_REQUIRE(bool(ln >> h >> w >> n) && h >= 0 && h < NS, "unexpected output: %s", l.substr(0, 200).c_str());
      --want[{h, w}];
      static std::map<int64_t, Nums> cache;
      if (!cache.count(h)) SN[h].ref(cache[h]);
      const Nums& r = cache[h];
      PBT_REQUIRE(n == r.size(), "%s: %zu numbers instead of %zu (phase %d)", SN[h].name, n, r.size(), w);
      for (size_t i = 0; i < n; ++i) {
        std::string tk; ln >> tk;
        double v = strtod(tk.c_str(), nullptr);
        PBT_REQUIRE(std::abs(v - r[i]) <= 1e-11 * std::abs(r[i]) + 1e-13, "%s: number %zu is %.17g instead of %.17g (phase %d)", SN[h].name, i, v, r[i], w);
      }
    }
    for (auto& [k, v] : want) PBT_REQUIRE(v == 0, "%s ran %s often than expected in phase %d", SN[k.first].name, v > 0 ? "less" : "more", k.second);
    return pbt::pass();
  }
};
PBT_MAIN(P)
