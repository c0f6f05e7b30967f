// Every way of taking the library into a CMake project gives the same grids: as a subproject, through FetchContent, from
// its build tree, or installed (also under other directory names, staged, or moved afterwards) and found again, with or
// without CMake; static, shared or header-only; and an installed copy needs nothing of the tree it was built from.
#include <snippets.hpp>
struct P {
  struct TU {
    std::vector<int64_t> hs;
    template <class A> void io(A& a) { a("hs", hs); }
  };
  struct Case {
    int64_t kind = 0;                  // 0 header-only, 1 static, 2 shared
    int64_t bt = 0, cxx = 0;           // of the library
    int64_t way = 0;                   // 0 subproject, 1 FetchContent, 2 build tree, 3 installed, 4 installed and moved, 5 staged with DESTDIR and moved, 6 installed, used without CMake
    int64_t incdir = 0, libdir = 0;    // directory names of the installation
    int64_t gen = 0, std = 0, appbt = 0, appcxx = 0, ver = 0, twice = 0, implfirst = 0;
    std::vector<TU> tus;
    template <class A> void io(A& a) {
      a("kind", kind); a("bt", bt); a("cxx", cxx); a("way", way); a("incdir", incdir); a("libdir", libdir); a("gen", gen); a("std", std);
      a("appbt", appbt); a("appcxx", appcxx); a("ver", ver); a("twice", twice); a("implfirst", implfirst); a("tus", tus);
    }
  };
  static constexpr const char* BT[3] = {"", "Debug", "Release"};
  static constexpr const char* INCD[4] = {"", "inc", "include/integratorxx-1", "share/h d"};
  static constexpr const char* LIBD[3] = {"", "lib64", "lib/x86_64-linux-gnu"};
  static constexpr const char* WAY[7] = {"subproject", "FetchContent", "build tree", "installed", "installed and moved", "staged and moved", "installed, without CMake"};
  static constexpr const char* KIND[3] = {"header-only", "static", "shared"};
  static Case gen(pbt::Src& s, int tier) {
    Case c;
    c.kind = s.range(0, 2); c.way = s.range(0, 6);
    // compiled libraries are built once per configuration, so only a few of those are used
    c.bt = c.kind == 0 ? s.range(0, 2) : tier ? s.range(0, 2) : 0;
    c.cxx = c.kind == 0 || tier ? s.range(0, 1) : c.kind - 1;
    if (c.kind && c.way < 2 && s.range(0, tier ? 1 : 5)) c.kind = 0;   // a subproject compiles the library again
    c.incdir = s.range(0, 3); c.libdir = s.range(0, 2); c.gen = s.range(0, 1); c.std = s.range(0, 3);
    c.appbt = s.range(0, 2); c.appcxx = s.range(0, 1); c.ver = s.range(0, 2); c.twice = s.range(0, 1); c.implfirst = s.range(0, 1);
    std::vector<int64_t> ok, fac;
    for (int64_t k = 0; k < NS; ++k) { if (SN[k].impl) fac.push_back(k); else if (!SN[k].heavy) ok.push_back(k); }
    for (int64_t t = s.range(1, 2); t > 0; --t) {
      std::vector<int64_t> h;
      for (int64_t i = s.range(1, 3); i > 0; --i) h.push_back(s.range(0, 2) ? s.pick(ok) : s.pick(fac));
      c.tus.push_back({h});
    }
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    std::vector<int64_t> fac;
    for (int64_t k = 0; k < NS; ++k) if (SN[k].impl) fac.push_back(k);
    for (int64_t way = 6; way >= 0; --way)
      for (int64_t kind = 2; kind >= 0; --kind) {
        if (way < 2 && kind == 2 - way) continue;
        Case c;
        c.kind = kind; c.way = way; c.cxx = kind == 2; c.incdir = (way + kind) % 4; c.libdir = (way + kind) % 3; c.gen = way % 2; c.std = (way + 2 * kind) % 4;
        c.appbt = kind; c.appcxx = (way / 2) % 2; c.ver = way % 3; c.twice = kind % 2; c.implfirst = way % 2;
        c.tus = {TU{{fac[size_t(way) % fac.size()], fac[size_t(kind + way + 1) % fac.size()]}}, TU{{fac[size_t(way + 2) % fac.size()], way % 3}}};
        if (!emit(c)) return;
      }
    // every header from an installed copy, nothing else at hand
    for (int64_t k = 0; k < NS; ++k) {
      Case c;
      c.way = 3 + k % 4; c.incdir = k % 4; c.libdir = k % 3; c.gen = k % 2; c.kind = SN[k].impl ? k % 3 : 0; c.cxx = c.kind == 2; c.tus = {TU{{k}}};
      if (!emit(c)) return;
    }
  }
  static std::string q(const std::string& s) { return "'" + s + "'"; }
  static bool said(const Out& o) {   // the tools' verdict, as opposed to a tool that was killed or ran out of room
    if (o.rc == 0 || o.rc > 2) return false;
    for (const char* k : {"internal compiler error", "No space left", "Killed", "out of memory", "annot allocate memory", "emporary file", "Resource temporarily"}) if (o.text.find(k) != std::string::npos) return false;
    for (const char* k : {"CMake Error", "error:", "multiple definition", "undefined reference", "cannot find -l"}) if (o.text.find(k) != std::string::npos) return true;
    return false;
  }
  static std::string why(const Out& o) {
    std::istringstream in(o.text); std::string l;
    while (std::getline(in, l)) for (const char* k : {"error:", "multiple definition", "undefined reference", "cannot find -l"}) if (l.find(k) != std::string::npos) return l;
    const size_t p = o.text.find("CMake Error");
    std::string t = o.text.substr(p == std::string::npos ? 0 : p, 400);
    for (auto& ch : t) if (ch == '\n') ch = ' ';
    return t;
  }
  struct Dir {
    std::string d;
    Dir() { std::string t = exedir() + "/c34-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (mkdtemp(b.data())) d = b.data(); }
    ~Dir() { std::error_code e; if (d.find("/c34-") != std::string::npos) fs::remove_all(d, e); }
  };
  // a copy of the tree, so that nothing is ever written into the repository
  static std::string source() {
    const std::string d = exedir() + "/c34 src";
    int fd = open((exedir() + "/c34src.lock").c_str(), O_CREAT | O_RDWR, 0644);
    flock(fd, LOCK_EX);
    if (!fs::exists(d)) sh("set -e; T=$(mktemp -d " + exedir() + "/c34s-XXXXXX); cp -r " + repo() + "/CMakeLists.txt " + repo() + "/cmake " + repo() + "/include " + repo() + "/src $T/; mv $T " + q(d));
    close(fd);
    return d;
  }
  static std::string configure(const Case& c) {
    std::string o = " -DINTEGRATORXX_ENABLE_TESTS=OFF -DCMAKE_CXX_FLAGS=-w -DCMAKE_BUILD_TYPE=" + std::string(BT[c.bt]) + " -DCMAKE_CXX_COMPILER=" + CXX[c.cxx] + " -DINTEGRATORXX_HEADER_ONLY=" + (c.kind ? "OFF" : "ON") + " -DBUILD_SHARED_LIBS=" + (c.kind == 2 ? "ON" : "OFF");
    return o;
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    auto in = [](int64_t v, int64_t n) { return v >= 0 && v < n; };
    if (!in(c.kind, 3) || !in(c.bt, 3) || !in(c.cxx, 2) || !in(c.way, 7) || !in(c.incdir, 4) || !in(c.libdir, 3) || !in(c.std, 4) || !in(c.appbt, 3) || !in(c.appcxx, 2) || !in(c.ver, 3) || c.tus.empty()) return pbt::pass();
    bool need = false;
    for (auto& t : c.tus) for (auto h : t.hs) { if (!in(h, NS)) return pbt::pass(); need |= SN[h].impl > 0; }
    x.nontrivial = need;
    x.label(WAY[c.way]); x.label(KIND[c.kind]);
    if (c.way > 2 && c.incdir) x.label("other header directory");
    Dir sc;
    const std::string src = source();
    if (sc.d.empty() || !fs::exists(src)) { x.label("inconclusive"); return pbt::pass(); }
    const std::string app = sc.d + "/app", gen = c.gen ? " -G Ninja" : " -G 'Unix Makefiles'";
    fs::create_directory(app);
    // ---- the library: built once per configuration, installed where this case wants it
    std::string prefix, bdir = exedir() + "/c34b-" + std::to_string(c.kind) + std::to_string(c.bt) + std::to_string(c.cxx);
    const std::string inc = *INCD[c.incdir] ? INCD[c.incdir] : "include", lib = *LIBD[c.libdir] ? LIBD[c.libdir] : "lib";
    auto run = [&](const std::string& cmd, Out& o) {   // once more when a tool failed for reasons of its own
      o = sh(cmd);
      if (o.rc && !said(o)) o = sh(cmd);
      return o.rc == 0;
    };
    Out o;
    if (c.way >= 2) {
      int fd = open((bdir + ".lock").c_str(), O_CREAT | O_RDWR, 0644);
      flock(fd, LOCK_EX);
      prefix = sc.d + "/in st";
      std::string cmd = "set -e; export CMAKE_BUILD_PARALLEL_LEVEL=4; cmake -G Ninja -S " + q(src) + " -B " + q(bdir) + configure(c) + " -DCMAKE_INSTALL_INCLUDEDIR=" + q(inc) + " -DCMAKE_INSTALL_LIBDIR=" + q(lib) +
                        " -DCMAKE_INSTALL_PREFIX=" + q(prefix) + "; cmake --build " + q(bdir) + "; ";
      if (c.way == 5) cmd += "DESTDIR=" + q(sc.d + "/stage") + " cmake --install " + q(bdir) + "; ";
      else if (c.way != 2) cmd += "cmake --install " + q(bdir) + "; ";
      const bool ok = run(cmd, o);
      close(fd);
      if (!ok) { PBT_REQUIRE(!said(o), "the library (%s) does not build or install: %s", KIND[c.kind], why(o).c_str()); x.label("inconclusive"); return pbt::pass(); }
      std::error_code e;
      if (c.way == 4) { fs::rename(prefix, sc.d + "/moved", e); prefix = sc.d + "/moved"; }
      if (c.way == 5) { fs::rename(sc.d + "/stage" + prefix, sc.d + "/moved", e); prefix = sc.d + "/moved"; }
      PBT_REQUIRE(!e, "nothing was installed where it should be (%s)", WAY[c.way]);
    }
    // ---- the program
    std::string main = "#include <cstdio>\n", calls, files = "main.cxx";
    for (size_t t = 0; t < c.tus.size(); ++t) {
      std::string s, late, fn, impl = need && c.kind == 0 && t == 0 ? "#include <integratorxx/generators/impl/impl.hpp>\n" : "", name = "tu" + std::to_string(t);
      if (c.implfirst) s += impl;
      std::set<int64_t> done;
      for (auto h : c.tus[t].hs) {
        s += std::string("#include <integratorxx/") + SN[h].hdr + ">\n";
        if (!done.insert(h).second) continue;
        std::istringstream l(SN[h].late); std::string w;
        while (l >> w) late += "#include <integratorxx/" + w + ">\n";
        fn += std::string("static void f_") + SN[h].name + "(std::vector<double>& o) { using namespace IntegratorXX; " + SN[h].code + " }\n";
      }
      if (!c.implfirst) s += impl;
      s += late + "#include <cstdio>\n#include <vector>\n" + fn + "void " + name + "() {\n";
      for (auto h : done)
        s += std::string("  { std::vector<double> o; f_") + SN[h].name + "(o); std::printf(\"" + std::to_string(h) + " %zu\", o.size()); for (double v : o) std::printf(\" %a\", v); std::printf(\"\\n\"); }\n";
      std::ofstream(app + "/" + name + ".cxx") << s << "}\n";
      main += "void " + name + "();\n"; calls += "  " + name + "();\n"; files += " " + name + ".cxx";
    }
    std::ofstream(app + "/main.cxx") << main << "int main() {\n" << calls << "}\n";
    std::string build, p;
    if (c.way == 6) {
      static const char* SF[4] = {"-std=c++17", "-std=c++17", "-std=c++17", "-std=c++20"};
      build = "set -e; cd " + q(app) + "; " + CXX[c.appcxx] + " " + SF[c.std] + " -w -MD -I " + q(prefix + "/" + inc) + " " + files + (c.kind ? " -L " + q(prefix + "/" + lib) + " -lintegratorxx" : "") + " -o p";
      p = app + "/p";
    } else {
      static const char* SF[4] = {"", "set(CMAKE_CXX_STANDARD 14)\n", "set(CMAKE_CXX_STANDARD 17)\n", "set(CMAKE_CXX_STANDARD 20)\n"};
      static const char* VER[3] = {"", " 1.0", " 1"};
      std::string find = std::string("find_package(IntegratorXX") + VER[c.ver] + " REQUIRED)\n", cm = std::string("cmake_minimum_required(VERSION 3.17)\nproject(app LANGUAGES CXX)\n") + SF[c.std];
      if (c.way == 0) cm += "add_subdirectory(\"" + src + "\" ixx)\n";
      else if (c.way == 1) cm += "include(FetchContent)\nFetchContent_Declare(integratorxx SOURCE_DIR \"" + src + "\")\nFetchContent_MakeAvailable(integratorxx)\n";
      else cm += c.twice ? find + find : find;
      std::string list = files;
      cm += "add_executable(p " + list + ")\ntarget_link_libraries(p PRIVATE IntegratorXX::IntegratorXX)\n";
      std::ofstream(app + "/CMakeLists.txt") << cm;
      Case a = c; a.bt = c.appbt; if (c.way >= 2) a.cxx = c.appcxx;
      build = "set -e; export CMAKE_BUILD_PARALLEL_LEVEL=3; cmake" + gen + " -S " + q(app) + " -B " + q(app + "/b") + " -DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF -DCMAKE_CXX_FLAGS='-w -MD' -DCMAKE_BUILD_TYPE=" + BT[c.appbt] + " -DCMAKE_CXX_COMPILER=" + CXX[a.cxx];
      if (c.way < 2) build += configure(a);
      else if (c.way == 2) build += " -DIntegratorXX_DIR=" + q(bdir);
      else if (lib == "lib64") build += " -DIntegratorXX_DIR=" + q(prefix + "/" + lib + "/cmake/IntegratorXX");   // not searched everywhere
      else build += " -DCMAKE_PREFIX_PATH=" + q(prefix);
      build += "; cmake --build " + q(app + "/b");
      p = app + "/b/p";
    }
    if (!run(build, o)) {
      PBT_REQUIRE(!said(o), "a program using the library (%s, %s) does not build: %s", WAY[c.way], KIND[c.kind], why(o).c_str());
      x.label("inconclusive");
      return pbt::pass();
    }
    if (c.way > 2) {   // the headers used are the installed ones
      Out d = sh("cd " + q(app) + "; find . -name '*.d' -type f -exec cat {} + | tr -d '\\\\' | grep -F -e " + q(src + "/") + " -e " + q(exedir() + "/c34 src") + " -e " + q(repo() + "/include") + " | head -3");
      PBT_REQUIRE(d.text.find("integratorxx") == std::string::npos, "an installed copy reaches back into the tree it came from: %s", d.text.substr(0, 300).c_str());
    }
    o = sh("ulimit -t 60; export LD_LIBRARY_PATH=" + q(prefix + "/" + lib) + "; exec " + q(p));
    PBT_REQUIRE(o.rc == 0, "the program ended with status %d: %s", o.rc, o.text.substr(0, 300).c_str());
    std::map<int64_t, int> want;
    for (auto& t : c.tus) for (auto h : std::set<int64_t>(t.hs.begin(), t.hs.end())) ++want[h];
    std::istringstream out(o.text);
    std::string l;
    while (std::getline(out, l)) {
      std::istringstream ln(l);
      int64_t h; size_t n;
      PBT_REQUIRE(bool(ln >> h >> n) && h >= 0 && h < NS, "unexpected output: %s", l.substr(0, 200).c_str());
      --want[h];
      static std::map<int64_t, Nums> cache;
      if (!cache.count(h)) SN[h].ref(cache[h]);
      const Nums& r = cache[h];
      PBT_REQUIRE(n == r.size(), "%s: %zu numbers instead of %zu", SN[h].name, n, r.size());
      for (size_t i = 0; i < n; ++i) {
        std::string tk; ln >> tk;
        const double v = strtod(tk.c_str(), nullptr);
        PBT_REQUIRE(std::abs(v - r[i]) <= 1e-11 * std::abs(r[i]) + 1e-13, "%s: number %zu is %.17g instead of %.17g", SN[h].name, i, v, r[i]);
      }
    }
    for (auto& [k, v] : want) PBT_REQUIRE(v == 0, "%s ran %s often than expected", SN[k].name, v > 0 ? "less" : "more");
    return pbt::pass();
  }
};
PBT_MAIN(P)
