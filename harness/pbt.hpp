// Small property-based-testing engine on top of rapidcheck.
//
// A property is a struct P with
//   struct Case { template<class A> void io(A&); };   one generated input, a plain value
//   static Case  gen(pbt::Src&, int tier);            structured generator
//   static void  enumerate(int tier, F emit);         optional finite part of the space (ascending)
//   static pbt::Result check(const Case&, pbt::Ctx&);  executable oracle
// and ends with PBT_MAIN(P).  Every random choice goes through Src, which is backed by
// rapidcheck (search + shrinking) or by fuzzer bytes (libFuzzer); a Case is text-serialisable,
// so the shrunk failure becomes a replay file that needs neither.
#pragma once
#include <rapidcheck.h>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

// ------------------------------------------------------------------ serialisation
inline std::string enc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c > 32 && c < 127 && c != '%' && c != '"') o += char(c);
    else { char b[8]; snprintf(b, sizeof b, "%%%02x", c); o += b; }
  }
  return o + "\"";
}
inline std::string dec(const std::string& s) {
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); ++i) {
    if (s[i] == '%') { o += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
    else o += s[i];
  }
  return o;
}
struct Writer {
  std::string s;
  void tok(const char* k, const std::string& v) { s += k; s += '='; s += v; s += ' '; }
  void operator()(const char* k, int64_t& v) { tok(k, std::to_string(v)); }
  void operator()(const char* k, double& v) { char b[64]; snprintf(b, sizeof b, "%a", v); tok(k, b); }
  void operator()(const char* k, std::string& v) { tok(k, enc(v)); }
  template <class T> void operator()(const char* k, std::vector<T>& v) {
    tok(k, "#" + std::to_string(v.size()));
    for (auto& e : v) elem(e);
  }
  template <class T> void elem(T& e) {
    if constexpr (std::is_same_v<T, int64_t> || std::is_same_v<T, double> || std::is_same_v<T, std::string>) (*this)("-", e);
    else { s += "{ "; e.io(*this); s += "} "; }
  }
};
struct Reader {
  std::istringstream in;
  explicit Reader(const std::string& t) : in(t) {}
  std::string val(const char* k) {
    std::string t;
    if (!(in >> t)) bad(k);
    auto p = t.find('=');
    if (p == std::string::npos || t.substr(0, p) != k) bad(k);
    return t.substr(p + 1);
  }
  [[noreturn]] void bad(const char* k) { fprintf(stderr, "bad replay file near %s\n", k); exit(3); }
  void operator()(const char* k, int64_t& v) { v = strtoll(val(k).c_str(), nullptr, 10); }
  void operator()(const char* k, double& v) { v = strtod(val(k).c_str(), nullptr); }
  void operator()(const char* k, std::string& v) { v = dec(val(k)); }
  template <class T> void operator()(const char* k, std::vector<T>& v) {
    auto t = val(k);
    size_t n = strtoull(t.c_str() + 1, nullptr, 10);
    v.clear();
    v.resize(n);
    for (auto& e : v) elem(e);
  }
  template <class T> void elem(T& e) {
    if constexpr (std::is_same_v<T, int64_t> || std::is_same_v<T, double> || std::is_same_v<T, std::string>) (*this)("-", e);
    else { std::string t; in >> t; e.io(*this); in >> t; }
  }
};
template <class C> std::string to_text(const C& c) { C k = c; Writer w; k.io(w); return w.s; }
template <class C> C from_text(const std::string& t) { C c; Reader r(t); c.io(r); return c; }

// ------------------------------------------------------------------ choice sources
struct Src {
  virtual ~Src() = default;
  virtual int64_t range(int64_t lo, int64_t hi) = 0;  // inclusive; shrinks towards lo
  bool coin() { return range(0, 1) == 1; }
  // mostly small values, all magnitudes reachable
  int64_t small(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    int bits = 0;
    while (bits < 62 && (int64_t(1) << bits) <= hi - lo) ++bits;
    int64_t b = range(0, bits);
    return lo + range(0, std::min<int64_t>(hi - lo, (int64_t(1) << b) - 1));
  }
  double unit() { return double(range(0, 1 << 20)) / double(1 << 20); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // magnitude log-uniform in [10^lo,10^hi]
  double logreal(int lo, int hi) {
    int64_t e = range(0, hi - lo);
    double m = 1.0 + 9.0 * unit();
    double v = m * std::pow(10.0, double(lo + (e == hi - lo && hi > lo ? e - 1 : e)));
    return v;
  }
  template <class T> T pick(const std::vector<T>& v) { return v[size_t(range(0, int64_t(v.size()) - 1))]; }
  // a coordinate-like number: zero, integer, moderate, wide range, signed
  double coord(int maxexp = 6) {
    switch (range(0, 4)) {
      case 0: return 0.0;
      case 1: return double(range(-5, 5));
      case 2: return real(-4., 4.);
      case 3: { double v = logreal(-8, 1); return coin() ? -v : v; }
      default: { double v = logreal(0, maxexp); return coin() ? -v : v; }
    }
  }
};

struct RcSrc final : Src {
  int64_t range(int64_t lo, int64_t hi) override {
    if (hi <= lo) return lo;
    return *rc::gen::resize(rc::kNominalSize, rc::gen::inRange<int64_t>(lo, hi + 1));
  }
};
struct ByteSrc final : Src {
  const uint8_t* p; size_t n;
  ByteSrc(const uint8_t* d, size_t s) : p(d), n(s) {}
  int64_t range(int64_t lo, int64_t hi) override {
    if (hi <= lo) return lo;
    uint64_t span = uint64_t(hi - lo) + 1, v = 0;
    int nb = span <= 256 ? 1 : span <= 65536 ? 2 : span <= (uint64_t(1) << 32) ? 4 : 8;
    for (int i = 0; i < nb; ++i) { v <<= 8; if (n) { v |= *p++; --n; } }
    return lo + int64_t(span ? v % span : v);
  }
};
// a vector of generated elements; rapidcheck shrinks it by dropping elements
template <class T, class F> std::vector<T> vec(Src& s, int64_t lo, int64_t hi, F f);

template <class T> struct Shown {
  T v;
  friend std::ostream& operator<<(std::ostream& o, const Shown&) { return o << "."; }
};
template <class T, class F> std::vector<T> vec(Src& s, int64_t lo, int64_t hi, F f) {
  std::vector<T> out;
  if (dynamic_cast<RcSrc*>(&s)) {
    auto g = rc::gen::exec([f]() { RcSrc q; return Shown<T>{f(static_cast<Src&>(q))}; });
    auto r = *rc::gen::resize(int(hi - lo), rc::gen::container<std::vector<Shown<T>>>(g));
    for (auto& e : r) out.push_back(e.v);
    for (int64_t i = 0; i < lo; ++i) out.push_back(f(s));
  } else {
    int64_t n = s.range(lo, hi);
    for (int64_t i = 0; i < n; ++i) out.push_back(f(s));
  }
  return out;
}

// ------------------------------------------------------------------ result + counters
struct Result {
  bool ok = true;
  std::string msg;
  std::string finding;  // non-empty: identifies one specific failing input / call site
};
inline Result pass() { return {}; }
inline Result fail(const std::string& m) { return {false, m, ""}; }
inline Result fail_as(const std::string& f, const std::string& m) { return {false, m, f}; }
inline std::string fmt(const char* f, ...) {
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
#define PBT_REQUIRE(cond, ...) do { if (!(cond)) return ::pbt::fail(::pbt::fmt(__VA_ARGS__)); } while (0)

struct Ctx {
  bool nontrivial = false;
  std::vector<std::string> labels;
  void label(const std::string& l) { labels.push_back(l); }
  void trivial_unless(bool c) { nontrivial = c; }
};

struct Options {
  uint64_t seed = 1;
  int64_t cases = 100;
  int shard = 0, nshards = 1, tier = 0;
  bool do_enum = true, isolate = false;
  double cpu_limit = 60, shrink_budget = 60, time_cap = 1e9;
  std::string out, cur, failfile, known, replay;
};

inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline double cpu_s() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

constexpr int kTimeoutExit = 97;
inline void on_cpu_limit(int) { static const char m[] = "PBT: case exceeded its CPU limit\n"; (void)!write(2, m, sizeof m - 1); _exit(kTimeoutExit); }
inline void arm(double s) {
  itimerval t{};
  t.it_value.tv_sec = long(s);
  t.it_value.tv_usec = long((s - long(s)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

template <class P> struct Engine {
  using Case = typename P::Case;
  Options o;
  int64_t evals = 0, enumerated = 0, generated = 0;
  bool capped = false;
  std::map<std::string, int64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int64_t> known_hits;
  std::set<std::string> known;
  std::string last_fail, last_msg;
  double first_fail_at = -1;
  char* curmem = nullptr;
  static constexpr size_t kCur = 1 << 20;

  void load_known() {
    std::ifstream f(o.known);
    std::string l;
    while (std::getline(f, l)) if (!l.empty()) known.insert(l);
  }
  void map_cur() {
    if (o.cur.empty()) return;
    int fd = open(o.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, kCur)) return;
    void* m = mmap(nullptr, kCur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) curmem = static_cast<char*>(m);
  }
  void set_cur(const std::string& t) {
    if (!curmem) return;
    size_t n = std::min(t.size(), kCur - 1);
    memcpy(curmem, t.data(), n);
    curmem[n] = 0;
  }

  Result run_here(const Case& c, Ctx& x) {
    arm(o.cpu_limit);
    Result r;
    try { r = P::check(c, x); }
    catch (const std::exception& e) { r = fail(std::string("unexpected exception: ") + e.what()); }
    catch (...) { r = fail("unexpected exception of unknown type"); }
    arm(0);
    return r;
  }
  Result run_isolated(const Case& c, Ctx& x) {
    int p[2];
    if (pipe(p)) return pass();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      Result r = run_here(c, x);
      std::string s = std::string(r.ok ? "0" : "1") + (x.nontrivial ? "1" : "0") + r.finding + "\n" + r.msg;
      (void)!write(p[1], s.data(), std::min<size_t>(s.size(), 4000));
      _exit(0);
    }
    close(p[1]);
    std::string s; char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, size_t(n));
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.size() >= 2) {
      Result r; r.ok = s[0] == '0'; x.nontrivial = s[1] == '1';
      auto q = s.find('\n');
      r.finding = s.substr(2, q - 2); r.msg = s.substr(q + 1);
      return r;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == kTimeoutExit) return fail(fmt("did not terminate within %g s of CPU time", o.cpu_limit));
    if (WIFSIGNALED(st)) return fail(fmt("crashed with signal %d", WTERMSIG(st)));
    return fail(fmt("aborted with exit status %d (sanitizer report or abort)", WEXITSTATUS(st)));
  }
  // one evaluation; true if the property held (or the failure is a listed finding)
  bool eval(const Case& c, std::string* msg) {
    std::string t = to_text(c);
    set_cur(t);
    Ctx x;
    Result r = o.isolate ? run_isolated(c, x) : run_here(c, x);
    ++evals;
    if (x.nontrivial) {
      uint64_t h = 1469598103934665603ull;
      for (unsigned char ch : t) { h ^= ch; h *= 1099511628211ull; }
      if (distinct.insert(h).second && samples.size() < 6 && (distinct.size() % 37 == 1)) samples.push_back(t.substr(0, 600));
    }
    for (auto& l : x.labels) labels[l]++;
    if (r.ok) return true;
    if (!r.finding.empty() && known.count(r.finding)) { known_hits[r.finding]++; return true; }
    if (msg) *msg = r.msg;
    last_fail = t; last_msg = r.msg;
    write_fail();
    return false;
  }
  void write_fail() {
    if (o.failfile.empty()) return;
    std::ofstream f(o.failfile + ".tmp");
    f << last_fail << "\n# " ;
    for (char ch : last_msg) f << (ch == '\n' ? ' ' : ch);
    f << "\n";
    f.close();
    rename((o.failfile + ".tmp").c_str(), o.failfile.c_str());
  }

  bool run_enum() {
    int64_t idx = 0;
    bool good = true;
    P::enumerate(o.tier, [&](const Case& c) -> bool {
      if (idx++ % o.nshards != o.shard) return true;
      if (now_s() > t_end) { capped = true; return false; }
      ++enumerated;
      std::string m;
      if (!eval(c, &m)) { good = false; return false; }
      return true;
    });
    return good;
  }
  double t_end = 1e18;
  bool run_random() {
    if (o.cases <= 0) return true;
    uint64_t sd = o.seed * 1000003ull + uint64_t(o.shard) * 7919ull + 17ull;
    std::string prm = "seed=" + std::to_string(sd) + " max_success=" + std::to_string(o.cases) + " max_size=100 max_discard_ratio=100";
    setenv("RC_PARAMS", prm.c_str(), 1);
    int tier = o.tier;
    return rc::check([&]() {
      const auto c = *rc::gen::exec([tier]() { RcSrc s; return Shown<Case>{P::gen(s, tier)}; });
      if (first_fail_at >= 0 && now_s() - first_fail_at > o.shrink_budget) return;  // stop shrinking
      if (first_fail_at < 0 && now_s() > t_end) { capped = true; return; }
      ++generated;
      std::string m;
      if (!eval(c.v, &m)) {
        if (first_fail_at < 0) first_fail_at = now_s();
        RC_FAIL(m);
      }
    });
  }
  static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += char(c);
    }
    return o + "\"";
  }
  void write_stats(bool ok) {
    if (o.out.empty()) return;
    std::ofstream f(o.out);
    f << "{\"ok\":" << (ok ? "true" : "false") << ",\"evaluations\":" << evals << ",\"enumerated\":" << enumerated
      << ",\"generated\":" << generated << ",\"capped\":" << (capped ? "true" : "false") << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : labels) { f << (first ? "" : ",") << js(k) << ":" << v; first = false; }
    f << "},\"known\":{";
    first = true;
    for (auto& [k, v] : known_hits) { f << (first ? "" : ",") << js(k) << ":" << v; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { f << (first ? "" : ",") << js(s); first = false; }
    f << "],\"distinct\":[";
    first = true;
    for (auto h : distinct) { f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
    f << "],\"msg\":" << js(last_msg) << "}\n";
  }

  int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--seed") o.seed = strtoull(v().c_str(), nullptr, 10);
      else if (a == "--cases") o.cases = atoll(v().c_str());
      else if (a == "--shard") o.shard = atoi(v().c_str());
      else if (a == "--nshards") o.nshards = atoi(v().c_str());
      else if (a == "--tier") o.tier = atoi(v().c_str());
      else if (a == "--no-enum") o.do_enum = false;
      else if (a == "--isolate") o.isolate = true;
      else if (a == "--cpu-limit") o.cpu_limit = atof(v().c_str());
      else if (a == "--shrink-budget") o.shrink_budget = atof(v().c_str());
      else if (a == "--time-cap") o.time_cap = atof(v().c_str());
      else if (a == "--out") o.out = v();
      else if (a == "--cur") o.cur = v();
      else if (a == "--fail") o.failfile = v();
      else if (a == "--known") o.known = v();
      else if (a == "--replay") o.replay = v();
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    signal(SIGPROF, on_cpu_limit);
    load_known();
    if (!o.replay.empty()) {
      std::ifstream f(o.replay);
      std::string l;
      while (std::getline(f, l)) if (!l.empty() && l[0] != '#') break;
      Case c = from_text<Case>(l);
      Ctx x;
      Result r = run_here(c, x);
      if (r.ok) { printf("replay: held\n"); return 0; }
      if (!r.finding.empty() && known.count(r.finding)) { printf("replay: known finding %s\n", r.finding.c_str()); return 0; }
      printf("replay: FAILED %s\n", r.msg.c_str());
      return 1;
    }
    map_cur();
    t_end = now_s() + o.time_cap;
    bool ok = true;
    if (o.do_enum) ok = run_enum();
    if (ok) ok = run_random();
    set_cur("");
    write_stats(ok);
    return ok ? 0 : 1;
  }
};

}  // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN(P)                                                                              \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {                            \
    static pbt::Engine<P>* e = [] {                                                              \
      auto* q = new pbt::Engine<P>;                                                              \
      if (const char* k = getenv("PBT_KNOWN")) { q->o.known = k; q->load_known(); }              \
      if (const char* k = getenv("PBT_FAIL")) q->o.failfile = std::string(k) + "." + std::to_string(getpid()); \
      if (const char* k = getenv("PBT_CUR")) { q->o.cur = std::string(k) + "." + std::to_string(getpid()); q->map_cur(); } \
      q->o.cpu_limit = 0; return q; }();                                                         \
    pbt::ByteSrc s(d, n);                                                                        \
    std::string m;                                                                               \
    if (!e->eval(P::gen(s, 0), &m)) { fprintf(stderr, "FUZZ-FAIL %s\n", m.c_str()); __builtin_trap(); } \
    return 0;                                                                                    \
  }
#else
#define PBT_MAIN(P) int main(int c, char** v) { return pbt::Engine<P>{}.main(c, v); }
#endif
