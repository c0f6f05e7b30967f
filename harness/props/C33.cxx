// Grids do not depend on the process' environment - locale, environment variables, floating-point rounding and flush-to-zero modes, pending
// floating-point flags, a thread with a small stack - and making one does not change it: no floating-point fault is
// raised, modes, locale and random state stay as they were, and nothing is written to the standard streams.
#include <pbt.hpp>
#include <s2_sizes.inc>
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/util/bound_transform.hpp>
#include <integratorxx/util/legendre.hpp>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cstring>
#include <filesystem>
#include <iomanip>
#include <iostream>
#include <locale>
#include <pthread.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#if defined(__SSE2__)
#include <xmmintrin.h>
#define HAVE_FTZ 1
#endif
#include <unistd.h>
#include <sys/wait.h>
// While a request runs, every environment variable has the value the case says (null: the real environment).
static thread_local const char* every_variable = nullptr;
static thread_local bool every_watch = false;
extern "C" char* getenv(const char* name) noexcept {
  if (every_watch) return const_cast<char*>(every_variable);
  const size_t n = strlen(name);
  for (char** p = environ; p && *p; ++p) if (!strncmp(*p, name, n) && (*p)[n] == '=') return *p + n + 1;
  return nullptr;
}
extern "C" char* secure_getenv(const char* name) noexcept { return getenv(name); }
static const char* const VALUES[] = {nullptr, "", "0", "1", "2", "64", "true", "OFF", "de_DE", "/nonexistent"};
static constexpr int NVAL = int(sizeof(VALUES) / sizeof(VALUES[0]));
namespace fs = std::filesystem;
using namespace IntegratorXX;
using V3 = std::array<double, 3>;
using SB = SphericalQuadratureBase<std::vector<V3>, std::vector<double>>;
using MB = SphericalMicroBatcher<std::vector<V3>, std::vector<double>>;
static std::string exedir() { return fs::read_symlink("/proc/self/exe").parent_path().string(); }
// locales in which upper/lower case, encodings and number formats differ from "C"; made from the system's sources when
// it has them
struct Loc { const char *name, *src, *map; };
static const Loc LOCS[] = {{"tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"}, {"tr_TR.UTF-8", "tr_TR", "UTF-8"}, {"de_DE.ISO-8859-1", "de_DE", "ISO-8859-1"},
                           {"az_AZ.UTF-8", "az_AZ", "UTF-8"}, {"ja_JP.EUC-JP", "ja_JP", "EUC-JP"}, {"hi_IN.UTF-8", "hi_IN", "UTF-8"}};
static constexpr int NLOC = int(sizeof(LOCS) / sizeof(LOCS[0]));
static void make_locales() {
  static bool done = false;
  if (done) return;
  done = true;
  const std::string d = exedir() + "/c33-locales";
  int fd = open((d + ".lock").c_str(), O_CREAT | O_RDWR, 0644);
  flock(fd, LOCK_EX);
  if (!fs::exists(d + "/ready")) {
    ::mkdir(d.c_str(), 0755);
    for (auto& l : LOCS) if (system((std::string("localedef -c -i ") + l.src + " -f " + l.map + " " + d + "/" + l.name + " >/dev/null 2>&1").c_str())) {}
    std::ofstream(d + "/ready") << "1\n";
  }
  close(fd);
  setenv("LOCPATH", d.c_str(), 1);
}
struct Req {
  int64_t kind = 0, n = 2, a = 0, b = 0;
  template <class A> void io(A& s) { s("kind", kind); s("n", n); s("a", a); s("b", b); }
};
static constexpr int64_t NKIND = 22;
using Out = std::vector<double>;
struct Shared {
  GaussLegendre<double, double> rule{9};
  TreutlerAhlrichs<double, double> radial{7, 1.25};
  LebedevLaikov<double> angular{26};
  SphericalQuadrature<TreutlerAhlrichs<double, double>, LebedevLaikov<double>> sphere{radial, angular, V3{0.5, -1, 2}};
  RadialGridPartition<LebedevLaikov<double>> partition{radial, 0, angular, 3, LebedevLaikov<double>(14)};
};
static const Shared& shared() { static const Shared s; return s; }
template <class Q> static void take(Out& o, const Q& q) {
  if constexpr (std::is_arithmetic_v<std::decay_t<decltype(q.points()[0])>>) for (auto p : q.points()) o.push_back(double(p));
  else for (auto& p : q.points()) for (auto v : p) o.push_back(double(v));
  for (auto w : q.weights()) o.push_back(double(w));
}
// batches must hold exactly the grid; what they are is compared only when every coordinate is (exact)
static void take_batches(Out& o, MB& b, std::vector<V3> p, std::vector<double> w, bool exact) {
  std::vector<std::array<double, 4>> have, want;
  bool inside = true;
  for (size_t i = 0; i < b.nbatches(); ++i) {
    auto [lo, up, bp, bw] = b.at(i);
    if (exact) { o.insert(o.end(), lo.begin(), lo.end()); o.insert(o.end(), up.begin(), up.end()); }
    for (size_t k = 0; k < bp.size(); ++k) {
      have.push_back({bp[k][0], bp[k][1], bp[k][2], bw[k]});
      for (int d = 0; d < 3; ++d) inside = inside && lo[d] <= bp[k][d] && bp[k][d] <= up[d];
    }
  }
  for (size_t k = 0; k < p.size(); ++k) want.push_back({p[k][0], p[k][1], p[k][2], w[k]});
  std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end());
  o.push_back(inside); o.push_back(have == want);
}
static void serve_impl(const Req& r, bool exact, Out& o) {
  static const RadialQuad rqs[4] = {RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs};
  static const AngularQuad aqs[4] = {AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley};
  static const PruningScheme ss[3] = {PruningScheme::Unpruned, PruningScheme::Robust, PruningScheme::Treutler};
  const Shared& sh = shared();
  const size_t n = size_t(r.n);
  const RadialQuad rq = rqs[r.a % 4];
  const int64_t fam = r.a / 4 % 4;
  const AngularQuad aq = aqs[fam];
  const AngularSize asz = AngularSize(PUBLISHED[fam][size_t(r.b) % PUBLISHED[fam].size()].second);
  const AngularSize small = AngularSize(PUBLISHED[fam][size_t(r.b) % 8].second);
  const double R = std::exp2(double(r.b % 41 - 20));
  switch (r.kind) {
    case 0: take(o, GaussLegendre<double, double>(n)); break;
    case 1: take(o, GaussLobatto<double, double>(n + 1)); break;
    case 2: take(o, GaussChebyshev1<double, double>(n)); break;
    case 3: take(o, GaussChebyshev2<double, double>(n)); break;
    case 4: take(o, GaussChebyshev2Modified<double, double>(n)); break;
    case 5: take(o, GaussChebyshev3<double, double>(n)); break;
    case 6: take(o, UniformTrapezoid<double, double>(n + 1, -R, 2 * R)); break;
    case 7: { auto t = make_radial_traits(rq, n, R); take(o, *RadialFactory::generate(rq, *t)); break; }
    case 8: take(o, *S2Factory::generate(aq, asz)); break;
    case 9: { auto t = make_radial_traits(rq, n % 60 + 1, R); take(o, *SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, small)); break; }
    case 10: {
      auto t = make_radial_traits(rq, n % 60 + 1, R);
      auto s = create_pruned_spec(ss[r.b % 3], UnprunedSphericalGridSpecification(rq, *t, aq, small));
      for (auto& g : s.pruning_regions) { o.push_back(double(g.idx_st)); o.push_back(double(g.idx_en)); o.push_back(double(g.angular_size)); }
      take(o, *SphericalGridFactory::generate_grid(s));
      break;
    }
    case 11: {
      auto t = make_radial_traits(rq, n % 25 + 1, R);
      auto q = SphericalGridFactory::generate_unpruned_grid(rq, *t, aq, small);
      auto p = q->points(); auto w = q->weights();
      MB b(1 + size_t(r.b), std::shared_ptr<SB>(q));
      take_batches(o, b, p, w, exact);
      break;
    }
    case 12: { auto q = sh.sphere.clone(); q->recenter({double(r.a), double(r.b), 0.25}); take(o, *q); break; }
    case 13: take(o, PrunedSphericalQuadrature<TreutlerAhlrichs<double, double>, LebedevLaikov<double>>(sh.radial, sh.partition)); break;
    case 14: {   // names, in any capitalisation
      static const char* rn[7] = {"becke", "murrayhandylaming", "mhl", "muraknowles", "mk", "treutlerahlrichs", "ta"};
      static const char* an[7] = {"lebedevlaikov", "lebedev", "ll", "ahrensbeylkin", "ab", "delley", "womersley"};
      for (int t = 0; t < 7; ++t) for (int u = 0; u < 2; ++u) {
        std::string s = u ? an[t] : rn[t];
        for (size_t i = 0; i < s.size(); ++i) if (((r.b * 2654435761u + r.n) >> (i % 29)) & 1) s[i] = char(s[i] - 32);
        try { o.push_back(u ? 100 + double(angular_from_string(s)) : double(radial_from_string(s))); } catch (const std::exception&) { o.push_back(-1); }
      }
      break;
    }
    case 15: {   // what is not a name
      static const char* no[10] = {"", "mk ", "beck\xfd", "l\xc4\xb0", "delley\n", "muraknowles1", "treutlerahlr\xddchs", "lebedevla\xfdkov", "womers1ey", "\xe4" "b"};
      try { o.push_back(double(radial_from_string(no[r.b % 10]))); } catch (const std::exception&) { o.push_back(-1); }
      try { o.push_back(double(angular_from_string(no[r.b % 10]))); } catch (const std::exception&) { o.push_back(-1); }
      break;
    }
    case 16: { auto [a, d, m] = eval_Pn(0.01 * double(r.b % 98) + 0.005, n); o.insert(o.end(), {a, m}); (void)d; break; }
    case 17: {
      for (int k = 0; k < 4; ++k) { auto [y, v] = transform_minus_one_to_one(k & 1 ? -double(INFINITY) : -1.5, k & 2 ? double(INFINITY) : R + 1, 0.25, 0.5); o.insert(o.end(), {y, v}); }
      break;
    }
    case 18: take(o, GaussLegendre<float, float>(n % 60 + 1)); break;
    case 19: take(o, GaussLobatto<long double, long double>(n + 1)); break;
    case 20: {   // points shrinking towards a corner, coincident ones, and a line of them: refinement at its deepest
      auto q = sh.sphere.clone();
      auto& p = q->points();
      for (size_t i = 0; i < p.size(); ++i) {
        if (r.a % 3 == 0) { double s = std::ldexp(1.0, -int(i)); p[i] = {s, r.a % 2 ? s : 1.0, s * 0.75}; }
        else if (r.a % 3 == 1) p[i] = {1, double(i % (1 + size_t(r.b))), 2};
        else p[i] = {double(i) * R, 1.0 / double(i + 1), 0};
      }
      auto pp = p; auto ww = q->weights();
      std::shared_ptr<SB> s(std::move(q));
      MB b(1 + size_t(r.b % 5), s);
      take_batches(o, b, pp, ww, exact);
      break;
    }
    default: {   // refusals
      int k = 0;
      try { S2Factory::generate(aq, 7 + AngularSize(r.b) * 8 + 100000); } catch (const std::exception&) { k |= 1; }
      try { make_radial_traits(rq, n); RadialFactory::generate(rqs[(r.a + 1) % 4], *make_radial_traits(rq, n)); } catch (const std::exception&) { k |= 2; }
      o.push_back(k);
      break;
    }
  }
}
static void (*volatile serve)(const Req&, bool, Out&) = serve_impl;
struct Env {
  int64_t locale = 0, glob = 0, round = 0, ftz = 0, pre = 0, stack = 0, fmt = 0, vars = 0;
  template <class A> void io(A& s) { s("locale", locale); s("glob", glob); s("round", round); s("ftz", ftz); s("pre", pre); s("stack", stack); s("fmt", fmt); s("vars", vars); }
};
struct Job {
  const Req* r; const Env* e; Out out; std::string trouble;
  void run() {
    static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    const int mode = modes[e->round & 3];
    const int pre = (e->pre & 1 ? FE_UNDERFLOW : 0) | (e->pre & 2 ? FE_INEXACT : 0);
    std::feclearexcept(FE_ALL_EXCEPT);
    if (pre) std::feraiseexcept(pre);
    std::fesetround(mode);
#ifdef HAVE_FTZ
    const unsigned csr0 = _mm_getcsr();
    if (e->ftz) _mm_setcsr(csr0 | 0x8040);
#endif
    std::string exc;
    every_variable = VALUES[e->vars]; every_watch = true;
    try { serve(*r, mode == FE_TONEAREST, out); } catch (const std::exception& x) { exc = x.what(); out.assign(1, -1e99); } catch (...) { exc = "?"; out.assign(1, -1e99); }
    every_watch = false;
    const int fl = std::fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | pre), m2 = std::fegetround();
#ifdef HAVE_FTZ
    const unsigned csr1 = _mm_getcsr();
    _mm_setcsr(csr0);
    if (e->ftz && (csr1 & 0x8040) != 0x8040) trouble = "flush-to-zero was switched off";
    if (!e->ftz && (csr1 & 0x8040) != (csr0 & 0x8040)) trouble = "flush-to-zero was switched on";
#endif
    std::fesetround(FE_TONEAREST);
    std::feclearexcept(FE_ALL_EXCEPT);
    const bool grid = r->kind != 17;   // the interval map itself works with infinite bounds
    if (grid && fl & FE_INVALID) trouble = "an invalid floating-point operation was executed";
    else if (grid && fl & FE_DIVBYZERO) trouble = "a floating-point division by zero was executed";
    else if (grid && fl & FE_OVERFLOW) trouble = "a floating-point overflow happened";
    else if ((fl & pre) != pre) trouble = "floating-point flags raised before were cleared";
    else if (m2 != mode) trouble = "the rounding mode was changed";
    else if (!exc.empty()) trouble = "refused with: " + exc;
  }
  static void* thread(void* p) { static_cast<Job*>(p)->run(); return nullptr; }
};
struct P {
  struct Case {
    Env env;
    std::vector<Req> reqs;
    template <class A> void io(A& s) { env.io(s); s("reqs", reqs); }
  };
  static Case gen(pbt::Src& s, int) {
    Case c;
    auto& e = c.env;
    e.locale = s.coin() ? 0 : s.range(0, NLOC); e.glob = s.range(0, 1); e.round = s.coin() ? 0 : s.range(0, 3);
    e.ftz = s.range(0, 1); e.pre = s.range(0, 3); e.stack = s.range(0, 1); e.fmt = s.range(0, 1); e.vars = s.coin() ? 0 : s.range(0, NVAL - 1);
    c.reqs = pbt::vec<Req>(s, 1, 6, [](pbt::Src& q) {
      Req r;
      r.kind = q.range(0, NKIND - 1); r.n = q.small(1, 500); r.a = q.range(0, 15); r.b = q.range(0, 127);
      return r;
    });
    return c;
  }
  template <class F> static void enumerate(int, F emit) {
    for (int64_t k = 0; k < NKIND; ++k)
      for (int64_t v = 0; v < 4 + NLOC; ++v)
        for (int64_t i = 0; i < 8; ++i) {
          Case c;
          c.env.vars = (v + i) % NVAL;
          if (v < 4) { c.env.round = v; c.env.ftz = i & 1; c.env.pre = i & 3; c.env.stack = i >> 2; }
          else { c.env.locale = v - 3; c.env.glob = i & 1; }
          static const int64_t ns[8] = {1, 2, 3, 31, 50, 101, 200, 500};
          c.reqs = {{k, ns[i], 5 * i + v, 13 * i + v}};
          if (!emit(c)) return;
        }
    for (int64_t n = 1; n <= 500; ++n)       // every size of every rule, in every rounding mode
      for (int64_t v = 0; v < 4; ++v) {
        Case c;
        c.env.round = v; c.env.stack = n & 1; c.env.vars = n % NVAL;
        for (int64_t k = 0; k < 7; ++k) c.reqs.push_back({k, n, 0, n % 41});
        for (int64_t a = 0; a < 4; ++a) c.reqs.push_back({7, n, a, (n * 7 + a) % 41});
        if (v == 0) { c.reqs.push_back({8, 1, 4 * (n % 4), n / 4}); }
        if (!emit(c)) return;
      }
  }
  // in a process that has not used the library before: the requests in the plain environment
  static std::string plain_env(const Case& c, std::vector<Out>& ref) {
    shared();
    const Env plain;
    for (auto& r : c.reqs) {
      Job j{&r, &plain, {}, ""};
      j.run();
      if (j.trouble.size() && j.trouble.rfind("refused", 0)) return pbt::fmt("request of kind %ld (n=%ld, a=%ld, b=%ld): %s", (long)r.kind, (long)r.n, (long)r.a, (long)r.b, j.trouble.c_str());
      ref.push_back(j.out);
    }
    return "";
  }
  // runs f(write) in a child and returns what it wrote; status is how the child ended
  template <class F> static std::string child(F f, int& status) {
    int fd[2];
    status = -1;
    if (pipe(fd)) return "";
    std::fflush(nullptr); std::cout.flush();
    const pid_t p = fork();
    if (p < 0) { close(fd[0]); close(fd[1]); return ""; }
    if (p == 0) {
      close(fd[0]);
      f([&](const void* d, size_t n) { const char* q = static_cast<const char*>(d); while (n) { ssize_t k = write(fd[1], q, n); if (k <= 0) _exit(9); q += k; n -= size_t(k); } });
      _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) != 0;) { if (k > 0) s.append(buf, size_t(k)); else if (errno != EINTR) break; }
    close(fd[0]);
    while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
    return s;
  }
  static pbt::Result in_env(const Case& c, const std::vector<Out>& ref, std::vector<std::string>& labels) {
    const Env& e = c.env;
    // the environment of the case
    std::locale old;
    bool have = true;
    if (e.locale) {
      const std::string name = LOCS[e.locale - 1].name;
      if (e.glob) { try { std::locale::global(std::locale(name.c_str())); } catch (const std::exception&) { have = false; } }
      else have = setlocale(LC_ALL, name.c_str()) != nullptr;
      labels.push_back(have ? name : "locale not available");
    }
    const std::string now = setlocale(LC_ALL, nullptr);
    const std::ios saved(nullptr);
    std::ios keep(nullptr); keep.copyfmt(std::cout);
    if (e.fmt) std::cout << std::hexfloat << std::setprecision(3) << std::setfill('#') << std::showpos;
    std::ios before(nullptr); before.copyfmt(std::cout);
    std::fflush(nullptr); std::cout.flush(); std::cerr.flush();
    // standard streams into a file of our own
    static int sink = -1;
    if (sink < 0) { std::string t = exedir() + "/c33-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); sink = mkstemp(b.data()); ::unlink(b.data()); }
    if (ftruncate(sink, 0)) {}
    lseek(sink, 0, SEEK_SET);
    const int o1 = dup(1), o2 = dup(2);
    dup2(sink, 1); dup2(sink, 2);
    srand(4711); const int r0 = rand(); srand(4711);
    std::vector<Job> jobs;
    for (auto& r : c.reqs) jobs.push_back(Job{&r, &e, {}, ""});
    bool threads = true;
    for (auto& j : jobs) {
      if (!e.stack) { j.run(); continue; }
      pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
      pthread_t t;
      if (pthread_create(&t, &at, Job::thread, &j)) { threads = false; j.out = ref[size_t(&j - jobs.data())]; } else pthread_join(t, nullptr);
      pthread_attr_destroy(&at);
    }
    const int r1 = rand();
    std::fflush(nullptr); std::cout.flush(); std::cerr.flush(); std::clog.flush();
    dup2(o1, 1); dup2(o2, 2); close(o1); close(o2);
    struct stat st{}; fstat(sink, &st);
    const std::string then = setlocale(LC_ALL, nullptr);
    const bool cpploc = !e.locale || !e.glob || !have || std::locale().name() == std::locale(LOCS[e.locale - 1].name).name();
    const bool fmt = std::cout.flags() == before.flags() && std::cout.precision() == before.precision() && std::cout.fill() == before.fill();
    std::cout.copyfmt(keep);
    std::locale::global(old); setlocale(LC_ALL, "C");
    if (!threads) labels.push_back("no thread");
    if (e.stack) labels.push_back("thread with a 256 KB stack");
    if (e.round) labels.push_back("directed rounding");
    if (e.vars) labels.push_back("environment variables set");
    for (size_t i = 0; i < jobs.size(); ++i) {
      auto& r = c.reqs[i]; auto& j = jobs[i];
      const std::string what = pbt::fmt("request of kind %ld (n=%ld, a=%ld, b=%ld)", (long)r.kind, (long)r.n, (long)r.a, (long)r.b);
      PBT_REQUIRE(j.out.size() == ref[i].size() || (e.round && (r.kind == 11 || r.kind == 20)), "%s: %zu numbers instead of %zu%s%s", what.c_str(), j.out.size(), ref[i].size(), j.trouble.empty() ? "" : "; ", j.trouble.c_str());
      const bool batches = r.kind == 11 || r.kind == 20;
      if (e.round && batches) {
        PBT_REQUIRE(j.out.size() == 2 && j.out[0] == 1 && j.out[1] == 1, "%s: batches do not hold the grid under directed rounding %s", what.c_str(), j.trouble.c_str());
      } else {
        for (size_t k = 0; k < j.out.size(); ++k) {
          const double u = j.out[k], v = ref[i][k];
          const double tol = e.round ? (r.kind == 18 ? 1e-3 : 1e-6) * (std::abs(v) + 1e-3) : 1e-12 * std::abs(v) + 1e-15;
          PBT_REQUIRE(u == v || std::abs(u - v) <= tol, "%s: number %zu is %.17g, but %.17g in the plain environment%s%s", what.c_str(), k, u, v, j.trouble.empty() ? "" : "; ", j.trouble.c_str());
        }
      }
      PBT_REQUIRE(j.trouble.empty() || (j.out == ref[i] && ref[i].size() == 1 && ref[i][0] == -1e99), "%s: %s", what.c_str(), j.trouble.c_str());
    }
    PBT_REQUIRE(st.st_size == 0, "%ld bytes were written to the standard streams", (long)st.st_size);
    PBT_REQUIRE(r1 == r0, "the C random sequence was advanced or reseeded");
    PBT_REQUIRE(now == then && cpploc, "the locale was changed from %s to %s", now.c_str(), then.c_str());
    PBT_REQUIRE(fmt, "the format of the standard output stream was changed");
    return pbt::pass();
  }
  static pbt::Result check(const Case& c, pbt::Ctx& x) {
    const Env& e = c.env;
    if (e.locale < 0 || e.locale > NLOC) return pbt::pass();
    if (e.vars < 0 || e.vars >= NVAL) return pbt::pass();
    for (auto& r : c.reqs) if (r.n < 1 || r.n > 4000 || r.kind < 0 || r.kind >= NKIND || r.a < 0 || r.b < 0) return pbt::pass();
    make_locales();
    int st = 0;
    std::vector<Out> ref;
    // the same requests in the plain environment
    const std::string a = child([&](auto put) {
      std::vector<Out> o;
      const std::string m = plain_env(c, o);
      if (!m.empty()) { put("-", 1); put(m.data(), m.size()); return; }
      put("+", 1);
      for (auto& v : o) { const uint64_t n = v.size(); put(&n, 8); put(v.data(), n * sizeof(double)); }
    }, st);
    if (st == -1) { x.label("no process"); return pbt::pass(); }
    PBT_REQUIRE(st == 0 && !a.empty(), "the process ended with status %d in the plain environment", st);
    if (a[0] == '-') return pbt::fail(a.substr(1));
    for (size_t at = 1; at < a.size();) {
      uint64_t n; memcpy(&n, &a[at], 8); at += 8;
      Out o(n); memcpy(o.data(), a.data() + at, n * sizeof(double)); at += n * sizeof(double);
      ref.push_back(std::move(o));
    }
    const std::string b = child([&](auto put) {
      std::vector<std::string> l;
      const pbt::Result r = in_env(c, ref, l);
      for (auto& t : l) { put(t.data(), t.size()); put("\n", 1); }
      if (r.ok) put("+", 1); else { put("-", 1); put(r.msg.data(), r.msg.size()); }
    }, st);
    if (st == -1) { x.label("no process"); return pbt::pass(); }
    PBT_REQUIRE(st == 0 && !b.empty(), "the process ended with status %d in this environment", st);
    size_t at = 0;
    while (at < b.size() && b[at] != '+' && b[at] != '-') { const size_t q = b.find('\n', at); x.label(b.substr(at, q - at)); at = q == std::string::npos ? b.size() : q + 1; }
    x.nontrivial = e.locale || e.round || e.stack || e.ftz || e.pre || e.vars;
    if (at < b.size() && b[at] == '-') return pbt::fail(b.substr(at + 1));
    return pbt::pass();
  }
};
PBT_MAIN(P)
