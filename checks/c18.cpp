// C18: calls leave standard output as found, also when they run concurrently.
// Compiled with access instrumentation against the controlled scheduler in mc/;
// operations on the shared std::cout are scheduling points.
#include "catalog.hpp"
#include "sched.hpp"
#include <dlfcn.h>
#include <sys/stat.h>
using namespace vt;
#define NT __attribute__((no_sanitize("thread"), noinline))

// where std::cout writes during a case
struct Rec : std::streambuf {
  static constexpr int CAP = 1 << 17; char b[CAP]; int n = 0;
  NT int_type overflow(int_type c) override { if (c != traits_type::eof() && n < CAP) b[n++] = (char)c; return c; }
  NT std::streamsize xsputn(const char* s, std::streamsize m) override { for (std::streamsize i = 0; i < m && n < CAP; i++) b[n++] = s[i]; return m; }
  NT int sync() override { return 0; }
};
static Rec rec;
static std::streambuf* safe[4];       // buffers the standard makes safe for concurrent use, and the harness's own

static NT bool is_shared(const std::ios* i) { return i == static_cast<std::ios*>(&std::cout) || i == static_cast<std::ios*>(&std::cerr) || i == static_cast<std::ios*>(&std::clog); }
extern "C" NT std::streambuf* hook_rdbuf(std::ios* self, std::streambuf* sb) __asm__("_ZNSt9basic_iosIcSt11char_traitsIcEE5rdbufEPSt15basic_streambufIcS1_E");
extern "C" NT std::streambuf* hook_rdbuf(std::ios* self, std::streambuf* sb) {
  typedef std::streambuf* (*F)(std::ios*, std::streambuf*); static F f = (F)dlsym(RTLD_NEXT, "_ZNSt9basic_iosIcSt11char_traitsIcEE5rdbufEPSt15basic_streambufIcS1_E");
  if (is_shared(self)) mc::point();
  auto* r = f(self, sb);
  if (is_shared(self)) mc::point();
  return r;
}
extern "C" NT void hook_clear(std::ios* self, std::ios::iostate st) __asm__("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
extern "C" NT void hook_clear(std::ios* self, std::ios::iostate st) {
  typedef void (*F)(std::ios*, std::ios::iostate); static F f = (F)dlsym(RTLD_NEXT, "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
  if (is_shared(self)) mc::point();
  f(self, st);
}
extern "C" NT std::ostream& hook_insert(std::ostream& o, const char* s, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
extern "C" NT std::ostream& hook_insert(std::ostream& o, const char* s, long n) {
  typedef std::ostream& (*F)(std::ostream&, const char*, long); static F f = (F)dlsym(RTLD_NEXT, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
  auto* b = o.rdbuf(); if (b && b != safe[0] && b != safe[1] && b != safe[2] && b != safe[3]) mc::touch((void*)b, 8, true);
  return f(o, s, n);
}
extern "C" NT int dup2(int a, int b) { typedef int (*F)(int, int); static F f = (F)dlsym(RTLD_NEXT, "dup2"); mc::point(); int r = f(a, b); mc::point(); return r; }
extern "C" NT int dup(int a) { typedef int (*F)(int); static F f = (F)dlsym(RTLD_NEXT, "dup"); mc::point(); return f(a); }

struct Call { int n = 3, seed = 1; Cfg c; bool quiet = true; int type = 0; const char* bad = nullptr; 
  std::string str() const { return ex::fmt("%s n=%d %s%s%s%s", quiet ? "quiet" : "loud", n, c.str().c_str(), type ? " int64/double" : "", bad ? " bad " : "", bad ? bad : ""); } };

template <class Ti, class Tf> static uint64_t go(const Call& k, std::vector<std::array<Tf, 3>>& x, const votess::vtargs& a) {
  auto d = votess::tesellate<Ti, Tf>(x, a, k.c.gpu ? votess::device::gpu : votess::device::cpu);
  uint64_t h = d.size(); for (size_t i = 0; i < d.size(); i++) { auto r = d[i]; h = ex::mix(h, r.size()); for (size_t j = 0; j < r.size(); j++) h = ex::mix(h, (uint64_t)r[j]); }
  return h;
}
struct Ready { Call k; votess::vtargs a; std::vector<std::array<float, 3>> f; std::vector<std::array<double, 3>> d;
  explicit Ready(const Call& c) : k(c), a(make_args(c.c)) { a["dev_suppress_stdout"] = c.quiet; auto P = sets::random_set(c.n, c.seed); if (c.type) d = to<double>(P); else f = to<float>(P); if (c.bad) a[c.bad] = std::string("abc"); }
  uint64_t operator()() { try { return k.type ? go<int64_t, double>(k, d, a) : go<int, float>(k, f, a); } catch (const std::exception&) { if (!k.bad) throw; return 5; } } };

struct Found {            // standard output as the caller sees it
  std::streambuf* b; std::ios::iostate st, exc; std::ios::fmtflags fl; std::streamsize prec, width; char fill; std::ostream* tie; ino_t ino; dev_t dev;
  Found() { b = std::cout.rdbuf(); st = std::cout.rdstate(); exc = std::cout.exceptions(); fl = std::cout.flags(); prec = std::cout.precision(); width = std::cout.width(); fill = std::cout.fill(); tie = std::cout.tie(); struct stat s; if (fstat(1, &s)) { ino = 0; dev = 0; } else { ino = s.st_ino; dev = s.st_dev; } }
  void same(const char* when) const { Found o;
    EXPECT(o.b == b, "%s std::cout writes to another buffer than before", when);
    const auto more = st & std::ios::badbit ? std::ios::failbit : std::ios::goodbit;   // any flush of a broken stream sets it too
    EXPECT((o.st | more) == (st | more) && o.exc == exc, "%s std::cout is in another state than before (%d, was %d)", when, (int)o.st, (int)st);
    EXPECT(o.fl == fl && o.prec == prec && o.width == width && o.fill == fill && o.tie == tie, "%s the formatting of std::cout has changed", when);
    EXPECT(o.ino == ino && o.dev == dev, "%s file descriptor 1 refers to another file than before", when); }
};
static std::string sorted(std::string s) { std::sort(s.begin(), s.end()); return s; }
static void gpu(const std::vector<Call>& v) {
#ifdef VERIF_MOCK_SYCL
  bool g = false; for (auto& k : v) g = g || (k.c.gpu && k.c.gpu_present); sycl::mock::config().gpu_present = g;
#endif
}
// alone, in a fresh process: result and text
struct Solo { uint64_t h; std::string text; bool stable; };
static Solo solo(const Call& k) {
  Solo s; s.stable = true;
  for (int rep = 0; rep < 2; rep++) {
    auto* sh = sched::shm(); sh->text[0] = 0;
    char* area = (char*)mmap(nullptr, Rec::CAP + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) { alarm(60); auto* old = std::cout.rdbuf(&rec); rec.n = 0; gpu({k}); uint64_t h = Ready(k)(); std::cout.rdbuf(old); std::memcpy(area + 64, rec.b, rec.n); *(int*)area = rec.n; *(uint64_t*)(area + 8) = h; *(int*)(area + 16) = 1; _exit(0); }
    int st; waitpid(p, &st, 0);
    const bool ok = *(int*)(area + 16) == 1; std::string t(area + 64, *(int*)area); uint64_t h = *(uint64_t*)(area + 8); munmap(area, Rec::CAP + 64);
    EXPECT(ok, "the call alone does not return: %s (status %d)", k.str().c_str(), st);
    if (rep) s.stable = t == s.text && h == s.h; s.h = h; s.text = t;
  }
  return s;
}

static void concurrent(ex::Explorer& e, const std::vector<Call>& calls, int bound, size_t cap, bool real_stdout, int policies = 0) {
  std::vector<Solo> so; for (auto& k : calls) so.push_back(solo(k));
  bool stable = true; std::string expect; int loud = 0;
  for (size_t i = 0; i < calls.size(); i++) { 
    EXPECT(!calls[i].quiet || so[i].text.empty(), "a suppressed call wrote to standard output: %s", so[i].text.substr(0, 200).c_str());
    EXPECT(calls[i].quiet || !so[i].text.empty(), "no progress report although output is not suppressed");
    stable = stable && so[i].stable; expect += so[i].text; loud += !calls[i].quiet; }
  expect = sorted(expect);
  gpu(calls);
  auto body = [&]() -> uint64_t {
    char path[] = "/tmp/c18-XXXXXX"; int fd = -1; std::streambuf* keep = std::cout.rdbuf();
    if (real_stdout) { 
#ifdef O_TMPFILE
      fd = open(".", O_TMPFILE | O_RDWR, 0600);
#endif
      if (fd < 0) { fd = mkstemp(path); unlink(path); } fflush(stdout); ::dup2(fd, 1); }
    else std::cout.rdbuf(&rec);
    rec.n = 0; const Found before;
    std::vector<Ready> rd; for (auto& k : calls) rd.emplace_back(k);
    std::vector<uint64_t> got(calls.size()); 
    { std::vector<std::thread> th;
      for (size_t i = 0; i < calls.size(); i++) th.emplace_back([&, i] {
        got[i] = rd[i]();
        static const char* mark[] = {"@alpha@", "@beta@", "@gamma@", "@delta@"};
        std::cout << mark[i] << std::flush;
      });
      for (auto& t : th) t.join(); }
    before.same("after concurrent calls");
    std::cout << "@end@" << std::flush;
    std::string text;
    if (real_stdout) { fflush(stdout); off_t z = lseek(fd, 0, SEEK_END); text.resize(z); if (pread(fd, &text[0], z, 0) != z) text.clear(); } else { text.assign(rec.b, rec.n); std::cout.rdbuf(keep); }
    for (size_t i = 0; i < calls.size(); i++) EXPECT(got[i] == so[i].h, "concurrent call %zu (%s) returned another result than alone", i, calls[i].str().c_str());
    const char* marks[] = {"@alpha@", "@beta@", "@gamma@", "@delta@", "@end@"};
    for (size_t i = 0; i < 5; i++) { if (i >= calls.size() && i < 4) continue; size_t at = text.find(marks[i]);
      EXPECT(at != std::string::npos, i == 4 ? "output written after all calls had returned was lost" : "output a thread wrote after its call had returned was lost (thread %zu)", i);
      text.erase(at, strlen(marks[i])); }
    if (!loud) EXPECT(text.empty(), "suppressed calls wrote to standard output: %s", text.substr(0, 200).c_str());
    else if (stable) EXPECT(sorted(text) == expect, "the progress report of concurrent calls is not what they print alone: %s", text.substr(0, 400).c_str());
    else EXPECT(!text.empty(), "no progress report although output is not suppressed");
    uint64_t h = 3; for (auto g : got) h = ex::mix(h, g); return h;
  };
  if (policies) for (int p = 0; p < 3; p++) { sched::once(e, {}, p, true, body); e.traces++; e.state(ex::mix(p, ex::hash_str(e.sh->desc))); }
  else sched::all(e, bound, cap, true, body, [&](uint64_t h, const mc::Shared*) { e.traces++; e.outcome(h); });
}

// sequences of calls in one process, from different initial conditions of std::cout
static void sequence(ex::Explorer& e, const std::vector<Call>& calls, int setup) {
  std::vector<Solo> so; for (auto& k : calls) so.push_back(solo(k));
  auto* sh = sched::shm(); sh->text[0] = 0; sh->has_result = 0;
  pid_t p = fork();
  if (!p) {
    alarm(60);
    try {
      char path[] = "/tmp/c18-XXXXXX"; int fd = mkstemp(path); unlink(path); fflush(stdout); ::dup2(fd, 1);
      auto* old = std::cout.rdbuf();
      switch (setup) {
        case 1: std::cout.rdbuf(&rec); break;
        case 2: std::cout.rdbuf(&rec); std::cout << std::hex << std::showbase << std::uppercase << std::setprecision(3) << std::scientific << std::boolalpha << std::left; std::cout.fill('*'); break;
        case 3: std::cout.rdbuf(&rec); std::cout.setstate(std::ios::badbit); break;
        case 4: std::cout.rdbuf(&rec); std::cout.exceptions(std::ios::badbit | std::ios::failbit); break;
        case 5: std::cout.rdbuf(nullptr); break;
        case 6: std::cout.rdbuf(&rec); std::cout.width(12); break;
      }
      const bool inrec = setup && setup != 5, mute = setup == 3 || setup == 5; const Found f0;
      size_t seen = 0; rec.n = 0; std::string text;
      auto take = [&] { fflush(stdout); if (inrec) text.assign(rec.b, rec.n); else { off_t z = lseek(fd, 0, SEEK_END); text.resize(z); if (pread(fd, &text[0], z, 0) != z) text.clear(); } std::string r = text.substr(std::min(seen, text.size())); seen = text.size(); return r; };
      for (size_t i = 0; i < calls.size(); i++) {
        gpu({calls[i]}); uint64_t h = Ready(calls[i])();
        f0.same("after the call");
        EXPECT(h == so[i].h, "call %zu (%s) returned another result than in a fresh process", i, calls[i].str().c_str());
        std::string t = take(); 
        if (inrec) { fflush(stdout); EXPECT(lseek(fd, 0, SEEK_END) == 0, "a call wrote to file descriptor 1 although std::cout writes elsewhere"); }
        if (calls[i].quiet) EXPECT(t.empty(), "a suppressed call wrote to standard output: %s", t.substr(0, 200).c_str());
        else if (!mute && !calls[i].bad && setup != 6) { EXPECT(!t.empty(), "no progress report although output is not suppressed"); if (so[i].stable && setup < 2) EXPECT(t == so[i].text, "call %zu printed another report than in a fresh process: %s", i, t.substr(0, 300).c_str()); }
        if (setup == 6) continue;
        if (!mute) { std::cout << "@" << i << "@" << std::flush; std::string m = take(); EXPECT(m.find(std::to_string(i)) != std::string::npos, "output written after call %zu was lost (got '%s')", i, m.c_str()); }
        f0.same("after a later write");
      }
      (void)old; sh->has_result = 1;
    } catch (const std::exception& v) { std::snprintf(sh->text, sizeof sh->text, "%s", v.what()); }
    _exit(0);
  }
  int st; waitpid(p, &st, 0); e.sh->last_progress = time(nullptr);
  EXPECT(WIFEXITED(st), "the process ended with status %d", st);
  EXPECT(!sh->text[0], "%s", sh->text);
  EXPECT(sh->has_result, "the sequence did not finish");
  e.transitions += calls.size(); e.traces++; e.state(ex::hash_str(e.sh->desc));
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  safe[0] = std::cout.rdbuf(); safe[1] = &rec; safe[2] = std::cerr.rdbuf(); safe[3] = std::clog.rdbuf();
  mc::ignore(&std::cout, sizeof std::cout); mc::ignore(&std::cerr, sizeof std::cerr); mc::ignore(&std::clog, sizeof std::clog); mc::ignore(&rec, sizeof rec);
#ifdef VERIF_MOCK_SYCL
  mc::ignore(&sycl::mock::config(), sizeof(sycl::mock::config()));
#endif
  auto mk = [](bool quiet, int n = 3, int nt = 1, int seed = 1) { Call k; k.quiet = quiet; k.n = n; k.seed = seed; k.c.nt = nt; k.c.gr = 2; k.c.k = std::max(1, n - 1); k.c.p = 16; k.c.t = 24; return k; };
  std::vector<Call> A;
  A.push_back(mk(true)); A.push_back(mk(false));
  { Call k = mk(true, 5, 2); k.c.rec = true; k.c.k = 2; k.c.chunk = 2; A.push_back(k); k.quiet = false; A.push_back(k); }
  { Call k = mk(true, 4); k.c.gpu = true; A.push_back(k); k.quiet = false; A.push_back(k); k.c.gpu_present = false; A.push_back(k); }
  { Call k = mk(true, 0); A.push_back(k); k.quiet = false; A.push_back(k); }
  { Call k = mk(false, 6); k.type = 1; A.push_back(k); }
  for (const char* b : {"k", "knn_grid_resolution", "cpu_nthreads", "cc_p_maxsize", "use_chunking", "use_recompute", "dev_suppress_stdout"}) { Call k = mk(true); k.bad = b; A.push_back(k); if (std::string(b) != "dev_suppress_stdout") { k.quiet = false; A.push_back(k); } }
  e.group = "sequence";
  for (int setup = 0; setup < 7; setup++) for (int L = 1; L <= (T ? 3 : 2); L++) {
    size_t m = 1; for (int i = 0; i < L; i++) m *= A.size();
    for (size_t q = 0; q < m; q++) {
      if (!T && L == 2 && setup > 1 && q % 3) continue;
      std::vector<Call> s; for (size_t x = q, i = 0; i < (size_t)L; i++, x /= A.size()) s.push_back(A[x % A.size()]);
      e.run([&] { std::string d = ex::fmt("stdout setup %d:", setup); for (auto& k : s) d += " [" + k.str() + "]"; return d; }, [&] { sequence(e, s, setup); });
    }
  }
  e.group = "single";
  for (int n = 0; n <= (T ? 12 : 8); n++) for (int nt : {1, 2, 4}) for (int ch : {0, 1, 3}) for (int r = 0; r < 2; r++) for (int g = 0; g < 3; g++) for (int q = 0; q < 2; q++) {
    Call k = mk(q, n, nt, 5); k.c.chunk = ch; k.c.rec = r; if (r) k.c.k = 1; k.c.gpu = g > 0; k.c.gpu_present = g == 1; k.type = (n + ch) % 2;
    e.run([&] { return k.str(); }, [&] { sequence(e, {k}, (n + nt) % 2); });
  }
  e.group = "larger";
  for (int n : T ? std::vector<int>{13, 20, 33, 50, 64, 65, 66, 100, 128, 129, 200, 256, 257, 300, 500, 513, 1000, 1500, 4000} : std::vector<int>{13, 33, 65, 100, 129, 200, 257, 513, 1030, 2000}) for (int ch : {0, 64}) for (int r = 0; r < 2; r++) for (int g = 0; g < 3; g++) for (int q = 0; q < 2; q++) {
    if (ch >= n || (g && n > 600 && !T)) continue;
    Call k = mk(q, n, 1 + n % 3, 6); k.c.k = r ? 6 : 12; k.c.gr = n > 200 ? 6 : 3; k.c.chunk = ch; k.c.rec = r; k.c.gpu = g > 0; k.c.gpu_present = g == 1; k.type = (n + ch) % 2;
    e.run([&] { return k.str(); }, [&] { sequence(e, {k}, n % 2); });
  }
  e.group = "concurrent";
  struct P { std::vector<Call> v; int bound; }; std::vector<P> Q;
  for (int qa = 0; qa < 2; qa++) for (int qb = 0; qb < 2; qb++) for (int nt = 1; nt <= 2; nt++) {
    Q.push_back({{mk(qa, 2, nt, 1), mk(qb, 3, 1, 2)}, nt == 1 ? (T ? 3 : 2) : (T ? 2 : 1)});
    Call r = mk(qa, 4, nt, 3); r.c.rec = true; r.c.k = 1; r.c.p = 8; Call c = mk(qb, 3, 1, 4); c.c.chunk = 2;
    if (T) Q.push_back({{r, c}, nt == 1 ? 1 : 0});
    if (T || nt == 1) Q.push_back({{r, mk(qb, 2, 1, 4)}, nt == 1 ? T : 0}); Q.push_back({{mk(qa, 2, 1, 3), c}, T});
    Call d = mk(qa, 3, nt, 5); d.type = 1; Q.push_back({{d, mk(qb, 3, 1, 5)}, (T ? 2 : nt == 1)});
    Call g = mk(qa, 3, nt, 6); g.c.gpu = true; g.c.gpu_present = false; Q.push_back({{g, g}, T ? 2 : nt == 1 ? 1 : 0});
    Call z = mk(qa, 0, nt, 6); Q.push_back({{z, mk(qb, 2, 1, 7)}, T ? 2 : nt == 1});
    Call b = mk(qa, 3, nt, 8); b.bad = "use_recompute"; Q.push_back({{b, mk(qb, 2, 1, 7)}, T ? 2 : nt == 1});
  }
  for (int m = 0; m < 8; m++) Q.push_back({{mk(m & 1, 2, 1, 1), mk(m >> 1 & 1, 1, 1, 2), mk(m >> 2 & 1, 2, 1, 3)}, T ? 1 : 0});
  for (auto& p : Q) for (int real = 0; real < 2; real++) {
    if (real && !T && p.v.size() > 2) continue;
    e.run([&] { std::string d = ex::fmt("bound=%d %s:", p.bound, real ? "stdout" : "user buffer"); for (auto& k : p.v) d += " [" + k.str() + "]"; return d; }, [&] { concurrent(e, p.v, real ? std::min(p.bound, T ? 2 : 0) : p.bound, T ? 100000 : 20000, real); });
  }
  e.group = "concurrent device";
  for (int qa = 0; qa < 2; qa++) for (int qb = 0; qb < 2; qb++) for (int r = 0; r < 2; r++) {
    Call a = mk(qa, 3, 1, 1), b = mk(qb, 4, 1, 2); a.c.gpu = b.c.gpu = true; a.c.rec = r; if (r) a.c.k = 1; Call c = mk(qb, 3, 2, 3);
    for (auto& v : std::vector<std::vector<Call>>{{a, b}, {a, c}}) e.run([&] { std::string d; for (auto& k : v) d += " [" + k.str() + "]"; return d; }, [&] { concurrent(e, v, 0, 20000, false, 1); if (T) concurrent(e, v, 0, 20000, false); });
  }
  e.group = "larger concurrent";
  for (int n : {40, 70, 130, 260}) for (int q = 0; q < 4; q++) for (int r = 0; r < 2; r++) {
    Call a = mk(q & 1, n, 1, 1), b = mk(q >> 1, n + 7, 1, 2); a.c.k = b.c.k = 8; a.c.gr = b.c.gr = 4; a.c.p = b.c.p = 24; a.c.t = b.c.t = 40; a.c.rec = r; if (r) a.c.chunk = 50;
    e.run([&] { return ex::fmt("[%s] [%s]", a.str().c_str(), b.str().c_str()); }, [&] { concurrent(e, {a, b}, 0, 1, false, 1); });
  }
  e.group = "many";
  for (int m = 2; m <= 4; m++) for (int nt : {1, 2, 4}) for (int q = 0; q < 3; q++) {
    std::vector<Call> v; for (int i = 0; i < m; i++) { Call k = mk(q == 0 ? true : q == 1 ? false : i % 2, 4 + 3 * i, nt, 9 + i); k.c.rec = i % 2; k.c.chunk = i == 2 ? 3 : 0; if (k.c.rec) k.c.k = 2; v.push_back(k); }
    e.run([&] { return ex::fmt("%d callers, %d threads each, suppression %d", m, nt, q); }, [&] { concurrent(e, v, 0, 1, false, 1); });
  }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C18", explore}}); }
