// C23: a call leaves nothing behind: memory, threads, descriptors.
// C24: a call survives a failing acquisition: every single allocation and thread
//      start of the calling thread is made to fail in turn.
// The allocator and the thread functions of the process are replaced by counting,
// failing ones; the code under test is the real one.
#include "catalog.hpp"
#include <atomic>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
using namespace vt;

namespace acc {
static std::atomic<long> live{0}, bytes{0}, started{0}, running{0}, joined{0}, detached{0};
static pthread_t owner; static std::atomic<bool> armed{false};
static long at = 0, seen = 0, tat = 0, tseen = 0, fired = 0; static bool sticky = false;
static bool fail(long& n, long want) { if (!want || !armed || !pthread_equal(owner, pthread_self())) return false; n++; const bool f = sticky ? n >= want : n == want; fired += f; return f; }
static void* get(size_t n, size_t al) {
  if (fail(seen, at)) return nullptr;
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (p) { live++; bytes += malloc_usable_size(p); } return p;
}
static void put(void* p) { if (!p) return; live--; bytes -= malloc_usable_size(p); free(p); }
struct Start { void* (*f)(void*); void* a; };
static void* body(void* v) { Start s = *(Start*)v; free(v); struct Done { ~Done() { running--; } } d; return s.f(s.a); }
struct Snap { long live, bytes, running, open; };
static long descriptors() { long n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static Snap snap() { return {live, bytes, running, descriptors()}; }
static void arm(long a, long t, bool st) { owner = pthread_self(); at = a; tat = t; seen = tseen = fired = 0; sticky = st; armed = true; }
static long disarm() { armed = false; return fired; }
}
void* operator new(size_t n) { void* p = acc::get(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = acc::get(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return acc::get(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return acc::get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = acc::get(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = acc::get(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { acc::put(p); }
void operator delete[](void* p) noexcept { acc::put(p); }
void operator delete(void* p, size_t) noexcept { acc::put(p); }
void operator delete[](void* p, size_t) noexcept { acc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { acc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { acc::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { acc::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { acc::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { acc::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { acc::put(p); }
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  if (acc::fail(acc::tseen, acc::tat)) return EAGAIN;
  auto* s = (acc::Start*)malloc(sizeof(acc::Start)); *s = {f, a}; acc::running++; acc::started++;
  const int r = real(t, at, acc::body, s); if (r) { free(s); acc::running--; acc::started--; } return r;
}
extern "C" int pthread_join(pthread_t t, void** r) {
  static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
  const int q = real(t, r); if (!q) acc::joined++; return q;
}
extern "C" int pthread_detach(pthread_t t) {
  static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  const int q = real(t); if (!q) acc::detached++; return q;
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf nullbuf;

struct Call { std::string name; Pts p; Cfg c; int type = 0; bool loud = false; std::string badkey; };
static std::vector<Call> calls(bool T, bool big) {
  std::vector<Call> v;
  auto add = [&](std::string n, Pts p, Cfg c, int t = 0, bool loud = false, std::string bad = "") { v.push_back({n, p, c, t, loud, bad}); };
  for (int n : {0, 1, 2, 5, big ? 60 : 12}) {
    Pts P = sets::random_set(n, 40 + n); Cfg c; c.gr = 3; c.k = n; c.nt = 3; std::string s = ex::fmt("n=%d", n);
    add(s, P, c); { auto g = c; g.nt = 1; g.gr = 1; add(s + " 1 thread", P, g); } { auto g = c; g.nt = 7; g.k = 2; add(s + " 7 threads", P, g, 1); }
    { auto g = c; g.chunk = 2; add(s + " chunk=2", P, g); add(s + " chunk=2 <int64,float>", P, g, 2); } { auto g = c; g.chunk = 3; g.nt = 2; g.rec = true; g.k = 1; add(s + " chunk=3 recompute", P, g); }
    { auto g = c; g.rec = true; g.k = 1; g.p = 6; g.t = 8; add(s + " recompute", P, g); add(s + " recompute loud", P, g, 3, true); }
    { auto g = c; g.p = 1; g.t = 1; add(s + " p=1", P, g, 0, true); } { auto g = c; g.gpu = true; g.gpu_present = false; add(s + " no device", P, g); }
  }
  add("lattice", sets::lattice(3, 3, 3), [] { Cfg c; c.k = 26; c.gr = 3; c.nt = 2; return c; }());
  for (int n : {0, 1, 2, 7, big ? 60 : 9}) {
    Pts P = sets::random_set(n, 60 + n); Cfg c; c.gpu = true; c.gr = 3; c.k = n; c.nd = 4; std::string s = ex::fmt("device n=%d", n);
    add(s, P, c); { auto g = c; g.chunk = 3; add(s + " chunk=3", P, g); } { auto g = c; g.k = 1; g.rec = true; g.nt = 2; g.p = 6; g.t = 8; add(s + " recompute", P, g, 1); }
  }
  if (big) {
    for (const char* k : {"k", "cpu_nthreads", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout", "gpu_ndsize"})
      for (int g = 0; g < 2; g++) { Cfg c; c.gr = 3; c.k = 3; c.nt = 3; c.rec = true; c.chunk = 4; c.gpu = g; add(ex::fmt("unreadable %s%s", k, g ? " device" : ""), sets::random_set(12, 5), c, 0, false, k); }
    add("clustered 400", sets::clustered(400, 3), [] { Cfg c; c.k = 3; c.gr = 6; c.nt = 4; c.rec = true; c.p = 8; c.t = 12; c.chunk = 33; return c; }());
    if (T) for (int s = 0; s < 6; s++) add(ex::fmt("random 900 #%d", s), sets::random_set(900, s), [&] { Cfg c; c.k = 1 + 9 * s; c.gr = 3 + s; c.nt = 1 + s; c.rec = s % 2; c.chunk = s * 50; c.p = 12; c.t = 16; return c; }(), s % 4);
  }
#ifndef VERIF_MOCK_SYCL
  v.erase(std::remove_if(v.begin(), v.end(), [](const Call& k) { return k.c.gpu; }), v.end());      // what the real runtime keeps is not ours
#endif
  return v;
}

// one call on points that exist already; what: 0 only call, 1 copy, print and save the result too
template <class Ti, class Tf> struct Bench {
  const Call& k; std::vector<std::array<Tf, 3>> in, x; votess::vtargs a;
  Bench(const Call& k) : k(k), in(to<Tf>(k.p)), x(in), a(make_args(k.c)) { a["dev_suppress_stdout"] = !k.loud; if (!k.badkey.empty()) a[k.badkey] = std::string("many"); }
  votess::dnn<Ti> go() {
#ifdef VERIF_MOCK_SYCL
    sycl::mock::config().gpu_present = k.c.gpu && k.c.gpu_present;
#endif
    return votess::tesellate<Ti, Tf>(x, a, k.c.gpu ? votess::device::gpu : votess::device::cpu);
  }
  void quiet(int what) {
    std::copy(in.begin(), in.end(), x.begin());
    try {
      auto d = go();
      if (what) { auto b = d; d = b; auto c = std::move(b); c.print(); c.savetxt("saved.txt"); c.savetxt("/nonexistent/dir/x"); if (c.size()) { auto r = c[0]; if (r.size()) r[0] = 0; } }
    } catch (const std::exception&) { EXPECT(!k.badkey.empty(), "the call failed"); }
  }
  std::vector<std::vector<long>> rows() {
    std::copy(in.begin(), in.end(), x.begin()); auto d = go(); std::vector<std::vector<long>> r;
    for (size_t i = 0; i < d.size(); i++) { r.emplace_back(); auto q = d[i]; for (size_t j = 0; j < q.size(); j++) r.back().push_back(q[j]); }
    return r;
  }
};
struct Mute { std::streambuf *o, *e; Mute() : o(std::cout.rdbuf(&nullbuf)), e(std::cerr.rdbuf(&nullbuf)) {} ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

static void compare(const acc::Snap& a, const acc::Snap& b, long s0, long j0, const std::string& when) {
  EXPECT(b.running == a.running, "%s: %ld threads are still running", when.c_str(), b.running - a.running);
  EXPECT(acc::started - s0 == acc::joined + acc::detached - j0, "%s: %ld threads were never joined", when.c_str(), (acc::started - s0) - (acc::joined + acc::detached - j0));
  EXPECT(b.live == a.live && b.bytes == a.bytes, "%s: %ld allocations (%ld bytes) are still held", when.c_str(), b.live - a.live, b.bytes - a.bytes);
  EXPECT(b.open == a.open, "%s: %ld descriptors are still open", when.c_str(), b.open - a.open);
}
template <class F> static void with(const Call& k, F&& f) {
  switch (k.type) { case 0: { Bench<int, float> b(k); f(b); break; } case 1: { Bench<int64_t, double> b(k); f(b); break; } case 2: { Bench<int64_t, float> b(k); f(b); break; } default: { Bench<int, double> b(k); f(b); } }
}
static void warm() {      // statics of the C++ library and of the runtime model
  Mute m; static bool done = false; if (done) return; done = true;
  for (int t = 0; t < 4; t++) for (int g = 0; g < 3; g++) { Call k; k.p = sets::random_set(2, 1); k.c.nt = 2; k.c.gpu = g > 0; k.c.gpu_present = g > 1; k.c.rec = true; k.c.chunk = 1; k.c.k = 1; k.type = t; k.loud = true; with(k, [](auto& b) { b.quiet(1); }); k.badkey = "k"; with(k, [](auto& b) { b.quiet(0); }); }
}

static void leave(ex::Explorer& e) {
  const bool T = e.thorough(); auto L = calls(T, true); warm();
  auto one = [&](const Call& k, int what) {
    with(k, [&](auto& b) {
      acc::Snap s = acc::snap(); const long s0 = acc::started, j0 = acc::joined + acc::detached;
      b.quiet(what); const acc::Snap t = acc::snap(); compare(s, t, s0, j0, "after " + k.name); e.transitions++; e.traces++;
      e.outcome(ex::mix(acc::started - s0, s.live));
    });
  };
  e.group = "call";
  for (auto& k : L) for (int what = 0; what < 2; what++) for (int rep = 0; rep < 2; rep++) e.run([&] { return k.name + (what ? ", copied and saved" : ""); }, [&] { Mute m; e.state(ex::mix(ex::hash_str(k.name), what)); one(k, what); });
  e.group = "pair";
  for (size_t i = 0; i < L.size(); i++) e.run([&] { return L[i].name + " and each other call"; }, [&] { Mute m; for (size_t j = 0; j < L.size(); j++) { e.state(ex::mix(i, j)); one(L[i], 0); one(L[j], 0); one(L[i], 0); } });
  // results of calls that overlap in time
  e.group = "kept";
  for (size_t i = 0; i < L.size(); i++) if (L[i].badkey.empty()) e.run([&] { return L[i].name; }, [&] {
    Mute m; with(L[i], [&](auto& b) {
      acc::Snap s = acc::snap(); const long s0 = acc::started, j0 = acc::joined + acc::detached;
      { auto d1 = b.go(); auto d2 = b.go(); { auto d3 = b.go(); d1 = d3; d3 = std::move(d2); } auto d4 = b.go(); d4 = d1; }
      const acc::Snap t = acc::snap(); compare(s, t, s0, j0, "after four calls"); e.transitions += 4; e.traces++;
    });
  });
}

static void survive(ex::Explorer& e) {
  const bool T = e.thorough(); auto L = calls(T, false); warm();
  if (T) for (int s = 0; s < 8; s++) { Cfg c; c.k = 1 + 3 * s; c.gr = 1 + s; c.nt = 1 + s; c.rec = s % 2; c.chunk = s * 5; c.p = 7 + s; c.t = 10 + s; L.push_back({ex::fmt("random 40 #%d", s), sets::random_set(40, s), c, s % 4, s % 3 == 0, ""}); }
  for (int thr = 0; thr < 2; thr++) for (int sticky = 0; sticky < 2; sticky++) {
    e.group = std::string(thr ? "thread start" : "allocation") + (sticky ? " and all later ones" : "");
    for (auto& k : L) e.run([&] { return k.name; }, [&] {
      Mute m; const std::string d = e.sh->desc;
      with(k, [&](auto& b) {
        const auto want = b.rows(); const auto order = b.x;
        for (long i = 1;; i++) {
          EXPECT(i < 20000, "endless supply of acquisitions");
          std::snprintf(e.sh->desc, sizeof e.sh->desc, "%s, %s %ld fails", d.c_str(), thr ? "thread start" : "allocation", i);
          std::copy(b.in.begin(), b.in.end(), b.x.begin());
          acc::Snap s = acc::snap(); const long s0 = acc::started, j0 = acc::joined + acc::detached;
          bool threw = false; long hit = 0; bool same = true;
          acc::arm(thr ? 0 : i, thr ? i : 0, sticky);
          try {
            auto r = b.go(); hit = acc::disarm();
            same = r.size() == want.size(); for (size_t q = 0; same && q < want.size(); q++) { auto row = r[q]; same = row.size() == want[q].size(); for (size_t j = 0; same && j < row.size(); j++) same = row[j] == want[q][j]; }
          } catch (const std::exception&) { hit = acc::disarm(); threw = true; }
          const acc::Snap t = acc::snap();
          const std::string when = ex::fmt("%s %ld of the call fails", thr ? "thread start" : "allocation", i);
          EXPECT(threw || same, "%s: the call returns a wrong result", when.c_str());
          EXPECT(hit || !threw, "%s: the call fails although nothing failed", when.c_str());
          compare(s, t, s0, j0, when);
          auto u = b.in, w = b.x; std::sort(u.begin(), u.end()); std::sort(w.begin(), w.end());
          EXPECT(u == w, "%s: points are lost or changed", when.c_str());
          e.transitions++; e.traces++; e.state(ex::mix(ex::mix(ex::hash_str(k.name), i), thr * 2 + sticky)); e.outcome(ex::mix(i, threw));
          if (!hit) break;
          const auto again = b.rows();
          EXPECT(again == want && b.x == order, "%s: the next call gives another result", when.c_str());
        }
      });
      std::snprintf(e.sh->desc, sizeof e.sh->desc, "%s", d.c_str());
    });
  }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C23", leave}, {"C24", survive}}); }
