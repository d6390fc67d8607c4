// C10: no memory error, undefined behaviour or hang on any valid input.
// The same enumeration is executed in several builds: with address and undefined-
// behaviour sanitizers and library assertions, and in builds and memory states
// that differ only in what uninitialised memory contains.
#include "catalog.hpp"
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <thread>
using namespace vt;

#ifdef VERIF_UNINIT
static volatile char sink;
__attribute__((noinline)) static void dirty_stack(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; sink = b[17]; }
static int PERT = 0;
extern "C" int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*f)(void*), void* g) {   // worker threads start on a dirtied stack
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F rf = (F)dlsym(RTLD_NEXT, "pthread_create");
  struct A { void* (*f)(void*); void* g; }; auto* x = new A{f, g};
  return rf(o, a, [](void* p) -> void* { A y = *(A*)p; delete (A*)p; dirty_stack(PERT); return y.f(y.g); }, x);
}
#endif

#ifdef VERIF_UNINIT
typedef uint64_t (*Variant)(const double*, int, const int*, int);
static std::vector<Variant>& variants() {
  static std::vector<Variant> v; static bool done = false; if (done) return v; done = true;
  if (const char* l = getenv("VERIF_VARIANTS")) { std::istringstream is(l); std::string f; while (std::getline(is, f, ':')) {
    void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) throw std::runtime_error(dlerror()); v.push_back((Variant)dlsym(h, "variant_run")); } }
  return v;
}
#endif
template <class Ti, class Tf> static uint64_t one(ex::Explorer& e, const Pts& P, const Cfg& c) {
#ifdef VERIF_UNINIT
  uint64_t first = 0;
  for (int v : {0x00, 0xFF, 0x7F, 0x01, 0x3F}) {
    mallopt(M_PERTURB, v == 0 ? 0 : (unsigned char)v); PERT = v; dirty_stack(v);
#ifdef VERIF_MOCK_SYCL
    sycl::mock::config().poison = (unsigned char)v;
#endif
    Out o = run<Ti, Tf>(P, c); mallopt(M_PERTURB, 0);
    e.transitions++; e.traces++; uint64_t h = hash_rows(o.raw); e.outcome(h);
    if (v == 0) first = h; else EXPECT(h == first, "%s: the result depends on what uninitialised memory contained (byte %02x)", c.str().c_str(), v);
  }
  std::vector<double> f; for (auto& p : P) for (double x : p) f.push_back(x); int m[10] = {c.k, c.gr, c.nt, c.chunk, c.p, c.t, c.nd, c.rec, c.gpu, c.chunk_on};
  for (auto v : variants()) { e.transitions++; e.traces++; EXPECT(v(f.data(), P.size(), m, sizeof(Tf) == 8) == first, "%s: the result depends on what uninitialised local variables contained", c.str().c_str()); }
  return first;
#else
  Out o = run<Ti, Tf>(P, c); check_shape(o, c);
  e.transitions++; e.traces += P.size(); uint64_t h = hash_rows(o.raw); e.outcome(h); return h;
#endif
}
static void both(ex::Explorer& e, const Pts& P, Cfg c) {
  e.state(ex::mix(hash_pts(P), ex::hash_str(c.str())));
  c.gpu = false; one<int, float>(e, P, c);
#ifdef VERIF_MOCK_SYCL
  c.gpu = true; c.nt = 1; c.nd = 3; sycl::mock::config().order = c.k % 3; one<int, float>(e, P, c);
#endif
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  const double E = 0.999999940395355224609375, tiny = 1.4e-45, sub = 1e-38;
  Pts extreme = {{tiny, tiny, tiny}, {E, E, E}, {sub, 0.5, E}, {0.5, tiny, 0.5}, {0.5, 0.5, E}, {0.25, 0.25, 0.25}, {0.25, 0.25, 0.2500000298}, {0.75, E, tiny}, {1e-20, 1e-20, 1e-20}, {E, tiny, 0.3}, {0.9999998807907104, E, E}};
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 6 : 4}, {"special", cat::alpha_special(), T ? 7 : 5}, {"extreme", extreme, T ? 7 : 5}, {"cell", cat::alpha_cell(), T ? 6 : 4}, {"lattice", cat::alpha_lattice(), T ? 4 : 3}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& s, const Pts& P) {
      e.run([&] { return ids(s); }, [&] {
        const int n = P.size();
        for (int v = 0; v < 6; v++) {
          Cfg c; c.gr = v == 0 ? 1 : v == 1 ? 2 : v == 2 ? 3 : v == 3 ? 10 : v == 4 ? 5 : 7; c.nt = v == 3 ? 4 : 1 + v % 2; c.k = v == 0 ? std::max(1, n - 1) : v == 1 ? 1 : v == 2 ? n + 3 : v == 3 ? 2 : 3;
          if (v == 2) { c.rec = true; c.p = 1; c.t = 1; } if (v == 3) { c.p = 7; c.t = 9; c.chunk = 2; } if (v == 4) { c.rec = true; c.chunk = 1; c.p = 6; c.t = 8; } if (v == 5) { c.p = 8; c.t = 300; c.chunk_on = true; c.chunk = n; }
          both(e, P, c); if (v == 2 || v == 4) { c.gpu = false; one<int64_t, double>(e, P, c); }
        }
      });
    });
  }
  e.group = "multiset";       // every multiset of up to 4 copies out of 3 places, and duplicates of everything
  Pts place = sets::f32(Pts{{0.5, 0.5, 0.5}, {0.2, 0.3, 0.9}, {0.2, 0.3, 0.90001}});
  for (int a = 0; a <= 4; a++) for (int b = 0; b <= 4; b++) for (int c3 = 0; c3 <= 4; c3++) e.run([&] { return ex::fmt("%d/%d/%d copies", a, b, c3); }, [&] {
    Pts P; for (int i = 0; i < a; i++) P.push_back(place[0]); for (int i = 0; i < b; i++) P.push_back(place[1]); for (int i = 0; i < c3; i++) P.push_back(place[2]);
    const int n = P.size(); for (int g : {1, 2, 9}) for (int k : {1, 3, std::max(1, n - 1), n + 2}) for (int r = 0; r < 2; r++) { Cfg c; c.gr = g; c.k = k; c.rec = r; c.nt = 2; if (k == 3) { c.p = 8; c.t = 10; } both(e, P, c); }
  });
  e.group = "set";
  int q = 0;
  for (auto& L : {cat::degenerate_sets(T), cat::small_sets(T), cat::medium_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); q++; if (!n) continue; if (!T && n > 100 && q % 3) continue;
    for (int v = 0; v < 4; v++) e.run([&] { return s.name + ex::fmt(" variant=%d", v); }, [&] {
      Cfg c; c.gr = v == 0 ? 4 : v == 1 ? 1 : v == 2 ? 11 : 3; c.nt = 1 + v * 2; c.k = v == 0 ? std::max(1, n - 1) : v == 1 ? 12 : v == 2 ? 4 : 2; c.p = 96; c.t = 180;
      if (n > 100 && v == 0) { c.gr = 3; c.k = 60; } if (v == 1) { c.p = 12; c.t = 18; c.chunk = 7; } if (v == 3) { c.rec = true; c.p = 9; c.t = 13; c.chunk = std::max(1, n / 2); if (n > 100) c.k = 20; }
      both(e, s.p, c);
    });
  }
  e.group = "shell";
  for (int m : {60, 120, 200, 244, 250, 256, 300}) for (int v = 0; v < 3; v++) e.run([&] { return ex::fmt("m=%d variant=%d", m, v); }, [&] {
    Pts P = sets::shell(m, 4, 0.36, v == 2 ? 0.0 : 0.003); Cfg c; c.gr = 2; c.k = v == 1 ? 20 : m; c.rec = v == 1; c.p = v == 1 ? 6 : 300; c.t = v == 1 ? 8 : 700; c.nt = 8; one<int, float>(e, P, c); one<int, double>(e, P, c);
  });
  e.group = "many faces";
  for (auto& s : cat::face_sets(T)) e.run([&] { return s.name; }, [&] { Cfg c; c.gr = 1; c.k = s.p.size() - 1; c.p = 255; c.t = 510; one<int, float>(e, s.p, c); c.k = 9; c.rec = true; c.p = 60; c.t = 100; c.nt = 3; c.gr = 3; one<int, double>(e, s.p, c); });
  e.group = "array sizes";
  for (int p : {1, 2, 5, 6, 7, 13, 254, 255, 256, 257, 511, 65536}) for (int t : {1, 7, 8, 9, 17, 255, 256, 257, 65537}) e.run([&] { return ex::fmt("p=%d t=%d", p, t); }, [&] {
    for (int n : {1, 2, 5, 16}) for (int r = 0; r < 2; r++) { Cfg c; c.gr = 2; c.k = std::max(1, n - 1); c.p = p; c.t = t; c.rec = r; both(e, sets::random_set(n, 8), c); }
  });
  e.group = "resolution";
  for (int g : {1, 2, 3, 9, 16, 31, 64, 99, 128, 200, 255, 256, 257}) e.run([&] { return ex::fmt("gr=%d", g); }, [&] {
    for (int w = 0; w < 2; w++) { Pts P = w ? extreme : sets::near_walls(12, g); Cfg c; c.gr = g; c.k = g > 64 ? 1 : 4; if (g > 64) { Pts Q = P; for (auto& p : Q) { auto r = p; r[0] = std::min(E, r[0] + 1e-5); P.push_back(r); } } if (g > 128 && !w) continue; if (g > 200) continue;
      c.gpu = false; one<int, float>(e, P, c); one<int64_t, double>(e, P, c); }
    if (g > 128) { Pts P; sets::Lcg q2(g); for (int i = 0; i < 16; i++) P.push_back({q2.in(.97, .9995), q2.in(.97, .9995), q2.in(.97, .9995)}); P.push_back({E, E, E}); P.push_back({0.99999, 0.99999, 0.99999}); Cfg c; c.gr = g; c.k = 1; one<int, float>(e, sets::f32(P), c); c.gpu = true; both(e, sets::f32(P), c); }
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C10", explore}}); }
