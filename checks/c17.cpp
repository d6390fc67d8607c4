// C17: the GPU code path gives the same rows as the CPU path.
#include "huge.hpp"
#include "gpu.hpp"
using namespace vt;
#ifndef VERIF_MOCK_SYCL
static void explore(ex::Explorer& e) { e.run([&] { return std::string("fallback only"); }, [&] {
  Cfg c; c.k = 5; auto P = sets::random_set(20, 1); auto a = run<int, float>(P, c); c.gpu = true; auto b = run<int, float>(P, c); EXPECT(a.raw == b.raw, "rows differ"); e.transitions += 2; e.traces += 20; e.state(1); }); }
#else
static bool judged(const orc::Row& r) { return r.generic && !r.tie && !r.order_tie; }

struct Dev { int order = 0; unsigned char poison = 0xA5; bool watch = false; std::vector<size_t> perm; };

template <class Ti, class Tf> static Out on_gpu(ex::Explorer& e, const Pts& P, Cfg c, const Dev& d) {
  auto& m = sycl::mock::config(); m.order = d.order; m.poison = d.poison; m.perm = d.perm;
  const size_t before = m.launches; c.gpu = true; c.gpu_present = true;
  if (d.watch) gpu::on();
  Out o;
  try { o = run<Ti, Tf>(P, c); } catch (...) { gpu::off(); throw; }
  gpu::off();
  e.transitions++; e.extra["kernel_launches"] += m.launches - before;
  if (d.watch) { e.extra["watched_element_touches"] += gpu::W().touches; gpu::W().touches = 0; EXPECT(gpu::W().conflict.empty(), "%s: %s", c.str().c_str(), gpu::W().conflict.c_str()); }
  EXPECT(P.empty() || m.launches > before, "%s: a GPU is present but no kernel was launched", c.str().c_str());
  return o;
}
template <class Ti, class Tf> struct Ref { Cfg c; Out cpu; std::vector<orc::Row> R; std::vector<char> skip; };
template <class Ti, class Tf> static Ref<Ti, Tf> reference(const Pts& P, Cfg c) {
  Ref<Ti, Tf> r; r.c = c; c.gpu = false; c.chunk = 0; c.nt = 1; r.cpu = run<Ti, Tf>(P, c); const int n = P.size();
  r.R = orc::rows(P, c.rec ? n : std::min(c.k, n - 1), margin<Tf>());
  r.skip.assign(n, 0); for (int i = 0; i < n; i++) r.skip[i] = !c.rec && (r.R[i].order_tie || r.R[i].overflow(c.p, c.t) != orc::Row::NONE);
  return r;
}
template <class Ti, class Tf> static void compare(ex::Explorer& e, const Pts& P, const Ref<Ti, Tf>& r, const Cfg& c, const Dev& d) {
  Cfg g = c; g.gpu = true; Out o = on_gpu<Ti, Tf>(e, P, c, d); e.outcome(hash_rows(o.raw));
  check_shape(o, g); check_complete(P, r.R, o, g); check_sound(P, r.R, o, g, &r.skip);
  EXPECT(o.label == r.cpu.label, "%s: the points are in another order than after a CPU run", g.str().c_str());
  for (size_t i = 0; i < P.size(); i++) {
    if (!judged(r.R[i])) continue;
    e.traces++; auto a = o.rows[i], b = r.cpu.rows[i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    EXPECT(a == b, "%s order=%d poison=%02x: point %zu has neighbours %s on the GPU and %s on the CPU", g.str().c_str(), d.order, d.poison, i, ids(a).c_str(), ids(b).c_str());
  }
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 9 : 6}, {"special", cat::alpha_special(), T ? 8 : 6}, {"cell", cat::alpha_cell(), T ? 8 : 5}, {"lattice", cat::alpha_lattice(), T ? 4 : 2}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& s, const Pts& P) {
      const int n = P.size(); if (!n) return;
      e.run([&] { return ids(s); }, [&] {
        e.state(hash_pts(P));
        for (int v = 0; v < 5; v++) {
          Cfg c; c.gr = v == 1 ? 1 : v == 4 ? 7 : 3; c.k = v == 0 ? std::max(1, n - 1) : v == 1 ? n + 4 : v == 2 ? 2 : 3;
          if (v == 2) { c.rec = true; c.p = 8; c.t = 12; } if (v == 3) { c.p = 9; c.t = 12; }
          auto r = reference<int, float>(P, c);
          for (int nd : {1, 2, 3, n, n + 1}) for (int ch : {0, 1, 2, n - 1, n, n + 1}) {
            c.nd = nd; c.chunk = ch; c.chunk_on = true; if (!ch) c.chunk_on = false;
            Dev d; d.order = (nd + ch + v) % 5; if (d.order == 3) d.order = 0; d.poison = (nd + ch) % 3 == 0 ? 0 : (nd + ch) % 3 == 1 ? 0xA5 : 0xFF; d.watch = (nd * 7 + ch + v) % 4 == 0;
            compare(e, P, r, c, d);
          }
        }
      });
    });
  }
  // every order of work-groups
  e.group = "all work-group orders";
  for (int n = 2; n <= (T ? 7 : 6); n++) for (int seed = 0; seed < 3; seed++) for (int v = 0; v < 3; v++)
    e.run([&] { return ex::fmt("n=%d seed=%d variant=%d", n, seed, v); }, [&] {
      Pts P = sets::random_set(n, seed + 100); e.state(hash_pts(P));
      Cfg c; c.gr = 2; c.k = v == 2 ? 2 : n - 1; if (v == 1) { c.p = 9; c.t = 14; } 
      auto r = reference<int, float>(P, c); Dev d; d.order = 3; d.perm.resize(n); std::iota(d.perm.begin(), d.perm.end(), size_t(0));
      do { d.poison = d.perm[0] % 2 ? 0xFF : 0x01; compare(e, P, r, c, d); } while (std::next_permutation(d.perm.begin(), d.perm.end()));
    });
  e.group = "set";
  for (auto& L : {cat::small_sets(T), cat::medium_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (!n) continue;
    for (int v = 0; v < 6; v++) {
      if (n > 100 && (v == 0)) continue;
      e.run([&] { return s.name + ex::fmt(" variant=%d", v); }, [&] {
        e.state(ex::mix(hash_pts(s.p), v));
        Cfg c; c.gr = v % 2 ? 4 : 3; c.t = 300; c.k = v == 0 ? n - 1 : v == 1 ? 8 : v == 2 ? 5 : v == 3 ? 20 : v == 4 ? 40 : n + 3;
        if (v == 5 && n > 60) { c.k = 30; c.gr = 9; }
        if (v == 2) { c.rec = true; c.p = 10; c.t = 16; } if (v == 3) { c.p = 14; c.t = 22; }
        if (c.k < 1) c.k = 1;
        auto r = reference<int, float>(s.p, c); int q = 0;
        for (int nd : {1, 4, 7, 32}) for (int ch : {0, 1, 5, n / 2, n - 1, n, n + 7}) {
          if (n > 60 && ch == 1) continue; if (ch < 0) continue;
          c.nd = nd; c.chunk = ch; c.chunk_on = ch > 0;
          Dev d; d.order = q++ % 5; if (d.order == 3) d.order = 1; d.poison = q % 2 ? 0xFF : 0; d.watch = n <= 45 && q % 5 == 0; compare(e, s.p, r, c, d);
        }
        if (v < 3) { auto r2 = reference<int64_t, double>(s.p, c); Dev d; d.order = 1; c.nd = 3; c.chunk = 6; c.chunk_on = true; compare(e, s.p, r2, c, d); c.chunk = 0; c.chunk_on = false; d.watch = n < 60; compare(e, s.p, r2, c, d); }
      });
    }
  }
  e.group = "sharp";
  { int q = 0; for (auto& s : cat::sharp_sets(T)) { if (q++ % 3 && !T) continue; e.run([&] { return s.name; }, [&] {
      e.state(hash_pts(s.p)); Cfg c; c.gr = 6; c.k = s.p.size() - 1; auto r = reference<int, float>(s.p, c); Dev d; c.nd = 4; compare(e, s.p, r, c, d); c.chunk = 5; c.chunk_on = true; compare(e, s.p, r, c, d); }); } }
  e.group = "resolution";
  for (int g : {1, 2, 5, 10, 16, 33, 64, 100, 128, 255, 256, 257, 270}) for (int w = 0; w < 2; w++) e.run([&] { return ex::fmt("gr=%d %s", g, w ? "corner" : "spread"); }, [&] {
    Pts P; if (w) { sets::Lcg q(g); for (int i = 0; i < 24; i++) P.push_back({q.in(.97, .9995), q.in(.97, .9995), q.in(.97, .9995)}); P = sets::f32(P); } else P = sets::random_set(g > 64 ? 60 : 120, g);
    e.state(ex::mix(hash_pts(P), g));
    if (g > 64 && !w) { P = sets::f32(P); for (auto& p : P) for (auto& x : p) x = 0.5 + (x - 0.5) * 8 / g; P = sets::f32(P); }
    Cfg c; c.gr = g; c.k = 4; c.t = 300; c.p = 64; auto r = reference<int, float>(P, c); Dev d; c.nd = 5; compare(e, P, r, c, d);
  });
  e.group = "large";
  for (auto& s : cat::large_sets(T)) e.run([&] { return s.name; }, [&] {
    e.state(hash_pts(s.p)); Cfg c; c.gr = 8; c.k = 45; c.p = 64; c.t = 96; auto r = reference<int, float>(s.p, c); Dev d; d.order = 2;
    for (int ch : {0, 100, 257}) { c.nd = 32; c.chunk = ch; c.chunk_on = ch > 0; compare(e, s.p, r, c, d); }
  });
  e.group = "many faces";
  for (auto& s : cat::face_sets(T)) e.run([&] { return s.name; }, [&] {
    Cfg c; c.k = s.p.size() - 1; c.p = 255; c.t = 510; c.gr = 3; e.state(hash_pts(s.p)); auto r = reference<int, float>(s.p, c); Dev d; c.nd = 4; compare(e, s.p, r, c, d); c.nd = 32; c.chunk = 50; c.chunk_on = true; d.poison = 0xFF; d.order = 1; compare(e, s.p, r, c, d);
  });
  e.group = "distant";
  for (auto& s : cat::distant_sets()) for (int gr : {48, 100}) if (gr == 48 || s.p.size() < 3) e.run([&] { return s.name + ex::fmt(" gr=%d", gr); }, [&] {
    Cfg c; c.k = s.p.size() - 1; c.gr = gr; e.state(ex::mix(hash_pts(s.p), gr)); auto r = reference<int, float>(s.p, c); Dev d; c.nd = 4; compare(e, s.p, r, c, d);
  });
  // work-groups wider than a warp or wavefront, watched for conflicts between their items
  e.group = "wide work-groups";
  for (int n : {40, 70, 140, 260}) for (int nd : {33, 64, 65, 100, 128, 129, 256, 257}) if (nd < 2 * n) e.run([&] { return ex::fmt("n=%d work-group=%d", n, nd); }, [&] {
    Pts P = sets::random_set(n, nd); e.state(ex::mix(hash_pts(P), nd)); Cfg c; c.gr = 4; c.k = 7; c.p = 24; c.t = 40; auto r = reference<int, float>(P, c);
    for (int ch : {0, nd / 2 + 1, nd, nd + 1}) { c.nd = nd; c.chunk = ch; c.chunk_on = ch > 0; Dev d; d.order = ch % 2; d.watch = true; d.poison = 0xFF; compare(e, P, r, c, d); }
  });
  e.group = "no GPU";
  for (auto& s : cat::small_sets(T)) e.run([&] { return s.name; }, [&] {
    const int n = s.p.size(); e.state(ex::mix(hash_pts(s.p), 99)); auto& m = sycl::mock::config();
    for (int rec = 0; rec < 2; rec++) for (int ch : {0, 3}) {
      Cfg c; c.gr = 3; c.k = rec ? 4 : n - 1; c.rec = rec; c.chunk = ch; Out a = run<int, float>(s.p, c); c.gpu = true; c.gpu_present = false; const size_t before = m.launches;
      Out b = run<int, float>(s.p, c); e.transitions += 2; e.traces += n;
      EXPECT(a.raw == b.raw && a.label == b.label, "%s: without a GPU the rows differ from a CPU run", c.str().c_str());
      EXPECT(m.launches == before, "%s: a kernel was launched without a GPU", c.str().c_str());
    }
  });
  e.group = "huge";
  for (int v = 0; v < (T ? 4 : 2); v++) e.run([&] { return ex::fmt("random(n=66001) variant=%d", v); }, [&] {
    Pts P = sets::random_set(66001, 18); Cfg c; c.gr = 33; c.k = 12; c.p = 32; c.t = 48; c.nt = 1; Out a = run<int, float>(P, c); huge::Ref R(P);
    c.nd = v ? 64 : 7; c.chunk = v == 1 ? 65537 : v == 3 ? 20000 : 0; c.chunk_on = c.chunk > 0; Dev d; Out o = on_gpu<int, float>(e, P, c, d); e.state(ex::mix(hash_pts(P), v)); e.outcome(hash_rows(o.raw));
    EXPECT(o.label == a.label, "%s: the points are in another order than after a CPU run", c.str().c_str());
    e.traces += huge::check_rows(e, R, o, c, c.k, 0, 1, margin<float>(), true, true, 0);
  });
}
#endif
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C17", explore}}); }
