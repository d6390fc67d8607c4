// C12: float and double, 32- and 64-bit index runs agree; double resolves fine detail.
#include "huge.hpp"
using namespace vt;
static bool judged(const orc::Row& r) { return r.generic && !r.tie && !r.order_tie; }
static std::vector<std::vector<int>> srt(const Out& o) { auto r = o.rows; for (auto& v : r) std::sort(v.begin(), v.end()); return r; }

static void agree(ex::Explorer& e, const Pts& P, const Cfg& c) {
  const int n = P.size();
  auto R = orc::rows(P, std::min(c.k, n - 1), margin<float>());
  if (c.rec) R = orc::rows(P, n, margin<float>());
  Out a = run<int, float>(P, c), b = run<int64_t, float>(P, c), d = run<int, double>(P, c), f = run<int64_t, double>(P, c);
  e.transitions += 4; e.state(ex::mix(hash_pts(P), c.k)); e.outcome(hash_rows(a.raw)); e.outcome(hash_rows(d.raw));
  for (auto* o : {&a, &b, &d, &f}) check_shape(*o, c);
  EXPECT(a.raw == b.raw && a.label == b.label, "%s: float runs with 32- and 64-bit indices differ", c.str().c_str());
  EXPECT(d.raw == f.raw && d.label == f.label, "%s: double runs with 32- and 64-bit indices differ", c.str().c_str());
  check_complete(P, R, a, c);
  orc::TieRel exact(1e-12);
  auto RD = orc::rows(P, c.rec ? n : std::min(c.k, n - 1), margin<double>());
  check_complete(P, RD, d, c);
  std::vector<char> skip(n, 0); for (int i = 0; i < n; i++) skip[i] = !c.rec && (RD[i].order_tie || RD[i].overflow(c.p, c.t) != orc::Row::NONE);
  check_sound(P, RD, d, c, &skip);
  auto x = srt(a), y = srt(d);
  for (int i = 0; i < n; i++) if (judged(R[i])) { e.traces++;
    EXPECT(x[i] == y[i], "%s: point %d has neighbours %s in float and %s in double", c.str().c_str(), i, ids(x[i]).c_str(), ids(y[i]).c_str()); }
}

// a set whose features are `s` in size, far below what float can separate
static void fine(ex::Explorer& e, const Pts& Q, double s, orc::P3 at, double m, const Cfg& c) {
  Pts P; for (auto& q : Q) P.push_back({at[0] + s * (q[0] - .5), at[1] + s * (q[1] - .5), at[2] + s * (q[2] - .5)});
  const int n = P.size(); orc::same2 = s * s * 1e-12; orc::TieRel exact(1e-11);
  auto R = orc::rows(P, c.rec ? n : std::min(c.k, n - 1), m);
  e.state(hash_pts(P));
  for (int w = 0; w < 2; w++) {
    Out o = w ? run<int64_t, double>(P, c) : run<int, double>(P, c);
    e.transitions++; e.traces += n; e.outcome(hash_rows(o.raw));
    check_shape(o, c); check_complete(P, R, o, c); check_sound(P, R, o, c);
  }
  orc::same2 = 1e-12;
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 7}, {"special", cat::alpha_special(), T ? 11 : 7}, {"cell", cat::alpha_cell(), T ? 10 : 7}, {"lattice", cat::alpha_lattice(), T ? 4 : 3}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] {
        const int n = P.size();
        for (int g : {1, 2, 3, 7}) { Cfg f; f.gr = g; f.k = std::max(1, n - 1); agree(e, P, f); f.k = 2; agree(e, P, f); f.rec = true; f.p = 8; f.t = 12; agree(e, P, f); }
      });
    });
  }
  e.group = "many faces";
  for (auto& s : cat::face_sets(T)) e.run([&] { return s.name; }, [&] {
    Cfg c; c.k = s.p.size() - 1; c.p = 255; c.t = 510; std::vector<Cfg> M{c}; c.gr = 4; c.nt = 3; M.push_back(c); c.chunk = 31; M.push_back(c); c.chunk = 0; c.rec = true; c.k = 9; M.push_back(c); c.p = 20; c.t = 30; M.push_back(c);
    for (auto& q : M) agree(e, s.p, q);
  });
  e.group = "set";
  for (auto& L : {cat::small_sets(T), cat::medium_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (n < 1) continue;
    for (int v = 0; v < 4; v++) e.run([&] { return s.name + ex::fmt(" variant=%d", v); }, [&] {
      Cfg f; f.t = 300; f.k = v == 0 ? n : v == 1 ? 12 : 40;
      if (v == 2) { f.rec = true; f.k = 6; f.p = 12; f.t = 18; f.nt = 3; } if (v == 3) { f.chunk = 13; f.nt = 4; f.p = 20; f.t = 30; }
      for (int g : {1, 3, 5, 8, 10}) { if (n > 100 && g > 5 && v == 0) continue; f.gr = g; agree(e, s.p, f); }
    });
  }
  for (auto& s : cat::large_sets(T)) e.run([&] { return s.name; }, [&] { Cfg f; f.gr = 9; f.k = 60; f.p = 64; f.t = 100; agree(e, s.p, f); });
  e.group = "fine detail";
  for (double s : {1e-2, 1e-3, 1e-4, 1e-5}) for (auto& L : {cat::small_sets(T)}) for (auto& x : L) {
    if (x.name.find("jitter") != std::string::npos || x.name.find("walls") != std::string::npos) continue;
    for (orc::P3 at : {orc::P3{.5, .5, .5}, orc::P3{.3141592, .77, .25}, orc::P3{.9, .11, .62}})
      e.run([&] { return x.name + ex::fmt(" scaled %g at (%g,%g,%g)", s, at[0], at[1], at[2]); }, [&] {
        const int n = x.p.size(); Cfg f; f.t = 300; f.k = n - 1;
        for (int g : {1, 4, 7}) { f.gr = g; f.k = n - 1; fine(e, x.p, s, at, s * 1e-3, f); f.k = 10; fine(e, x.p, s, at, s * 1e-3, f); }
      });
  }
  // a neighbour closer to twice the cell's radius than float can tell, examined after one that is closer still
  e.group = "security radius in double";
  for (int b = 0; b < (T ? 60 : 24); b++) for (double eps : {2e-9, 6e-9, 1.5e-8, 1e-7, 1e-6}) for (double f : {.25, .6}) {
    sets::Sharp s; if (!sets::sharp(b, eps, 0, 1, 1 - eps * f, s, true)) continue;
    e.run([&] { return ex::fmt("base=%d eps=%g decoy=%g", b, eps, f); }, [&] {
      const int n = s.p.size(); orc::TieRel exact(1e-12); auto R = orc::rows(s.p, n - 1, 1e-11); e.state(hash_pts(s.p));
      for (int g : {1, 4}) for (int w = 0; w < 2; w++) for (int rec = 0; rec < 2; rec++) {
        Cfg c; c.k = rec ? 8 : n - 1; c.gr = g; c.rec = rec; Out o = w ? run<int64_t, double>(s.p, c) : run<int, double>(s.p, c);
        e.transitions++; e.traces += n; e.outcome(hash_rows(o.raw));
        check_shape(o, c); check_complete(s.p, R, o, c); check_sound(s.p, R, o, c);
      }
    });
  }
  // candidates whose distances differ by far less than float can tell: every k must pick the nearer ones
  e.group = "near ties in double";
  for (int b = 1; b <= (T ? 12 : 5); b++) for (double eps : {1e-6, 1e-8, 1e-10}) for (int n : {5, 9, 14}) for (int ord = 0; ord < 3; ord++)
    e.run([&] { return ex::fmt("base=%d eps=%g n=%d order=%d", b, eps, n, ord); }, [&] {
      Pts P = sets::near_ties(n, b, eps, ord);
      orc::TieRel exact(1e-12);
      for (int k = 1; k <= n; k++) {
        auto R = orc::rows(P, k, margin<double>()); e.state(ex::mix(hash_pts(P), k));
        for (int g : {1, 2, 3, 5, 7, 11}) for (int w = 0; w < 2; w++) {
          Cfg c; c.k = k; c.gr = g; Out o = w ? run<int64_t, double>(P, c) : run<int, double>(P, c);
          e.transitions++; e.traces += n + 1; e.outcome(hash_rows(o.raw));
          check_shape(o, c); check_complete(P, R, o, c); check_sound(P, R, o, c);
        }
      }
    });
  // the nearest point lies just across a ring of grid cells, another one a hair farther away inside it
  e.group = "near ties across grid cells in double";
  for (int g : T ? std::vector<int>{5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 19, 20, 21, 23, 25, 29, 31} : std::vector<int>{7, 9, 10, 11, 13, 14, 15, 19, 21, 23}) for (int r = 1; r < g - 1; r++)
    e.run([&] { return ex::fmt("gr=%d ring=%d", g, r); }, [&] {
      for (double gl : {1.0 / g, double(1.0f / g)}) for (int mir = 0; mir < 2; mir++) for (double m : {1e-3, 1e-2}) for (double eps : {2e-9, 1e-8, 4e-8}) for (int ax = 0; ax < 3; ax++) {
        Pts P; if (!sets::ring_ties(r, gl, m, eps, ax, mir, P)) continue;
        orc::TieRel exact(1e-12); auto R = orc::rows(P, 1, margin<double>()); e.state(hash_pts(P));
        for (int w = 0; w < 2; w++) {
          Cfg c; c.k = 1; c.gr = g; Out o = w ? run<int64_t, double>(P, c) : run<int, double>(P, c);
          e.transitions++; e.traces += 3; e.outcome(hash_rows(o.raw));
          check_shape(o, c); check_complete(P, R, o, c); check_sound(P, R, o, c);
        }
      }
    });
  e.group = "huge";
  e.run([&] { return std::string("random(n=70001) double"); }, [&] {
    Pts P = sets::random_set(70001, 17); huge::Ref R(P); Cfg c; c.gr = 33; c.k = 18; c.p = 96; c.t = 160;
    Out o = run<int64_t, double>(P, c), q = run<int, double>(P, c); e.transitions += 2; e.state(hash_pts(P));
    EXPECT(o.raw == q.raw && o.label == q.label, "%s: double runs with 32- and 64-bit indices differ", c.str().c_str());
    e.traces += huge::check_rows(e, R, o, c, c.k, 0, 1, margin<double>(), true, true, 0);
  });
  e.run([&] { return std::string("random(n=70001) float"); }, [&] {
    Pts P = sets::random_set(70001, 17); huge::Ref R(P); Cfg c; c.gr = 33; c.k = 18; c.p = 96; c.t = 160;
    Out o = run<int64_t, float>(P, c), q = run<int, float>(P, c); e.transitions += 2;
    EXPECT(o.raw == q.raw && o.label == q.label, "%s: float runs with 32- and 64-bit indices differ", c.str().c_str());
    e.traces += huge::check_rows(e, R, o, c, c.k, 0, 1, margin<float>(), true, true, 0);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C12", explore}}); }
