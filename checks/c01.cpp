// C01: every true Voronoi neighbour is reported.
#include "huge.hpp"
using namespace vt;

static std::vector<Cfg> menu(int n, bool small) {
  std::vector<Cfg> v;
  auto add = [&](int k, int gr, int nt, int chunk, int p, int t, bool rec) { Cfg c; c.k = k; c.gr = gr; c.nt = nt; c.chunk = chunk; c.p = p; c.t = t; c.rec = rec; v.push_back(c); };
  const int full = std::max(1, n - 1);
  for (int gr : small ? std::vector<int>{1, 2, 3, 4, 7, 10} : std::vector<int>{1, 2, 3, 5, 8, 16, 17, 32}) {
    add(full, gr, 1, 0, 128, 256, false);
    add(full + 3, gr, 3, 0, 128, 256, false);
    add(full, gr, 2, std::max(1, n / 2), 128, 256, false);
    add(2, gr, 2, 0, 7, 9, true);
    add(std::max(1, n / 3), gr, 1, 3, 32, 32, true);
  }
  add(64, 16, 0, 0, 32, 32, false); add(64, 16, 0, 0, 32, 32, true);
  return v;
}

template <class Ti, class Tf> static void check_set(ex::Explorer& e, const Pts& P, const std::vector<Cfg>& M, bool partial_k) {
  const int n = P.size();
  std::vector<orc::Row> R = orc::rows(P, n, margin<Tf>());
  e.state(hash_pts(P));
  std::map<int, std::vector<char>> cert;   // k -> rows certified by k candidates
  for (auto& c : M) {
    Out o = run<Ti, Tf>(P, c);
    e.transitions++; e.traces += n;
    e.outcome(hash_rows(o.rows));
    if (c.k >= n - 1 || c.rec) { check_complete(P, R, o, c); continue; }
    if (!partial_k) continue;
    auto& ce = cert[c.k];
    if (ce.empty()) { ce.assign(n, 0); for (int i = 0; i < n; i++) { auto r = orc::row(P, i, c.k, margin<Tf>()); ce[i] = r.certified && !r.tie && r.sr_gap > 1e-3; e.extra["rows_certified_by_k"] += ce[i]; } }
    for (int i = 0; i < n; i++) if (ce[i])
      for (int j = 0; j < n; j++) EXPECT(R[i].cls[j] != orc::MUST || has(o.rows[i], j), "%s: point %d misses its neighbour %d although its %d nearest points certify the cell; row is %s", c.str().c_str(), i, j, c.k, ids(o.rows[i]).c_str());
  }
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  // all subsets of the alphabets
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 9}, {"special", cat::alpha_special(), 11}, {"cell", cat::alpha_cell(), 10}, {"lattice", cat::alpha_lattice(), T ? 5 : 3}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] { check_set<int, float>(e, P, menu(P.size(), true), false); });
    });
  }
  e.group = "many faces";
  for (auto& s : cat::face_sets(T)) e.run([&] { return s.name; }, [&] {
    Cfg c; c.k = s.p.size() - 1; c.p = 255; c.t = 510; std::vector<Cfg> M{c}; c.gr = 4; c.nt = 3; M.push_back(c); c.chunk = 31; M.push_back(c); c.chunk = 0; c.rec = true; c.k = 9; M.push_back(c); c.p = 20; c.t = 30; M.push_back(c);
    check_set<int, float>(e, s.p, M, true); check_set<int64_t, double>(e, s.p, M, false);
  });
  e.group = "set";
  for (auto& L : {cat::small_sets(T), cat::sharp_sets(T), cat::degenerate_sets(T), cat::medium_sets(T)})
    for (auto& s : L) {
      const int n = s.p.size();
      e.run([&] { return s.name + " float"; }, [&] {
        auto M = menu(n, n < 45);
        for (int k : {6, 12, 20, 33, 48, 65, 90, 128, 180}) if (k < n - 1) for (int gr : {1, 3, 9, 20}) { Cfg c; c.k = k; c.gr = gr; M.push_back(c); c.nt = 4; c.chunk = 7; M.push_back(c); }
        check_set<int, float>(e, s.p, M, true);
      });
      e.run([&] { return s.name + " double"; }, [&] {
        std::vector<Cfg> M; for (auto& c : menu(n, n < 45)) if (c.gr % 3 != 0) M.push_back(c);
        check_set<int64_t, double>(e, s.p, M, false);
      });
    }
  for (auto& s : cat::large_sets(T)) for (int gr : {1, 7, 16, 40}) for (int k : {80, 200})
    e.run([&] { return s.name + ex::fmt(" gr=%d k=%d", gr, k); }, [&] {
      if (gr == 1 && s.p.size() > 2000) return;
      Cfg c; c.k = k; c.gr = gr; c.nt = 2; c.p = 64; c.t = 128;
      std::vector<Cfg> M{c}; c.rec = true; c.k = 10; c.p = 20; c.t = 30; M.push_back(c);
      check_set<int, float>(e, s.p, M, true);
    });
  e.group = "distant";
  for (auto& s : cat::distant_sets()) for (int gr : {48, 100}) if (T || gr == 48 || s.p.size() < 5) e.run([&] { return s.name + ex::fmt(" gr=%d", gr); }, [&] {
    Cfg c; c.k = s.p.size() - 1; c.gr = gr; std::vector<Cfg> M{c}; c.k = 1; c.rec = true; M.push_back(c); check_set<int, float>(e, s.p, M, false);
  });
  e.group = "fine detail in double";
  for (double q : {1e-3, 1e-5}) for (auto& s : cat::small_sets(T)) {
    if (s.name.find("jitter") != std::string::npos || s.name.find("walls") != std::string::npos) continue;
    e.run([&] { return s.name + ex::fmt(" scaled %g", q); }, [&] {
      sets::Fine F(s.p, q, {.3141592, .77, .25}); auto R = orc::rows(F.p, F.p.size(), q * 1e-3); e.state(hash_pts(F.p));
      for (auto& c : menu(F.p.size(), true)) if ((c.k >= (int)F.p.size() - 1 || c.rec) && c.gr % 3 == 1) { Out o = run<int, double>(F.p, c); e.transitions++; e.traces += F.p.size(); e.outcome(hash_rows(o.rows)); check_complete(F.p, R, o, c); }
    });
  }
  // a neighbour closer to twice the cell's radius than float can tell
  e.group = "security radius in double";
  for (int b = 0; b < (T ? 40 : 16); b++) for (double eps : {2e-9, 1.5e-8, 1e-6}) for (double f : {.25, .6}) {
    sets::Sharp s; if (!sets::sharp(b, eps, 0, 1, 1 - eps * f, s, true)) continue;
    e.run([&] { return ex::fmt("base=%d eps=%g decoy=%g", b, eps, f); }, [&] {
      const int n = s.p.size(); orc::TieRel exact(1e-12); auto R = orc::rows(s.p, n - 1, 1e-11); e.state(hash_pts(s.p));
      for (int g : {1, 4}) for (int rec = 0; rec < 2; rec++) {
        Cfg c; c.k = rec ? 8 : n - 1; c.gr = g; c.rec = rec; Out o = run<int, double>(s.p, c);
        e.transitions++; e.traces += n; e.outcome(hash_rows(o.raw)); check_complete(s.p, R, o, c);
      }
    });
  }
  // more points than 16 bits can number
  e.group = "huge";
  for (int v = 0; v < (T ? 6 : 3); v++) e.run([&] { return ex::fmt("random(n=70001) variant=%d", v); }, [&] {
    Pts P = sets::random_set(70001, 11); huge::Ref R(P); Cfg c; c.gr = v == 1 ? 41 : 30; c.k = v == 2 ? 20 : 70; c.p = 64; c.t = 128; c.nt = 1 + v; if (v == 1) c.chunk = 30000; if (v == 2) c.rec = true; if (v == 3) c.chunk = 65537; if (v == 4) c.nt = 0; if (v == 5) c.gr = 64;
    Out o = run<int, float>(P, c); e.transitions++; e.state(ex::mix(hash_pts(P), v)); e.outcome(hash_rows(o.raw));
    e.traces += huge::check_rows(e, R, o, c, c.rec ? 240 : c.k, 0, 1, margin<float>(), true, false, true);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C01", explore}}); }
