// C04: the grid resolution never changes the reported neighbours.
#include "huge.hpp"
using namespace vt;

static std::vector<double> dists(const Pts& P, int i, const std::vector<int>& r) { std::vector<double> d; for (int j : r) d.push_back(orc::d2(P[i], P[j])); std::sort(d.begin(), d.end()); return d; }

// rows of `o` against the single-cell rows `b`; FREE entries and ties are rounding
static void same_rows(const std::vector<orc::Row>& R, const Out& b, const Out& o, const Cfg& c) {
  for (size_t i = 0; i < R.size(); i++) {
    if (!R[i].generic || R[i].tie) continue;
    std::vector<int> x, y;
    for (int j : b.rows[i]) if (R[i].cls[j] != orc::FREE) x.push_back(j);
    for (int j : o.rows[i]) if (R[i].cls[j] != orc::FREE) y.push_back(j);
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    EXPECT(x == y, "%s: the row of point %zu is %s, but %s with a grid of one cell", c.str().c_str(), i, ids(y).c_str(), ids(x).c_str());
  }
}
// with room for no plane at all the row is the plain list of the k nearest points
static void same_candidates(const Pts& P, const Out& b, const Out& o, const Cfg& c) {
  for (size_t i = 0; i < P.size(); i++) {
    auto x = dists(P, i, b.rows[i]), y = dists(P, i, o.rows[i]);
    EXPECT(x.size() == y.size(), "%s: point %zu has %zu candidates, %zu with a grid of one cell", c.str().c_str(), i, y.size(), x.size());
    for (size_t j = 0; j < x.size(); j++) EXPECT(std::fabs(x[j] - y[j]) <= 2e-6 * (x[j] + y[j]) + 1e-13, "%s: the nearest points found for point %zu are %s, but %s with a grid of one cell", c.str().c_str(), i, ids(o.rows[i]).c_str(), ids(b.rows[i]).c_str());
  }
}

// cells visited by the ring search: rings up to r, each scanning its whole cube
static double cost(int n, int k, int gr) { double r = std::min<double>(gr, 1 + gr * 1.6 * std::cbrt(double(k) / std::max(1, n))); return 2.0 * n * r * r * r * r; }

template <class Ti, class Tf> static void check(ex::Explorer& e, const Pts& P, int k, const std::vector<int>& grs, bool raw) {
  const int n = P.size();
  auto R = orc::rows(P, std::min(k, n - 1), margin<Tf>());
  e.state(ex::mix(hash_pts(P), k));
  Cfg c; c.k = k; c.gr = 1; c.p = 200; c.t = 400;
  Cfg q = c; q.p = 1;
  Cfg z = c; z.rec = true;
  Out b = run<Ti, Tf>(P, c), bq = run<Ti, Tf>(P, q), bz = run<Ti, Tf>(P, z);
  auto RZ = orc::rows(P, n, margin<Tf>());
  check_complete(P, R, b, c);
  if (raw) {     // the one-cell candidate lists against brute force
    for (int i = 0; i < n; i++) { auto o = orc::by_distance(P, i); o.resize(std::min<size_t>(o.size(), k));
      Out w = bq; w.rows[i] = o; auto x = dists(P, i, o), y = dists(P, i, bq.rows[i]);
      if (y.size() != x.size()) { raw = false; break; }
      for (size_t j = 0; j < x.size(); j++) EXPECT(std::fabs(x[j] - y[j]) <= 2e-6 * (x[j] + y[j]) + 1e-13, "%s: wrong nearest points for point %d: %s", q.str().c_str(), i, ids(bq.rows[i]).c_str()); }
  }
  for (int gr : grs) {
    // the search visits every cell when k is large: keep the work of one run bounded
    if (grs.size() > 1 && cost(n, k, gr) > (e.thorough() ? 1e8 : 1e7)) { e.skipped++; continue; }
    c.gr = q.gr = z.gr = gr;
    Out o = run<Ti, Tf>(P, c); same_rows(R, b, o, c); check_complete(P, R, o, c);
    e.transitions++; e.outcome(hash_rows(o.raw));
    for (auto& r : R) e.traces += r.generic && !r.tie;
    if (raw) { Out oq = run<Ti, Tf>(P, q); same_candidates(P, bq, oq, q); e.transitions++; e.extra["candidate_lists_compared"] += n; }
    if (gr % 4 == 1 && cost(n, n, gr) < 1e7) { Out oz = run<Ti, Tf>(P, z); same_rows(RZ, bz, oz, z); check_complete(P, RZ, oz, z); e.transitions++; }
  }
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  std::vector<int> G2{2, 3, 4, 5, 6, 8, 10, 16};
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 10 : 6}, {"special", cat::alpha_special(), T ? 11 : 7}, {"cell", cat::alpha_cell(), T ? 10 : 6}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      if (P.size() < 2) return;
      e.run([&] { return ids(c); }, [&] { for (int k : {1, 2, 4, (int)P.size()}) check<int, float>(e, P, k, G2, true); });
    });
  }
  e.group = "set";
  auto G = cat::resolutions(T);
  for (auto& L : {cat::small_sets(T), cat::medium_sets(T)}) for (auto& s : L) {
    const int n = s.p.size();
    for (int k : {1, 2, 4, 9, 20, 45, 110, n - 1}) if (k == n - 1 || k < n - 1) 
      e.run([&] { return s.name + ex::fmt(" k=%d float", k); }, [&] { check<int, float>(e, s.p, k, G, true); });
    for (int k : {3, 15, 60}) if (k < n)
      e.run([&] { return s.name + ex::fmt(" k=%d double", k); }, [&] { std::vector<int> H; for (int g : G) if (g % 2 || g > 20) H.push_back(g); check<int64_t, double>(e, s.p, k, H, true); });
  }
  for (auto& s : cat::degenerate_sets(T)) for (int k : {6, 30}) 
    e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check<int, float>(e, s.p, k, {2, 3, 4, 5, 7, 9, 16}, true); });
  for (auto& s : cat::large_sets(T)) if (s.p.size() < 2000) for (int k : {12, 70}) 
    e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check<int, float>(e, s.p, k, {2, 6, 10, 11, 15, 22, 37}, true); });
  // finer than 100 cells per axis: clusters a few cells wide
  for (int gr : T ? std::vector<int>{100, 127, 128, 129, 180, 200, 254, 255, 256, 257, 300, 400} : std::vector<int>{128, 255, 256, 257, 300})
    for (double w : {0.004, 0.03}) for (double at : {0.002, 0.31, 0.96}) 
      e.run([&] { return ex::fmt("cluster(at=%g,width=%g) gr=%d", at, w, gr); }, [&] {
        auto P = sets::random_set(30, 5 + gr); for (auto& p : P) for (auto& x : p) x = sets::f32(at + x * w);
        check<int, double>(e, P, 9, {gr}, true);
      });
  // rings of many cells: the neighbours lie far apart compared with a cell
  e.group = "distant";
  for (auto& s : cat::distant_sets()) for (int gr : {33, 48, 65, 100, 129}) if (T || gr < 66 || s.p.size() < 3 || (gr == 100 && s.p.size() < 5)) for (int d = 0; d < 2; d++)
    e.run([&] { return s.name + ex::fmt(" gr=%d %s", gr, d ? "double" : "float"); }, [&] { const int k = s.p.size() - 1; if (d) check<int64_t, double>(e, s.p, k, {gr}, false); else check<int, float>(e, s.p, k, {gr}, true); });
  // the nearest point lies just across a ring of grid cells, another one a hair farther away inside it
  e.group = "near ties across grid cells in double";
  for (int g : T ? std::vector<int>{5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 19, 20, 21, 23, 25, 29, 31} : std::vector<int>{7, 10, 11, 13, 15, 19, 23}) for (int r = 1; r < g - 1; r++)
    e.run([&] { return ex::fmt("gr=%d ring=%d", g, r); }, [&] {
      for (double gl : {1.0 / g, double(1.0f / g)}) for (int mir = 0; mir < 2; mir++) for (double m : {1e-3, 1e-2}) for (double eps : {2e-9, 1e-8, 4e-8}) for (int ax = 0; ax < 3; ax++) {
        Pts P; if (!sets::ring_ties(r, gl, m, eps, ax, mir, P)) continue;
        orc::TieRel exact(1e-12); auto R = orc::rows(P, 1, margin<double>()); e.state(hash_pts(P));
        Cfg c; c.k = 1; c.gr = 1; Out b = run<int, double>(P, c); c.gr = g; Out o = run<int, double>(P, c);
        e.transitions += 2; e.traces += 3; e.outcome(hash_rows(o.raw)); same_rows(R, b, o, c); check_complete(P, R, o, c);
      }
    });
  // more points than 16 bits can number, at several resolutions
  e.group = "huge";
  for (int gr : T ? std::vector<int>{20, 25, 33, 40, 41, 50, 64, 100} : std::vector<int>{25, 40, 64}) e.run([&] { return ex::fmt("random(n=70001) gr=%d", gr); }, [&] {
    Pts P = sets::random_set(70001, 14); huge::Ref R(P); Cfg c; c.gr = gr; c.k = 16; c.p = 96; c.t = 160; c.nt = 2;
    Out o = run<int, float>(P, c); e.transitions++; e.state(hash_pts(P)); e.outcome(hash_rows(o.raw));
    e.traces += huge::check_rows(e, R, o, c, c.k, 0, 1, margin<float>(), true, true, 0);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C04", explore}}); }
