// C08: undersized work arrays degrade only the affected rows, safely.
#include "catalog.hpp"
using namespace vt;

template <class Ti, class Tf> static void check(ex::Explorer& e, const Pts& P, int k, int gr, const std::vector<int>& PS, const std::vector<int>& TS, int nt = 1, int chunk = 0) {
  const int n = P.size(), kk = std::min(k, n - 1);
  auto R = orc::rows(P, kk, margin<Tf>());
  Cfg a; a.k = k; a.gr = gr; a.p = 255; a.t = 600; a.nt = 1;
  Out ample = run<Ti, Tf>(P, a);
  check_complete(P, R, ample, a); check_sound(P, R, ample, a);
  std::vector<std::vector<int>> knn(n);
  for (int i = 0; i < n; i++) { knn[i] = R[i].cand; std::sort(knn[i].begin(), knn[i].end()); }
  e.state(ex::mix(hash_pts(P), k));
  for (int p : PS) for (int t : TS) {
    Cfg c = a; c.p = p; c.t = t; c.nt = nt; c.chunk = chunk;
    Out o = run<Ti, Tf>(P, c);
    e.transitions++; e.outcome(hash_rows(o.raw));
    check_shape(o, c); check_complete(P, R, o, c);
    for (int i = 0; i < n; i++) {
      if (R[i].tie) continue;
      e.traces++;
      auto v = o.rows[i]; std::sort(v.begin(), v.end());
      auto w = ample.rows[i]; std::sort(w.begin(), w.end());
      const bool exact = v == w, cand = v == knn[i];
      EXPECT(exact || cand, "%s: point %d has row %s: neither its row with ample arrays %s nor all its candidates", c.str().c_str(), i, ids(v).c_str(), ids(w).c_str());
      if (!R[i].generic || R[i].order_tie) continue;
      const bool over = R[i].overflow(p, t) != orc::Row::NONE;
      e.extra[over ? "rows_overflowing" : "rows_fitting"]++;
      if (over) EXPECT(cand, "%s: the cell of point %d does not fit, but its row %s is not the list of its candidates", c.str().c_str(), i, ids(v).c_str());
      else EXPECT(exact, "%s: the cell of point %d fits, but its row %s differs from the one with ample arrays %s", c.str().c_str(), i, ids(v).c_str(), ids(w).c_str());
    }
  }
}

static void explore(ex::Explorer& e) {
#ifdef VERIF_SAN            // the same exploration, thinned, in a build with memory monitors
  const bool T = false, S = !e.thorough();
#else
  const bool T = e.thorough(), S = false;
#endif
  std::vector<int> PS, TS;
  for (int i = 1; i <= 26; i++) PS.push_back(i);
  for (int i : {32, 64, 254, 255, 256, 257, 300, 512}) PS.push_back(i);
  for (int i = 1; i <= 40; i++) TS.push_back(i);
  for (int i : {64, 128, 255, 256, 257, 700}) TS.push_back(i);
  if (S) TS = {1, 7, 8, 9, 10, 12, 13, 15, 18, 21, 24, 26, 30, 40, 256};
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 6}, {"special", cat::alpha_special(), T ? 11 : 6}, {"cell", cat::alpha_cell(), T ? 10 : 6}, {"lattice", cat::alpha_lattice(), T ? 3 : 2}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, S ? std::min(a.m, 4) : a.m, [&](const std::vector<int>& c, const Pts& P) {
      if (P.empty()) return;
      e.run([&] { return ids(c); }, [&] { check<int, float>(e, P, std::max<int>(1, P.size() - 1), 2, {1, 5, 6, 7, 8, 9, 10, 32, 256}, {1, 7, 8, 9, 10, 11, 12, 14, 32}); });
    });
  }
  e.group = "set";
  int nsm = 0;
  for (auto& s : cat::small_sets(T)) {
    const int n = s.p.size(); nsm++;
    if (n > 30 && !T && nsm % 2) continue;
    if (S && (n > 30 || nsm % 4)) continue;
    for (int p : PS) e.run([&] { return s.name + ex::fmt(" p=%d all t", p); }, [&] { check<int, float>(e, s.p, n - 1, 3, {p}, TS); });
    for (int k : {3, 9, 15}) if (k < n) e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check<int, float>(e, s.p, k, 3, {1, 6, 8, 10, 12, 14, 18, 255, 256}, {4, 8, 12, 16, 20, 26, 255}, 3, 4); });
    e.run([&] { return s.name + " double"; }, [&] { check<int64_t, double>(e, s.p, n, 2, {2, 6, 9, 13, 17, 256, 400}, {5, 8, 13, 19, 24, 30, 256}); });
  }
  for (auto& L : {cat::medium_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (n < 1 || (S && n > 60)) continue;
    e.run([&] { return s.name; }, [&] { check<int, float>(e, s.p, std::max(1, n - 1), 6, {6, 12, 20, 32, 48, 64, 255, 256, 300}, {8, 20, 28, 32, 40, 64, 100, 256}, 2); });
  }
  for (int n : S ? std::vector<int>{1, 3} : std::vector<int>{1, 2, 6, 14}) e.run([&] { return ex::fmt("large arrays n=%d", n); }, [&] {
    check<int, float>(e, sets::random_set(n, 6), std::max(1, n - 1), 2, {128, 65535, 65536, 65537, 65542, 65544, 131072}, {128, 65535, 65536, 65540, 65545, 131072, 262144});
  });
  for (int m : S ? std::vector<int>{60, 130} : std::vector<int>{60, 110, 200, 240, 248, 250, 256, 300}) e.run([&] { return ex::fmt("shell(m=%d)", m); }, [&] {
    check<int, double>(e, sets::shell(m, 4, 0.36, 0.003), m, 3, {6, 50, 100, 200, 240, 250, 254, 255, 256, 257, 300, 600}, {50, 120, 200, 255, 256, 300, 480, 700});
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C08", explore}}); }
