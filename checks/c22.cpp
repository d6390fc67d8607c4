// C22: the printed failure summary counts exactly the unfinished cells.
#include "catalog.hpp"
using namespace vt;

struct Sum { long sr = -1, p = -1, t = -1, inf = -1, err = -1; std::string text; };
static long after(const std::string& s, const char* key) {
  size_t a = s.rfind(key); if (a == std::string::npos) return -1; a += strlen(key);
  while (a < s.size() && (s[a] == ' ' || s[a] == ':')) a++;
  if (a >= s.size() || !isdigit(s[a])) return -1; return atol(s.c_str() + a);
}
template <class Ti, class Tf> static Sum summary(const Pts& P, const Cfg& c, Out& o) {
  std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf());
  const auto in = to<Tf>(P); auto x = in; auto a = make_args(c); a["dev_suppress_stdout"] = false;
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = c.gpu;
#endif
  try { auto d = votess::tesellate<Ti, Tf>(x, a, c.gpu ? votess::device::gpu : votess::device::cpu); std::cout.rdbuf(old); o = translate<Ti, Tf>(in, x, d); } catch (...) { std::cout.rdbuf(old); throw; }
  Sum s; s.text = os.str(); size_t f = s.text.rfind("[fail]"); std::string t = f == std::string::npos ? "" : s.text.substr(f);
  s.sr = after(t, "sradius"); s.p = after(t, "p overflow"); s.t = after(t, "t overflow"); s.inf = after(t, "inf boundary"); s.err = after(t, "nerrors");
  EXPECT(s.sr >= 0 && s.p >= 0 && s.t >= 0, "%s: the report lacks the summary: %s", c.str().c_str(), s.text.c_str());
  return s;
}
struct Want { int srlo = 0, srhi = 0, plo = 0, phi = 0, tlo = 0, thi = 0; bool generic = true; };
static Want want(const Pts& P, const std::vector<orc::Row>& R, int p, int t) {
  Want w;
  for (auto& r : R) {
    const bool sure = r.generic && !r.order_tie && !r.tie; if (!sure) w.generic = false;
    const auto o = r.overflow(p, t); const bool init_p = p < 6, init_t = t < 8;
    int op = o == orc::Row::PLANES, ot = o == orc::Row::VERTS;
    if (init_p || init_t) { w.srlo++; w.srhi++; w.plo += init_p; w.phi += init_p; w.tlo += init_t; w.thi += init_t; continue; }   // too small for any cell: both may apply
    const bool any = o != orc::Row::NONE;
    if (!sure) { w.srhi++; w.phi++; w.thi++; if (r.cand.empty()) w.srlo++; continue; }
    w.plo += op; w.phi += op; w.tlo += ot; w.thi += ot;
    if (any) { w.srlo++; w.srhi++; continue; }
    // certified by the last candidate alone, before and after it is applied
    const bool fuzzy = std::fabs(r.sr_gap) < 1e-3 || std::fabs(r.sr_gap_before) < 1e-3 || (r.sr_gap > 0) != (r.sr_gap_before > 0);
    if (r.cand.empty()) { w.srlo++; w.srhi++; continue; }
    if (fuzzy) { w.srhi++; continue; }
    if (r.sr_gap < 0) { w.srlo++; w.srhi++; }
  }
  (void)P; return w;
}
template <class Ti, class Tf> static void check(ex::Explorer& e, const Pts& P, const std::vector<orc::Row>& R, const Cfg& c) {
  Out o; Sum s = summary<Ti, Tf>(P, c, o); e.transitions++; e.traces++; e.outcome(ex::mix(ex::mix(s.sr, s.p), s.t));
  const Want w = c.rec ? want(P, R, 255, 510) : want(P, R, c.p, c.t);
  EXPECT(s.sr >= w.srlo && s.sr <= w.srhi, "%s: the summary counts %ld uncertified cells, expected %d to %d (n=%zu)", c.str().c_str(), s.sr, w.srlo, w.srhi, P.size());
  EXPECT(s.p >= w.plo && s.p <= w.phi, "%s: the summary counts %ld plane overflows, expected %d to %d (n=%zu)", c.str().c_str(), s.p, w.plo, w.phi, P.size());
  EXPECT(s.t >= w.tlo && s.t <= w.thi, "%s: the summary counts %ld triangle overflows, expected %d to %d (n=%zu)", c.str().c_str(), s.t, w.tlo, w.thi, P.size());
  if (w.generic) EXPECT(s.inf <= 0 && s.err <= 0, "%s: the summary counts errors (%ld, %ld) for points in general position", c.str().c_str(), s.inf, s.err);
  if (w.srlo == w.srhi) e.extra["exact_counts"]++;
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  auto all = [&](const Pts& P, const std::vector<int>& KS, bool light) {
    const int n = P.size(); e.state(hash_pts(P));
    for (int k : KS) {
      auto R = orc::rows(P, std::min(k, n - 1), margin<float>());
      for (int v = 0; v < (light ? 6 : 14); v++) {
        Cfg c; c.k = k; c.gr = 1 + v % 4; c.t = 256;
        static const int ps[] = {128, 6, 7, 8, 9, 10, 12, 14, 16, 20, 3, 128, 255, 256}, ts[] = {256, 256, 256, 12, 16, 10, 18, 14, 20, 26, 256, 5, 8, 9};
        c.p = ps[v]; c.t = ts[v]; c.nt = 1 + v % 3; if (v % 3 == 1) c.chunk = 1 + v % 5;
        check<int, float>(e, P, R, c);
        if (v % 4 == 2) { c.gpu = true; c.nd = 3; check<int, float>(e, P, R, c); }
      }
    }
    // every pair of sizes around what the initial and the first cells need
    if (n >= 1 && n <= 14) { const int k = std::max(1, n - 1); auto R = orc::rows(P, n - 1, margin<float>());
      for (int p : {1, 5, 6, 7, 9, 255, 256}) for (int t : {1, 7, 8, 9, 12, 300}) for (int g = 0; g < 2; g++) { Cfg c; c.k = k; c.gr = 2; c.p = p; c.t = t; c.nt = 1; c.gpu = g; check<int, float>(e, P, R, c); } }
    auto RF = orc::rows(P, n, margin<float>());
    for (int k : {1, 2, 5, n - 1}) if (k >= 1) for (int p : {1, 8, 64}) for (int t : {6, 12, 128}) for (int ch : {0, 3}) { if (light && (ch || p == 1)) continue; Cfg c; c.rec = true; c.k = k; c.p = p; c.t = t; c.chunk = ch; c.nt = 2; c.gr = 2; check<int, float>(e, P, RF, c); if (p == 8 && t == 12) { c.gpu = true; check<int, float>(e, P, RF, c); } }
  };
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 8 : 5}, {"special", cat::alpha_special(), T ? 6 : 4}, {"cell", cat::alpha_cell(), T ? 8 : 5}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& s, const Pts& P) { const int n = P.size(); e.run([&] { return ids(s); }, [&] { std::vector<int> K; for (int k = 1; k <= n; k++) K.push_back(k); if (K.empty()) K.push_back(3); all(P, K, false); }); });
  }
  e.group = "set";
  for (auto& L : {cat::small_sets(T), cat::medium_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (!n) continue;
    e.run([&] { return s.name; }, [&] { std::vector<int> K; for (int k : {1, 4, 9, 15, 20, 25, 30, 45, 60, 90, n - 1, n + 5}) if (k > 0 && k <= n + 5 && !(n > 100 && k > 60)) K.push_back(k); all(s.p, K, n > 60); });
  }
  for (int m : {60, 200, 249, 250, 256, 300}) e.run([&] { return ex::fmt("shell(m=%d)", m); }, [&] {
    Pts P = sets::shell(m, 4, 0.36, 0.003); e.state(hash_pts(P)); auto R = orc::rows(P, m, margin<double>());
    for (int p : {40, 100, 250, 255, 256, 300}) for (int t : {60, 100, 400, 520}) { Cfg c; c.k = m; c.gr = 2; c.p = p; c.t = t; check<int, double>(e, P, R, c); }
    for (int k : {5, 50}) { Cfg c; c.rec = true; c.k = k; c.gr = 2; c.p = 16; c.t = 32; check<int, double>(e, P, R, c); }
  });
  for (auto& s : cat::large_sets(T)) e.run([&] { return s.name; }, [&] {
    e.state(hash_pts(s.p)); for (int k : {20, 60}) { auto R = orc::rows(s.p, k, margin<float>()); Cfg c; c.k = k; c.gr = 9; c.p = 26; c.t = 36; check<int, float>(e, s.p, R, c); c.chunk = 100; c.nt = 4; check<int, float>(e, s.p, R, c); c.gpu = true; check<int, float>(e, s.p, R, c); }
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C22", explore}}); }
