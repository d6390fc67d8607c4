// C02: no false, repeated, self or out-of-range neighbour.
#include "huge.hpp"
using namespace vt;

static std::vector<Cfg> menu(int n, bool small) {
  std::vector<Cfg> v;
  auto add = [&](int k, int gr, int nt, int chunk, int p, int t, bool rec) { Cfg c; c.k = std::max(1, k); c.gr = gr; c.nt = nt; c.chunk = chunk; c.p = p; c.t = t; c.rec = rec; v.push_back(c); };
  for (int gr : small ? std::vector<int>{1, 3, 8} : std::vector<int>{1, 4, 9, 16, 25}) {
    for (int k : {n - 1, n, n + 1, n + 40, n / 2, n / 4}) add(k, gr, 1, 0, 128, 256, false);
    add(n - 1, gr, 3, 4, 128, 256, false);
    add(3, gr, 2, 0, 8, 12, true);
    add(n / 2, gr, 5, 6, 24, 32, true);
    add(n - 1, gr, 1, 0, 16, 24, false);
  }
  for (int p : {1, 5, 6, 7, 9}) for (int t : {1, 7, 8, 12}) if (small || p < 6) { add(n - 1, 1, 1, 0, p, t, false); if (p == 5) add(2, 2, 1, 3, p, t, true); }      // shape of rows of cells that do not fit
  add(64, 16, 0, 0, 32, 32, false); add(64, 16, 0, 0, 32, 32, true); add(200, 16, 0, 0, 64, 64, false);
  return v;
}

template <class Ti, class Tf> static void check_set(ex::Explorer& e, const Pts& P, const std::vector<Cfg>& M) {
  const int n = P.size();
  std::map<int, std::vector<orc::Row>> R;
  e.state(hash_pts(P));
  for (auto& c : M) {
    Out o = run<Ti, Tf>(P, c);
    e.transitions++; e.outcome(hash_rows(o.rows));
    check_shape(o, c);
    const int k = c.rec ? n - 1 : std::min(c.k, n - 1);
    auto& r = R[k]; if (r.empty() && n) r = orc::rows(P, k, margin<Tf>());
    std::vector<char> skip(n, 0);
    for (int i = 0; i < n; i++) {
      // a cell that may exhaust the work arrays is out of scope here (C08)
      skip[i] = c.rec ? r[i].overflow(240, 480) != orc::Row::NONE : (r[i].overflow(c.p - 2, c.t - 4) != orc::Row::NONE);
      if (r[i].generic && !r[i].tie && !skip[i]) { e.traces++; e.extra["rows_in_general_position"]++; }
    }
    check_sound(P, r, o, c, &skip);
  }
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 8}, {"special", cat::alpha_special(), 11}, {"cell", cat::alpha_cell(), 10}, {"lattice", cat::alpha_lattice(), T ? 5 : 3}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] { check_set<int, float>(e, P, menu(P.size(), true)); });
    });
  }
  e.group = "many faces";
  for (auto& s : cat::face_sets(T)) e.run([&] { return s.name; }, [&] {
    Cfg c; c.k = s.p.size() - 1; c.p = 255; c.t = 510; std::vector<Cfg> M{c}; c.gr = 4; c.nt = 3; M.push_back(c); c.chunk = 31; M.push_back(c); c.chunk = 0; c.rec = true; c.k = 9; M.push_back(c); c.p = 20; c.t = 30; M.push_back(c);
    check_set<int, float>(e, s.p, M); check_set<int64_t, double>(e, s.p, M);
  });
  e.group = "set";
  for (auto& L : {cat::small_sets(T), cat::sharp_sets(T), cat::degenerate_sets(T), cat::medium_sets(T)})
    for (auto& s : L) {
      const int n = s.p.size();
      e.run([&] { return s.name + " float"; }, [&] { check_set<int, float>(e, s.p, menu(n, n < 45)); });
      e.run([&] { return s.name + " double"; }, [&] { std::vector<Cfg> M; for (auto& c : menu(n, true)) if (c.gr != 8) M.push_back(c); check_set<int64_t, double>(e, s.p, M); });
    }
  for (auto& s : cat::large_sets(T)) for (int gr : {6, 18, 40}) for (int k : {90, 300})
    e.run([&] { return s.name + ex::fmt(" gr=%d k=%d", gr, k); }, [&] {
      Cfg c; c.k = k; c.gr = gr; c.nt = 2; c.p = 100; c.t = 200;
      check_set<int, float>(e, s.p, {c});
    });
  e.group = "fine detail in double";
  for (double q : {1e-3, 1e-5}) for (auto& s : cat::small_sets(T)) {
    if (s.name.find("jitter") != std::string::npos || s.name.find("walls") != std::string::npos) continue;
    e.run([&] { return s.name + ex::fmt(" scaled %g", q); }, [&] {
      sets::Fine F(s.p, q, {.62, .3141592, .88}); const int n = F.p.size(); auto R = orc::rows(F.p, n - 1, q * 1e-3), H = orc::rows(F.p, std::min(n - 1, 10), q * 1e-3); e.state(hash_pts(F.p));
      for (int gr : {1, 4, 8}) for (int v = 0; v < 3; v++) { Cfg c; c.gr = gr; c.k = v == 0 ? n - 1 : v == 1 ? 10 : 4; c.rec = v == 2; Out o = run<int, double>(F.p, c); e.transitions++; e.traces += n; e.outcome(hash_rows(o.rows)); check_shape(o, c); check_sound(F.p, v == 1 ? H : R, o, c); }
    });
  }
  e.group = "huge";
  for (int v = 0; v < (T ? 4 : 2); v++) e.run([&] { return ex::fmt("random(n=70001) variant=%d", v); }, [&] {
    Pts P = sets::random_set(70001, 12); huge::Ref R(P); Cfg c; c.gr = v % 2 ? 30 : 41; c.k = v == 1 ? 15 : 60; c.p = 96; c.t = 160; c.nt = 2; if (v == 1) c.rec = true; if (v == 2) c.chunk = 40000; if (v == 3) { c.chunk = 65536; c.k = 33; }
    Out o = run<int, float>(P, c); e.transitions++; e.state(ex::mix(hash_pts(P), v)); e.outcome(hash_rows(o.raw));
    e.traces += huge::check_rows(e, R, o, c, c.rec ? 240 : c.k, 0, 1, margin<float>(), false, true, c.rec);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C02", explore}}); }
