// C03: with limited k, a row is the cell cut by exactly the k nearest points.
#include "huge.hpp"
using namespace vt;

template <class Ti, class Tf> static void check_k(ex::Explorer& e, const Pts& P, int k, const std::vector<int>& grs, const std::vector<int>& nts) {
  const int n = P.size();
  auto R = orc::rows(P, std::min(k, n - 1), margin<Tf>());
  // raising k never removes a neighbour of the complete diagram: every neighbour of the complete
  // diagram that is among the k nearest is in the k-cell, so the reference rows imply it.
  e.state(ex::mix(hash_pts(P), k));
  for (int gr : grs) for (int nt : nts) {
    Cfg c; c.k = k; c.gr = gr; c.nt = nt; c.p = 255; c.t = 510;
    Out o = run<Ti, Tf>(P, c);
    e.transitions++; e.outcome(hash_rows(o.rows));
    for (auto& r : R) e.traces += !r.tie;
    check_shape(o, c);
    check_complete(P, R, o, c);
    check_sound(P, R, o, c);
    for (int i = 0; i < n; i++) EXPECT((int)o.rows[i].size() <= std::min(k, n - 1), "%s: point %d has %zu neighbours with k=%d", c.str().c_str(), i, o.rows[i].size(), k);
  }
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 7}, {"special", cat::alpha_special(), T ? 11 : 8}, {"cell", cat::alpha_cell(), T ? 10 : 8}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] { for (int k = 1; k <= (int)P.size() + 2; k++) check_k<int, float>(e, P, k, {1, 2, 3, 6}, {1}); });
    });
  }
  e.group = "set";
  const std::vector<int> G = T ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 11, 16, 24} : std::vector<int>{1, 2, 5, 8, 11};
  for (auto& s : cat::small_sets(T)) {
    const int n = s.p.size();
    for (int k = 1; k <= n + 2; k++) e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] {
      check_k<int, float>(e, s.p, k, G, {1, 3});
      if (k % 3 == 1) check_k<int64_t, double>(e, s.p, k, {1, 4, 9}, {1});
    });
  }
  for (auto& s : cat::sharp_sets(T)) for (int k = 1; k < (int)s.p.size() + 1; k += 2) 
    e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check_k<int, float>(e, s.p, k, {1, 6}, {1}); });
  for (auto& s : cat::medium_sets(T)) {
    const int n = s.p.size();
    for (int k : {1, 2, 3, 5, 8, 13, 21, 31, 32, 33, 50, 63, 64, 65, 90, 127, 128, 129, 199, 255, 256, n - 2, n - 1, n, n + 1}) if (k <= n + 1)
      e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check_k<int, float>(e, s.p, k, T ? G : std::vector<int>{1, 4, 9, 20}, {1}); });
  }
  for (auto& s : cat::face_sets(T)) for (int k : {60, 129, (int)s.p.size() - 1}) 
    e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check_k<int, float>(e, s.p, k, {1, 5}, {1}); });
  for (auto& s : cat::large_sets(T)) for (int k : {7, 40, 150, 257, 400}) if (k < (int)s.p.size())
    e.run([&] { return s.name + ex::fmt(" k=%d", k); }, [&] { check_k<int, float>(e, s.p, k, {5, 13, 33}, {2}); });
  for (int n : T ? std::vector<int>{290, 530, 1100} : std::vector<int>{290, 530}) for (int s = 1; s <= (T ? 4 : 1); s++) {
    Pts P = sets::lopsided(n, s);
    for (int k : {n / 2, n - 1, n, n + 1, n + 2, n + 9}) for (int gr : {1, 7, 20})
      e.run([&] { return ex::fmt("lopsided(n=%d,%d) k=%d gr=%d", n, s, k, gr); }, [&] { check_k<int, float>(e, P, k, {gr}, {2}); });
  }
  // candidates whose distances differ by far less than float can tell: every k must pick the nearer ones
  e.group = "near ties in double";
  for (int b = 1; b <= (T ? 8 : 3); b++) for (double eps : {1e-6, 1e-8, 1e-10}) for (int n : {5, 14}) for (int ord = 0; ord < 3; ord++)
    e.run([&] { return ex::fmt("base=%d eps=%g n=%d order=%d", b, eps, n, ord); }, [&] {
      Pts P = sets::near_ties(n, b, eps, ord); orc::TieRel exact(1e-12);
      for (int k = 1; k <= n; k++) check_k<int64_t, double>(e, P, k, {1, 2, 3, 5, 11}, {1});
    });
  e.group = "huge";
  for (int k : T ? std::vector<int>{3, 9, 17, 40} : std::vector<int>{9, 21}) e.run([&] { return ex::fmt("random(n=70001) k=%d", k); }, [&] {
    Pts P = sets::random_set(70001, 13); huge::Ref R(P); Cfg c; c.gr = 33; c.k = k; c.p = 96; c.t = 160; c.nt = 2;
    Out o = run<int, float>(P, c); e.transitions++; e.state(ex::mix(hash_pts(P), k)); e.outcome(hash_rows(o.raw));
    e.traces += huge::check_rows(e, R, o, c, k, 0, 1, margin<float>(), true, true, 0);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C03", explore}}); }
