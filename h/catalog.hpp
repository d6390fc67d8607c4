// The finite spaces explored: alphabets of points whose subsets are enumerated
// completely, fixed families of larger sets, and parameter domains.
#ifndef VERIF_CATALOG_HPP
#define VERIF_CATALOG_HPP
#include "vt.hpp"

namespace cat {
using orc::Pts;
struct Named { std::string name; Pts p; };

// ---- alphabets -----------------------------------------------------------
inline Pts alpha_generic() { return sets::random_set(12, 3); }
inline Pts alpha_special() {   // walls, grid faces of several resolutions, a tight pair, a coincident pair
  const double E = 0.999999940395355224609375;   // largest float below 1
  return sets::f32(Pts{
    {0.5, 0.5, 0.5}, {0.25, 0.75, 0.5}, {1e-6, 0.31, 0.62}, {E, 0.43, 0.27}, {0.333333343, 0.666666687, 0.2},
    {0.2, 0.4, 0.8}, {0.2001, 0.4001, 0.8002}, {0.71, 0.13, E}, {0.875, 0.125, 0.375}, {0.875, 0.125, 0.375}, {0.61, 0.9, 1e-4}});
}
inline Pts alpha_lattice() { return sets::lattice(3, 3, 3); }
inline Pts alpha_cell() {      // many points inside one grid cell plus far ones
  return sets::f32(Pts{{.51,.52,.53},{.55,.51,.58},{.57,.56,.52},{.53,.58,.57},{.56,.54,.55},{.08,.9,.11},{.93,.07,.9},{.1,.12,.94},{.91,.92,.1},{.505,.595,.51}});
}

// all subsets of alphabet with at most m elements, simplest first
template <class F> void subsets(const Pts& A, int m, F&& f) {
  const int n = A.size();
  for (int s = 0; s <= std::min(m, n); s++) {
    std::vector<int> c(s); std::iota(c.begin(), c.end(), 0);
    while (true) {
      Pts p; for (int i : c) p.push_back(A[i]);
      f(c, p);
      int i = s - 1;
      while (i >= 0 && c[i] == n - s + i) i--;
      if (i < 0) break;
      c[i]++;
      for (int j = i + 1; j < s; j++) c[j] = c[j - 1] + 1;
    }
  }
}

// ---- families ------------------------------------------------------------
inline void add(std::vector<Named>& v, const std::string& n, const Pts& p) { v.push_back({n, p}); }

inline std::vector<Named> small_sets(bool thorough) {      // n <= 40, general position
  std::vector<Named> v;
  const int reps = thorough ? 12 : 3;
  for (int s = 1; s <= reps; s++) {
    for (int n : {9, 16, 25, 40}) add(v, ex::fmt("random(n=%d,%d)", n, s), sets::random_set(n, s));
    for (int n : {20, 36}) add(v, ex::fmt("clustered(n=%d,%d)", n, s), sets::clustered(n, s));
    add(v, ex::fmt("slab(n=24,axis=%d,%d)", s % 3, s), sets::slab(24, s, s % 3));
    add(v, ex::fmt("rod(n=24,axis=%d,%d)", (s + 1) % 3, s), sets::rod(24, s, (s + 1) % 3));
    add(v, ex::fmt("walls(n=30,%d)", s), sets::near_walls(30, s));
    for (int g : {2, 3, 5, 8, 10}) add(v, ex::fmt("gridplanes(n=28,gr=%d,%d)", g, s), sets::on_grid_planes(28, g, s));
    add(v, ex::fmt("jitter-lattice(27,%d)", s), sets::jitter(sets::lattice(3, 3, 3), s, 0.2));
    add(v, ex::fmt("shell(m=30,%d)", s), sets::shell(30, s));
  }
  return v;
}
inline std::vector<Named> medium_sets(bool thorough) {     // 60 <= n <= 260
  std::vector<Named> v;
  const int reps = thorough ? 8 : 2;
  for (int s = 1; s <= reps; s++) {
    for (int n : {70, 130, 200}) add(v, ex::fmt("random(n=%d,%d)", n, s + 50), sets::random_set(n, s + 50));
    add(v, ex::fmt("clustered(n=150,%d)", s), sets::clustered(150, s));
    add(v, ex::fmt("slab(n=100,axis=%d,%d)", s % 3, s), sets::slab(100, s, s % 3));
    add(v, ex::fmt("rod(n=100,axis=%d,%d)", s % 3, s), sets::rod(100, s, s % 3));
    add(v, ex::fmt("walls(n=120,%d)", s), sets::near_walls(120, s));
    add(v, ex::fmt("jitter-lattice(125,%d)", s), sets::jitter(sets::lattice(5, 5, 5), s, 0.12));
    add(v, ex::fmt("shell(m=70,%d)", s), sets::shell(70, s));
    add(v, ex::fmt("shell(m=110,%d)", s), sets::shell(110, s));
    for (int g : {6, 12}) add(v, ex::fmt("gridplanes(n=110,gr=%d,%d)", g, s), sets::on_grid_planes(110, g, s));
  }
  add(v, "random(n=260,7)", sets::random_set(260, 7));
  return v;
}
// cells of up to 249 planes and more than 256 vertices, some cut off at once: for work arrays of 255 planes
inline std::vector<Named> face_sets(bool thorough) {
  std::vector<Named> v;
  for (int ax = 0; ax < (thorough ? 3 : 1); ax++) for (int up = 0; up < 2; up++) for (int m : {130, 180, 240})
    for (double a : {.3, .45}) for (double b : {.05, .08}) for (double f : {.6, .7}) if (thorough || (m / 10 + up + int(f * 10)) % 3 == 0)
      add(v, ex::fmt("cap(m=%d,axis=%d,up=%d,%g,%g,%g)", m, (ax + m / 10) % 3, up, a, b, f), sets::cap(m, a, b, 50, 88, f * a, (ax + m / 10) % 3, up));
  for (int m : {126, 140, 200, 240}) add(v, ex::fmt("shell(m=%d)", m), sets::shell(m, 9, 0.36, 0.01));
  return v;
}
// few points, most of them many fine grid cells apart
inline std::vector<Named> distant_sets() {
  std::vector<Named> v;
  const double c[] = {.012, .988, .507};
  for (int a = 0; a < 3; a++) for (int b = 0; b < 2; b++) add(v, ex::fmt("two-distant(%d,%d)", a, b), sets::f32(Pts{{c[a], c[b], .021}, {.979, .993 - .9 * b, .969}}));
  add(v, "corner-and-three", sets::f32(Pts{{.016, .013, .011}, {.981, .31, .47}, {.42, .977, .13}, {.35, .22, .986}}));
  for (int s = 1; s <= 2; s++) add(v, ex::fmt("random(n=6,%d)", s + 20), sets::random_set(6, s + 20));
  return v;
}
inline std::vector<Named> large_sets(bool thorough) {
  std::vector<Named> v;
  add(v, "random(n=600,1)", sets::random_set(600, 1));
  add(v, "clustered(n=500,1)", sets::clustered(500, 1));
  add(v, "random(n=1500,2)", sets::random_set(1500, 2));
  add(v, "jitter-lattice(9,9,9)", sets::jitter(sets::lattice(9, 9, 9), 4, 0.05));
  if (thorough) { add(v, "random(n=5000,3)", sets::random_set(5000, 3)); add(v, "slab(n=1500)", sets::slab(1500, 3, 1)); add(v, "clustered(n=3000)", sets::clustered(3000, 4)); }
  return v;
}
inline std::vector<Named> sharp_sets(bool thorough) {      // neighbours at the edge of the security radius
  std::vector<Named> v;
  const int bases = thorough ? 60 : 16;
  for (int b = 0; b < bases; b++) for (double eps : {0.004, 0.01, 0.02, 0.05, 0.1}) for (int vx = 0; vx < 2; vx++) for (double sc : {0.9, 0.97, 1.02}) {
    sets::Sharp s; if (sets::sharp(b, eps, vx, 3, sc, s)) add(v, ex::fmt("sharp(base=%d,eps=%g,v=%d,scale=%g)", b, eps, vx, sc), s.p);
  }
  // a decoy just in front of q, both within a fraction of a percent of twice the radius
  for (int b = 0; b < bases; b++) for (double eps : {0.0002, 0.001, 0.002, 0.004}) for (double sc : {0.9999, 0.9995}) {
    sets::Sharp s; if (sets::sharp(b, eps, 0, 1, sc, s)) add(v, ex::fmt("sharp(base=%d,eps=%g,v=0,scale=%g,one)", b, eps, sc), s.p);
  }
  return v;
}
inline std::vector<Named> degenerate_sets(bool thorough) {
  std::vector<Named> v;
  for (int a = 1; a <= 4; a++) for (int b = 1; b <= 4; b++) for (int c = 1; c <= 4; c++) add(v, ex::fmt("lattice(%d,%d,%d)", a, b, c), sets::lattice(a, b, c));
  add(v, "lattice(5,5,5)", sets::lattice(5, 5, 5));
  add(v, "lattice(6,5,4)", sets::lattice(6, 5, 4, 0.37));
  for (int n : {2, 5, 12, 40}) { Pts p; for (int i = 0; i < n; i++) p.push_back({(i + 0.5) / n, (i + 0.5) / n, (i + 0.5) / n}); add(v, ex::fmt("diagonal(%d)", n), sets::f32(p)); }
  for (int n : {2, 6, 30}) { Pts p(n, {0.37, 0.61, 0.23}); add(v, ex::fmt("coincident(%d)", n), sets::f32(p)); }
  for (int n : {10, 30}) { Pts p = sets::random_set(n, 9); Pts q = p; q.insert(q.end(), p.begin(), p.begin() + n / 2); add(v, ex::fmt("pairs(%d)", n), q); }
  for (int n : {24, 60}) { Pts p = sets::shell(n, 5, 0.36, 0.0); add(v, ex::fmt("cospherical(%d)", n), p); }
  { Pts p; for (int i = 0; i < 36; i++) p.push_back({(i % 6 + .5) / 6, (i / 6 + .5) / 6, 0.5}); add(v, "coplanar-lattice(36)", sets::f32(p)); }
  if (thorough) { add(v, "lattice(8,8,8)", sets::lattice(8, 8, 8)); add(v, "lattice(10,10,10)", sets::lattice(10, 10, 10)); }
  return v;
}

// ---- parameter domains ---------------------------------------------------
inline std::vector<int> resolutions(bool thorough) {
  std::vector<int> g; for (int i = 1; i <= (thorough ? 48 : 20); i++) g.push_back(i);
  for (int x : {24, 25, 31, 32, 33, 41, 48, 49, 50, 64, 65, 100}) if (x > g.back()) g.push_back(x);
  return g;
}

} // namespace cat
#endif
