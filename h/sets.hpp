// Finite alphabets of points and deterministic families of point sets.
#ifndef VERIF_SETS_HPP
#define VERIF_SETS_HPP
#include "oracle.hpp"
#include <cstdint>

namespace sets {
using orc::P3; using orc::Pts;

struct Lcg {   // fixed, portable generator: the families below are constants
  uint64_t s; explicit Lcg(uint64_t x) : s(x * 6364136223846793005ull + 1442695040888963407ull) { next(); next(); }
  uint32_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return uint32_t(s >> 33); }
  double u() { return (next() & 0xffffff) / double(1 << 24); }
  double in(double a, double b) { return a + (b - a) * u(); }
};
inline double f32(double x) { return (double)(float)x; }
inline Pts f32(Pts p) { for (auto& q : p) for (auto& c : q) c = f32(c); return p; }

inline Pts random_set(int n, uint64_t seed, double lo = 0.02, double hi = 0.98) {
  Lcg g(seed * 7919 + n); Pts p(n);
  for (auto& q : p) q = {g.in(lo, hi), g.in(lo, hi), g.in(lo, hi)};
  return f32(p);
}
// two tight clusters in opposite corners plus a few lone points
inline Pts clustered(int n, uint64_t seed) {
  Lcg g(seed * 104729 + n); Pts p;
  for (int i = 0; i < n; i++) {
    int t = i % 5;
    if (t < 2) p.push_back({g.in(.1, .25), g.in(.1, .25), g.in(.1, .25)});
    else if (t < 4) p.push_back({g.in(.7, .9), g.in(.72, .88), g.in(.7, .9)});
    else p.push_back({g.in(.03, .97), g.in(.03, .97), g.in(.03, .97)});
  }
  return f32(p);
}
inline Pts slab(int n, uint64_t seed, int axis) {
  Lcg g(seed * 15485863 + n); Pts p;
  for (int i = 0; i < n; i++) { P3 q = {g.in(.02, .98), g.in(.02, .98), g.in(.02, .98)}; q[axis] = g.in(.44, .56); p.push_back(q); }
  return f32(p);
}
inline Pts rod(int n, uint64_t seed, int axis) {
  Lcg g(seed * 32452843 + n); Pts p;
  for (int i = 0; i < n; i++) { P3 q = {g.in(.42, .58), g.in(.42, .58), g.in(.42, .58)}; q[axis] = g.in(.02, .98); p.push_back(q); }
  return f32(p);
}
// a centre whose cell has m faces (points on a slightly noisy sphere)
inline Pts shell(int m, uint64_t seed, double R = 0.36, double noise = 0.02) {
  Lcg g(seed * 49979687 + m); Pts p; p.push_back({0.5031, 0.4987, 0.5013});
  const double ga = M_PI * (3 - std::sqrt(5.0));
  for (int i = 0; i < m; i++) {
    double y = 1 - (i + 0.5) * 2 / m, r = std::sqrt(1 - y * y), t = ga * i + 0.3 * g.u();
    double q = R * (1 + noise * (g.u() - 0.5));
    p.push_back({p[0][0] + q * r * std::cos(t), p[0][1] + q * y, p[0][2] + q * r * std::sin(t)});
  }
  return f32(p);
}
inline Pts lattice(int a, int b, int c, double off = 0.5) {
  Pts p; for (int z = 0; z < c; z++) for (int y = 0; y < b; y++) for (int x = 0; x < a; x++)
    p.push_back({(x + off) / a, (y + off) / b, (z + off) / c});
  return f32(p);
}
inline Pts jitter(Pts p, uint64_t seed, double amp) {
  Lcg g(seed * 86028121 + p.size());
  for (auto& q : p) for (auto& c : q) c = std::min(0.9999, std::max(0.0001, c + amp * (g.u() - 0.5)));
  return f32(p);
}
inline Pts near_walls(int n, uint64_t seed) {
  Lcg g(seed * 122949823 + n); Pts p;
  const double e[] = {1e-6, 1e-4, 3e-3, 1 - 3e-3, 1 - 1e-4, 0.999999940395355224609375};
  for (int i = 0; i < n; i++) {
    P3 q = {g.in(.05, .95), g.in(.05, .95), g.in(.05, .95)};
    q[i % 3] = e[(i / 3 + i) % 6]; if (i % 4 == 0) q[(i + 1) % 3] = e[(i / 2) % 6];
    p.push_back(q);
  }
  return f32(p);
}
// coordinates exactly on grid planes of resolution gr
inline Pts on_grid_planes(int n, int gr, uint64_t seed) {
  Lcg g(seed * 141650939 + n * 131 + gr); Pts p;
  for (int i = 0; i < n; i++) {
    P3 q = {g.in(.02, .98), g.in(.02, .98), g.in(.02, .98)};
    for (int a = 0; a < 3; a++) if ((i + a) % 3 != 0 || i % 7 == 0) {
      if (gr > 1) { int m = 1 + int(g.next() % (gr - 1)); q[a] = f32(double((float)m * (1.0f / gr))); }
    }
    p.push_back(q);
  }
  return f32(p);
}

// Security-radius family.  A centre with a compact cell; then a point q placed
// at 2R(1-eps) straight behind the farthest vertex of that cell (it must be a
// neighbour), and decoys just below / above that distance on the other side
// (they must not be).  An implementation that stops looking too early loses q.
struct Sharp { Pts p; int centre, q; };
inline bool sharp(int base, double eps, int vtx, int decoys, double decoy_scale, Sharp& out, bool fine = false) {
  Lcg g(base * 715225739ull + 17); Pts p;
  p.push_back({0.5 + 0.01 * g.u(), 0.5 + 0.01 * g.u(), 0.5 + 0.01 * g.u()});
  const int m = 14 + base % 5; const double ga = M_PI * (3 - std::sqrt(5.0));
  for (int i = 0; i < m; i++) {
    double y = 1 - (i + 0.5) * 2 / m, r = std::sqrt(1 - y * y), t = ga * i + 0.5 * g.u();
    double q = 0.13 * (1 + 0.12 * (g.u() - 0.5));
    p.push_back({p[0][0] + q * r * std::cos(t), p[0][1] + q * y, p[0][2] + q * r * std::sin(t)});
  }
  p = f32(p);
  orc::Cell c = orc::Cell::box();
  for (int j = 1; j < (int)p.size(); j++) c.clip(p[0], p[j], j);
  std::vector<std::pair<double, P3>> vs;
  for (auto& f : c.f) for (auto& v : f.v) {
    bool dup = false; for (auto& w : vs) if (orc::d2(w.second, v) < 1e-16) dup = true;
    if (!dup) vs.push_back({-orc::d2(p[0], v), v});
  }
  std::sort(vs.begin(), vs.end());
  if (vtx >= (int)vs.size()) return false;
  // only vertices whose radius is nearly the maximum are interesting
  P3 v = vs[vtx].second; double R = std::sqrt(-vs[0].first), rv = std::sqrt(-vs[vtx].first);
  if (rv < R * (1 - eps)) { if (vtx) return false; }
  P3 dir = orc::sub(v, p[0]); for (auto& x : dir) x /= rv;
  double L = 2 * rv * (1 - eps);
  P3 q = {p[0][0] + L * dir[0], p[0][1] + L * dir[1], p[0][2] + L * dir[2]};
  for (auto x : q) if (x <= 0.01 || x >= 0.99) return false;
  P3 e1 = orc::cross(dir, P3{0.3, 0.5, 0.8}); double l1 = std::sqrt(orc::dot(e1, e1)); for (auto& x : e1) x /= l1;
  P3 e2 = orc::cross(dir, e1);
  int qi = p.size(); p.push_back(q);
  // decoys sit outside the hull of the shell, in directions of shell points,
  // where the cell is shallow, at distance decoy_scale * L
  for (int k = 0; k < decoys; k++) {
    int j = 1 + (k * 5 + base) % m;
    P3 d = orc::sub(p[j], p[0]); double l = std::sqrt(orc::dot(d, d)); for (auto& x : d) x /= l;
    double D = decoy_scale * L * (1 + 0.002 * k);
    P3 w = {p[0][0] + D * d[0], p[0][1] + D * d[1], p[0][2] + D * d[2]};
    for (auto x : w) if (x <= 0.005 || x >= 0.995) return false;
    p.push_back(w);
  }
  out.p = fine ? p : f32(p); out.centre = 0; out.q = qi; return true;
}

// a set shrunk to features of size q around a place; while it lives, the oracle tells points and distances apart at that scale
struct Fine {
  Pts p; double keep = orc::same2; orc::TieRel exact{1e-11};
  Fine(const Pts& Q, double q, P3 at) { for (auto& x : Q) p.push_back({at[0] + q * (x[0] - .5), at[1] + q * (x[1] - .5), at[2] + q * (x[2] - .5)}); orc::same2 = q * q * 1e-12; }
  ~Fine() { orc::same2 = keep; }
};
// a centre whose cell is capped by m planes tangent to a prolate spheroid on one side; the last point's
// plane then removes most of those vertices at once
inline Pts cap(int m, double a, double b, double lo, double hi, double last, int ax, bool up) {
  const double ga = M_PI * (3 - std::sqrt(5.0)), z0 = up ? 0.06 : 0.94, sg = up ? 1 : -1;
  P3 c = {0.5031, 0.4987, 0.5013}; c[ax] = z0; Pts p{c};
  auto put = [&](double th, double ph, double d) {
    P3 q = c; q[(ax + 1) % 3] += d * std::sin(th) * std::cos(ph); q[(ax + 2) % 3] += d * std::sin(th) * std::sin(ph); q[ax] += sg * d * std::cos(th);
    p.push_back(q);
  };
  for (int i = 0; i < m; i++) {
    const double th = (hi - (hi - lo) * std::sqrt((i + 0.5) / m)) * M_PI / 180;
    put(th, ga * i, 2 * std::sqrt(a * a * std::cos(th) * std::cos(th) + b * b * std::sin(th) * std::sin(th)));
  }
  put(0.01, 0.7, 2 * last);
  return f32(p);
}
// n points in a small ball and a few far away: the far ones are neighbours of rank about n
inline Pts lopsided(int n, uint64_t seed) {
  Lcg g(seed * 179424673 + n); Pts p;
  while ((int)p.size() < n) {
    double x = g.in(-1, 1), y = g.in(-1, 1), z = g.in(-1, 1);
    if (x * x + y * y + z * z < 1) p.push_back({.3 + .12 * x, .35 + .12 * y, .4 + .12 * z});
  }
  for (P3 q : {P3{.93, .41, .52}, P3{.21, .95, .33}, P3{.33, .27, .97}}) p.push_back(q);
  return f32(p);
}
// a centre and n points at distances differing by eps only, far less than float can tell
inline Pts near_ties(int n, int b, double eps, int ord) {
  Pts S = shell(n, b), P{S[0]};
  for (int i = 1; i <= n; i++) {
    P3 d = orc::sub(S[i], S[0]); const double l = std::sqrt(orc::dot(d, d));
    const double r = .31 * (1 + eps * (ord == 0 ? i : ord == 1 ? n - i : i * 5 % (n + 1)));
    P.push_back({S[0][0] + d[0] / l * r, S[0][1] + d[1] / l * r, S[0][2] + d[2] / l * r});
  }
  return P;
}
// the nearest point lies just across a ring of grid cells, another one a hair farther away inside it
inline bool ring_ties(int r, double gl, double m, double eps, int ax, bool mir, Pts& P) {
  P.assign(3, P3{}); P3 q; q[ax] = gl - m; q[(ax + 1) % 3] = .5 * gl + .02 * gl; q[(ax + 2) % 3] = gl * .47;
  const double d = gl * r + m; if (q[ax] + d * (1 + eps) >= 1 || m > gl / 4) return false;
  P[0] = q; P[1] = q; P[1][ax] += d * (1 + eps / 4);                      // the nearest, just across ring r
  P[2] = q; const double h = d * (1 + eps) / std::sqrt(2.0); P[2][(ax + 1) % 3] += h; P[2][(ax + 2) % 3] += h;   // a hair farther
  if (P[2][(ax + 1) % 3] >= 1) return false;
  if (mir) for (auto& x : P) for (auto& y : x) y = 1 - y;
  return true;
}
} // namespace sets
#endif
