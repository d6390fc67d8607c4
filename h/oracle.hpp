// Reference model: clipped Voronoi cells in double precision, built by convex
// polyhedron clipping (no code or data structure shared with votess).
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <numeric>
#include <string>
#include <vector>

namespace orc {

using P3 = std::array<double, 3>;
using Pts = std::vector<P3>;

inline P3 sub(const P3& a, const P3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline double dot(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline P3 cross(const P3& a, const P3& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double d2(const P3& a, const P3& b) { auto c = sub(a, b); return dot(c, c); }

struct Face { int id; std::vector<P3> v; };

// Signed distance of v beyond the bisector of (p,q): > 0 means nearer to q.
inline double beyond(const P3& p, const P3& q, const P3& v) {
  P3 n = sub(q, p); double l = std::sqrt(dot(n, n));
  P3 m = {(p[0] + q[0]) / 2, (p[1] + q[1]) / 2, (p[2] + q[2]) / 2};
  return dot(n, sub(v, m)) / l;
}

struct Cell {
  std::vector<Face> f;
  static Cell box() {
    Cell c; 
    auto q = [&](int id, P3 a, P3 b, P3 d, P3 e) { c.f.push_back({id, {a, b, d, e}}); };
    q(-1, {0,0,0}, {0,1,0}, {0,1,1}, {0,0,1});
    q(-2, {1,0,0}, {1,1,0}, {1,1,1}, {1,0,1});
    q(-3, {0,0,0}, {1,0,0}, {1,0,1}, {0,0,1});
    q(-4, {0,1,0}, {1,1,0}, {1,1,1}, {0,1,1});
    q(-5, {0,0,0}, {1,0,0}, {1,1,0}, {0,1,0});
    q(-6, {0,0,1}, {1,0,1}, {1,1,1}, {0,1,1});
    return c;
  }
  double max_beyond(const P3& p, const P3& q) const {
    double m = -1e30;
    for (auto& a : f) for (auto& v : a.v) m = std::max(m, beyond(p, q, v));
    return m;
  }
  // smallest |distance| of a vertex to the bisector: how far from a degenerate
  // vertex-on-plane event this clipping step is.
  double clearance(const P3& p, const P3& q) const {
    double m = 1e30;
    for (auto& a : f) for (auto& v : a.v) m = std::min(m, std::fabs(beyond(p, q, v)));
    return m;
  }
  double max_r2(const P3& p) const {
    double m = 0; for (auto& a : f) for (auto& v : a.v) m = std::max(m, d2(p, v)); return m;
  }
  bool has(int id) const { for (auto& a : f) if (a.id == id) return true; return false; }
  size_t nverts() const { size_t s = 0; for (auto& a : f) s += a.v.size(); return s / 3; }
  // returns true when the plane cuts
  bool clip(const P3& p, const P3& q, int id) {
    if (d2(p, q) == 0) return false;
    if (max_beyond(p, q) <= 1e-13) return false;
    std::vector<P3> cap; std::vector<Face> nf;
    for (auto& a : f) {
      std::vector<P3> o; size_t n = a.v.size();
      for (size_t i = 0; i < n; i++) {
        const P3 &u = a.v[i], &w = a.v[(i + 1) % n];
        double su = beyond(p, q, u), sw = beyond(p, q, w);
        bool iu = su <= 0, iw = sw <= 0;
        if (iu) o.push_back(u);
        if (iu != iw) {
          double t = su / (su - sw);
          P3 x = {u[0] + t * (w[0] - u[0]), u[1] + t * (w[1] - u[1]), u[2] + t * (w[2] - u[2])};
          o.push_back(x); cap.push_back(x);
        }
      }
      if (o.size() >= 3) nf.push_back({a.id, std::move(o)});
    }
    f.swap(nf);
    if (cap.size() >= 3) {
      P3 c{0, 0, 0}; for (auto& v : cap) for (int k = 0; k < 3; k++) c[k] += v[k] / cap.size();
      P3 n = sub(q, p), e1 = sub(cap[0], c);
      for (auto& v : cap) if (dot(sub(v, c), sub(v, c)) > dot(e1, e1)) e1 = sub(v, c);
      P3 e2 = cross(n, e1);
      double l1 = std::sqrt(dot(e1, e1)) + 1e-300, l2 = std::sqrt(dot(e2, e2)) + 1e-300;
      std::vector<std::pair<double, P3>> s;
      for (auto& v : cap) { auto r = sub(v, c); s.push_back({std::atan2(dot(r, e2) / l2, dot(r, e1) / l1), v}); }
      std::sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.first < b.first; });
      std::vector<P3> poly;
      for (auto& x : s) if (poly.empty() || d2(poly.back(), x.second) > 1e-26) poly.push_back(x.second);
      while (poly.size() > 1 && d2(poly.front(), poly.back()) <= 1e-26) poly.pop_back();
      if (poly.size() >= 3) f.push_back({id, std::move(poly)});
    }
    return true;
  }
};

inline double same2 = 1e-12;   // squared distance below which points count as coincident

inline double tie_rel = 1e-5;  // relative difference of squared distances below which candidates count as tied
struct TieRel { double old; explicit TieRel(double t) : old(tie_rel) { tie_rel = t; } ~TieRel() { tie_rel = old; } };

enum Class : char { FREE = 0, MUST = 1, MUSTNOT = 2, NOTCAND = 3 };

struct Row {
  std::vector<char> cls;      // per point label
  bool generic = true;        // no clipping step came within margin of degeneracy
  bool tie = false;           // k-th and (k+1)-th distance indistinguishable
  bool certified = false;     // security radius reached by the k-th candidate
  size_t nverts = 0, nplanes = 0;
  std::vector<int> cand;      // candidates, ascending distance
  std::vector<int> tsteps;    // vertices of the cell after each cutting plane
  bool order_tie = false;     // candidates at indistinguishable distances
  double sr_gap_before = 0;   // the same, for the cell before the last candidate is applied
  double sr_gap = 0;          // (d_last^2 - 4 R^2) / R^2 of the finished cell
  std::vector<std::vector<int>> groups;  // coincident points, one of which must be listed
  // What a cell builder with room for p planes and t vertices runs into.
  enum Ovf { NONE, PLANES, VERTS };
  Ovf overflow(int p, int t) const {
    if (p > 255) p = 255;
    if (p < 6) return PLANES;
    if (t < 8) return VERTS;
    int np = 6;
    for (int nv : tsteps) { if (np >= p) return PLANES; np++; if (nv > t) return VERTS; }
    return NONE;
  }
};

inline std::vector<int> by_distance(const Pts& P, int i) {
  std::vector<int> o; std::vector<double> d(P.size());
  for (int j = 0; j < (int)P.size(); j++) if (j != i) { o.push_back(j); d[j] = d2(P[i], P[j]); }
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return d[a] < d[b]; });
  return o;
}

// The neighbours of point i in the Voronoi cell of i against its k nearest
// other points, clipped to the unit cube.  A neighbour is MUST when its
// bisector cuts deeper than `margin` into the cell made by the others, MUSTNOT
// when it stays further than `margin` away from that cell.
inline Row row(const Pts& P, int i, int k, double margin) {
  Row r; r.cls.assign(P.size(), NOTCAND);
  auto o = by_distance(P, i);
  if (k < (int)o.size()) {
    if (k > 0) {
      double a = d2(P[i], P[o[k - 1]]), b = d2(P[i], P[o[k]]);
      if (b - a <= tie_rel * (a + b)) r.tie = true;
    }
    o.resize(std::max(k, 0));
  }
  r.cand = o;
  Cell c = Cell::box();
  std::vector<char> maybe(P.size(), 0);
  for (size_t x = 0; x < o.size(); x++) {
    int j = o[x];
    double l2 = d2(P[i], P[j]);
    if (l2 < same2) { r.generic = false; continue; }
    if (x + 1 == o.size()) r.sr_gap_before = l2 / c.max_r2(P[i]) - 4;
    if (std::sqrt(l2) / 2 > std::sqrt(c.max_r2(P[i])) + 2 * margin) { r.sr_gap_before = d2(P[i], P[o.back()]) / c.max_r2(P[i]) - 4; break; }   // neither this nor any later one can cut
    if (c.clearance(P[i], P[j]) < margin) r.generic = false;
    const bool cut = c.clip(P[i], P[j], j);
    r.nplanes += cut;
    size_t nv = c.nverts();
    if (cut) r.tsteps.push_back(nv);
    r.nverts = std::max(r.nverts, nv);
  }
  double R2 = c.max_r2(P[i]);
  for (int j : o) {
    if (d2(P[i], P[j]) < same2) { r.cls[j] = FREE; continue; }
    double dep;
    if (std::sqrt(d2(P[i], P[j])) / 2 > std::sqrt(R2) + 2 * margin) { r.cls[j] = MUSTNOT; continue; }
    if (c.has(j) || c.max_beyond(P[i], P[j]) > -margin) {
      Cell w = Cell::box();
      for (int h : o) if (h != j) {
        if (d2(P[i], P[h]) / 4 > w.max_r2(P[i])) break;
        w.clip(P[i], P[h], h);
      }
      dep = w.max_beyond(P[i], P[j]);
    } else dep = c.max_beyond(P[i], P[j]);
    r.cls[j] = dep > margin ? MUST : dep < -margin ? MUSTNOT : FREE;
  }
  r.certified = !o.empty() && d2(P[i], P[o.back()]) > 4 * R2;
  r.sr_gap = o.empty() ? -4 : d2(P[i], P[o.back()]) / R2 - 4;
  for (size_t x = 0; x + 1 < o.size(); x++) {
    double a = d2(P[i], P[o[x]]), b = d2(P[i], P[o[x + 1]]);
    if (b - a <= tie_rel * (a + b)) r.order_tie = true;
  }
  std::vector<char> seen(P.size(), 0);
  for (size_t x = 0; x < o.size(); x++) if (!seen[o[x]]) {
    std::vector<int> g;
    const double dx = d2(P[i], P[o[x]]);
    for (size_t y = x; y < o.size() && d2(P[i], P[o[y]]) <= dx; y++) if (P[o[y]] == P[o[x]]) { g.push_back(o[y]); seen[o[y]] = 1; }
    if (g.size() < 2 || d2(P[i], P[o[x]]) < same2 || r.tie) continue;
    Cell w = Cell::box();
    for (int h : o) if (P[h] != P[o[x]]) w.clip(P[i], P[h], h);
    if (w.max_beyond(P[i], P[o[x]]) > margin) r.groups.push_back(g);
  }
  return r;
}

inline std::vector<Row> rows(const Pts& P, int k, double margin) {
  std::vector<Row> r; for (int i = 0; i < (int)P.size(); i++) r.push_back(row(P, i, k, margin)); return r;
}

} // namespace orc
#endif
