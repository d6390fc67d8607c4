// Point sets too large for the quadratic reference model (more points than a 16-bit
// counter can number): the same clipped-cell model over a spatial hash, every row.
#ifndef VERIF_HUGE_HPP
#define VERIF_HUGE_HPP
#include "catalog.hpp"
#include <unordered_map>

namespace huge {
using namespace vt;

struct Ref {
  const Pts& P; int g; std::vector<std::vector<int>> cell;
  explicit Ref(const Pts& p) : P(p), g(std::max(1, (int)std::cbrt(p.size() / 4.0))), cell((size_t)g * g * g) {
    for (int i = 0; i < (int)P.size(); i++) cell[at(P[i])].push_back(i);
  }
  int b(double x) const { return std::min(g - 1, std::max(0, (int)(x * g))); }
  size_t at(const orc::P3& q) const { return (b(q[2]) * (size_t)g + b(q[1])) * g + b(q[0]); }
  // all other points within radius r of i, ascending
  std::vector<std::pair<double, int>> within(int i, double r) const {
    std::vector<std::pair<double, int>> v; const auto& p = P[i];
    int lo[3], hi[3]; for (int a = 0; a < 3; a++) { lo[a] = b(p[a] - r); hi[a] = b(p[a] + r); }
    for (int z = lo[2]; z <= hi[2]; z++) for (int y = lo[1]; y <= hi[1]; y++) for (int x = lo[0]; x <= hi[0]; x++)
      for (int j : cell[(z * (size_t)g + y) * g + x]) if (j != i) { double d = orc::d2(p, P[j]); if (d <= r * r) v.push_back({d, j}); }
    std::sort(v.begin(), v.end()); return v;
  }
  // the k nearest other points and the distance of the next one
  std::vector<std::pair<double, int>> nearest(int i, int k) const {
    double r = 1.3 * std::cbrt((k + 1.0) / P.size());
    for (;; r *= 1.5) { auto v = within(i, r); if ((int)v.size() > k || r > 2) { if ((int)v.size() > k + 1) v.resize(k + 1); return v; } }
  }
};
struct Judge { bool certified, generic, tie; orc::Cell c; std::vector<std::pair<double, int>> cand; };

// the cell of i cut by its k nearest points
inline Judge cell(const Ref& R, int i, int k, double margin, bool careful) {
  Judge j; j.c = orc::Cell::box(); j.generic = true; j.tie = false; j.certified = false; auto v = R.nearest(i, k); const auto& p = R.P[i];
  if ((int)v.size() > k) { j.tie = v[k].first - v[k - 1].first <= 1e-5 * (v[k].first + v[k - 1].first); v.resize(k); }
  double R2 = 3;
  for (auto& q : v) {
    if (q.first / 4 > R2 + (careful ? 3 * margin : 1e-9)) break;
    if (careful && j.c.clearance(p, R.P[q.second]) < margin) j.generic = false;
    if (j.c.clip(p, R.P[q.second], q.second)) R2 = j.c.max_r2(p);
  }
  j.certified = v.size() && v.back().first > 4 * R2 * (1 + 1e-3);
  j.cand = v; return j;
}
// depth by which j's bisector enters the cell of i cut by the other candidates
inline double depth(const Ref& R, int i, int j, const std::vector<std::pair<double, int>>& cand) {
  orc::Cell w = orc::Cell::box(); for (auto& q : cand) if (q.second != j) { if (q.first / 4 > w.max_r2(R.P[i])) break; w.clip(R.P[i], R.P[q.second], q.second); }
  return w.max_beyond(R.P[i], R.P[j]);
}
// rows lo, lo+step, ... of a run with k nearest candidates, against the model; both directions
inline uint64_t check_rows(ex::Explorer& e, const Ref& R, const Out& o, const Cfg& c, int k, int lo, int step, double margin, bool complete, bool sound, bool need_cert) {
  uint64_t n = 0;
  for (int i = lo; i < (int)R.P.size(); i += step) {
    Judge j = cell(R, i, k, margin, false); if (j.tie || (need_cert && !j.certified)) continue;
    std::vector<int> row = o.rows[i]; std::sort(row.begin(), row.end()); n++;
    for (size_t x = 0; x < row.size(); x++) EXPECT(row[x] != i && (!x || row[x] != row[x - 1]), "%s: row of point %d repeats an entry or lists itself: %s", c.str().c_str(), i, ids(row).c_str());
    if (complete) for (auto& f : j.c.f) if (f.id >= 0 && !std::binary_search(row.begin(), row.end(), f.id))
      EXPECT(depth(R, i, f.id, j.cand) <= margin, "%s: point %d misses its neighbour %d; row is %s", c.str().c_str(), i, f.id, ids(row).c_str());
    if (sound) for (int x : row) if (!j.c.has(x)) {
      bool cand = false; for (auto& q : j.cand) cand = cand || q.second == x;
      if (cand && j.c.max_beyond(R.P[i], R.P[x]) > -margin) continue;
      if (!cell(R, i, k, margin, true).generic) continue;
      FAIL("%s: point %d reports %d, which does not bound its cell; row is %s", c.str().c_str(), i, x, ids(row).c_str());
    }
    e.sh->last_progress = time(nullptr);
  }
  return n;
}
}
#endif
