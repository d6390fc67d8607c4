// Common access to the library under test: one execution of tesellate, with the
// result translated back to the labels of the input points.
#ifndef VERIF_VT_HPP
#define VERIF_VT_HPP
#include <cmath>
#include <cstring>
#include <string>
#include <memory>
#include <numeric>
#include <votess.hpp>
#include "explore.hpp"
#include "oracle.hpp"
#include "sets.hpp"

namespace vt {
using orc::Pts;

struct Cfg {
  int k = 64, gr = 1, nt = 1, chunk = 0, p = 128, t = 256, nd = 1;   // chunk 0: chunking off
  bool rec = false, gpu = false, chunk_on = false, gpu_present = true;
  std::string str() const {
    return ex::fmt("{k=%d gr=%d nthreads=%d chunk=%s p=%d t=%d%s%s}", k, gr, nt,
      (chunk || chunk_on) ? std::to_string(chunk).c_str() : "off", p, t, rec ? " recompute" : "",
      gpu ? ex::fmt(" gpu nd=%d", nd).c_str() : "");
  }
};

inline votess::vtargs make_args(const Cfg& c) {
  votess::vtargs a;
  a["k"] = c.k; a["knn_grid_resolution"] = c.gr; a["cpu_nthreads"] = c.nt;
  a["use_chunking"] = c.chunk != 0 || c.chunk_on;
  if (c.chunk != 0 || c.chunk_on) a["chunksize"] = c.chunk;
  a["cc_p_maxsize"] = c.p; a["cc_t_maxsize"] = c.t; a["use_recompute"] = c.rec;
  a["gpu_ndsize"] = c.nd;
  return a;
}

template <class Tf> std::vector<std::array<Tf, 3>> to(const Pts& P) {
  std::vector<std::array<Tf, 3>> v; v.reserve(P.size());
  for (auto& p : P) v.push_back({(Tf)p[0], (Tf)p[1], (Tf)p[2]});
  return v;
}

struct Out {
  std::vector<std::vector<int>> raw;    // as returned
  std::vector<int> label;               // label[position after the call] = input index
  std::vector<std::vector<int>> rows;   // rows[input index] = input indices
};

// Exact coordinate matching; equal points get labels in order of appearance.
template <class Tf>
std::vector<int> match(const std::vector<std::array<Tf, 3>>& in, const std::vector<std::array<Tf, 3>>& out) {
  EXPECT(in.size() == out.size(), "the call changed the number of points from %zu to %zu", in.size(), out.size());
  auto less = [](const std::array<Tf, 3>& a, const std::array<Tf, 3>& b) { return a < b; };
  std::vector<int> a(in.size()), b(in.size());
  std::iota(a.begin(), a.end(), 0); b = a;
  std::stable_sort(a.begin(), a.end(), [&](int x, int y) { return less(in[x], in[y]); });
  std::stable_sort(b.begin(), b.end(), [&](int x, int y) { return less(out[x], out[y]); });
  std::vector<int> lab(in.size());
  for (size_t i = 0; i < a.size(); i++) {
    EXPECT(std::memcmp(&in[a[i]], &out[b[i]], sizeof in[0]) == 0, "the caller's points are not a permutation of the input (input point %d)", a[i]);
    lab[b[i]] = a[i];
  }
  return lab;
}

template <class Ti, class Tf> Out translate(const std::vector<std::array<Tf, 3>>& in, const std::vector<std::array<Tf, 3>>& out, votess::dnn<Ti>& d) {
  Out o; const int n = in.size();
  o.label = match(in, out);
  EXPECT((int)d.size() == n, "result has %zu rows for %d points", d.size(), n);
  o.raw.resize(n); o.rows.resize(n);
  for (int i = 0; i < n; i++) {
    auto r = d[i];
    size_t m = r.size();
    EXPECT(m <= (size_t)n + 1000000, "row %d claims %zu entries", i, m);
    for (size_t j = 0; j < m; j++) {
      Ti e = r[j]; 
      EXPECT(e >= 0 && e < (Ti)n, "row %d entry %zu is %lld, not a point index (n=%d)", i, j, (long long)e, n);
      o.raw[i].push_back((int)e);
    }
  }
  for (int i = 0; i < n; i++) for (int e : o.raw[i]) o.rows[o.label[i]].push_back(o.label[e]);
  return o;
}

template <class Ti = int, class Tf = float> Out run(const Pts& P, const Cfg& c) {
  const auto in = to<Tf>(P); auto x = in;
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = c.gpu && c.gpu_present;
#endif
  auto d = votess::tesellate<Ti, Tf>(x, make_args(c), c.gpu ? votess::device::gpu : votess::device::cpu);
  return translate<Ti, Tf>(in, x, d);
}

template <class Tf> constexpr double margin() { return sizeof(Tf) == 4 ? 1e-4 : 1e-7; }

inline std::string ids(const std::vector<int>& v) { std::string s = "["; for (int x : v) { if (s.size() > 1) s += ","; if (s.size() > 400) { s += "..."; break; } s += std::to_string(x); } return s + "]"; }
inline std::string pts(const Pts& P) { std::string s; int c = 0; for (auto& p : P) { if (c++ == 24) { s += "..."; break; } s += ex::fmt("(%.9g,%.9g,%.9g)", p[0], p[1], p[2]); } return s; }

inline uint64_t hash_rows(const std::vector<std::vector<int>>& r) {
  uint64_t h = r.size(); for (auto& x : r) { h = ex::mix(h, x.size()); for (int y : x) h = ex::mix(h, y); } return h;
}
inline uint64_t hash_pts(const Pts& P) {
  uint64_t h = P.size(); for (auto& p : P) for (double d : p) { uint64_t b; std::memcpy(&b, &d, 8); h = ex::mix(h, b); } return h;
}

// distinct, in range, not self
inline void check_shape(const Out& o, const Cfg& c) {
  for (size_t i = 0; i < o.rows.size(); i++) {
    auto v = o.rows[i]; std::sort(v.begin(), v.end());
    for (size_t j = 0; j < v.size(); j++) {
      EXPECT(v[j] != (int)i, "%s: point %zu is listed as its own neighbour: %s", c.str().c_str(), i, ids(o.rows[i]).c_str());
      EXPECT(!j || v[j] != v[j - 1], "%s: point %zu lists neighbour %d twice: %s", c.str().c_str(), i, v[j], ids(o.rows[i]).c_str());
    }
  }
}
inline bool has(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

inline void check_complete(const Pts& P, const std::vector<orc::Row>& R, const Out& o, const Cfg& c) {
  for (size_t i = 0; i < R.size(); i++) {
    std::vector<char> in(P.size(), 0); for (int e : o.rows[i]) in[e] = 1;
    if (R[i].tie) continue;
    for (size_t j = 0; j < P.size(); j++)
      EXPECT(R[i].cls[j] != orc::MUST || in[j], "%s: point %zu misses its neighbour %zu; row is %s", c.str().c_str(), i, j, ids(o.rows[i]).c_str());
    for (auto& g : R[i].groups) {
      bool any = false; for (int j : g) any = any || in[j];
      EXPECT(any, "%s: point %zu misses all of the coincident neighbours %s; row is %s", c.str().c_str(), i, ids(g).c_str(), ids(o.rows[i]).c_str());
    }
  }
}
// skip[i]: rows to leave out (work arrays too small)
inline void check_sound(const Pts& P, const std::vector<orc::Row>& R, const Out& o, const Cfg& c, const std::vector<char>* skip = nullptr) {
  for (size_t i = 0; i < R.size(); i++) {
    if (!R[i].generic || R[i].tie) continue;
    if (skip && (*skip)[i]) continue;
    for (int e : o.rows[i]) 
      EXPECT(R[i].cls[e] != orc::MUSTNOT && R[i].cls[e] != orc::NOTCAND, "%s: point %zu reports %d, which does not bound its cell; row is %s", c.str().c_str(), i, e, ids(o.rows[i]).c_str());
  }
}

} // namespace vt
#endif
