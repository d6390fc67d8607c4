// C26: points outside the unit cube are diagnosed and harm nothing.
// Built twice: plain, judging the rows, and with address and undefined-behaviour sanitizers
// (conversions included), judging everything but the rows.
#include <cfloat>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include "catalog.hpp"
using namespace vt;

// everything that reaches descriptor 2 while it lives
struct Err {
  int keep, fd; bool done = false; std::string text;
  Err() { std::cerr.flush(); fflush(stderr); keep = dup(2); fd = memfd_create("err", 0); dup2(fd, 2); }
  void end() { if (done) return; done = true; std::cerr.flush(); fflush(stderr); dup2(keep, 2); close(keep); char b[4096]; off_t at = 0; ssize_t r; while ((r = pread(fd, b, sizeof b, at)) > 0) { text.append(b, r); at += r; } close(fd); }
  ~Err() { end(); }
};
template <class Tf> static std::vector<int> bitmatch(const std::vector<std::array<Tf, 3>>& in, const std::vector<std::array<Tf, 3>>& out) {
  EXPECT(in.size() == out.size(), "the call changed the number of points from %zu to %zu", in.size(), out.size());
  auto order = [](const std::vector<std::array<Tf, 3>>& v) { std::vector<int> o(v.size()); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return std::memcmp(&v[a], &v[b], sizeof v[0]) < 0; }); return o; };
  auto a = order(in), b = order(out); std::vector<int> lab(in.size());
  for (size_t i = 0; i < a.size(); i++) { EXPECT(!std::memcmp(&in[a[i]], &out[b[i]], sizeof in[0]), "the caller's points are not a permutation of the input (input point %d)", a[i]); lab[b[i]] = a[i]; }
  return lab;
}
template <class Ti, class Tf> static void check(ex::Explorer& e, const Pts& Q, const Cfg& c) {
  Pts P = Q; const int n = P.size(); bool bad = false, wild = false;
  std::vector<char> fin(n, 1), cube(n, 1);
  for (int i = 0; i < n; i++) for (auto& x : P[i]) {
    x = (double)(Tf)x;
    if (!(x > 0 && x < 1)) { bad = true; cube[i] = 0; }
    if (!(std::fabs(x) < (sizeof(Tf) == 4 ? 1e15 : 1e120))) { wild = true; fin[i] = 0; }
  }
  const auto in = to<Tf>(P); auto x = in;
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = c.gpu;
#endif
  e.transitions++; e.traces++; e.state(ex::mix(hash_pts(P), ex::hash_str(c.str()) + sizeof(Ti) * 16 + sizeof(Tf)));
  bool threw = false; Out o; std::string err;
  try {
    Err cap; auto d = votess::tesellate<Ti, Tf>(x, make_args(c), c.gpu ? votess::device::gpu : votess::device::cpu); cap.end(); err = cap.text;
    o.label = bitmatch(in, x);
    EXPECT((int)d.size() == n, "%s: result has %zu rows for %d points", c.str().c_str(), d.size(), n);
    o.rows.resize(n); o.raw.resize(n);
    for (int i = 0; i < n; i++) { auto r = d[i]; const size_t m = r.size(); EXPECT(m <= (size_t)n, "%s: row %d has %zu entries", c.str().c_str(), i, m);
      for (size_t j = 0; j < m; j++) { const Ti q = r[j]; EXPECT(q >= 0 && q < (Ti)n, "%s: row %d entry %zu is %lld, not a point index (n=%d)", c.str().c_str(), i, j, (long long)q, n); o.raw[i].push_back((int)q); o.rows[o.label[i]].push_back(o.label[q]); } }
  } catch (const ex::Violation&) { throw; }
  catch (const std::exception& x1) { EXPECT(bad, "%s: exception on points inside the cube: %s", c.str().c_str(), x1.what()); threw = true; }
  if (threw) { bitmatch(in, x); e.extra["exceptions"]++; return; }
  e.outcome(hash_rows(o.raw));
  if (bad) EXPECT(!err.empty(), "%s: a point outside the cube is not diagnosed: %s", c.str().c_str(), pts(P).c_str());
  else EXPECT(err.empty(), "%s: message on standard error for points inside the cube: %s", c.str().c_str(), err.c_str());
  e.extra[bad ? "diagnosed" : "silent"]++;
  if (wild) return;
  check_shape(o, c);
#ifdef __SANITIZE_ADDRESS__
  return;
#endif
  // the points inside keep exactly the neighbours they have among all points
  std::vector<int> ids1; Pts F; for (int i = 0; i < n; i++) if (fin[i]) { ids1.push_back(i); F.push_back(P[i]); }
  if ((int)F.size() < 2) return;
  const int K = c.rec ? (int)F.size() - 1 : std::min<int>(c.k, F.size() - 1);
  for (size_t f = 0; f < F.size(); f++) if (cube[ids1[f]]) {
    auto R = orc::row(F, f, K, margin<Tf>()); if (R.tie) continue;
    const auto& row = o.rows[ids1[f]];
    for (size_t j = 0; j < F.size(); j++) {
      EXPECT(R.cls[j] != orc::MUST || has(row, ids1[j]), "%s: point %d misses its neighbour %d; row is %s; points %s", c.str().c_str(), ids1[f], ids1[j], ids(row).c_str(), pts(P).c_str());
      if (R.generic && has(row, ids1[j])) EXPECT(R.cls[j] != orc::MUSTNOT && R.cls[j] != orc::NOTCAND, "%s: point %d reports %d, which does not bound its cell; row is %s; points %s", c.str().c_str(), ids1[f], ids1[j], ids(row).c_str(), pts(P).c_str());
    }
    for (auto& g : R.groups) { bool any = false; for (int j : g) any = any || has(row, ids1[j]); EXPECT(any, "%s: point %d misses all of the coincident neighbours; row is %s", c.str().c_str(), ids1[f], ids(row).c_str()); }
  }
}
static std::vector<double> values() {
  return {0.0, -0.0, 1.0, FLT_MIN, 1e-40, DBL_MIN, -FLT_MIN, 1.0 - 1.0 / (1 << 24), 1.0 + 1.0 / (1 << 23), 1.0 - 1e-16, 1.0 + 3e-16, -1e-7, -1e-3, 1.001, -0.3, 1.3, -1, 2, -7.5, 9.25, 300, -300, 65536.5, 2147483648.0, -2147483904.0, 1e10, -1e10, 1e14, -1e14,
          3e18, -3e18, 9.3e18, 1e19, -1e19, 1e30, -1e30, FLT_MAX, -FLT_MAX, 1e60, 1e200, -1e300, INFINITY, -INFINITY, NAN};
}
#ifdef __SANITIZE_ADDRESS__
static const bool light = true;
#else
static const bool light = false;
#endif
template <class F> static void configs(int n, bool T, F f) {
  for (int gr : light && !T ? std::vector<int>{1, 5} : T ? std::vector<int>{1, 2, 3, 5, 9, 16} : std::vector<int>{1, 2, 5, 16}) for (int k : {2, 6, n - 1}) for (int q = 0; q < 4; q++) {
    if (k < 1) continue;
    Cfg c; c.gr = gr; c.k = k; c.nt = q == 1 ? 3 : 1; c.rec = q == 2; c.chunk = q == 1 ? 3 : 0; c.gpu = q == 3; c.nd = 4; c.p = 96; c.t = 192; f(c);
  }
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough(); const auto V = values();
  auto both = [&](const Pts& P, const Cfg& c, int h) { check<int, float>(e, P, c); if (T || h % 2 == 0) check<int64_t, double>(e, P, c); };
  e.group = "valid";
  if (!light) for (auto& s : cat::small_sets(T)) e.run([&] { return s.name; }, [&] { configs(s.p.size(), T, [&](const Cfg& c) { both(s.p, c, 0); }); });
  e.group = "one coordinate";
  for (int n : {1, 2, 3, 8, 20}) for (size_t v = 0; v < V.size(); v++) for (int s = 1; s <= (T ? 6 : 1); s++) e.run([&] { return ex::fmt("n=%d value=%.17g set %d", n, V[v], s); }, [&] {
    for (int i = 0; i < n; i += (T || n < 5 ? 1 : 5)) for (int ax = 0; ax < 3; ax++) { Pts P = sets::random_set(n, 70 + s); P[i][ax] = V[v]; configs(n, T, [&](const Cfg& c) { both(P, c, i + ax); }); }
  });
  e.group = "two coordinates";
  for (size_t v = 0; v < V.size(); v++) for (size_t w = 0; w < V.size(); w++) e.run([&] { return ex::fmt("values %.17g %.17g", V[v], V[w]); }, [&] {
    for (int q = 0; q < (T ? 9 : light ? 1 : 2); q++) { Pts P = sets::random_set(9, 77 + q); const int i = q, j = (q * 5 + (int)(v + w) % 3 * 4) % 9; P[i][(v + q) % 3] = V[v]; P[j][(w + 2 * q) % 3] = V[w]; configs(9, false, [&](const Cfg& c) { if (T || (light ? c.gr == 5 : c.gr == 1 + (int)(v + w + q) % 2 * 15)) both(P, c, (int)(v + w + q)); }); }
  });
  e.group = "many points";
  for (size_t v = 0; v < V.size(); v++) for (int n : {12, 60}) e.run([&] { return ex::fmt("n=%d value=%.17g", n, V[v]); }, [&] {
    for (int m : {n / 4, n - 1, n}) for (int ax = 0; ax < 4; ax++) { Pts P = sets::random_set(n, 90 + ax); for (int i = 0; i < m; i++) for (int a = 0; a < 3; a++) if (ax == 3 || a == ax) P[i][a] = V[v]; configs(n, false, [&](const Cfg& c) { if (n < 50 || (light ? c.k == 6 && ax == 3 : c.k < 50 || (c.gr == 5 && (c.rec || m < n)))) both(P, c, n + ax); }); }
  });
  // stray points around the cube at distances where they do bound cells inside
  e.group = "strays";
  for (int n : {6, 15, 40}) for (int s = 1; s <= (T ? 60 : light ? 3 : 12); s++) for (double w : {0.02, 0.2, 1.0, 6.0}) e.run([&] { return ex::fmt("n=%d set %d width %g", n, s, w); }, [&] {
    sets::Lcg g(s * 977 + n); Pts P(n); for (auto& p : P) p = {g.in(-w, 1 + w), g.in(-w, 1 + w), g.in(-w, 1 + w)};
    for (int i = 0; i < n; i += 2) P[i] = {g.in(.02, .98), g.in(.02, .98), g.in(.02, .98)};
    P = sets::f32(P); configs(n, T, [&](const Cfg& c) { both(P, c, 0); });
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C26", explore}}); }
