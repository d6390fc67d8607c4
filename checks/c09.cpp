// C09: points are only permuted into grid order, and rows follow that order.
#include "catalog.hpp"
using namespace vt;

// cells a coordinate may be put into: the exact one, or its neighbour when the
// coordinate is within rounding error of the common face
static bool cell_ok(double x, int gr, long c) {
  if (c < 0 || c >= gr) return false;
  const double v = x * gr, tol = 4e-7 * gr;
  if ((gr & (gr - 1)) == 0) return v >= c && v < c + 1;      // cell faces are representable: no rounding
  return v > c - tol && v < c + 1 + tol;
}

template <class Ti, class Tf> static void check_sort(ex::Explorer& e, const Pts& P, int gr) {
  const auto in = to<Tf>(P); auto x = in;
  const auto [id, offset] = xyzset::sort<Ti, Tf>(x, args::xyzset(gr));
  const int n = P.size(); const long cells = (long)gr * gr * gr;
  auto lab = match(in, x);
  e.transitions++; e.traces += n;
  { uint64_t h = 0; for (int l : lab) h = ex::mix(h, l); for (auto i : id) h = ex::mix(h, i); e.outcome(h); }
  EXPECT((int)id.size() == n, "gr=%d: %zu cell ids for %d points", gr, id.size(), n);
  EXPECT((long)offset.size() == cells + 1, "gr=%d: offset table has %zu entries, expected %ld", gr, offset.size(), cells + 1);
  for (int i = 0; i < n; i++) {
    const long c = id[i];
    EXPECT(c >= 0 && c < cells, "gr=%d: point %d has cell id %ld outside the grid", gr, i, c);
    const long cx = c % gr, cy = c / gr % gr, cz = c / ((long)gr * gr);
    EXPECT(cell_ok(x[i][0], gr, cx) && cell_ok(x[i][1], gr, cy) && cell_ok(x[i][2], gr, cz),
           "gr=%d: point (%.9g,%.9g,%.9g) has cell id %ld = (%ld,%ld,%ld)", gr, (double)x[i][0], (double)x[i][1], (double)x[i][2], c, cx, cy, cz);
    if (i) {
      EXPECT(id[i] >= id[i - 1], "gr=%d: cell ids decrease at position %d", gr, i);
      EXPECT(id[i] > id[i - 1] || lab[i] > lab[i - 1], "gr=%d: input order not kept inside cell %ld (inputs %d,%d)", gr, c, lab[i - 1], lab[i]);
    }
  }
  // offset table, completely: [offset[c], offset[c+1]) are exactly the points with id c
  EXPECT(offset[0] == 0 && offset[cells] == (Ti)n, "gr=%d: offset table spans [%lld,%lld], expected [0,%d]", gr, (long long)offset[0], (long long)offset[cells], n);
  int cur = 0;
  for (long c = 0; c < cells; c++) {
    if (offset[c] != (Ti)cur) FAIL("gr=%d: offset[%ld] is %lld, expected %d", gr, c, (long long)offset[c], cur);
    while (cur < n && id[cur] == (Ti)c) cur++;
  }
  EXPECT(xyzset::validate_id<Ti>(id), "gr=%d: validate_id rejects the sorted ids", gr);
}

template <class Ti, class Tf> static void check_call(ex::Explorer& e, const Pts& P, const Cfg& c) {
  const int n = P.size();
  const auto in = to<Tf>(P); auto x = in, y = in;
  const auto [id, offset] = xyzset::sort<Ti, Tf>(y, args::xyzset(c.gr));
  auto d = votess::tesellate<Ti, Tf>(x, make_args(c), c.gpu ? votess::device::gpu : votess::device::cpu);
  EXPECT(x.size() == in.size(), "%s: call changed the number of points", c.str().c_str());
  for (int i = 0; i < n; i++)
    EXPECT(std::memcmp(&x[i], &y[i], sizeof x[i]) == 0, "%s: point at position %d is (%.9g,%.9g,%.9g), not the one of grid order", c.str().c_str(), i, (double)x[i][0], (double)x[i][1], (double)x[i][2]);
  Out o = translate<Ti, Tf>(in, x, d);
  e.transitions++; e.traces += n; e.outcome(hash_rows(o.raw));
  auto R = orc::rows(P, std::min(c.k, n - 1), margin<Tf>());
  check_shape(o, c); check_complete(P, R, o, c); check_sound(P, R, o, c);
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  const std::vector<int> G = {1, 2, 3, 4, 5, 6, 7, 10, 16, 17};
  // every sequence (with repetition) over an alphabet of cell corners, faces, interiors
  Pts A = sets::f32(Pts{{.5,.5,.5},{.49999997,.5,.5},{.25,.75,.1},{.9,.05,.05},{.05,.9,.05},{.05,.05,.9},{.33333334,.6666667,.99999994},{.99999994,.2,.6},{.6,.6,.6},{1e-7,1e-7,.99}});
  const int na = A.size(), L = T ? 5 : 4;
  e.group = "sequence over corners";
  for (int len = 0; len <= L; len++) {
    std::vector<int> c(len, 0);
    while (true) {
      e.run([&] { return ids(c); }, [&] {
        Pts P; for (int i : c) P.push_back(A[i]);
        e.state(hash_pts(P));
        for (int g : G) { check_sort<int, float>(e, P, g); if (len < 4) check_sort<int64_t, double>(e, P, g); if (len < 3) { check_sort<int, double>(e, P, g); check_sort<int64_t, float>(e, P, g); check_sort<short, float>(e, P, std::min(g, 30)); } }
      });
      int i = len - 1; while (i >= 0 && ++c[i] == na) c[i--] = 0;
      if (i < 0) break;
    }
  }
  // double coordinates closer to a cell face than float can tell
  e.group = "face of";
  for (int g : {2, 4, 8, 16, 32, 64}) for (int f = 1; f < g; f += std::max(1, g / 8)) for (int ax = 0; ax < 3; ax++) e.run([&] { return ex::fmt("gr=%d face=%d axis=%d", g, f, ax); }, [&] {
    Pts P; for (double d : {0., 1e-6, -1e-6, 1e-9, -1e-9, 1e-13, -1e-13, 4e-8, -4e-8, -2e-16}) { orc::P3 q{.3, .6, .2}; q[ax] = double(f) / g + d; P.push_back(q); }
    e.state(hash_pts(P)); check_sort<int, double>(e, P, g); check_sort<int64_t, double>(e, P, g); check_sort<int, float>(e, sets::f32(P), g);
  });
  e.group = "permutation of 6 points in";
  std::vector<int> perm(6); std::iota(perm.begin(), perm.end(), 0);
  do {
    e.run([&] { return ids(perm); }, [&] {
      Pts B = cat::alpha_cell(), P; for (int i : perm) P.push_back(B[i]);
      e.state(hash_pts(P));
      for (int g : {1, 2, 3, 8, 20}) check_sort<int, float>(e, P, g);
      Cfg c; c.k = 5; for (int g : {1, 2, 10}) { c.gr = g; check_call<int, float>(e, P, c); }
    });
  } while (std::next_permutation(perm.begin(), perm.end()));
  e.group = "subset";
  for (auto& a : {cat::alpha_special(), cat::alpha_generic()})
    cat::subsets(a, T ? 7 : 4, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] {
        e.state(hash_pts(P));
        for (int g : {1, 2, 3, 5, 8, 33}) { check_sort<int, float>(e, P, g); check_sort<int64_t, double>(e, P, g); Cfg k; k.gr = g; k.k = 20; if (g < 20) check_call<int, float>(e, P, k); }
      });
    });
  e.group = "set";
  for (auto& L2 : {cat::small_sets(T), cat::medium_sets(T), cat::degenerate_sets(T), cat::large_sets(T)}) for (auto& s : L2) {
    e.run([&] { return s.name; }, [&] {
      e.state(hash_pts(s.p));
      for (int g : cat::resolutions(T)) { check_sort<int, float>(e, s.p, g); if (g % 3 == 0) check_sort<int64_t, double>(e, s.p, g); }
      Cfg c; c.k = std::min<int>(s.p.size(), 60); c.t = 200;
      if (s.p.size() < 140) { for (int g : {3, 9, 13}) { c.gr = g; check_call<int, float>(e, s.p, c); } c.nt = 3; c.chunk = 7; check_call<int64_t, double>(e, s.p, c); }
    });
  }
  e.group = "reversed set";
  for (auto& s : cat::small_sets(T)) e.run([&] { return s.name; }, [&] {
    Pts P(s.p.rbegin(), s.p.rend()); e.state(hash_pts(P));
    for (int g : {2, 3, 4, 7, 12}) { check_sort<int, float>(e, P, g); Cfg c; c.gr = g; check_call<int, float>(e, P, c); c.rec = true; c.k = 4; }
  });
  // cell ids that need every byte of the sort key
  e.group = "fine grid";
  for (int g : T ? std::vector<int>{41, 64, 101, 128, 200, 255, 256, 257, 258, 290, 300, 320} : std::vector<int>{41, 64, 101, 255, 256, 257, 290}) for (int v = 0; v < 2; v++)
    e.run([&] { return ex::fmt("gr=%d variant=%d", g, v); }, [&] {
      Pts P = v ? sets::near_walls(60, g) : sets::random_set(120, g);
      for (auto& q : P) q[2] = v ? q[2] : std::min(0.999, 1 - q[2] * q[2] * 0.3);
      P = sets::f32(P); e.state(hash_pts(P));
      check_sort<int, float>(e, P, g); if (v) check_sort<int64_t, double>(e, P, g); else check_sort<int64_t, float>(e, P, g);
    });
  // point counts around the limits of narrow counters: rows of the counting sort, cell offsets, cells holding everything
  e.group = "many points";
  for (int n : T ? std::vector<int>{127, 128, 129, 255, 256, 257, 511, 513, 4095, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073, 300000, 1000000} : std::vector<int>{127, 128, 129, 255, 256, 257, 4097, 32767, 32769, 65535, 65536, 65537, 70000, 140000})
    for (int v = 0; v < 3; v++) for (int g : {1, 2, 7, 24, 60}) {
      if (v && n > 100000 && !T) continue;
      e.run([&] { return ex::fmt("n=%d variant=%d gr=%d", n, v, g); }, [&] {
        Pts P = sets::random_set(n, 5 + v);
        if (v == 1) for (int i = 0; i < n; i++) if (i % 50) for (auto& c : P[i]) c = 0.999 - 0.001 * c;      // almost all in the last cell
        if (v == 2) for (int i = 0; i < n; i++) P[i][2] = 0.999 - 0.9 * i / n;                              // descending: every point moves
        P = sets::f32(P); e.state(ex::mix(hash_pts(P), g));
        check_sort<int, float>(e, P, g); if (v != 1) check_sort<int64_t, double>(e, P, g);
      });
    }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C09", explore}}); }
