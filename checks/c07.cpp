// C07: recompute turns every cell into the complete Voronoi cell.
#include "huge.hpp"
using namespace vt;

template <class Ti, class Tf> struct Ref {
  std::vector<orc::Row> R; Out full; Cfg c;
  Ref(const Pts& P, int gr) {
    R = orc::rows(P, P.size(), margin<Tf>());
    c.k = std::max<int>(1, (int)P.size() - 1); c.gr = gr; c.p = 255; c.t = 600;
    full = run<Ti, Tf>(P, c);
    check_complete(P, R, full, c); check_sound(P, R, full, c);
  }
};
template <class Ti, class Tf> static void check(ex::Explorer& e, const Pts& P, const Ref<Ti, Tf>& ref, Cfg c) {
  c.rec = true;
  Out o = run<Ti, Tf>(P, c);
  e.transitions++; e.outcome(hash_rows(o.rows));
  check_shape(o, c);
  check_complete(P, ref.R, o, c); check_sound(P, ref.R, o, c);
  for (size_t i = 0; i < P.size(); i++) {
    if (!ref.R[i].generic || ref.R[i].order_tie || ref.R[i].overflow(240, 480) != orc::Row::NONE) continue;
    e.traces++;
    auto x = o.rows[i], y = ref.full.rows[i]; 
    std::vector<int> a, b; for (int j : x) if (ref.R[i].cls[j] != orc::FREE) a.push_back(j); for (int j : y) if (ref.R[i].cls[j] != orc::FREE) b.push_back(j);
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    EXPECT(a == b, "%s: point %zu is left with row %s, the complete row is %s", c.str().c_str(), i, ids(o.rows[i]).c_str(), ids(y).c_str());
  }
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  const std::vector<int> PS{1, 2, 5, 6, 7, 8, 11, 16, 32, 64, 200, 255, 256, 300}, TS{1, 4, 7, 8, 9, 10, 13, 20, 32, 64, 600};
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 6}, {"special", cat::alpha_special(), T ? 11 : 6}, {"cell", cat::alpha_cell(), T ? 10 : 7}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      e.run([&] { return ids(c); }, [&] {
        Ref<int, float> ref(P, 2); const int n = P.size(); e.state(hash_pts(P));
        for (int k = 1; k <= n + 1; k++) for (int p : {1, 6, 7, 9, 32}) for (int t : {1, 8, 10, 64}) { Cfg q; q.k = k; q.gr = 2; q.p = p; q.t = t; check<int, float>(e, P, ref, q); }
      });
    });
  }
  e.group = "set";
  for (auto& s : cat::small_sets(T)) {
    const int n = s.p.size();
    // all initial k
    for (int lo = 1; lo <= n + 1; lo += 8) e.run([&] { return s.name + ex::fmt(" k=%d..%d", lo, lo + 7); }, [&] {
      Ref<int, float> ref(s.p, 3); e.state(hash_pts(s.p));
      for (int k = lo; k < lo + 8 && k <= n + 1; k++) for (int nt : {1, 3}) { Cfg q; q.k = k; q.gr = 3; q.nt = nt; check<int, float>(e, s.p, ref, q); q.p = 12; q.t = 16; check<int, float>(e, s.p, ref, q); }
    });
    // all array sizes
    for (int p : PS) e.run([&] { return s.name + ex::fmt(" p=%d", p); }, [&] {
      Ref<int, float> ref(s.p, 4); e.state(hash_pts(s.p));
      for (int t : TS) for (int k : {1, 7, n - 1}) { Cfg q; q.k = k; q.gr = 4; q.p = p; q.t = t; q.nt = 2; check<int, float>(e, s.p, ref, q); }
    });
    e.run([&] { return s.name + " double"; }, [&] {
      Ref<int64_t, double> ref(s.p, 5); e.state(hash_pts(s.p));
      for (int p : {3, 8, 20}) for (int t : {2, 12, 40}) for (int k : {1, 5, 12, n}) { Cfg q; q.k = k; q.gr = 5; q.p = p; q.t = t; q.chunk = k == 5 ? 4 : 0; check<int64_t, double>(e, s.p, ref, q); }
    });
  }
  for (auto& L : {cat::medium_sets(T), cat::sharp_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (!n) continue;
    e.run([&] { return s.name; }, [&] {
      Ref<int, float> ref(s.p, 6); e.state(hash_pts(s.p));
      for (int k : {1, 3, 10, 30, 64, 100, n - 1}) for (int v = 0; v < 4; v++) {
        Cfg q; q.k = std::max(1, k); q.gr = 6; q.p = v == 0 ? 128 : v == 1 ? 6 : v == 2 ? 32 : 20; q.t = v == 0 ? 256 : v == 1 ? 300 : v == 2 ? 32 : 9; q.nt = 1 + v; q.chunk = v == 2 ? 9 : 0;
        check<int, float>(e, s.p, ref, q);
      }
    });
  }
  // one cell with very many faces
  for (int m : {60, 100, 125, 140, 180, 220}) for (int p : {6, 32, 63, 64, 127, 128, 160}) e.run([&] { return ex::fmt("shell(m=%d) p=%d", m, p); }, [&] {
    Pts P = sets::shell(m, 3, 0.36, 0.004); Ref<int, double> ref(P, 3); e.state(hash_pts(P));
    for (int t : {8, 64, 255, 256, 500}) for (int k : {9, m}) { Cfg q; q.k = k; q.gr = 3; q.p = p; q.t = t; check<int, double>(e, P, ref, q); }
  });
  for (auto& s : cat::face_sets(T)) e.run([&] { return s.name; }, [&] {
    Ref<int, float> ref(s.p, 3); e.state(hash_pts(s.p)); const int n = s.p.size();
    for (int p : {6, 64, 255}) for (int t : {8, 250, 510}) for (int k : {9, n - 1}) { Cfg q; q.k = k; q.gr = 3; q.p = p; q.t = t; q.nt = 2; check<int, float>(e, s.p, ref, q); }
  });
  for (auto& s : cat::large_sets(T)) e.run([&] { return s.name; }, [&] {
    auto R = orc::rows(s.p, s.p.size(), 1e-4); e.state(hash_pts(s.p));
    for (int k : {4, 17, 64}) { Cfg q; q.k = k; q.gr = 12; q.p = 12; q.t = 20; q.nt = 4; q.rec = true; Out o = run<int, float>(s.p, q); check_shape(o, q); check_complete(s.p, R, o, q); check_sound(s.p, R, o, q); e.transitions++; e.traces += s.p.size(); e.outcome(hash_rows(o.rows)); }
  });
  // a neighbour that is the farthest of very many points: every doubling of k is needed
  e.group = "last of many";
  for (int n : T ? std::vector<int>{60, 140, 270, 530, 1050, 1500, 2100, 4200, 8300, 17000} : std::vector<int>{60, 140, 270, 530, 1050, 2100, 4200}) for (int v = 0; v < 3; v++) e.run([&] { return ex::fmt("n=%d variant=%d", n, v); }, [&] {
    Pts B = sets::random_set(n, 21 + v), P; P.push_back({.5, .51, .49}); 
    for (auto& b : B) P.push_back({.8 + .04 * (b[0] - .5), .5 + .04 * (b[1] - .5), .5 + .04 * (b[2] - .5)});
    P.push_back({.1, .47, .52}); if (v == 1) std::swap(P[0], P.back()); if (v == 2) for (auto& q : P) std::swap(q[0], q[2]);
    P = sets::f32(P); e.state(hash_pts(P));
    const int a = v == 1 ? P.size() - 1 : 0, b = v == 1 ? 0 : P.size() - 1;
    for (int k : {1, 3}) for (int x : {1, 64}) {
      Cfg c; c.rec = true; c.k = k; c.gr = 6; c.p = x; c.t = 2 * x; c.nt = 4; Out o = run<int, float>(P, c); e.transitions++; e.traces += 2; e.outcome(hash_rows(o.raw)); check_shape(o, c);
      for (int i : {a, b}) { auto r = orc::row(P, i, P.size(), margin<float>()); for (size_t j = 0; j < P.size(); j++) EXPECT(r.cls[j] != orc::MUST || has(o.rows[i], j), "%s: point %d misses its neighbour %zu; row is %s", c.str().c_str(), i, j, ids(o.rows[i]).c_str()); }
      EXPECT(has(o.rows[a], b), "%s: point %d misses its farthest neighbour %d; row is %s", c.str().c_str(), a, b, ids(o.rows[a]).c_str());
    }
  });
  e.group = "huge";
  for (int v = 0; v < (T ? 4 : 2); v++) e.run([&] { return ex::fmt("random(n=70001) variant=%d", v); }, [&] {
    Pts P = sets::random_set(70001, 16); huge::Ref R(P); Cfg c; c.gr = 32; c.k = v == 0 ? 24 : 12; c.p = v == 0 ? 32 : 20; c.t = v == 0 ? 64 : 26; c.nt = 3; c.rec = true; if (v == 1) c.chunk = 33000; if (v == 3) c.chunk = 65537;
    Out o = run<int, float>(P, c); e.transitions++; e.state(ex::mix(hash_pts(P), v)); e.outcome(hash_rows(o.raw));
    e.traces += huge::check_rows(e, R, o, c, 240, 0, 1, margin<float>(), true, true, true);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C07", explore}}); }
