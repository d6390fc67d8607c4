// C06: chunked processing equals unchunked processing.
#include "huge.hpp"
using namespace vt;

template <class Ti, class Tf> static void check(ex::Explorer& e, const Pts& P, Cfg base, const std::vector<int>& chunks, const std::vector<int>& nts, int deep = 1) {
  base.nt = 1; base.chunk = 0; base.chunk_on = false;
  Out b = run<Ti, Tf>(P, base);
  const int n = P.size();
  // the unchunked run itself has to be right for the comparison to mean something
  if (base.rec || base.k >= n - 1) check_complete(P, orc::rows(P, n, margin<Tf>()), b, base);
  e.state(ex::mix(ex::mix(hash_pts(P), base.k), base.p * 1000 + base.t + base.rec));
  for (int ch : chunks) for (int nt : nts) {
    Cfg c = base; c.chunk = ch; c.chunk_on = true; c.nt = nt;
    Out o = run<Ti, Tf>(P, c);
    e.transitions++; e.traces += n; e.outcome(hash_rows(o.raw));
    for (int i = 0; i < n; i++)
      EXPECT(o.raw[i] == b.raw[i], "%s: row %d is %s, without chunking it is %s", c.str().c_str(), i, ids(o.raw[i]).c_str(), ids(b.raw[i]).c_str());
    EXPECT(o.label == b.label, "%s: points end up in a different order than without chunking", c.str().c_str());
  }
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  auto all = [](int n) { std::vector<int> v{-5, -1, 0}; for (int c = 1; c <= n + 2; c++) v.push_back(c); v.push_back(8196); return v; };
  struct A { const char* n; Pts p; int m; };
  for (auto& a : std::vector<A>{{"generic", cat::alpha_generic(), T ? 12 : 7}, {"special", cat::alpha_special(), T ? 11 : 7}}) {
    e.group = std::string("subset of ") + a.n;
    cat::subsets(a.p, a.m, [&](const std::vector<int>& c, const Pts& P) {
      const int n = P.size();
      e.run([&] { return ids(c); }, [&] {
        Cfg b; b.gr = 2; b.k = std::max(1, n - 1); check<int, float>(e, P, b, all(n), {1, 2, 3});
        b.k = 2; b.rec = true; b.p = 7; b.t = 10; check<int, float>(e, P, b, all(n), {1, 3});
      });
    });
  }
  e.group = "set";
  for (auto& s : cat::small_sets(T)) {
    const int n = s.p.size();
    auto C = all(n);
    for (int rec = 0; rec < 2; rec++) for (int v = 0; v < 5; v++)
      e.run([&] { return s.name + ex::fmt(" variant=%d rec=%d", v, rec); }, [&] {
        Cfg b; b.rec = rec; b.gr = v % 2 ? 3 : 5;
        b.k = v == 0 ? n - 1 : v == 1 ? 1 : v == 2 ? n / 2 : v == 3 ? 8 : n + 9;
        if (v == 2) { b.p = 10; b.t = 14; } if (v == 3) { b.p = 14; b.t = 256; } if (v == 4) { b.p = 32; b.t = 18; }
        check<int, float>(e, s.p, b, C, T ? std::vector<int>{1, 2, 3, 5, 8, 17} : std::vector<int>{1, 2, 3, 8});
        if (v == 2) check<int64_t, double>(e, s.p, b, C, {1, 4});
      });
  }
  for (auto& L : {cat::medium_sets(T), cat::degenerate_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (n < 2) continue;
    for (int rec = 0; rec < 2; rec++) e.run([&] { return s.name + ex::fmt(" rec=%d", rec); }, [&] {
      Cfg b; b.rec = rec; b.gr = 6; b.k = rec ? 5 : std::min(n - 1, 40); if (rec) { b.p = 16; b.t = 24; }
      std::vector<int> C; for (int c : {1, 2, 3, 7, 10, 16, 25, 31, 32, 33, 50, 64, 65, 100, 127, 128, n / 2, n / 3, n - 1, n, n + 1}) if (c >= 1 && c <= n + 1) C.push_back(c);
      check<int, float>(e, s.p, b, C, {1, 3, 8});
    });
  }
  for (auto& s : cat::large_sets(T)) e.run([&] { return s.name; }, [&] {
    Cfg b; b.gr = 10; b.k = 50; b.p = 64; b.t = 96; const int n = s.p.size();
    check<int, float>(e, s.p, b, {n / 4, n / 3, 100, 256, 257, n - 1}, {1, 5});
  });
  // more points, and chunks, than 16 bits can number
  e.group = "huge";
  for (int ch : T ? std::vector<int>{1000, 30000, 32768, 60000, 65535, 65536, 65537, 70000, 70001, 70002} : std::vector<int>{20000, 65535, 65537}) e.run([&] { return ex::fmt("random(n=70001) chunk=%d", ch); }, [&] {
    Pts P = sets::random_set(70001, 15); Cfg b; b.gr = 40; b.k = 20; b.p = 40; b.t = 60; check<int, float>(e, P, b, {ch}, {2});
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C06", explore}}); }
