// C21: nearest-candidate selection keeps exactly the k smallest, in ascending order.
// Every arrival order of every multiset of distances within the bounds, on the
// three implementations (host slice, device slice, device strided column).
#include <array>
#include <cmath>
#include <limits>
#include <vector>
#include "catalog.hpp"

enum Impl { HOST, DEV_SLICE, DEV_STRIDE };
template <class Ti, class Tf> struct Box {           // k slots inside larger arrays with guards
  Impl impl; int k, off, stride; std::vector<Ti> id; std::vector<Tf> pq;
  std::vector<Ti> id0; std::vector<Tf> pq0;
  int at(int a) const { return impl == DEV_STRIDE ? stride * a + off : off + a; }
  Box(Impl m, int kk, int slot, int slots) : impl(m), k(kk) {
    if (m == DEV_STRIDE) { stride = slots; off = slot; } else { stride = 1; off = slot * kk; }
    id.resize(slots * kk + 3); pq.resize(slots * kk + 3);
    for (size_t i = 0; i < id.size(); i++) { id[i] = -(Ti)(i + 100); pq[i] = (Tf)(i + 0.5); }
    for (int a = 0; a < k; a++) { id[at(a)] = 0; pq[at(a)] = std::numeric_limits<Tf>::infinity(); }
    id0 = id; pq0 = pq;
  }
};
// one device kernel / host call per step would hide nothing: run the whole sequence
template <class Ti, class Tf, class A, class B, class H, class S> static void feed(A& id, B& pq, int root, int n, const int* seq, const Tf* dist, H heapify, S sort) {
  for (int i = 0; i < n; i++) if (dist[seq[i]] < pq[root]) { id[root] = seq[i] + 1; pq[root] = dist[seq[i]]; heapify(); }
  sort();
}
template <class Ti, class Tf> static void select(Box<Ti, Tf>& b, int n, const int* seq, const Tf* dist) {
  const int k = b.k, off = b.off, st = b.stride;
  if (b.impl == HOST) {
    feed<Ti, Tf>(b.id, b.pq, off, n, seq, dist, [&] { heap::maxheapify<Ti, Tf>(b.id, b.pq, off, k, 0); }, [&] { heap::sort<Ti, Tf>(b.id, b.pq, (size_t)off, (size_t)k); });
    return;
  }
#if !defined(VERIF_REAL_SYCL) && !defined(VERIF_NO_DEV)
  std::vector<int> q(seq, seq + n); std::vector<Tf> d(dist, dist + n);
  {
    sycl::queue queue;
    sycl::buffer<Ti, 1> bi(b.id.data(), sycl::range<1>(b.id.size())); sycl::buffer<Tf, 1> bp(b.pq.data(), sycl::range<1>(b.pq.size()));
    const bool stride = b.impl == DEV_STRIDE;
    queue.submit([&](sycl::handler& h) {
      auto id = sycl::accessor(bi, h, sycl::read_write); auto pq = sycl::accessor(bp, h, sycl::read_write);
      h.parallel_for<class sel>(sycl::range<1>(1), [=](sycl::id<1>) {
        if (stride) feed<Ti, Tf>(id, pq, off, n, q.data(), d.data(), [&] { heap::maxheapify<Ti, Tf>(id, pq, (int)st, (int)off, (int)k, 0); }, [&] { heap::sort<Ti, Tf>(id, pq, (int)st, (int)off, (int)k); });
        else feed<Ti, Tf>(id, pq, off, n, q.data(), d.data(), [&] { heap::maxheapify<Ti, Tf>(id, pq, (size_t)off, (size_t)k, (size_t)0); }, [&] { heap::sort<Ti, Tf>(id, pq, (size_t)off, (size_t)k); });
      });
    });
    queue.wait();
  }
#endif
}
template <class Ti, class Tf> static void verify(ex::Explorer& e, const Box<Ti, Tf>& b, int n, const int* seq, const Tf* dist) {
  static const char* nm[] = {"host", "device slice", "device column"};
  std::vector<Tf> want(dist, dist + n); std::sort(want.begin(), want.end()); want.resize(b.k, std::numeric_limits<Tf>::infinity());
  auto ctx = [&] { std::string s = ex::fmt("%s k=%d n=%d arrivals", nm[b.impl], b.k, n); for (int i = 0; i < std::min(n, 40); i++) s += ex::fmt(" %g", (double)dist[seq[i]]); s += " -> "; for (int a = 0; a < std::min(b.k, 40); a++) s += ex::fmt("(%lld,%g)", (long long)b.id[b.at(a)], (double)b.pq[b.at(a)]); return s; };
  std::vector<char> used(n, 0); uint64_t h = 0;
  for (int a = 0; a < b.k; a++) {
    const Tf v = b.pq[b.at(a)]; const Ti i = b.id[b.at(a)]; h = ex::mix(h, i);
    if (v != want[a]) FAIL("position %d holds distance %g, expected %g: %s", a, (double)v, (double)want[a], ctx().c_str());
    if (a < n) {
      if (i < 1 || i > n) FAIL("position %d holds id %lld: %s", a, (long long)i, ctx().c_str());
      if (dist[i - 1] != v) FAIL("position %d pairs candidate %lld with the distance of another: %s", a, (long long)i, ctx().c_str());
      if (used[i - 1]) FAIL("candidate %lld kept twice: %s", (long long)i, ctx().c_str());
      used[i - 1] = 1;
    }
  }
  std::vector<char> mine(b.id.size(), 0); for (int a = 0; a < b.k; a++) mine[b.at(a)] = 1;
  for (size_t i = 0; i < b.id.size(); i++) if (!mine[i] && (b.id[i] != b.id0[i] || b.pq[i] != b.pq0[i])) FAIL("entry %zu outside the slice changed: %s", i, ctx().c_str());
  e.outcome(h); e.transitions++; e.traces++;
}
template <class Ti, class Tf> static void all_impl(ex::Explorer& e, int k, int n, const int* seq, const Tf* dist, int from = HOST, int to = DEV_STRIDE, int slots = 3) {
#if defined(VERIF_REAL_SYCL) || defined(VERIF_NO_DEV)
  to = HOST;
#endif
  for (int m = from; m <= to; m++) for (int slot = 0; slot < slots; slot += (slots > 1 ? slots / 2 : 1)) { Box<Ti, Tf> b((Impl)m, k, slot, slots); select(b, n, seq, dist); verify(e, b, n, seq, dist); }
}
// Inside a call: with a plane array too small for any cell, rows are the k nearest candidates themselves.
static void candidates(ex::Explorer& e, const orc::Pts& P, int k, int gr, bool gpu, int chunk) {
  const int n = P.size(); vt::Cfg c; c.k = k; c.gr = gr; c.p = 1; c.t = 1; c.gpu = gpu; c.chunk = chunk; c.nt = 2; c.nd = 3;
  auto o = vt::run<int, float>(P, c); e.transitions++; e.state(ex::mix(vt::hash_pts(P), k)); 
  vt::check_shape(o, c);
  for (int i = 0; i < n; i++) {
    auto by = orc::by_distance(P, i); const int kk = std::min<int>(k, by.size());
    EXPECT((int)o.rows[i].size() == kk, "%s: point %d has %zu candidates, expected %d", c.str().c_str(), i, o.rows[i].size(), kk);
    if (!kk) continue;
    const double lim = orc::d2(P[i], P[by[kk - 1]]); e.traces++;
    for (int x : o.rows[i]) EXPECT(orc::d2(P[i], P[x]) <= lim * (1 + 1e-5) + 1e-12, "%s: candidate %d of point %d is not among the %d nearest", c.str().c_str(), x, i, kk);
  }
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  e.group = "in a call";
  for (auto& L : {cat::small_sets(T), cat::degenerate_sets(T), cat::medium_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); if (!n) continue;
    e.run([&] { return s.name; }, [&] {
      for (int k = 1; k <= n + 1; k += n > 60 ? 13 : n > 16 ? 3 : 1) for (int gr : {1, 3, 6}) if (gr < 4 || n < 60) {
        candidates(e, s.p, k, gr, false, 0);
#if !defined(VERIF_REAL_SYCL) && !defined(VERIF_NO_DEV)
        candidates(e, s.p, k, gr, true, 0);
#endif
        if (k % 4 == 1) candidates(e, s.p, k, gr, false, 5);
      }
    });
  }
  // every weak order on n arrivals: words over ranks; all k up to n+1
  e.group = "all words";
  const int N = T ? 9 : 8;
  for (int n = 0; n <= N; n++) {
    const int A = std::min(n, T ? 5 : 4); if (n && !A) continue;
    // one case per first three letters
    std::vector<int> w(n, 0);
    const int fix = std::min(n, 3); std::vector<int> pre(fix, 0);
    while (true) {
      e.run([&] { std::string s = ex::fmt("n=%d prefix", n); for (int x : pre) s += ex::fmt(" %d", x); return s; }, [&] {
        std::copy(pre.begin(), pre.end(), w.begin()); std::fill(w.begin() + fix, w.end(), 0);
        while (true) {
          float d[16]; double dd[16], df[16]; int seq[16];
          for (int i = 0; i < n; i++) { d[i] = 0.25f + w[i] * 0.125f; dd[i] = d[i]; df[i] = 0.3 + w[i] * 1e-14; seq[i] = i; }
          uint64_t h = n; for (int x : w) h = ex::mix(h, x); e.state(h);
          for (int k = 1; k <= n + 1; k++) { all_impl<int, float>(e, k, n, seq, d, HOST, HOST); if (n <= (T ? 8 : 7)) all_impl<int, float>(e, k, n, seq, d, DEV_SLICE, DEV_STRIDE); if (n <= 5) { all_impl<int64_t, double>(e, k, n, seq, dd); all_impl<int, double>(e, k, n, seq, df, HOST, DEV_STRIDE, 1); all_impl<int64_t, float>(e, k, n, seq, d, HOST, DEV_STRIDE, 1); } }
          int i = n - 1; while (i >= fix && ++w[i] == A) w[i--] = 0;
          if (i < fix) break;
        }
      });
      int i = fix - 1; while (i >= 0 && ++pre[i] == A) pre[i--] = 0;
      if (i < 0) break;
    }
  }
  // every permutation of distinct distances
  e.group = "all permutations";
  for (int n = 2; n <= (T ? 11 : 9); n++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b)
    e.run([&] { return ex::fmt("n=%d starting %d %d", n, a, b); }, [&] {
      std::vector<int> p; for (int i = 0; i < n; i++) if (i != a && i != b) p.push_back(i);
      std::vector<int> s{a, b}; s.resize(n); std::vector<float> d(n); for (int i = 0; i < n; i++) d[i] = 0.01f * (i + 1) * (i + 1);
      std::vector<double> fine(n), wide(n); std::vector<float> tiny(n); for (int i = 0; i < n; i++) { fine[i] = 0.7 + i * 2.3e-16; wide[i] = std::pow(10.0, -250 + 30 * i); tiny[i] = 1e-44f + 3e-45f * i; }
      do {
        std::copy(p.begin(), p.end(), s.begin() + 2); uint64_t h = 77 + n; for (int x : s) h = ex::mix(h, x); if (n < 9) e.state(h);
        for (int k = 1; k <= n; k++) { all_impl<int, float>(e, k, n, s.data(), d.data(), HOST, HOST, 1); if (n <= (T ? 9 : 8)) all_impl<int, float>(e, k, n, s.data(), d.data(), DEV_SLICE, DEV_STRIDE, 1); if (n <= 7) { all_impl<int64_t, double>(e, k, n, s.data(), fine.data(), HOST, DEV_STRIDE, 1); all_impl<int, double>(e, k, n, s.data(), wide.data(), HOST, DEV_STRIDE, 1); all_impl<int, float>(e, k, n, s.data(), tiny.data(), HOST, DEV_STRIDE, 1); } }
      } while (std::next_permutation(p.begin(), p.end()));
    });
  // long sequences: structured orders, k over heap shapes
  e.group = "long";
  for (int n : {40, 130, 300, 1000}) for (int k : {1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 999, 1001}) {
    if (k > n + 1) continue;
    e.run([&] { return ex::fmt("n=%d k=%d", n, k); }, [&] {
      for (int o = 0; o < 8; o++) {
        std::vector<int> s(n); std::vector<float> d(n); uint32_t x = 12345 + o;
        for (int i = 0; i < n; i++) {
          x = x * 1664525u + 1013904223u;
          s[i] = i; d[i] = o == 0 ? i : o == 1 ? n - i : o == 2 ? (i % 2 ? i : n - i) : o == 3 ? (float)(i % 7) : o == 4 ? (x >> 16) % 50 : o == 5 ? (float)(x >> 8) : o == 6 ? std::fabs(i - n / 2) : 3.0f;
        }
        uint64_t h = n * 1000 + k; h = ex::mix(h, o); e.state(h);
        all_impl<int, float>(e, k, n, s.data(), d.data(), HOST, DEV_STRIDE, 3);
      }
    });
  }
  e.group = "very long";
  for (int k : T ? std::vector<int>{32767, 32769, 65535, 65536, 65537, 70000} : std::vector<int>{32769, 65537}) for (int o = 0; o < 3; o++) e.run([&] { return ex::fmt("k=%d order=%d", k, o); }, [&] {
    const int n = k + 500; std::vector<int> s(n); std::vector<float> d(n); uint32_t x = 99 + o;
    for (int i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s[i] = i; d[i] = o == 0 ? (float)i : o == 1 ? (float)(n - i) : (float)(x >> 8); }
    e.state(ex::mix(k, o + 4242)); all_impl<int, float>(e, k, n, s.data(), d.data(), HOST, DEV_STRIDE, 1);
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C21", explore}}); }
