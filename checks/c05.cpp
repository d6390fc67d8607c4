// C05: thread count and scheduling never change the result.
// Compiled with access instrumentation against the controlled scheduler in mc/.
#include "catalog.hpp"
#include "sched.hpp"
using namespace vt;

static uint64_t digest(const Out& o) { uint64_t h = hash_rows(o.raw); for (int l : o.label) h = ex::mix(h, l); return h; }
template <class Ti, class Tf> static uint64_t reference(const Pts& P, Cfg c) { c.nt = 1; return digest(run<Ti, Tf>(P, c)); }

// all schedules up to the preemption bound
template <class Ti, class Tf> static void schedules(ex::Explorer& e, const Pts& P, const Cfg& c, int bound, size_t cap) {
  const uint64_t want = reference<Ti, Tf>(P, c);
  sched::all(e, bound, cap, true, [&] { return digest(run<Ti, Tf>(P, c)); }, [&](uint64_t got, const mc::Shared* s) {
    e.traces++; e.outcome(got);
    EXPECT(got == want, "%s: under schedule [%s] the result differs from the single-threaded one", c.str().c_str(), sched::show(s).c_str());
  });
}
// one execution per scheduling policy, races detected on each
template <class Ti, class Tf> static void policies(ex::Explorer& e, const Pts& P, const Cfg& c, std::initializer_list<int> pol, bool detect = true) {
  const uint64_t want = reference<Ti, Tf>(P, c); e.state(ex::mix(hash_pts(P), ex::hash_str(c.str())));
  for (int p : pol) {
    sched::once(e, {}, p, detect, [&] { return digest(run<Ti, Tf>(P, c)); }); e.traces++;
    auto* s = sched::shm(); if (!s->has_result) continue; e.outcome(s->result);
    EXPECT(s->result == want, "%s: under scheduling policy %d the result differs from the single-threaded one", c.str().c_str(), p);
  }
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  e.group = "all schedules";
  for (int n = 1; n <= (T ? 6 : 5); n++) for (int nt = 2; nt <= (T ? 4 : 3); nt++) for (int ch : {0, 1, 2, 3}) for (int rec = 0; rec < 2; rec++) {
    if (ch >= n) continue; if (ch == 1 && n > 3 && !T) continue; if (ch && nt > 3) continue; if (!T && nt > 2 && (ch || rec) && n > 4) continue; if (!T && nt > 2 && ch && rec) continue; if (!T && ch == 1 && (rec || nt > 2) && n > 2) continue;
    e.run([&] { return ex::fmt("n=%d nthreads=%d chunk=%d recompute=%d", n, nt, ch, rec); }, [&] {
      Cfg c; c.gr = 2; c.k = rec ? 2 : std::max(1, n - 1); c.rec = rec; c.nt = nt; c.chunk = ch; if (rec) { c.p = 9; c.t = 12; } else { c.p = 16; c.t = 24; }
      schedules<int, float>(e, sets::random_set(n, 11 + n), c, T ? 3 : (ch || rec) && nt > 2 ? 0 : (ch && rec) || nt > 2 ? 1 : 2, T ? 60000 : 12000);
    });
  }
  e.group = "thread counts";
  for (int n = 0; n <= (T ? 12 : 9); n++) for (int nt = 1; nt <= (T ? 20 : 17); nt++) for (int v = 0; v < 4; v++) 
    e.run([&] { return ex::fmt("n=%d nthreads=%d variant=%d", n, nt, v); }, [&] {
      Cfg c; c.gr = v == 1 ? 1 : 3; c.nt = nt; c.k = v == 2 ? 2 : std::max(1, n - 1); c.p = 16; c.t = 24;
      if (v == 2) { c.rec = true; c.p = 8; c.t = 11; } if (v == 3) { c.p = 8; c.t = 11; }
      Pts P = sets::random_set(n, 31 + n); if (v == 1 && n > 2) P[1] = P[0];
      policies<int, float>(e, P, c, {mc::LAST_CREATED});
      for (int ch : {1, 2, 3, n - 1, n}) if (ch > 0 && ch <= n && (ch > 1 || nt < 6)) { c.chunk = ch; policies<int, float>(e, P, c, {(ch + v) % 3}); }
    });
  e.group = "set";
  int q = 0;
  for (auto& L : {cat::small_sets(T), cat::degenerate_sets(T), cat::medium_sets(T)}) for (auto& s : L) {
    const int n = s.p.size(); q++; if (!n) continue;
    if (n > 64 && !T && q % 4) continue;
    e.run([&] { return s.name; }, [&] {
      Cfg c; c.gr = 3; c.k = n > 64 ? 20 : std::max(1, n - 1); c.p = 64; c.t = 100;
      int i = 0;
      for (int nt : {2, 3, 4, 7, 8, 16}) {
        c.nt = nt; c.chunk = 0; c.rec = false; policies<int, float>(e, s.p, c, {i % 3}, n <= 64 || i == 1); i++;
        c.chunk = std::max(1, n / 3); c.rec = i % 2; if (c.rec && n > 40) c.rec = false; policies<int, float>(e, s.p, c, {(i + 1) % 3}, n <= 30);
      }
      if (n <= 40) { c.nt = 5; c.chunk = 4; c.k = 5; c.rec = true; c.p = 12; c.t = 16; policies<int64_t, double>(e, s.p, c, {1, 2}); }
    });
  }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C05", explore}}); }
