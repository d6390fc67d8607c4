// C05, second part: every number of threads, also far more than there are points, and
// whatever the machine reports when the number is left to it.  Free-running threads; the
// schedules are explored in c05.cpp.
#include <atomic>
#include <system_error>
#include <thread>
static unsigned reported = 8; static std::atomic<int> asked{0};
unsigned int std::thread::hardware_concurrency() noexcept { asked++; return reported; }   // takes the place of the library's
#include "catalog.hpp"
using namespace vt;

static void same(ex::Explorer& e, const Pts& P, Cfg c, const std::vector<int>& nts) {
  c.nt = 1; const Out b = run<int, float>(P, c); e.state(ex::mix(hash_pts(P), ex::hash_str(c.str())));
  for (int nt : nts) {
    c.nt = nt; Out o;
    try { o = run<int, float>(P, c); } catch (const std::system_error&) { e.skipped++; continue; }   // the machine cannot start that many threads
    e.transitions++; e.traces += P.size(); e.outcome(hash_rows(o.raw));
    EXPECT(o.raw == b.raw && o.label == b.label, "%s: the result differs from the single-threaded one%s", c.str().c_str(), nt ? "" : ex::fmt(" (the machine reports %u threads)", reported).c_str());
  }
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  std::vector<int> N; for (int i = 2; i <= (T ? 140 : 40); i++) N.push_back(i);
  for (int i : {48, 50, 63, 64, 65, 96, 100, 127, 128, 129, 192, 199, 200, 201, 254, 255, 256, 257, 258, 300}) N.push_back(i);
  if (T) for (int i : {400, 511, 512, 513, 600}) N.push_back(i);
  e.group = "many threads";
  for (int n : T ? std::vector<int>{1, 2, 3, 5, 8, 13, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600} : std::vector<int>{1, 2, 7, 17, 33, 64, 65, 100, 130, 200, 257, 300, 520})
    for (int rec = 0; rec < 2; rec++) for (int v = 0; v < 2; v++) e.run([&] { return ex::fmt("n=%d recompute=%d variant=%d", n, rec, v); }, [&] {
      Pts P = v ? sets::clustered(n, 3) : sets::random_set(n, 41 + n); Cfg c; c.gr = 4; c.k = std::min(std::max(1, n - 1), rec ? 4 : 14); c.p = 24; c.t = 40; c.rec = rec; if (rec) { c.p = 9; c.t = 12; }
      same(e, P, c, N);
      for (int ch : {n / 2, n - 1, 13, 60}) if (ch > 0 && ch < n && n / ch < 12) { c.chunk = ch; same(e, P, c, T ? N : std::vector<int>{2, 3, 4, 5, 7, 8, 16, 31, 33, 64, 65, 130, 257}); }
    });
  e.group = "large";
  for (auto& s : cat::large_sets(T)) for (int rec = 0; rec < 2; rec++) e.run([&] { return s.name + ex::fmt(" recompute=%d", rec); }, [&] {
    Cfg c; c.gr = 9; c.k = rec ? 12 : 24; c.rec = rec; c.p = rec ? 20 : 48; c.t = rec ? 32 : 80; same(e, s.p, c, {2, 3, 5, 6, 7, 8, 9, 12, 16, 24, 32, 33, 64, 128, 256, 300}); c.chunk = s.p.size() / 3 + 1; same(e, s.p, c, {2, 3, 7, 16, 64, 257});
  });
  e.group = "threads left to the machine";
  for (unsigned r : {0u, 1u, 2u, 3u, 4u, 6u, 7u, 12u, 31u, 64u, 96u, 255u, 256u, 384u}) for (int n : {0, 1, 2, 5, 12, 40, 97, 260}) for (int rec = 0; rec < 2; rec++) for (int ch : {0, 4, 33})
    if (!ch || (ch < n && n / ch < 12)) e.run([&] { return ex::fmt("the machine reports %u threads, n=%d recompute=%d chunk=%d", r, n, rec, ch); }, [&] {
      reported = r; Pts P = sets::random_set(n, 43 + n); Cfg c; c.gr = 3; c.k = rec ? 3 : 12; c.p = 20; c.t = 32; c.rec = rec; c.chunk = ch; if (rec) { c.p = 9; c.t = 12; }
      const int a = asked; same(e, P, c, {0}); e.extra["times_the_machine_was_asked"] += asked - a; reported = 8;
    });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C05N", explore}}); }
