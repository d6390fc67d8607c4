// C25: parameters outside their range end in an exception or a well-formed result.
// Built with address and undefined-behaviour sanitizers; one block of memory is at most 256 MB.
#include <climits>
#include <cstdlib>
#include <new>
static const size_t BLOCK = 256u << 20;
void* operator new(size_t n) { if (n <= BLOCK) if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n <= BLOCK ? malloc(n ? n : 1) : nullptr; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n <= BLOCK ? malloc(n ? n : 1) : nullptr; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#include "catalog.hpp"
using namespace vt;

struct Set { std::string key, val; std::function<void(votess::vtargs&)> put; };
template <class T> static Set setv(const char* k, T v) { std::ostringstream o; o << v; return {k, o.str(), [=](votess::vtargs& a) { a[k] = v; }}; }
static std::vector<Set> domain(bool T) {
  std::vector<Set> d;
  const std::vector<long long> wild{LLONG_MIN, -(1ll << 32), (long long)INT_MIN - 1, INT_MIN, INT_MIN + 1, -65536, -256, -2, -1, 0, (long long)INT_MAX + 1, 1ll << 32, (1ll << 32) + 1, LLONG_MAX};
  const std::vector<long long> big{255, 256, 257, 65535, 65536, 1000000, 1 << 24, 1 << 28, (1 << 28) + 1, 1 << 29, (1 << 29) + 1, 1 << 30, (1 << 30) + 1, 715827883, 1431655766, INT_MAX - 1, INT_MAX};
  for (const char* k : {"k", "chunksize", "gpu_ndsize", "cc_p_maxsize", "cc_t_maxsize"}) { for (auto v : wild) d.push_back(setv(k, v)); for (auto v : big) if (std::string(k) != "gpu_ndsize" || v == 65536 || v > (1 << 20)) d.push_back(setv(k, v)); }
  for (auto v : wild) d.push_back(setv("knn_grid_resolution", v));
  for (long long v : {20, 1291, 1292, 1300, 1500, 1625, 1626, 1700, 2000, 2048, 2580, 4096, 32768, 46340, 46341, 65535, 65536, 65537, 1 << 20, 1 << 30, INT_MAX - 1, INT_MAX}) d.push_back(setv("knn_grid_resolution", v));
  for (auto v : wild) if (v <= 0 || v > (1ll << 31)) d.push_back(setv("cpu_nthreads", v));
  for (unsigned long long v : {1ull << 28, 1ull << 60, 1ull << 61, (1ull << 61) - 1, 1ull << 63, ~0ull}) d.push_back(setv("cpu_nthreads", v));
  for (const char* k : {"use_chunking", "use_recompute", "dev_suppress_stdout"}) { for (long long v : {-1ll, 2ll, 255ll, 256ll, 1ll << 32, LLONG_MIN}) d.push_back(setv(k, v)); for (const char* s : {"", "x", "yes", "true", " "}) d.push_back(setv(k, std::string(s))); d.push_back(setv(k, 0.5)); }
  for (const char* k : {"k", "knn_grid_resolution", "cpu_nthreads", "chunksize", "gpu_ndsize", "cc_p_maxsize", "cc_t_maxsize"}) { for (const char* s : {"", "x", "-", "ten", " "}) d.push_back(setv(k, std::string(s))); for (double v : {1e300, -1e300, 1e10, -0.5, 1e-300}) d.push_back(setv(k, v)); }
  (void)T; return d;
}
struct Base { int n, gpu, ch, rec; };
template <class Ti, class Tf> static void call(ex::Explorer& e, const Base& b, const std::vector<const Set*>& s) {
  Pts P = sets::random_set(b.n, 51 + b.n); const auto in = to<Tf>(P); auto x = in;
  Cfg c; c.gr = 2; c.k = 4; c.p = 16; c.t = 24; c.nd = 2; c.chunk = b.ch; c.rec = b.rec; c.nt = 2;
  auto a = make_args(c); std::string what; for (auto* q : s) { q->put(a); what += (what.empty() ? "" : " ") + q->key + "=" + q->val; }
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = b.gpu != 2; const auto dev = b.gpu ? votess::device::gpu : votess::device::cpu;
#else
  const auto dev = votess::device::cpu;
#endif
  bool threw = false, quiet = true;
  for (auto* q : s) if (q->key == "dev_suppress_stdout") quiet = false;
  std::ostringstream sink; auto* keep = std::cout.rdbuf(); if (!quiet) std::cout.rdbuf(sink.rdbuf());
  try {
    auto d = votess::tesellate<Ti, Tf>(x, a, dev);
    Out o = translate<Ti, Tf>(in, x, d); check_shape(o, c); e.outcome(hash_rows(o.raw)); e.extra["results"]++;
    // whatever the sizes: a row without its candidates' true neighbours would be wrong
    auto num = [&](const char* k) { return a[k].template get<long long>(); };
    const long long k = num("k"); const int K = num("use_recompute") ? b.n - 1 : (int)std::min<long long>(b.n - 1, std::max<long long>(1, k));
    if (b.n > 1) check_complete(P, orc::rows(P, K, margin<Tf>()), o, c);
  } catch (const ex::Violation&) { std::cout.rdbuf(keep); throw; }
  catch (const std::exception&) { threw = true; e.extra["exceptions"]++; e.outcome(7); }
  std::cout.rdbuf(keep);
  e.transitions++; e.traces++; e.state(ex::hash_str(what + ex::fmt("|%d %d %d %d %zu %zu", b.n, b.gpu, b.ch, b.rec, sizeof(Ti), sizeof(Tf))));
  match(in, x);                                                    // the points are still the caller's points
  if (threw) { Cfg g; g.gr = 2; g.k = 4; Out o = run<Ti, Tf>(P, g); if (b.n > 1) check_complete(P, orc::rows(P, std::min(4, b.n - 1), margin<Tf>()), o, g); e.transitions++; }
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough(); const auto D = domain(T);
  std::vector<Base> B; for (int n : {0, 1, 2, 3, 7, 20}) for (int g = 0; g < 3; g++) for (int ch : {0, 3}) for (int r = 0; r < 2; r++) B.push_back({n, g, ch, r});
  e.group = "one parameter";
  for (auto& s : D) e.run([&] { return s.key + "=" + s.val; }, [&] { for (auto& b : B) { call<int, float>(e, b, {&s}); call<int64_t, double>(e, b, {&s}); } });
  e.group = "two parameters";
  for (size_t i = 0; i < D.size(); i++) for (size_t m = 0; m < (T ? 1u : 8u); m++) e.run([&] { return D[i].key + "=" + D[i].val + ex::fmt(" with every other, part %zu", m); }, [&] {
    for (size_t j = i + 1; j < D.size(); j++) if (D[j].key != D[i].key && (T || (j % 8 == m && (i + j / 8) % 3 == 0))) for (int q = 0; q < (T ? 6 : 1); q++) {
      const size_t h = i * 31 + j * 7 + q; call<int, float>(e, B[h % B.size()], {&D[i], &D[j]}); if (T) call<int64_t, float>(e, B[(h + 29) % B.size()], {&D[i], &D[j]}); }
  });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C25", explore}}); }
