// C13: the parameter store returns exactly what was stored, key by key.
// Explicit-state exploration of operation sequences on real vtargs objects next
// to a map model, plus a complete sweep over keys, values and read types.
#include <cfloat>
#include <climits>
#include <limits>
#include <memory>
#include <vector>
#include <array>
#include <cmath>
#include <arguments.hpp>
#include "explore.hpp"
using votess::vtargs;

struct Val { long double eps = 0; enum K { I, U, D, S } k; long long i = 0; unsigned long long u = 0; long double d = 0; std::string s; std::string name; };
using Set = std::function<void(votess::vtargref&)>;
struct Tok { Val v; Set set; };

template <class T> static Tok tok(T x, const char* tn) {
  Tok t; 
  if constexpr (std::is_floating_point<T>::value) { t.v.k = Val::D; t.v.d = x; t.v.eps = std::numeric_limits<T>::epsilon(); t.v.name = ex::fmt("%s %.20Lg", tn, (long double)x); }
  else if constexpr (std::is_signed<T>::value) { t.v.k = Val::I; t.v.i = x; t.v.name = ex::fmt("%s %lld", tn, (long long)x); }
  else { t.v.k = Val::U; t.v.u = x; t.v.name = ex::fmt("%s %llu", tn, (unsigned long long)x); }
  t.set = [x](votess::vtargref& r) { r = x; };
  return t;
}
static Tok str(const std::string& s) { Tok t; t.v.k = Val::S; t.v.s = s; t.v.name = "string '" + s + "'"; t.set = [s](votess::vtargref& r) { r = s; }; return t; }
static Tok cstr(const char* s) { Tok t; t.v.k = Val::S; t.v.s = s; t.v.name = std::string("literal '") + s + "'"; t.set = [s](votess::vtargref& r) { r = s; }; return t; }

static long double num(const Val& v) { return v.k == Val::I ? (long double)v.i : v.k == Val::U ? (long double)v.u : v.d; }
// 1: must read back exactly, -1: must throw, 0: not judged
template <class T> static int expect(const Val& v) {
  if (v.k == Val::S) {
    if (std::is_same<T, std::string>::value) return 1;
    return !v.s.empty() && (isdigit(v.s[0]) || v.s[0] == '-' || v.s[0] == '+' || v.s[0] == '.' || v.s[0] == ' ' || v.s[0] == 'i' || v.s[0] == 'n') ? 0 : -1;
  }
  if constexpr (std::is_same<T, std::string>::value) return 0;
  else {
    const long double x = num(v);
    if constexpr (std::is_same<T, bool>::value) return (x == 0 || x == 1) ? 1 : (x == std::trunc(x) && std::fabs(x) < 1e9) ? -1 : 0;
    else if constexpr (std::is_integral<T>::value) {
      if (x <= (long double)std::numeric_limits<T>::min() - 1 || x >= (long double)std::numeric_limits<T>::max() + 1) return -1;
      return x == std::trunc(x) ? 1 : 0;
    } else {
      if (std::fabs(x) > (long double)std::numeric_limits<T>::max()) return 0;
      // stored in decimal: exact when the type read is no finer than the one stored, or the value is whole
      const bool fine = v.k == Val::D && v.eps > std::numeric_limits<T>::epsilon() && (x != std::trunc(x) || std::fabs(x) > 1e18L);
      return (long double)(T)x == x && !fine ? 1 : 2;     // 2: to the coarser of the two precisions
    }
  }
}
template <class T> static std::string show(const T& x) { std::ostringstream o; o.precision(25); o << x; return o.str(); }
template <class T> static void read(ex::Explorer& e, const votess::vtargref& r, const Val& v, const char* tn, const std::string& where) {
  const int ex_ = expect<T>(v); if (!ex_) return;
  for (int w = 0; w < 2; w++) {
    bool threw = false; T got{};
    try { if (w) { T x = r; got = x; } else got = r.get<T>(); } catch (const std::exception&) { threw = true; }
    e.transitions++; e.traces++;
    if (ex_ < 0) { EXPECT(threw, "%s holds %s: reading it as %s gives %s instead of throwing", where.c_str(), v.name.c_str(), tn, show(got).c_str()); continue; }
    EXPECT(!threw, "%s holds %s: reading it as %s throws", where.c_str(), v.name.c_str(), tn);
    bool ok;
    if constexpr (std::is_same<T, std::string>::value) ok = got == v.s;
    else if constexpr (std::is_integral<T>::value) ok = v.k == Val::I ? (v.i < 0 ? std::is_signed<T>::value && (long long)got == v.i : (unsigned long long)got == (unsigned long long)v.i) : v.k == Val::U ? (unsigned long long)got == v.u : (long double)got == v.d;
    else ok = ex_ == 1 ? (long double)got == num(v) : std::fabs((long double)got - num(v)) <= std::fabs(num(v)) * 2 * std::max<long double>(v.eps, std::numeric_limits<T>::epsilon()) + std::numeric_limits<T>::min();
    EXPECT(ok, "%s holds %s: reading it as %s gives %s", where.c_str(), v.name.c_str(), tn, show(got).c_str());
  }
}
static void read_all(ex::Explorer& e, const votess::vtargref& r, const Val& v, const std::string& w) {
#define RD(T) read<T>(e, r, v, #T, w)
  RD(int); RD(short); RD(long); RD(long long); RD(unsigned); RD(unsigned short); RD(unsigned long); RD(size_t); RD(bool); RD(float); RD(double); RD(long double); RD(std::string);
}
static const char* KEYS[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
static const long long DEF[] = {64, 0, 1, 8196, 0, 0, 16, 32, 32, 1};
static const int NK = 10;

static std::vector<Tok> values() {
  std::vector<Tok> t;
#define V(T, x) t.push_back(tok<T>(x, #T))
  for (int x : {INT_MIN, -65537, -1, 0, 1, 2, 7, 64, 127, 128, 255, 256, 999999, 1000000, 32767, 32768, 65535, 65536, 1 << 24, (1 << 24) + 1, 123456789, INT_MAX}) V(int, x);
  for (short x : {-32768, -1, 3, 32767}) V(short, x);
  for (unsigned x : {0u, 5u, 4294967295u, 3000000000u}) V(unsigned, x);
  for (long long x : {LLONG_MIN, -(1ll << 40), 1ll << 33, (1ll << 53) + 1, LLONG_MAX}) V(long long, x);
  for (unsigned long x : {1ul << 63, ~0ul, 1ul << 32}) V(unsigned long, x);
  V(bool, true); V(bool, false);
  for (float x : {0.1f, 0.5f, 1.0f, 2.5f, -3.25f, 16777216.f, 1e-30f, 3.4e38f, 1e10f, 1.0f / 3, 1234567.8f, 100000.f, 1e6f, 0.f}) V(float, x);
  for (double x : {0.1, 1.0 / 3, 1e15, 1e15 + 0.5, 1e16, 123456789.123, 1e300, 1e-300, 2.0, 64.0, -17.0, 4294967296.0, 1e6, 999999.5, 1e18, -1e18, 0.0, 1.7e308, 3.0000000001}) V(double, x);
  for (auto s : {"abc", "a b", " lead", "trail ", "two  spaces", "", "x=1", "true", "tab\there", "line\nbreak"}) t.push_back(str(s));
  for (int n : {15, 16, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 5000}) { std::string s; for (int i = 0; i < n; i++) s += char('a' + (i * 7 + i / 26) % 26); t.push_back(str(s)); }
  t.push_back(cstr("literal")); t.push_back(cstr("a literal with spaces"));
  return t;
}

// ---- operation sequences --------------------------------------------------
struct Model { std::array<std::array<int, 3>, 3> v{}; bool operator<(const Model& o) const { return v < o.v; } };  // object x key -> token (-1 default)

static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  auto V = values();
  e.group = "single";
  for (int k = 0; k < NK; k++) for (size_t x = 0; x < V.size(); x++)
    e.run([&] { return std::string(KEYS[k]) + " = " + V[x].v.name; }, [&] {
      vtargs a; V[x].set(a[KEYS[k]]); const vtargs& c = a;
      e.state(ex::mix(k, x)); e.outcome(ex::hash_str(V[x].v.name));
      read_all(e, a[KEYS[k]], V[x].v, KEYS[k]); read_all(e, c[KEYS[k]], V[x].v, KEYS[k]);
      for (int j = 0; j < NK; j++) if (j != k) { Val d; d.k = Val::I; d.i = DEF[j]; d.name = ex::fmt("its default %lld", DEF[j]); read_all(e, c[KEYS[j]], d, KEYS[j]); }
      if (V[x].v.k == Val::I && V[x].v.i >= 0 && V[x].v.i <= INT_MAX) {
        auto val = [&](const char* key) { for (int j = 0; j < NK; j++) if (!strcmp(key, KEYS[j])) return (int)(j == k ? V[x].v.i : DEF[j]); return -1; };
        EXPECT(a.get_xyzset().grid_resolution == val("knn_grid_resolution"), "get_xyzset: wrong grid resolution");
        EXPECT(a.get_knn().grid_resolution == val("knn_grid_resolution") && a.get_knn().k == val("k"), "get_knn: wrong values");
        EXPECT(a.get_cc().k == val("k") && a.get_cc().p_maxsize == val("cc_p_maxsize") && a.get_cc().t_maxsize == val("cc_t_maxsize"), "get_cc: wrong values");
      }
      // overwriting: every second value replaces the first completely
      for (size_t y = x % 3; y < V.size(); y += 3) { V[y].set(a[KEYS[k]]); read_all(e, c[KEYS[k]], V[y].v, KEYS[k]); }
    });
  e.group = "unknown key";
  for (std::string key : {"", "K", "k ", " k", "kk", "chunk", "chunksize ", "cpu_nthread", "gpu", "use-chunking", "dev", "cc_p_maxsize\n", "knn_grid", "0"})
    e.run([&] { return "'" + key + "'"; }, [&] {
      vtargs a; const vtargs& c = a; e.state(ex::hash_str(key));
      for (int rep = 0; rep < 2; rep++) {
        bool t1 = false, t2 = false, t3 = false;
        try { a[key]; } catch (const std::exception&) { t1 = true; }
        try { a[key] = 5; } catch (const std::exception&) { t2 = true; }
        try { c[key]; } catch (const std::exception&) { t3 = true; }
        EXPECT(t1 && t2 && t3, "accessing the unknown key '%s' does not throw", key.c_str());
        e.transitions += 3; e.traces += 3;
      }
      for (int j = 0; j < NK; j++) { Val d; d.k = Val::I; d.i = DEF[j]; d.name = "default"; read_all(e, c[KEYS[j]], d, KEYS[j]); }
    });
  // All operation sequences up to the depth, over three objects.  The state of
  // the model decides what is observed; states are explored once per sequence
  // (no reduction: the implementation may hold more state than the model).
  e.group = "sequence";
  std::vector<Tok> W = {tok<int>(7, "int"), tok<double>(0.1, "double"), str("a b")};
  const char* K3[] = {"k", "chunksize", "cc_p_maxsize"};
  const int K3D[] = {64, 8196, 32};
  struct Op { int kind, a, b, c; };   // 0: obj a key b := token c; 1: obj a := obj b; 2: obj a = copy-constructed from b; 3: a[key b] := a'[key c] of object 2-a.. 
  std::vector<Op> ops;
  for (int a = 0; a < 2; a++) for (int k = 0; k < 3; k++) for (int t = 0; t < 3; t++) if (k < 2 || t == 0) ops.push_back({0, a, k, t});
  ops.push_back({1, 0, 1, 0}); ops.push_back({1, 1, 0, 0}); ops.push_back({1, 0, 2, 0}); ops.push_back({2, 1, 0, 0}); ops.push_back({3, 0, 0, 1}); ops.push_back({3, 0, 1, 1}); ops.push_back({4, 0, 1, 0}); ops.push_back({5, 0, 0, 0});
  const int depth = T ? 5 : 4, no = ops.size();
  std::vector<int> c;
  auto body = [&](const std::vector<int>& seq) {
    std::vector<std::unique_ptr<vtargs>> o; for (int i = 0; i < 3; i++) o.emplace_back(new vtargs);
    Model m; for (auto& x : m.v) x = {-1, -1, -1};
    for (int i : seq) {
      const Op& p = ops[i]; e.transitions++;
      switch (p.kind) {
        case 0: W[p.c].set((*o[p.a])[K3[p.b]]); m.v[p.a][p.b] = p.c; break;
        case 1: *o[p.a] = *o[p.b]; m.v[p.a] = m.v[p.b]; break;
        case 2: o[p.a].reset(new vtargs(*o[p.b])); m.v[p.a] = m.v[p.b]; break;
        case 3: (*o[0])[K3[p.b]] = (*o[1])[K3[p.c]]; m.v[0][p.b] = m.v[1][p.c]; if (p.b != p.c && m.v[0][p.b] == -1) m.v[0][p.b] = -2 - p.c; break;
        case 4: std::swap(*o[0], *o[1]); std::swap(m.v[0], m.v[1]); break;
        case 5: o[0].reset(new vtargs); m.v[0] = {-1, -1, -1}; break;
      }
      uint64_t h = 0; for (auto& x : m.v) for (int y : x) h = ex::mix(h, y + 100); e.state(h);
    }
    for (int a = 0; a < 3; a++) for (int k = 0; k < NK; k++) {
      const vtargs& r = *o[a]; int j = -1; for (int q = 0; q < 3; q++) if (!strcmp(K3[q], KEYS[k])) j = q;
      Val v; v.k = Val::I; v.i = DEF[k]; v.name = "its default";
      if (j >= 0 && m.v[a][j] >= 0) v = W[m.v[a][j]].v;
      if (j >= 0 && m.v[a][j] <= -2) { v.i = K3D[-2 - m.v[a][j]]; v.name = "another key's default"; }
      const std::string w = ex::fmt("object %d key %s", a, KEYS[k]);
      if (v.k == Val::S) read<std::string>(e, r[KEYS[k]], v, "string", w); else if (v.k == Val::D) read<double>(e, r[KEYS[k]], v, "double", w); else read<int>(e, r[KEYS[k]], v, "int", w);
    }
  };
  // one case per prefix of length 2
  for (int x = -1; x < no; x++) for (int y = -1; y < no; y++) {
    if (x < 0 && y >= 0) continue;
    e.run([&] { return ex::fmt("prefix (%d,%d)", x, y); }, [&] {
      std::vector<int> s; if (x >= 0) s.push_back(x); if (y >= 0) s.push_back(y);
      if (s.size() < 2) { body(s); return; }
      std::function<void()> rec = [&] { body(s); if ((int)s.size() == depth) return; for (int q = 0; q < no; q++) { s.push_back(q); rec(); s.pop_back(); } };
      rec();
    });
  }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C13", explore}}); }
