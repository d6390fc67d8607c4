// C19: boundary extraction returns the exact rim of any removed region.
//
// State space: all closed oriented triangulated surfaces reachable from the
// initial cell (octahedron) by the operation the cell builder performs (remove a
// disk-shaped patch, fan its rim to a new vertex), up to oriented isomorphism and
// a bound on the number of vertices.  In every state, every disk-shaped patch is
// handed to boundary::compute, in many orders (all of them for small patches).
#include <array>
#include <cmath>
#include <cstring>
#include <vector>
#include <votess.hpp>
#include "explore.hpp"

using Tri = std::array<uint8_t, 3>;
struct Mesh { int nv; std::vector<Tri> t; };

static std::string canon(const Mesh& m) {     // minimal code over all starting darts (orientation kept)
  int nxt[16][16]; memset(nxt, -1, sizeof nxt);
  for (auto& t : m.t) for (int i = 0; i < 3; i++) nxt[t[i]][t[(i + 1) % 3]] = t[(i + 2) % 3];   // apex of dart a->b
  std::string best;
  for (auto& t : m.t) for (int s = 0; s < 3; s++) {
    int lab[16]; memset(lab, -1, sizeof lab); int n = 0; std::vector<int> q; std::vector<int> first(16, -1);
    int a = t[s], b = t[(s + 1) % 3];
    lab[a] = n++; q.push_back(a); first[a] = b; lab[b] = n++; q.push_back(b); first[b] = a;
    std::string code;
    for (size_t h = 0; h < q.size(); h++) {
      int v = q[h], w = first[v], w0 = w;
      do { if (lab[w] < 0) { lab[w] = n++; q.push_back(w); first[w] = v; } code += char('a' + lab[w]); w = nxt[v][w]; } while (w != w0 && w >= 0);
      code += '.';
    }
    if (best.empty() || code < best) best = code;
  }
  return best;
}
// Directed rim edges of a patch; true when the patch is a disk with a simple rim.
static bool disk(const Mesh& m, uint32_t mask, std::vector<int>& rim) {
  static int apex[16][16]; int T = m.t.size();
  char in[16][16]; memset(in, 0, sizeof in);
  for (int i = 0; i < T; i++) if (mask >> i & 1) for (int j = 0; j < 3; j++) in[m.t[i][j]][m.t[i][(j + 1) % 3]] = i + 1;
  rim.assign(16, -1); int edges = 0, rimn = 0; 
  for (int a = 0; a < m.nv; a++) for (int b = 0; b < m.nv; b++) if (in[a][b]) {
    edges++; if (!in[b][a]) { if (rim[a] >= 0) return false; rim[a] = b; rimn++; }
  }
  if (!rimn) return false;
  int f = __builtin_popcount(mask); std::array<char, 16> used{}; int v = 0;
  for (int i = 0; i < T; i++) if (mask >> i & 1) for (int x : m.t[i]) if (!used[x]) { used[x] = 1; v++; }
  const int E = rimn + (edges - rimn) / 2;
  if (v - E + f != 1) return false;
  int s = -1; for (int a = 0; a < 16; a++) if (rim[a] >= 0) { s = a; break; }
  int c = 0, x = s; do { x = rim[x]; c++; } while (x >= 0 && x != s && c <= rimn);
  if (x != s || c != rimn) return false;
  // connected through edges
  uint32_t seen = mask & -mask, fr = seen;
  while (fr) { int i = __builtin_ctz(fr); fr &= fr - 1; for (int j = 0; j < 3; j++) { int o = in[m.t[i][(j + 1) % 3]][m.t[i][j]]; if (o && !(seen >> (o - 1) & 1)) { seen |= 1u << (o - 1); fr |= 1u << (o - 1); } } }
  (void)apex; return seen == mask;
}
static Mesh cut(const Mesh& m, uint32_t mask, const std::vector<int>& rim) {
  Mesh r; std::vector<Tri> t;
  for (size_t i = 0; i < m.t.size(); i++) if (!(mask >> i & 1)) t.push_back(m.t[i]);
  for (int a = 0; a < 16; a++) if (rim[a] >= 0) t.push_back({(uint8_t)a, (uint8_t)rim[a], (uint8_t)m.nv});
  int map[17]; memset(map, -1, sizeof map); int n = 0;
  for (auto& x : t) for (auto& v : x) { if (map[v] < 0) map[v] = n++; v = map[v]; }
  r.nv = n; r.t = t; return r;
}

// ---- the code under test ----------------------------------------------------
struct Io { std::vector<uint8_t> R, cyc; int r_offs, dr_offs, dr_size, r_size; short head; int status; };
static const uint8_t GUARD = 0x5C;
static void prep(Io& io, const std::vector<Tri>& seq, int dr_size, int pad) {
  io.r_size = seq.size(); io.dr_size = dr_size; io.r_offs = 3 * pad; io.dr_offs = pad * dr_size;
  io.R.assign(3 * (pad + seq.size() + 2), GUARD); io.cyc.assign((pad + 2) * dr_size, GUARD);
  for (size_t i = 0; i < seq.size(); i++) for (int j = 0; j < 3; j++) io.R[io.r_offs + 3 * i + j] = seq[i][j];
  for (int i = 0; i < dr_size; i++) io.cyc[io.dr_offs + i] = boundary::bstatus::undefined;
  io.head = -1; io.status = -1;
}
template <class Ti> static void host(Io& io) {
  io.status = boundary::compute<Ti, uint8_t>(io.cyc.data(), (Ti)io.dr_offs, (Ti)io.dr_size, io.head, io.R.data(), (Ti)io.r_offs, (Ti)io.r_size);
}
static void verify(ex::Explorer& e, const Io& io, const std::vector<Tri>& seq, const int* rim, int rimn, const char* who) {
  auto ctx = [&] { std::string s = ex::fmt("%s patch", who); for (auto& t : seq) s += ex::fmt(" (%d,%d,%d)", t[0], t[1], t[2]); s += ex::fmt(" head=%d cycle", io.head); for (int i = 0; i < io.dr_size; i++) s += ex::fmt(" %d", io.cyc[io.dr_offs + i]); return s; };
  e.transitions++; e.traces++;
  if (io.status != boundary::bstatus::success) FAIL("extraction fails with status %d: %s", io.status, ctx().c_str());
  if (io.head < 0 || io.head >= io.dr_size || rim[io.head] < 0) FAIL("the head is not on the rim: %s", ctx().c_str());
  int x = io.head, c = 0;
  do { int y = io.cyc[io.dr_offs + x]; if (y != rim[x]) FAIL("the rim edge leaving %d goes to %d, expected %d: %s", x, y, rim[x], ctx().c_str()); x = y; c++; } while (x != io.head && c <= rimn);
  if (c != rimn || x != io.head) FAIL("the cycle has %d edges, the rim %d: %s", c, rimn, ctx().c_str());
  for (size_t i = 0; i < io.cyc.size(); i++) if (((int)i < io.dr_offs || (int)i >= io.dr_offs + io.dr_size) && io.cyc[i] != GUARD) FAIL("cycle entry %d outside the slice changed: %s", (int)i - io.dr_offs, ctx().c_str());
  for (size_t i = 0; i < io.R.size(); i++) if (((int)i < io.r_offs || (int)i >= io.r_offs + 3 * io.r_size) && io.R[i] != GUARD) FAIL("triangle entry %d outside the slice changed: %s", (int)i - io.r_offs, ctx().c_str());
}
#if !defined(VERIF_REAL_SYCL) && !defined(VERIF_NO_DEV)
static void device_many(std::vector<Io>& ios) {       // all orders of a patch in one launch, one after the other
  const int m = ios.size(); if (!m) return;
  const int rs = ios[0].R.size(), cs = ios[0].cyc.size();
  std::vector<uint8_t> all(rs * m); for (int i = 0; i < m; i++) std::copy(ios[i].R.begin(), ios[i].R.end(), all.begin() + rs * i);
  { sycl::queue q; sycl::buffer<uint8_t, 1> b(all.data(), sycl::range<1>(all.size())); Io* p = ios.data();
    q.submit([&](sycl::handler& h) {
      auto R = sycl::accessor(b, h, sycl::read_write); sycl::local_accessor<uint8_t, 1> L(sycl::range<1>(cs), h);
      h.parallel_for<class bnd>(sycl::nd_range<1>(sycl::range<1>(1), sycl::range<1>(1)), [=](sycl::nd_item<1>) {
        for (int i = 0; i < m; i++) {
          Io& io = p[i]; for (int j = 0; j < cs; j++) L[j] = io.cyc[j];
          io.status = boundary::compute<int, uint8_t>(L, io.dr_offs, io.dr_size, io.head, R, rs * i + io.r_offs, io.r_size);
          for (int j = 0; j < cs; j++) io.cyc[j] = L[j];
        }
      });
    });
    q.wait(); }
  for (int i = 0; i < m; i++) std::copy(all.begin() + rs * i, all.begin() + rs * (i + 1), ios[i].R.begin());
}
#else
static void device_many(std::vector<Io>& ios) { for (auto& io : ios) host<int>(io); }
#endif

static void patch(ex::Explorer& e, const Mesh& m, uint32_t mask, const std::vector<int>& rim, int allsize, int variants) {
  std::vector<Tri> base; for (size_t i = 0; i < m.t.size(); i++) if (mask >> i & 1) base.push_back(m.t[i]);
  const int f = base.size(); std::vector<std::vector<int>> orders; std::vector<int> o(f); 
  for (int i = 0; i < f; i++) o[i] = i;
  if (f <= allsize) do orders.push_back(o); while (std::next_permutation(o.begin(), o.end()));
  else {
    auto dist = [&](int s) { std::vector<int> d(f, 99); d[s] = 0; for (int r = 0; r < f; r++) for (int i = 0; i < f; i++) for (int j = 0; j < f; j++) { int sh = 0; for (int x : base[i]) for (int y : base[j]) sh += x == y; if (sh == 2) d[i] = std::min(d[i], d[j] + 1); } return d; };
    for (int s = 0; s < f; s++) {
      auto d = dist(s);
      auto near = o, far = o; 
      std::stable_sort(near.begin(), near.end(), [&](int a, int b) { return d[a] < d[b]; }); orders.push_back(near);
      std::stable_sort(far.begin(), far.end(), [&](int a, int b) { return d[a] > d[b]; }); orders.push_back(far);     // start far away from s
      auto mix = near; std::reverse(mix.begin() + 1, mix.end()); orders.push_back(mix);                                 // first s, then the farthest ones
      auto rot = o; std::rotate(rot.begin(), rot.begin() + s, rot.end()); orders.push_back(rot); std::reverse(rot.begin(), rot.end()); orders.push_back(rot);
    }
  }
  int lab[3][16]; for (int i = 0; i < 16; i++) { lab[0][i] = i; lab[1][i] = m.nv - 1 - i; lab[2][i] = 254 - 3 * i; }
  for (int L = 0; L < variants; L++) {
    const int drs = L == 0 ? m.nv : L == 1 ? m.nv + 5 : 255;
    std::vector<int> rm(256, -1); int rimn = 0; for (int a = 0; a < m.nv; a++) if (rim[a] >= 0) { rm[lab[L][a]] = lab[L][rim[a]]; rimn++; }
    std::vector<Io> dev; std::vector<std::vector<Tri>> seqs;
    size_t cnt = 0;
    for (auto& od : orders) {
      if (L == 2 && cnt++ % 5) continue;
      std::vector<Tri> s; for (size_t i = 0; i < od.size(); i++) { Tri t = base[od[i]]; int r = (i * (L + 1) + od[0]) % 3; Tri u; for (int j = 0; j < 3; j++) u[j] = lab[L][t[(j + r) % 3]]; s.push_back(u); }
      Io io; prep(io, s, drs, L % 2 + (L == 0)); Io d = io;
      if (L == 1) host<int64_t>(io); else host<int>(io);
      verify(e, io, s, rm.data(), rimn, "host"); e.outcome(ex::mix(ex::mix(rimn, io.head), f));
      dev.push_back(d); seqs.push_back(s);
    }
    device_many(dev);
    for (size_t i = 0; i < dev.size(); i++) verify(e, dev[i], seqs[i], rm.data(), rimn, "device");
  }
}

// large fans and strips, as long as plane indices allow
static Mesh bipyramid(int n) { Mesh m; m.nv = n + 2; for (int i = 0; i < n; i++) { int j = (i + 1) % n; m.t.push_back({(uint8_t)i, (uint8_t)j, (uint8_t)n}); m.t.push_back({(uint8_t)j, (uint8_t)i, (uint8_t)(n + 1)}); } return m; }
static void large(ex::Explorer& e, int n, int len, int kind) {
  Mesh m = bipyramid(n); std::vector<Tri> s;   // kind 0: fan; 1: zig-zag strip around; 2: complete cap plus part of the other
  for (int i = 0; i < len; i++) { s.push_back(m.t[2 * i]); if (kind == 1) s.push_back(m.t[2 * i + 1]); }
  if (kind == 2) { s.clear(); for (int i = 0; i < n; i++) s.push_back(m.t[2 * i]); for (int i = 0; i < len; i++) s.push_back(m.t[2 * i + 1]); }
  std::vector<int> rim(256, -1); int rimn = 0; std::set<std::pair<int, int>> in;
  for (auto& t : s) for (int j = 0; j < 3; j++) in.insert({t[j], t[(j + 1) % 3]});
  for (auto& p : in) if (!in.count({p.second, p.first})) { rim[p.first] = p.second; rimn++; }
  e.state(ex::mix(ex::mix(n, len), kind + 1000));
  std::vector<Io> dev; std::vector<std::vector<Tri>> seqs;
  for (int o = 0; o < 6; o++) {
    auto q = s; const int f = q.size();
    if (o == 1) std::reverse(q.begin(), q.end());
    if (o == 2) { std::vector<Tri> w; for (int i = 0; i < f; i += 2) w.push_back(q[i]); for (int i = 1; i < f; i += 2) w.push_back(q[i]); q = w; }
    if (o == 3) std::rotate(q.begin(), q.begin() + f / 2, q.end());
    if (o == 4) { uint32_t x = 7; for (int i = f - 1; i > 0; i--) { x = x * 1664525u + 1013904223u; std::swap(q[i], q[(x >> 8) % (i + 1)]); } }
    if (o == 5) { std::vector<Tri> w; for (int i = 0, j = f - 1; i <= j; i++, j--) { w.push_back(q[i]); if (i != j) w.push_back(q[j]); } q = w; }
    Io io; prep(io, q, m.nv, 1); Io d = io; host<int>(io); verify(e, io, q, rim.data(), rimn, "host"); dev.push_back(d); seqs.push_back(q);
  }
  device_many(dev); for (size_t i = 0; i < dev.size(); i++) verify(e, dev[i], seqs[i], rim.data(), rimn, "device");
}

static void explore(ex::Explorer& e) {
  const bool T = e.thorough(); const int VMAX = T ? 10 : 9;
  Mesh o; o.nv = 6; for (Tri t : std::vector<Tri>{{2,5,0},{5,3,0},{1,5,2},{5,1,3},{4,2,0},{4,0,3},{2,4,1},{4,3,1}}) o.t.push_back(t);
  std::map<std::string, int> seen; std::vector<Mesh> q{o}; seen[canon(o)] = 0;
  for (size_t h = 0; h < q.size(); h++) {
    const Mesh m = q[h]; const int T2 = m.t.size(); std::vector<int> rim;
    for (uint32_t mask = 1; mask + 1 < (1u << T2); mask++) {
      if (!disk(m, mask, rim)) continue;
      Mesh n = cut(m, mask, rim); if (n.nv > VMAX) continue;
      auto c = canon(n); if (seen.emplace(c, (int)q.size()).second) q.push_back(n);
    }
  }
  e.extra["triangulations"] = e.self == 0 ? q.size() : 0;
  for (size_t h = 0; h < q.size(); h++) {
    const Mesh& m = q[h]; const int T2 = m.t.size();
    const uint32_t block = 1u << std::max(0, T2 - 3);
    for (uint32_t b = 0; b < (1u << T2); b += block) e.run([&] { return ex::fmt("triangulation %zu (%d vertices) patches %u..", h, m.nv, b); }, [&] {
      std::vector<int> rim;
      for (uint32_t mask = std::max(1u, b); mask < b + block && mask + 1 < (1u << T2); mask++) {
        if (!disk(m, mask, rim)) continue;
        e.state(ex::mix(h, mask)); e.extra["patches"]++;
        patch(e, m, mask, rim, m.nv <= 7 ? (T ? 7 : 6) : m.nv <= 8 ? (T ? 6 : 5) : (T ? 5 : 4), m.nv <= 8 ? 3 : 2);
      }
    });
  }
  e.group = "large";
  for (int n : {5, 12, 30, 62, 100, 126, 200, 250, 253}) for (int kind = 0; kind < 3; kind++) for (int len : {1, 2, n / 2, n - 2}) {
    if (len < 1) continue; e.run([&] { return ex::fmt("n=%d len=%d kind=%d", n, len, kind); }, [&] { large(e, n, len, kind); });
  }
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C19", explore}}); }
