// C20: a call's result depends only on its own arguments.
// All sequences of calls up to a depth over an alphabet of calls, each sequence
// in a process of its own, against the results of calls made in fresh processes.
#include "catalog.hpp"
#include <deque>
using namespace vt;

struct Call { std::string name; Pts p; Cfg c; int type; };   // type: 0 <int,float> 1 <int64,double> 2 <int64,float> 3 <int,double>
struct Res { std::vector<std::vector<int>> rows; std::vector<std::array<double, 3>> pts; bool operator==(const Res& o) const { return rows == o.rows && pts == o.pts; } };

static std::vector<std::string> KEYS = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
static std::string dump(votess::vtargs& a) { std::string s; for (auto& k : KEYS) s += k + "=" + a[k].get<std::string>() + " "; return s; }

// results are kept alive for the rest of the sequence
struct Kept { std::function<Res()> read; Res first; };

template <class Ti, class Tf> struct Store { std::vector<std::array<Tf, 3>> x; };   // one vector reused by all calls of a type
template <class Ti, class Tf> static Store<Ti, Tf>& store() { static Store<Ti, Tf> s; return s; }

template <class Ti, class Tf> static Res read(votess::dnn<Ti>& d, const std::vector<std::array<Tf, 3>>& x) {
  Res r; for (size_t i = 0; i < d.size(); i++) { r.rows.emplace_back(); auto q = d[i]; for (size_t j = 0; j < q.size(); j++) r.rows.back().push_back((int)q[j]); }
  for (auto& p : x) r.pts.push_back({(double)p[0], (double)p[1], (double)p[2]});
  return r;
}
template <class Ti, class Tf> static Res call(const Call& k, bool reuse, votess::vtargs* shared, std::deque<Kept>* kept, bool again) {
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = k.c.gpu;
#endif
  std::vector<std::array<Tf, 3>> own; auto& x = reuse ? store<Ti, Tf>().x : own;
  x.assign(k.p.size(), {}); for (size_t i = 0; i < k.p.size(); i++) for (int j = 0; j < 3; j++) x[i][j] = (Tf)k.p[i][j];
  votess::vtargs mine = make_args(k.c); if (shared) *shared = mine; votess::vtargs& a = shared ? *shared : mine;
  const std::string before = dump(a);
  const auto dev = k.c.gpu ? votess::device::gpu : votess::device::cpu;
  auto d = std::make_shared<votess::dnn<Ti>>(votess::tesellate<Ti, Tf>(x, a, dev));
  EXPECT(dump(a) == before, "the call changed the caller's parameters from %s to %s", before.c_str(), dump(a).c_str());
  Res r = read<Ti, Tf>(*d, x);
  if (kept) { auto pts = x; kept->push_back({[d, pts] { return read<Ti, Tf>(*d, pts); }, r}); }
  if (again) {     // the points are in grid order now: the same call must reproduce everything
    auto e2 = votess::tesellate<Ti, Tf>(x, a, dev);
    EXPECT((read<Ti, Tf>(e2, x) == r), "repeating the call on the rearranged points gives another result");
  }
  return r;
}
static Res dispatch(const Call& k, bool reuse, votess::vtargs* shared, std::deque<Kept>* kept, bool again) {
  switch (k.type) { case 0: return call<int, float>(k, reuse, shared, kept, again); case 1: return call<int64_t, double>(k, reuse, shared, kept, again); case 2: return call<int64_t, float>(k, reuse, shared, kept, again); default: return call<int, double>(k, reuse, shared, kept, again); }
}
static std::vector<Call> alphabet(bool T) {
  std::vector<Call> v; auto add = [&](const char* n, Pts p, Cfg c, int t) { v.push_back({n, p, c, t}); };
  Cfg c; c.k = 23; c.gr = 3; c.nt = 2;
  auto A = sets::random_set(24, 1), B = sets::random_set(24, 2);
  add("A", A, c, 0); add("B(same size)", B, c, 0);
  { auto g = c; g.gr = 5; add("A,gr=5", A, g, 0); }
  { auto g = c; g.k = 6; add("A,k=6", A, g, 0); }
  { auto g = c; g.k = 3; g.rec = true; g.p = 9; g.t = 14; add("B,recompute", B, g, 0); }
  { auto g = c; g.chunk = 7; g.nt = 3; add("A,chunk=7", A, g, 0); }
  { auto g = c; g.p = 8; g.t = 10; add("A,p=8,t=10", A, g, 0); }
  add("A,double", A, c, 1);
  { auto g = c; g.gpu = true; g.nd = 4; add("B,gpu", B, g, 0); }
  { auto g = c; g.gpu = true; g.chunk = 5; g.k = 9; add("A,gpu,chunk=5,k=9", A, g, 0); }
  { Cfg g; g.k = 69; g.gr = 2; g.nt = 5; add("C(70)", sets::clustered(70, 3), g, 0); }
  { Cfg g; g.k = 2; g.gr = 2; add("3 points", sets::random_set(3, 5), g, 0); }
  { Cfg g; add("1 point", sets::random_set(1, 5), g, 0); } { Cfg g; g.gr = 4; add("no points", {}, g, 0); }
  { Cfg g; g.k = 26; g.gr = 3; add("lattice", sets::lattice(3, 3, 3), g, 0); }
  if (T) { add("B,<int64,float>", B, c, 2); add("A,<int,double>", A, c, 3); { auto g = c; g.gpu = true; g.k = 4; g.rec = true; add("A,gpu,recompute", A, g, 1); } { Cfg g; g.k = 100; g.gr = 4; g.p = 64; g.t = 128; g.nt = 8; add("D(130)", sets::random_set(130, 8), g, 0); } }
  return v;
}

// run f in a process of its own; its text comes back
template <class F> static std::string in_child(F&& f) {
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]); std::string s;
    try { s = f(); } catch (const std::exception& x) { s = std::string("!") + x.what(); }
    size_t o = 0; while (o < s.size()) { ssize_t w = write(fd[1], s.data() + o, s.size() - o); if (w <= 0) break; o += w; }
    _exit(0);
  }
  close(fd[1]); std::string s; char b[65536]; ssize_t r; while ((r = ::read(fd[0], b, sizeof b)) > 0) s.append(b, r);
  close(fd[0]); int st; waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) s = ex::fmt("!process ended with status %d", st);
  return s;
}
static std::string pack(const Res& r) { std::ostringstream o; o.precision(17); o << r.rows.size() << "\n"; for (auto& x : r.rows) { o << x.size(); for (int y : x) o << " " << y; o << "\n"; } for (auto& p : r.pts) o << p[0] << " " << p[1] << " " << p[2] << "\n"; return o.str(); }

// One container, edited in place between calls: every call against the same points in a fresh process.
static const std::vector<std::string> EDITS = {"nothing", "nudge the middle", "move the middle", "swap two in the middle", "replace all but the ends", "replace the first", "replace the last", "reverse", "rotate", "drop the last", "append one",
                                               "mirror", "nudge one bit", "resolution", "k", "replace the second half", "double one"};
template <class Tf> static void edit(std::vector<std::array<Tf, 3>>& x, Cfg& c, int what, int step) {
  sets::Lcg g(what * 31 + step); auto fresh = [&]() -> std::array<Tf, 3> { return {(Tf)g.in(.02, .98), (Tf)g.in(.02, .98), (Tf)g.in(.02, .98)}; };
  const size_t n = x.size(), m = n / 2;
  switch (what) {
    case 1: for (auto& v : x[m]) v = v < Tf(.9) ? v + Tf(.01) : v - Tf(.01); break;
    case 2: x[m] = fresh(); break;
    case 3: std::swap(x[m], x[m - 3]); break;
    case 4: for (size_t i = 1; i + 1 < n; i++) x[i] = fresh(); break;
    case 5: x[0] = fresh(); break;
    case 6: x[n - 1] = fresh(); break;
    case 7: std::reverse(x.begin(), x.end()); break;
    case 8: std::rotate(x.begin(), x.begin() + 5, x.end()); break;
    case 9: x.pop_back(); break;
    case 10: x.push_back(fresh()); break;
    case 11: for (auto& p : x) p[1] = Tf(1) - p[1]; break;
    case 12: for (auto& v : x[m]) v = std::nextafter(v, Tf(.5)); break;
    case 13: c.gr = 7 - c.gr; break;
    case 14: c.k = c.k == 5 ? 23 : 5; break;
    case 15: for (size_t i = m; i < n; i++) x[i] = fresh(); break;
    case 16: x[m] = x[m + 2]; break;
  }
}
template <class Ti, class Tf> static Res one(std::vector<std::array<Tf, 3>>& x, const Cfg& c) {
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = c.gpu;
#endif
  auto d = votess::tesellate<Ti, Tf>(x, make_args(c), c.gpu ? votess::device::gpu : votess::device::cpu);
  return read<Ti, Tf>(d, x);
}
template <class Ti, class Tf> static void edited(ex::Explorer& e, const Pts& P, const Cfg& c0, const std::vector<int>& eds) {
  // the inputs of each step follow from the results alone: replay them with fresh processes first
  std::vector<std::array<Tf, 3>> x = to<Tf>(P); Cfg c = c0; std::vector<std::string> want;
  static std::map<uint64_t, std::string> memo;
  for (size_t q = 0; q <= eds.size(); q++) {
    if (q) edit(x, c, eds[q - 1], (int)q);
    uint64_t h = ex::hash_str(c.str()); for (auto& p : x) for (auto v : p) { double w = v; uint64_t b; std::memcpy(&b, &w, 8); h = ex::mix(h, b); } e.state(h);
    auto& r = memo[h]; if (r.empty()) r = in_child([&] { auto y = x; return pack(one<Ti, Tf>(y, c)); });
    if (r[0] == '!') { std::string w = r.substr(1); r.clear(); FAIL("step %zu alone in a fresh process: %s", q + 1, w.c_str()); }
    want.push_back(r);
    std::istringstream is(r); size_t n, m; is >> n; for (size_t i = 0; i < n; i++) { is >> m; long long z; while (m--) is >> z; } for (auto& p : x) for (auto& v : p) { double w; is >> w; v = (Tf)w; }
  }
  std::string w = in_child([&] {
    std::vector<std::array<Tf, 3>> x = to<Tf>(P); Cfg c = c0;
    for (size_t q = 0; q <= eds.size(); q++) { if (q) edit(x, c, eds[q - 1], (int)q); if (pack(one<Ti, Tf>(x, c)) != want[q]) return ex::fmt("!call %zu on the edited container gives another result than alone in a fresh process", q + 1); }
    return std::string("ok");
  });
  e.transitions += want.size(); e.traces += want.size(); e.outcome(ex::hash_str(want.back()));
  if (w != "ok") FAIL("%s (%s)", w.c_str() + 1, c0.str().c_str());
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough(); auto A = alphabet(T); const int n = A.size(), depth = 3;
  std::vector<std::string> ref;
  auto refs = [&] { if (ref.empty()) for (auto& c : A) { ref.push_back(in_child([&] { return pack(dispatch(c, false, nullptr, nullptr, false)); })); if (ref.back()[0] == '!') { std::string w = ref.back().substr(1); ref.clear(); FAIL("call %s alone in a fresh process: %s", c.name.c_str(), w.c_str()); } } };
  auto seq = [&](const std::vector<int>& s, int mode) {
    refs(); uint64_t h = mode; for (int i : s) h = ex::mix(h, i); e.state(h);
    std::string w = in_child([&] {
      std::deque<Kept> kept; votess::vtargs shared; std::string out;
      for (size_t q = 0; q < s.size(); q++) {
        Res r = dispatch(A[s[q]], mode & 1, mode & 2 ? &shared : nullptr, &kept, mode & 4);
        if (pack(r) != ref[s[q]]) return ex::fmt("!call %zu (%s) gives another result than alone in a fresh process", q + 1, A[s[q]].name.c_str());
      }
      for (size_t q = 0; q < kept.size(); q++) if (!(kept[q].read() == kept[q].first)) return ex::fmt("!the result of call %zu (%s) changed when later calls ran", q + 1, A[s[q]].name.c_str());
      return std::string("ok");
    });
    e.transitions += s.size(); e.traces += s.size(); e.outcome(ex::hash_str(w) ^ ex::hash_str(ref[s.back()]));
    if (w != "ok") { std::string d; for (int i : s) d += " -> " + A[i].name; FAIL("%s [mode %d:%s]", w.c_str() + 1, mode, d.c_str()); }
  };
  for (int len = 1; len <= depth; len++) {
    std::vector<int> s(len, 0);
    while (true) {
      e.run([&] { std::string d = "sequence"; for (int i : s) d += " -> " + A[i].name; return d; }, [&] { for (int m : len < 3 ? std::vector<int>{0, 1, 2, 3, 4, 5, 7} : T ? std::vector<int>{0, 1, 3, 5} : std::vector<int>{1}) seq(s, m); });
      int i = len - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0;
      if (i < 0) break;
    }
  }
  e.group = "edited in place";
  { std::vector<Cfg> cs; Cfg c; c.k = 23; c.gr = 3; cs.push_back(c); { auto g = c; g.chunk = 7; g.nt = 3; cs.push_back(g); } { auto g = c; g.gpu = true; g.nd = 4; g.k = 5; cs.push_back(g); } { auto g = c; g.k = 5; g.rec = true; g.p = 10; g.t = 16; cs.push_back(g); }
    const int m = EDITS.size(); const Pts P = sets::random_set(24, 21);
    for (int len = 1; len <= (T ? 3 : 2); len++) { std::vector<int> s(len, 0);
      while (true) {
        e.run([&] { std::string d = "call"; for (int i : s) d += ", " + EDITS[i] + ", call"; return d; }, [&] { for (auto& q : cs) edited<int, float>(e, P, q, s); if (len < 3) edited<int64_t, double>(e, P, cs[0], s); });
        int i = len - 1; while (i >= 0 && ++s[i] == m) s[i--] = 0;
        if (i < 0) break;
      } }
    e.group = ""; }
  // long alternations
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a < b) e.run([&] { return ex::fmt("alternation %s / %s", A[a].name.c_str(), A[b].name.c_str()); }, [&] { std::vector<int> s; for (int i = 0; i < 10; i++) s.push_back(i % 2 ? b : a); seq(s, 3); });
  e.run([&] { return std::string("all calls, twice"); }, [&] { std::vector<int> s; for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) s.push_back(r ? n - 1 - i : i); seq(s, 1); seq(s, 4); });
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C20", explore}}); }
