// C15: the command-line tool prints what the library computes for its options.
// Every case is one process of the tool built from /repo's src/main.cpp; the expected
// output is that of a direct library call with the same points and parameters.
#include "catalog.hpp"
#include <sys/stat.h>
using namespace vt;
extern long probe_threads; void probe_reset(); void probe_text(char*, size_t);

struct Run { int status; std::string out, err, report; };
static std::string dir;
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
static Run tool(const std::vector<std::string>& args, bool gpu) {
  std::vector<char*> av; std::string exe = getenv("VERIF_CLI"); av.push_back(&exe[0]); auto a = args; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr);
  const std::string o = dir + "/out", er = dir + "/err", rp = dir + "/report"; unlink(rp.c_str()); fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int f = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(f, 1); f = open(er.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(f, 2);
    f = open("/dev/null", O_RDONLY); dup2(f, 0); setenv("VERIF_REPORT", rp.c_str(), 1); if (gpu) setenv("VERIF_MOCK_GPU", "1", 1); else unsetenv("VERIF_MOCK_GPU"); alarm(20);
    execv(av[0], av.data()); _exit(127);
  }
  int st; waitpid(p, &st, 0); EXPECT(WIFEXITED(st), "the tool ended by signal %d", WIFSIGNALED(st) ? WTERMSIG(st) : -1);
  return {WEXITSTATUS(st), slurp(o), slurp(er), slurp(rp)};
}
struct Opt { const char* s; const char* l; const char* key; std::string val; };    // val empty: a switch
// numbers on each line that has a row
static std::vector<std::vector<int>> lines(const std::string& t) {
  std::vector<std::vector<int>> r; std::istringstream is(t); std::string l;
  while (std::getline(is, l)) { if (l == "{" || l == "}" || l == "{}" || l.empty()) continue; std::vector<int> v; for (size_t i = 0; i < l.size();) { if (isdigit(l[i]) || l[i] == '-') { char* e; v.push_back(strtol(&l[i], &e, 10)); i = e - &l[0]; } else i++; } r.push_back(v); }
  return r;
}
struct Exp { std::string text, report; std::vector<std::vector<int>> rows; };
static Exp expected(const std::vector<std::array<float, 3>>& pts, const std::vector<Opt>& opts, bool gpu) {
  votess::vtargs a; auto dev = votess::device::gpu;
  for (auto& o : opts) { if (std::string(o.key) == "device") dev = o.val == "cpu" ? votess::device::cpu : votess::device::gpu; else if (std::string(o.key) == "infile") ; else if (o.val.empty()) a[o.key] = true; else a[o.key] = atoi(o.val.c_str()); }
#ifdef VERIF_MOCK_SYCL
  sycl::mock::config().gpu_present = gpu;
#endif
  auto x = pts; probe_reset(); Exp e;
  auto d = votess::tesellate<int, float>(x, a, dev); char b[200]; probe_text(b, sizeof b); e.report = b;
  for (size_t i = 0; i < d.size(); i++) { e.rows.emplace_back(); auto r = d[i]; for (size_t j = 0; j < r.size(); j++) e.rows.back().push_back(r[j]); }
  std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); d.print(); std::cout.rdbuf(old); e.text = os.str(); return e;
}
static std::vector<std::string> cmd(const std::vector<Opt>& o, int form) {
  std::vector<std::string> v; int i = 0;
  for (auto& x : o) { int f = form < 4 ? form : (form + i * 7) % 4; i++;
    if (f == 0) { v.push_back(std::string("-") + x.s); if (!x.val.empty()) v.push_back(x.val); }
    else if (f == 1) v.push_back(std::string("-") + x.s + x.val);
    else if (f == 2) { v.push_back(std::string("--") + x.l); if (!x.val.empty()) v.push_back(x.val); }
    else v.push_back(std::string("--") + x.l + (x.val.empty() ? "" : "=" + x.val)); }
  return v;
}
static std::string show(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
static void good(ex::Explorer& e, const std::vector<std::array<float, 3>>& pts, const std::vector<Opt>& o, int form, bool gpu) {
  auto c = cmd(o, form); Run r = tool(c, gpu); Exp x = expected(pts, o, gpu); e.transitions++; e.traces += pts.size(); e.outcome(ex::hash_str(r.out)); e.state(ex::hash_str(show(c)));
  EXPECT(r.status == 0, "%s: exit status %d; stderr: %s", show(c).c_str(), r.status, r.err.c_str());
  EXPECT(r.out == x.text && lines(r.out) == x.rows, "%s: prints %s instead of %s", show(c).c_str(), r.out.substr(0, 500).c_str(), x.text.substr(0, 500).c_str());
  EXPECT(r.report == x.report, "%s: the options did not take effect: the tool used %s, the library with these parameters uses %s", show(c).c_str(), r.report.c_str(), x.report.c_str());
}
static std::vector<std::array<float, 3>> asfile(const Pts& P, const std::string& f) {
  std::vector<std::array<float, 3>> v; std::string t; for (auto& p : P) { t += ex::fmt("%.9g %.9g %.9g\n", (float)p[0], (float)p[1], (float)p[2]); v.push_back({(float)p[0], (float)p[1], (float)p[2]}); } spit(f, t); return v;
}
static void explore(ex::Explorer& e) {
  const bool T = e.thorough();
  dir = ex::fmt("w%d.%d", e.self, (int)getpid()); { char b[4096]; dir = std::string(getcwd(b, sizeof b)) + "/" + dir; } mkdir(dir.c_str(), 0755);
  const std::string in = dir + "/points.txt";
  const Opt I{"i", "infile", "infile", in};
  std::vector<Opt> all = {{"k", "k-init", "k", "5"}, {"g", "gridres", "knn_grid_resolution", "3"}, {"t", "cpu-nthreads", "cpu_nthreads", "3"}, {"d", "gpu-ndsize", "gpu_ndsize", "5"},
    {"c", "chunksize", "chunksize", "4"}, {"u", "use-chunking", "use_chunking", ""}, {"r", "use-recompute", "use_recompute", ""}, {"p", "p-maxsize", "cc_p_maxsize", "9"}, {"m", "t-maxsize", "cc_t_maxsize", "13"}, {"x", "use-device", "device", "cpu"}};
  const Pts P = sets::random_set(13, 3); std::vector<std::array<float, 3>> pts;
  const int m = all.size();
  e.group = "option subset";
  for (int set = 0; set < 1 << m; set++) e.run([&] { return ex::fmt("%03x", set); }, [&] {
    pts = asfile(P, in); std::vector<Opt> o; o.push_back(I); for (int i = 0; i < m; i++) if (set >> i & 1) o.push_back(all[i]); else if (i == 2) o.push_back({"t", "cpu-nthreads", "cpu_nthreads", "2"});
    for (int f = 0; f < (T ? 8 : 2); f++) good(e, pts, o, T ? f : (set + f * 2) % 4, (set + f) % 2);
    std::reverse(o.begin(), o.end()); good(e, pts, o, 4 + set % 4, set % 3 == 0);
  });
  e.group = "option orders";
  { std::vector<std::vector<int>> groups = {{0, 1, 5, 4}, {0, 7, 8, 6}, {9, 3, 1, 0}, {2, 9, 5, 4}}; if (T) groups.push_back({0, 1, 2, 3, 9});
    for (auto g : groups) { std::vector<int> perm(g.size() + 1); std::iota(perm.begin(), perm.end(), 0);
      do { auto pm = perm; e.run([&] { std::string s; for (int x : pm) s += x < (int)g.size() ? all[g[x]].s : "i"; return s; }, [&] {
        pts = asfile(P, in); std::vector<Opt> o; for (int x : pm) o.push_back(x < (int)g.size() ? all[g[x]] : I); for (int f : {0, 2, 5}) good(e, pts, o, f, pm[0] % 2); });
      } while (std::next_permutation(perm.begin(), perm.end())); } }
  e.group = "option pair";      // every ordered pair of options x values: no option may change what another one sets
  { const Pts P2 = sets::random_set(26, 5);
    std::vector<std::vector<const char*>> dom = {{"3", "9", "20"}, {"2", "5"}, {"1", "3"}, {"2", "7"}, {"3", "30"}, {""}, {""}, {"8", "14", "40"}, {"10", "16", "60"}, {"cpu", "gpu"}};
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (i != j) for (auto* vi : dom[i]) for (auto* vj : dom[j]) e.run([&] { return ex::fmt("-%s %s -%s %s", all[i].s, vi, all[j].s, vj); }, [&] {
      pts = asfile(P2, in); Opt a = all[i], b = all[j]; a.val = vi; b.val = vj;
      std::vector<Opt> o = {I, a, b}; if (i != 2 && j != 2) o.insert(o.begin(), {"t", "cpu-nthreads", "cpu_nthreads", "2"});
      good(e, pts, o, (i + j) % 4, true); o.insert(o.begin() + (i + j) % 2, {"g", "gridres", "knn_grid_resolution", "3"}); if (i != 9 && j != 9) o.insert(o.begin(), all[9]); good(e, pts, o, (i + j + 1) % 4, false); }); }
  e.group = "option value";
  struct V { int i; std::vector<const char*> v; };
  for (auto& d : std::vector<V>{{0, {"1", "2", "3", "7", "11", "12", "13", "14", "50", "190", "1000", "70000"}}, {1, {"1", "2", "4", "5", "6", "7", "8", "10", "11", "13", "16", "20", "24", "33"}}, {2, {"1", "2", "4", "5", "13", "14", "20"}}, {3, {"1", "2", "3", "7", "13", "16", "32", "64"}},
      {4, {"1", "2", "3", "6", "12", "13", "14", "100", "0", "-1"}}, {7, {"1", "5", "6", "7", "8", "10", "12", "20", "64", "128", "255", "256", "300"}}, {8, {"1", "7", "8", "9", "12", "16", "20", "28", "64", "256", "300", "1024"}}, {9, {"cpu", "gpu"}}})
    for (auto* v : d.v) for (int rest = 0; rest < 4; rest++) e.run([&] { return ex::fmt("-%s %s context %d", all[d.i].s, v, rest); }, [&] {
      pts = asfile(P, in); std::vector<Opt> o = {I}; Opt x = all[d.i]; x.val = v;
      if (d.i != 2) o.push_back({"t", "cpu-nthreads", "cpu_nthreads", "2"}); if (rest & 1 && d.i != 9) o.push_back(all[9]); if (rest & 2) { if (d.i != 5) o.push_back(all[5]); if (d.i != 4) o.push_back(all[4]); if (d.i != 0) o.push_back(all[0]); }
      o.push_back(x); for (int f = 0; f < 4; f++) good(e, pts, o, f, f & 1);
      Opt y = x; y.val = d.i == 9 ? "gpu" : "6"; o.insert(o.begin(), y); good(e, pts, o, 6, true);     // a repeated option: the last one counts
      if (d.i == 1) { Opt z{"g", "grid-resolution", "knn_grid_resolution", v}; o.push_back(z); good(e, pts, o, 2, false); }
    });
  // values that matter only for cells with hundreds of faces, hundreds of candidates or a fine grid
  e.group = "large value";
  for (int n : {150, 235}) for (const char* k : {"127", "128", "254", "255", "256", "257", "300"}) for (const char* pm : {"127", "128", "200", "254", "255"}) for (const char* tm : {"200", "254", "255", "256", "257", "300", "400", "510"}) {
    if (!T && (atoi(k) * 7 + atoi(pm) * 3 + atoi(tm)) % 5) continue;
    e.run([&] { return ex::fmt("shell %d -k %s -p %s -m %s", n, k, pm, tm); }, [&] {
      pts = asfile(sets::shell(n, 1), in); std::vector<Opt> o = {I, {"k", "k-init", "k", k}, {"p", "p-maxsize", "cc_p_maxsize", pm}, {"m", "t-maxsize", "cc_t_maxsize", tm}, {"g", "gridres", "knn_grid_resolution", "3"}, {"t", "cpu-nthreads", "cpu_nthreads", "2"}};
      good(e, pts, o, atoi(tm) % 4, atoi(tm) % 3 == 0); });
  }
  for (const char* g : {"100", "127", "128", "129", "200", "255", "256", "257"}) for (int x = 0; x < 2; x++) e.run([&] { return ex::fmt("-g %s%s", g, x ? " device" : ""); }, [&] {
    pts = asfile(sets::clustered(30, 2), in); std::vector<Opt> o = {I, {"k", "k-init", "k", "2"}, {"g", "gridres", "knn_grid_resolution", g}, {"t", "cpu-nthreads", "cpu_nthreads", "8"}}; good(e, pts, o, x, x); });
  e.group = "defaults";
  for (int n : {0, 1, 2, 3, 5, 13, 40, 63, 64, 65, 80, 200}) e.run([&] { return ex::fmt("n=%d", n); }, [&] {
    pts = asfile(sets::random_set(n, 3), in); std::vector<Opt> o = {I, {"t", "cpu-nthreads", "cpu_nthreads", "4"}, {"g", "gridres", "knn_grid_resolution", "2"}}; for (int g = 0; g < 2; g++) { good(e, pts, o, 2, g); o.push_back(all[9]); good(e, pts, o, 0, g); o.push_back(all[6]); good(e, pts, o, 1, g); o.resize(3); }
    if (n < 70) { o = {I, all[2]}; good(e, pts, o, 0, false); }
  });
  // files: all sequences of up to 4 lines over an alphabet of line shapes
  struct Ln { const char* t; bool ok; std::array<float, 3> p; };
  std::vector<Ln> L = {{"0.1 0.2 0.3", true, {0.1f, 0.2f, 0.3f}}, {"\t0.55\t 0.65  0.75 ", true, {0.55f, 0.65f, 0.75f}}, {"5e-1 2.5e-2 .125\r", true, {0.5f, 0.025f, 0.125f}}, {"+0.999 0.001 9.5E-1", true, {0.999f, 0.001f, 0.95f}}, {"0.333333333333333 0.6666666666666667 0.1234567890123", true, {0.333333333333333f, 0.6666666666666667f, 0.1234567890123f}},
    {"0.1 0.2", false, {}}, {"a b c", false, {}}, {"0.1,0.2,0.3", false, {}}, {"0.4 0.5 x", false, {}}, {"# 0.1 0.2 0.3", false, {}}};
  e.group = "file lines";
  const int nl = L.size(), maxl = T ? 4 : 3;
  for (int len = 0; len <= maxl; len++) { std::vector<int> w(len, 0);
    while (true) {
      for (int nlend = 0; nlend < 2; nlend++) { if (!len && nlend) continue;
      e.run([&] { return ids(w) + (nlend ? "" : " no final newline"); }, [&] {
        std::string t; bool ok = true; pts.clear(); for (int i = 0; i < len; i++) { t += L[w[i]].t; if (i + 1 < len || nlend) t += "\n"; ok = ok && L[w[i]].ok; pts.push_back(L[w[i]].p); } spit(in, t);
        std::vector<Opt> o = {I, {"k", "k-init", "k", "3"}, {"g", "gridres", "knn_grid_resolution", "2"}, {"t", "cpu-nthreads", "cpu_nthreads", "2"}}; if (w.size() && w[0] % 2) o.push_back(all[9]);
        if (ok) { good(e, pts, o, len % 4, nlend); return; }
        Run r = tool(cmd(o, 0), nlend); e.transitions++; e.traces++; e.state(ex::hash_str(t)); e.outcome(r.status);
        EXPECT(r.status != 0, "a malformed input file is accepted with exit status 0"); EXPECT(!r.err.empty(), "a malformed input file is refused without a message");
        EXPECT(r.out.find('{') == std::string::npos && lines(r.out).empty(), "rows are printed for a malformed input file: %s", r.out.c_str());
      }); }
      int i = len - 1; while (i >= 0 && w[i] == nl - 1) w[i--] = 0; if (i < 0) break; w[i]++;
    } }
  // blank lines and text after the coordinates are not documented: the file is refused as a whole or read as its points, never anything else
  e.group = "tolerated lines";
  { struct Tl { const char* t; bool pt; std::array<float, 3> p; };
    std::vector<Tl> W = {{"0.1 0.2 0.3", true, {0.1f, 0.2f, 0.3f}}, {"0.9 0.4 0.6", true, {0.9f, 0.4f, 0.6f}}, {"", false, {}}, {"  \t", false, {}}, {"0.2 0.3 0.7 0.9", true, {0.2f, 0.3f, 0.7f}}, {"0.6 0.7 0.8 # note", true, {0.6f, 0.7f, 0.8f}}};
    for (int len = 1; len <= (T ? 5 : 4); len++) { std::vector<int> w(len, 0);
      while (true) {
        bool weak = false; for (int x : w) weak = weak || x > 1;
        if (weak) e.run([&] { return ids(w); }, [&] {
          std::string t; pts.clear(); for (int x : w) { t += std::string(W[x].t) + "\n"; if (W[x].pt) pts.push_back(W[x].p); } spit(in, t);
          std::vector<Opt> o = {I, {"k", "k-init", "k", "3"}, {"g", "gridres", "knn_grid_resolution", "2"}, {"t", "cpu-nthreads", "cpu_nthreads", "2"}, all[9]};
          Run r = tool(cmd(o, 0), false); Exp x = expected(pts, o, false); e.transitions++; e.traces++; e.state(ex::hash_str(t)); e.outcome(ex::hash_str(r.out));
          if (r.status) EXPECT(!r.err.empty() && r.out.find('{') == std::string::npos && lines(r.out).empty(), "refused with exit status %d, but stdout is '%s', stderr '%s'", r.status, r.out.substr(0, 300).c_str(), r.err.c_str());
          else EXPECT(lines(r.out) == x.rows, "exit status 0, but the rows are %s instead of %s", r.out.substr(0, 300).c_str(), x.text.substr(0, 300).c_str());
        });
        int i = len - 1; while (i >= 0 && w[i] == (int)W.size() - 1) w[i--] = 0; if (i < 0) break; w[i]++;
      } } }
  e.group = "bad position"; 
  for (int n : {10, 100}) for (int at = 0; at < n; at += n / 10) e.run([&] { return ex::fmt("line %d of %d", at + 1, n); }, [&] {
    std::string t; auto Q = sets::random_set(n, 4); for (int i = 0; i < n; i++) t += i == at ? "0.5 oops 0.5\n" : ex::fmt("%.9g %.9g %.9g\n", Q[i][0], Q[i][1], Q[i][2]); spit(in, t);
    Run r = tool({"-i", in, "-x", "cpu", "-g", "2"}, false); e.transitions++; e.traces++; e.state(ex::hash_str(t)); EXPECT(r.status != 0 && !r.err.empty() && r.out.find('{') == std::string::npos, "bad line %d: exit status %d, stdout %s", at, r.status, r.out.substr(0, 200).c_str());
  });
  e.group = "no input";
  struct N { const char* what; std::vector<std::string> a; };
  mkdir((dir + "/d").c_str(), 0755);
  for (auto& c : std::vector<N>{{"none", {}}, {"only options", {"-k", "5", "-u"}}, {"missing file", {"-i", dir + "/nothing"}}, {"missing file, long", {"--infile=" + dir + "/nothing", "-r"}}, {"empty name", {"-i", ""}}, {"directory", {"-i", dir + "/d"}}, {"directory, cpu", {"-x", "cpu", "--infile", dir + "/d"}}, {"path below a file", {"-i", in + "/x"}}, {"option without value", {"-i"}}})
    e.run([&] { return std::string(c.what); }, [&] { asfile(P, in); Run r = tool(c.a, false); e.transitions++; e.traces++; e.state(ex::hash_str(c.what));
      EXPECT(r.status != 0 && r.status != 127, "exit status %d", r.status); EXPECT(!r.err.empty(), "no error message"); EXPECT(r.out.find('{') == std::string::npos, "rows are printed: %s", r.out.c_str()); });
  e.group = "big file";
  for (int n : {500, 3000}) e.run([&] { return ex::fmt("n=%d", n); }, [&] { pts = asfile(sets::random_set(n, 9), in); std::vector<Opt> o = {I, {"k", "k-init", "k", "30"}, {"g", "gridres", "knn_grid_resolution", "8"}, {"t", "cpu-nthreads", "cpu_nthreads", "8"}, {"p", "p-maxsize", "cc_p_maxsize", "64"}, {"m", "t-maxsize", "cc_t_maxsize", "96"}}; good(e, pts, o, 2, false); o.push_back(all[9]); o.push_back(all[5]); o.push_back({"c", "chunksize", "chunksize", "700"}); good(e, pts, o, 3, true); });
  e.run([&] { return std::string("n=70001"); }, [&] { pts = asfile(sets::random_set(70001, 19), in); std::vector<Opt> o = {I, {"k", "k-init", "k", "9"}, {"g", "gridres", "knn_grid_resolution", "40"}, {"t", "cpu-nthreads", "cpu_nthreads", "4"}, all[9]}; good(e, pts, o, 2, false); });
  for (auto f : {"out", "err", "report", "points.txt"}) unlink((dir + "/" + f).c_str()); rmdir((dir + "/d").c_str()); rmdir(dir.c_str());
}
int main(int argc, char** argv) { return ex::driver(argc, argv, {{"C15", explore}}); }
