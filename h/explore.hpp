// Exhaustive bounded exploration driver shared by all harnesses.
//
// A harness enumerates a finite, deterministic sequence of cases.  Every case
// is executed; the sequence is split over worker processes (case index modulo
// the number of workers), so a crash or a hang costs one case, is attributed to
// exactly that case, is re-run alone in a fresh process and is then reported.
#ifndef VERIF_EXPLORE_HPP
#define VERIF_EXPLORE_HPP

#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <stdexcept>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace ex {

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string fmt(const char* f, ...) {
  char buf[8192];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}
#define FAIL(...) throw ex::Violation(ex::fmt(__VA_ARGS__))
#define EXPECT(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

inline uint64_t mix(uint64_t h, uint64_t v) {
  h = (h + 0x9e3779b97f4a7c15ull) * 0xff51afd7ed558ccdull; h ^= h >> 33;
  v = (v + 0x632be59bd9b4e019ull) * 0xc4ceb9fe1a85ec53ull; v ^= v >> 29;
  h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 31;
  return h;
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

struct Shared {             // one per worker, in shared memory
  volatile int64_t cur;     // case being executed, -1 when idle
  volatile int64_t done_upto;
  volatile int64_t last_progress;
  volatile uint64_t executed;
  char desc[4096];
};

class Explorer {
public:
  std::string tier = "quick";
  bool thorough() const { return tier == "thorough"; }
  int64_t only = -1;
  int workers = 8, self = 0;
  int64_t start_after = -1;
  int case_timeout = 60;     // seconds of wall time for one case
  Shared* sh = nullptr;
  volatile int* stop_flag = nullptr;

  // accounting (per worker)
  std::unordered_set<uint64_t> states, outcomes;
  uint64_t transitions = 0, traces = 0, evaluations = 0, skipped = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;

  int64_t next_idx = 0;
  std::string group;         // label of the current family of cases

  void state(uint64_t h) { states.insert(h); }
  void outcome(uint64_t h) { outcomes.insert(h); }
  void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }

  // one case.  desc() is only evaluated when the case is run here.
  template <class D, class B> void run(D&& desc, B&& body) {
    const int64_t idx = next_idx++;
    if (only >= 0 ? idx != only : (idx % workers != self || idx <= start_after)) return;
    if (stop_flag && *stop_flag) return;
    const std::string d = group + (group.empty() ? "" : " ") + desc();
    std::snprintf(sh->desc, sizeof sh->desc, "%s", d.c_str());
    sh->cur = idx;
    sh->last_progress = time(nullptr);
    evaluations++;
    try { body(); }
    catch (const Violation& v) { report(idx, d, v.what()); }
    catch (const std::exception& e) { report(idx, d, std::string("unexpected exception: ") + e.what()); }
    if (samples.size() < 3 || (samples.size() < 6 && (idx % 997) == 0)) sample(d);
    sh->executed = sh->executed + 1;
    sh->cur = -1; sh->done_upto = idx;
  }
  std::string viol_path;
  int reported = 0;
  void report(int64_t idx, const std::string& d, const std::string& w) {
    FILE* f = fopen(viol_path.c_str(), "a");
    std::string a = d, b = w;
    for (auto* s : {&a, &b}) for (auto& c : *s) if (c == '\n' || c == '\t') c = ' ';
    fprintf(f, "%lld\t%s\t%s\n", (long long)idx, a.c_str(), b.c_str());
    fclose(f);
    if (++reported >= 5 && stop_flag) *stop_flag = 1;
  }
  void dump(const std::string& path) {
    FILE* f = fopen(path.c_str(), "w");
    fprintf(f, "transitions %llu\ntraces %llu\nevaluations %llu\nskipped %llu\ncases %lld\n",
            (unsigned long long)transitions, (unsigned long long)traces,
            (unsigned long long)evaluations, (unsigned long long)skipped, (long long)next_idx);
    for (auto& e : extra) fprintf(f, "x %s %llu\n", e.first.c_str(), (unsigned long long)e.second);
    for (auto s : samples) { for (auto& c : s) if (c == '\n') c = ' '; fprintf(f, "s %s\n", s.c_str()); }
    fclose(f);
    for (int w = 0; w < 2; w++) {
      FILE* g = fopen((path + (w ? ".outcomes" : ".states")).c_str(), "wb");
      for (uint64_t h : (w ? outcomes : states)) fwrite(&h, 8, 1, g);
      fclose(g);
    }
  }
};

// A counter shared with the process that merges results.
using ExploreFn = std::function<void(Explorer&)>;

inline std::set<uint64_t> read_hashes(const std::string& p) {
  std::set<uint64_t> s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s;
  uint64_t h; while (fread(&h, 8, 1, f) == 1) s.insert(h); fclose(f); return s;
}

// Exit codes of a harness: 0 = all held, 1 = violations (listed in OUT/violations),
// 3 = internal error.
//   harness MODE --tier T --out DIR [--workers N] [--only IDX]
inline int driver(int argc, char** argv, const std::map<std::string, ExploreFn>& modes) {
  std::string mode, tier = "quick", out; int workers = 8; int64_t only = -1; int ct = 40; int deadline = 0; long mem = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(3); } return std::string(argv[++i]); };
    if (a == "--tier") tier = nxt();
    else if (a == "--out") out = nxt();
    else if (a == "--workers") workers = atoi(nxt().c_str());
    else if (a == "--only") only = atoll(nxt().c_str());
    else if (a == "--case-timeout") ct = atoi(nxt().c_str());
    else if (a == "--deadline") deadline = atoi(nxt().c_str());
    else if (a == "--mem") mem = atol(nxt().c_str());      // MB of address space per worker
    else mode = a;
  }
  auto it = modes.find(mode);
  if (it == modes.end() || out.empty()) { fprintf(stderr, "usage: harness MODE --tier T --out DIR\n"); return 3; }
  if (only >= 0) workers = 1;
  auto* sh = (Shared*)mmap(nullptr, sizeof(Shared) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto* stop = (volatile int*)&sh[workers];
  const std::string viol = out + "/violations";
  unlink(viol.c_str());
  { FILE* f = fopen(viol.c_str(), "w"); if (!f) { perror(viol.c_str()); return 3; } fclose(f); }
  std::vector<pid_t> pid(workers, -1);
  std::vector<int> gen(workers, 0);
  std::vector<std::string> parts;
  fflush(nullptr);
  auto spawn = [&](int w, int64_t after) {
    std::string part = out + "/part." + std::to_string(w) + "." + std::to_string(gen[w]++);
    parts.push_back(part);
    sh[w].cur = -1; sh[w].last_progress = time(nullptr);
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      std::string log = out + "/worker." + std::to_string(w) + ".log";
      int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
      int nul = open("/dev/null", O_RDONLY); if (nul >= 0) dup2(nul, 0);
      if (mem > 0) { rlimit rl{(rlim_t)mem << 20, (rlim_t)mem << 20}; setrlimit(RLIMIT_AS, &rl); }
      { rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); }
      Explorer e; e.tier = tier; e.only = only; e.workers = workers; e.self = w; e.start_after = after;
      e.sh = &sh[w]; e.stop_flag = stop; e.viol_path = viol; e.case_timeout = ct;
      try { it->second(e); e.dump(part); fflush(nullptr); _exit(0); }
      catch (const std::exception& x) { fprintf(stderr, "harness error: %s\n", x.what()); fflush(nullptr); _exit(7); }
    }
    setpgid(p, p);
    pid[w] = p;
  };
  for (int w = 0; w < workers; w++) spawn(w, -1);
  int live = workers, rc = 0, crashes = 0, capped = 0; const time_t t0 = time(nullptr);
  auto add_viol = [&](int w, const std::string& what) {
    FILE* f = fopen(viol.c_str(), "a");
    fprintf(f, "%lld\t%s\t%s\n", (long long)sh[w].cur, sh[w].desc, what.c_str());
    fclose(f);
  };
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      time_t now = time(nullptr);
      if (deadline > 0 && now - t0 > deadline && !*stop) { *stop = 1; capped = 1; }
      for (int w = 0; w < workers; w++)
        if (pid[w] > 0 && sh[w].cur >= 0 && now - sh[w].last_progress > ct) {
          kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          add_viol(w, "HANG: no result within the case time limit");
          int64_t c = sh[w].cur; pid[w] = -1;
          crashes += 2; if (crashes > 5 || only >= 0) { *stop = 1; live--; } else spawn(w, c);
        }
      usleep(20000); continue;
    }
    for (int w = 0; w < workers; w++) if (pid[w] == p) {
      pid[w] = -1;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; break; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { rc = 3; live--; break; }
      if (sh[w].cur < 0 && sh[w].executed > 0 && WIFSIGNALED(st)) {      // damage done by an earlier case of this worker surfaced between cases
        sh[w].cur = sh[w].done_upto; add_viol(w, "CRASH: signal " + std::to_string(WTERMSIG(st)) + " after this case: the heap of the process is damaged");
        *stop = 1; live--; break;
      }
      if (sh[w].cur < 0) { fprintf(stderr, "worker died outside a case (status %d)\n", st); rc = 3; live--; break; }
      add_viol(w, WIFSIGNALED(st) ? ("CRASH: signal " + std::to_string(WTERMSIG(st))) : ("CRASH: exit status " + std::to_string(WEXITSTATUS(st))));
      int64_t c = sh[w].cur;
      if (++crashes > 5 || only >= 0) { *stop = 1; live--; } else spawn(w, c);
      break;
    }
  }
  // merge
  uint64_t tr = 0, tc = 0, ev = 0, sk = 0; long long cases = 0; std::map<std::string, uint64_t> xs; std::vector<std::string> smp;
  std::unordered_set<uint64_t> S, O;
  for (auto& p : parts) {
    std::ifstream f(p); std::string l;
    while (std::getline(f, l)) {
      std::istringstream is(l); std::string k; is >> k; 
      if (k == "s") { if (smp.size() < 8) smp.push_back(l.substr(2)); continue; }
      if (k == "x") { std::string n; uint64_t v; is >> n >> v; xs[n] += v; continue; }
      uint64_t v = 0; is >> v;
      if (k == "transitions") tr += v; else if (k == "traces") tc += v; else if (k == "evaluations") ev += v;
      else if (k == "skipped") sk += v; else if (k == "cases") cases = std::max<long long>(cases, v);
    }
    for (auto h : read_hashes(p + ".states")) S.insert(h);
    for (auto h : read_hashes(p + ".outcomes")) O.insert(h);
    unlink(p.c_str()); unlink((p + ".states").c_str()); unlink((p + ".outcomes").c_str());
  }
  bool bad = false; { std::ifstream f(viol); std::string l; if (std::getline(f, l)) bad = true; }
  FILE* f = fopen((out + "/summary").c_str(), "w");
  fprintf(f, "states %zu\noutcomes %zu\ntransitions %llu\ntraces %llu\nevaluations %llu\nskipped %llu\ncases %lld\nstopped %d\ncapped %d\n",
          S.size(), O.size(), (unsigned long long)tr, (unsigned long long)tc, (unsigned long long)ev, (unsigned long long)sk, cases, *stop, capped);
  for (auto& x : xs) fprintf(f, "x %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
  for (auto& s : smp) fprintf(f, "s %s\n", s.c_str());
  fclose(f);
  if (rc) return rc;
  return bad ? 1 : 0;
}

} // namespace ex
#endif
