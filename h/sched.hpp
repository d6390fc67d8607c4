// Exhaustive exploration of thread schedules: every schedule is one execution of
// the body in a process of its own, under the controlled scheduler in mc/.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include "explore.hpp"
#include "../mc/mc.hpp"
#include <sched.h>
namespace sched {
// threads take turns, so all of them stay on one processor: handing over is much cheaper there
inline void pin(int w) {
  cpu_set_t all, one; if (sched_getaffinity(0, sizeof all, &all)) return; int n = CPU_COUNT(&all); if (n < 1) return; w %= n;
  for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && w-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); return; }
}
inline mc::Shared* shm() {
  static mc::Shared* s = nullptr; static pid_t owner = 0;
  if (!s || owner != getpid()) { s = (mc::Shared*)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); }
  return s;
}
inline std::string show(const mc::Shared* s) { std::string r; for (int i = 0; i < s->nd && i < 120; i++) r += ex::fmt("%s%d", i ? "," : "", s->d[i].chosen); return r; }

// one execution; the body returns a hash of the result (it may throw ex::Violation)
template <class B> void once(ex::Explorer& e, const std::vector<uint8_t>& prefix, int policy, bool detect, B&& body) {
  auto* s = shm(); s->prefix_len = prefix.size(); std::memcpy(s->prefix, prefix.data(), prefix.size()); s->policy = policy; s->detect = detect; s->text[0] = 0;
  s->nd = 0; s->race = s->deadlock = s->diverged = s->finished = s->toomany = 0; s->msg[0] = 0; s->has_result = 0;
  pid_t p = fork();
  if (p == 0) {
    alarm(60); pin(e.self);
    try { mc::begin(s); uint64_t h = body(); mc::end(); s->result = h; s->has_result = 1; }
    catch (const ex::Violation& v) { mc::end(); std::snprintf(s->text, sizeof s->text, "%s", v.what()); }
    catch (const std::exception& v) { mc::end(); std::snprintf(s->text, sizeof s->text, "unexpected exception: %s", v.what()); }
    _exit(0);
  }
  int st; waitpid(p, &st, 0); e.sh->last_progress = time(nullptr);
  e.transitions++; e.extra["sync_points"] += s->syncs; e.extra["accesses_checked"] += s->accesses; e.extra["threads_run"] += s->threads; e.extra["choice_points"] += s->nd;
  EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "schedule [%s]: the process ended with status %d%s", show(s).c_str(), st, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? " (no result in time)" : "");
  EXPECT(!s->race, "schedule [%s]: %s", show(s).c_str(), s->msg);
  EXPECT(!s->deadlock, "schedule [%s]: %s", show(s).c_str(), s->msg);
  EXPECT(!s->text[0], "schedule [%s]: %s", show(s).c_str(), s->text);
  if (s->diverged || s->toomany) { e.extra["not_decided"]++; return; }
  EXPECT(s->has_result, "schedule [%s]: the call did not return", show(s).c_str());
}
inline std::vector<int> options(const mc::Decision& d) {       // default first
  std::vector<int> o; int def = d.cur_enabled ? d.cur : __builtin_ctz(d.enabled); o.push_back(def);
  for (int i = 0; i < mc::MAXT; i++) if ((d.enabled >> i & 1) && i != def) o.push_back(i);
  return o;
}
// all schedules with at most `bound` preemptions; returns how many were run
template <class B, class C> size_t all(ex::Explorer& e, int bound, size_t cap, bool detect, B&& body, C&& check) {
  auto* s = shm(); std::vector<uint8_t> prefix; size_t runs = 0;
  while (true) {
    once(e, prefix, mc::CONTINUE, detect, body);
    if (s->has_result) check(s->result, s);
    uint64_t h = 77; for (int i = 0; i < s->nd; i++) h = ex::mix(h, s->d[i].chosen | s->d[i].enabled << 8); e.state(ex::mix(h, ex::hash_str(e.sh->desc)));
    if (++runs >= cap) { e.extra["schedule_cap_reached"]++; break; }
    int i = s->nd - 1; std::vector<int> pre(s->nd + 1, 0);
    for (int j = 0; j < s->nd; j++) pre[j + 1] = pre[j] + (s->d[j].cur_enabled && s->d[j].chosen != s->d[j].cur);
    int next = -1;
    for (; i >= 0 && next < 0; i--) {
      auto o = options(s->d[i]); size_t k = std::find(o.begin(), o.end(), (int)s->d[i].chosen) - o.begin();
      for (k++; k < o.size(); k++) { int cost = s->d[i].cur_enabled && o[k] != s->d[i].cur; if (pre[i] + cost <= bound) { next = o[k]; break; } }
      if (next >= 0) break;
    }
    if (next < 0) break;
    std::vector<uint8_t> np; for (int j = 0; j < i; j++) np.push_back(s->d[j].chosen); np.push_back(next); prefix = np;
  }
  if (getenv("SCHED_VERBOSE")) { std::map<int, int> kk; for (int i = 0; i < s->nd; i++) kk[s->d[i].kind]++; for (auto& x : kk) fprintf(stderr, "kind %d: %d  ", x.first, x.second); }
  e.extra["schedules"] += runs; if (getenv("SCHED_VERBOSE")) fprintf(stderr, "%zu schedules: %s\n", runs, e.sh->desc);
  return runs;
}
} // namespace sched
#endif
