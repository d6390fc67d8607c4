// See mc.hpp.  Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); size_t malloc_usable_size(void*); }

namespace mc {
static inline long raw(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r;
}
struct Baton { volatile int v = 0;
  void wait() { while (!__atomic_exchange_n(&v, 0, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&v, FUTEX_WAIT_PRIVATE, 0); }
  void post() { __atomic_store_n(&v, 1, __ATOMIC_RELEASE); raw(SYS_futex, (long)&v, FUTEX_WAKE_PRIVATE, 1); } };

typedef uint32_t VC[MAXT];
enum St { FREE = 0, RUN, DONE };
struct Thr {
  St st = FREE; Baton b; VC vc, acq, rel; bool joined = true; pthread_t pt; bool detached = false;
  int wait_kind = 0; const void* wait_obj = nullptr; bool timed = false, timed_out = false, yielding = false; uint32_t seq = 0; int spins = 0;
  void* (*fn)(void*); void* arg; void* ret; struct Dtor { void (*f)(void*); void* o; } dt[64]; int ndt = 0;
};
enum { W_NONE = 0, W_JOIN, W_MUTEX, W_COND, W_GUARD, W_FUTEX, W_BARRIER, W_RD, W_WR };
static Thr T[MAXT]; static int nslots = 0; static Shared* S; static volatile bool on = false; static int cur = 0; static uint32_t seqno = 0;
static thread_local int me = -1; static thread_local int busy = 0;
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };

// ---- synchronisation objects, keyed by address -------------------------------
struct Obj { const void* a; VC vc; int owner; int depth; int count; bool used; int readers; };
static Obj objs[1 << 14];
static Obj& obj(const void* a) {
  size_t h = ((size_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 50;
  for (;; h = (h + 1) & ((1 << 14) - 1)) { if (objs[h].used && objs[h].a == a) return objs[h]; if (!objs[h].used) { Obj& o = objs[h]; o.used = true; o.a = a; o.owner = -1; o.depth = 0; o.count = 0; o.readers = 0; memset(o.vc, 0, sizeof o.vc); return o; } }
}
static void join(VC a, const VC b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void release(Obj& o) { join(o.vc, T[me].vc); T[me].vc[me]++; }
static void acquire(Obj& o) { join(T[me].vc, o.vc); }

// ---- scheduler ---------------------------------------------------------------
static void stop_all() { S->nd = S->nd; _exit(0); }
static bool enabled(int i) {
  Thr& t = T[i]; if (t.st != RUN) return false;
  switch (t.wait_kind) {
    case W_NONE: return true;
    case W_JOIN: return T[(long)t.wait_obj].st == DONE;
    case W_MUTEX: case W_GUARD: return obj(t.wait_obj).owner < 0;
    case W_RD: return obj(t.wait_obj).owner < 0;
    case W_WR: return obj(t.wait_obj).owner < 0 && obj(t.wait_obj).readers == 0;
    default: return false;
  }
}
static void schedule(int kind) {          // called by the running thread, which may be blocked, done or ready
  S->syncs++;
  for (;;) {
    uint32_t en = 0; for (int i = 0; i < nslots; i++) if (enabled(i)) en |= 1u << i;
    if (!en) {            // only timed waits left: let the oldest time out
      int w = -1; for (int i = 0; i < nslots; i++) if (T[i].st == RUN && T[i].timed && T[i].wait_kind != W_NONE && (w < 0 || T[i].seq < T[w].seq)) w = i;
      if (w >= 0) { T[w].timed_out = true; T[w].wait_kind = W_NONE; continue; }
      bool live = false; for (int i = 0; i < nslots; i++) live = live || T[i].st == RUN;
      if (live) { S->deadlock = 1; snprintf(S->msg, sizeof S->msg, "deadlock: no thread can continue"); }
      stop_all();
    }
    const bool ce = (en >> cur) & 1; const bool y = ce && T[cur].yielding && (en & ~(1u << cur)); T[cur].yielding = false;
    int pick = -1;
    if (!(en & (en - 1))) pick = __builtin_ctz(en);          // no choice: not recorded
    else {
      uint32_t alt = y ? en & ~(1u << cur) : en;
      if (!(alt & (alt - 1))) pick = __builtin_ctz(alt);
      else {
        if (S->nd >= MAXD) { S->toomany = 1; stop_all(); }
        if (S->nd < S->prefix_len) { pick = S->prefix[S->nd]; if (pick >= MAXT || !((alt >> pick) & 1)) { S->diverged = 1; snprintf(S->msg, sizeof S->msg, "replay diverged at decision %d", S->nd); stop_all(); } }
        else if (S->policy == LAST_CREATED) pick = 31 - __builtin_clz(alt);
        else if (S->policy == ROUND_ROBIN) { int c = cur; do c = (c + 1) % MAXT; while (!((alt >> c) & 1)); pick = c; }
        else pick = ((alt >> cur) & 1) ? cur : __builtin_ctz(alt);
        Decision& d = S->d[S->nd++]; d.chosen = pick; d.cur = cur; d.cur_enabled = (alt >> cur) & 1; d.kind = kind; d.enabled = alt;
      }
    }
    T[pick].spins = pick == cur ? T[pick].spins : 0;
    const int self = me; cur = pick;
    if (pick == self) return;
    T[pick].b.post();
    if (T[self].st == DONE) return;
    T[self].b.wait();
    return;
  }
}
static void block(int k, const void* o) { T[me].wait_kind = k; T[me].wait_obj = o; T[me].seq = ++seqno; }
static void unblock() { T[me].wait_kind = W_NONE; }
static bool ctl() { return on && me >= 0 && !busy; }

// ---- shadow memory -----------------------------------------------------------
struct Cell { uint32_t w, r; };
struct Page { Cell c[4096]; };
static const size_t PT = 1 << 17; static uintptr_t pkey[PT]; static Page* pval[PT]; static size_t npages = 0;
static VC* rvs = nullptr; static uint32_t nrv = 0; static const uint32_t MAXRV = 1 << 18;
static char* pool = nullptr; static size_t pool_left = 0;
static Page* page(uintptr_t p, bool make) {
  size_t h = p * 0x9E3779B97F4A7C15ull >> 47;
  while (pkey[h]) { if (pkey[h] == p) return pval[h]; h = (h + 1) & (PT - 1); }
  if (!make || npages > PT / 2) return nullptr;
  if (pool_left < sizeof(Page)) { pool_left = sizeof(Page) * 256; pool = (char*)mmap(nullptr, pool_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (pool == MAP_FAILED) { pool_left = 0; return nullptr; } }
  pkey[h] = p; pval[h] = (Page*)pool; pool += sizeof(Page); pool_left -= sizeof(Page); npages++; return pval[h];
}
static void* ra_last; static struct { uintptr_t lo, hi; } ign[16]; static int nign = 0;
void ignore(const void* p, size_t n) { if (nign < 16) { ign[nign].lo = (uintptr_t)p; ign[nign++].hi = (uintptr_t)p + n; } }
static void race(uintptr_t a, int other, bool ow, bool mw) {
  for (int i = 0; i < nign; i++) if (a >= ign[i].lo && a < ign[i].hi) return;
  if (S->race) return; S->race = 1;
  busy++; Dl_info di; memset(&di, 0, sizeof di); bool ok = dladdr(ra_last, &di) && di.dli_sname;
  snprintf(S->msg, sizeof S->msg, "data race: thread %d %s the byte at %p that thread %d %s without synchronisation (in %s)", me, mw ? "writes" : "reads", (void*)a, other, ow ? "wrote" : "read", ok ? di.dli_sname : "code of the call");
  busy--;
}
static inline uint32_t E(int s, uint32_t c) { return (uint32_t)s << 26 | (c & 0x3ffffff); }
static inline bool hb(uint32_t e) { return (e & 0x3ffffff) <= T[me].vc[e >> 26 & 31]; }
static inline void acc(uintptr_t a, size_t n, bool w) {
  if (!on || me < 0 || busy || !S->detect) return;
  S->accesses++;
  const uint32_t my = E(me, T[me].vc[me]);
  while (n) {
    Page* pg = page(a >> 12, true); size_t o = a & 4095, m = 4096 - o < n ? 4096 - o : n;
    if (pg) for (size_t i = o; i < o + m; i++) {
      Cell& c = pg->c[i];
      if (c.w && (int)(c.w >> 26) != me && !hb(c.w)) race((a & ~4095ull) + i, c.w >> 26, true, w);
      if (w) {
        if (c.r) {
          if (c.r >> 31) { uint32_t* v = rvs[c.r & 0x7fffffff]; for (int s = 0; s < MAXT; s++) if (s != me && v[s] > T[me].vc[s]) race((a & ~4095ull) + i, s, false, true); }
          else if ((int)(c.r >> 26) != me && !hb(c.r)) race((a & ~4095ull) + i, c.r >> 26, false, true);
          c.r = 0;
        }
        c.w = my;
      } else {
        if (!c.r) c.r = my;
        else if (c.r >> 31) rvs[c.r & 0x7fffffff][me] = T[me].vc[me];
        else if ((int)(c.r >> 26) == me || hb(c.r)) c.r = my;
        else if (nrv < MAXRV) { uint32_t* v = rvs[nrv]; v[c.r >> 26] = c.r & 0x3ffffff; v[me] = T[me].vc[me]; c.r = 0x80000000u | nrv++; }
      }
    }
    a += m; n -= m;
  }
}
static void forget(uintptr_t a, size_t n) {
  while (n) { Page* pg = page(a >> 12, false); size_t o = a & 4095, m = 4096 - o < n ? 4096 - o : n; if (pg) memset(&pg->c[o], 0, m * sizeof(Cell)); a += m; n -= m; }
}
static void forget_stack(uintptr_t lo, uintptr_t hi) { for (size_t i = 0; i < PT; i++) if (pkey[i] && pkey[i] >= lo >> 12 && pkey[i] <= hi >> 12) memset(pval[i], 0, sizeof(Page)); }
void touch(void* p, size_t n, bool w) { ra_last = __builtin_return_address(0); acc((uintptr_t)p, n, w); }

// ---- real functions ----------------------------------------------------------
template <class F> static F real(F& f, const char* n) { if (!f) { busy++; f = (F)dlsym(RTLD_NEXT, n); busy--; } return f; }
#define REAL(name) static decltype(&::name) r_##name; auto rf = real(r_##name, #name);

void begin(Shared* s) {
  S = s; me = 0; nslots = 1; cur = 0; memset(T[0].vc, 0, sizeof(VC)); T[0].vc[0] = 1; T[0].st = RUN; T[0].pt = pthread_self();
  if (!rvs) rvs = (VC*)mmap(nullptr, sizeof(VC) * MAXRV, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  S->nd = 0; S->race = S->deadlock = S->diverged = S->finished = S->toomany = 0; S->accesses = S->syncs = S->threads = 0; S->msg[0] = 0; S->has_result = 0;
  on = true;
}
void end() { on = false; S->finished = 1; }
bool active() { return on; }
void point(int k) { if (ctl()) { Busy b; schedule(k); } }

static void run_dtors() { Thr& t = T[me]; while (t.ndt > 0) { auto d = t.dt[--t.ndt]; d.f(d.o); } }
static void* entry(void* p) {
  me = (int)(long)p; Thr& t = T[me]; busy++; t.b.wait();
  { pthread_attr_t a; void* lo; size_t sz; if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a); forget_stack((uintptr_t)lo, (uintptr_t)lo + sz - 1); } }
  busy--;
  t.ret = t.fn(t.arg);
  run_dtors();
  busy++; t.st = DONE; schedule(3);
  return t.ret;
}
} // namespace mc
using namespace mc;
#define RA ra_last = __builtin_return_address(0)

extern "C" {
// ---- threads -----------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  REAL(pthread_create)
  if (!ctl()) return rf(out, at, fn, arg);
  Busy b; int s = -1; for (int i = 1; i < MAXT; i++) if (i >= nslots || (T[i].st == DONE && (T[i].joined || T[i].detached))) { s = i; break; }
  if (s < 0) { S->toomany = 1; snprintf(S->msg, sizeof S->msg, "too many threads for the model"); stop_all(); }
  Thr& t = T[s]; uint32_t c = s < nslots ? t.vc[s] + 1 : 1; if (s >= nslots) nslots = s + 1;
  memcpy(t.vc, T[me].vc, sizeof(VC)); t.vc[s] = c; memset(t.acq, 0, sizeof(VC)); memset(t.rel, 0, sizeof(VC));
  T[me].vc[me]++; t.st = RUN; t.joined = false; t.detached = false; t.wait_kind = W_NONE; t.timed = t.timed_out = t.yielding = false; t.fn = fn; t.arg = arg; t.ndt = 0; t.spins = 0; t.b.v = 0;
  S->threads++;
  int r = rf(&t.pt, at, entry, (void*)(long)s);
  if (r) { t.st = DONE; t.joined = true; return r; }
  *out = t.pt; schedule(1);
  return 0;
}
static int slot(pthread_t p) { for (int i = 0; i < nslots; i++) if (T[i].st != FREE && !T[i].joined && pthread_equal(T[i].pt, p)) return i; return -1; }
int pthread_join(pthread_t p, void** ret) {
  REAL(pthread_join)
  if (!ctl()) return rf(p, ret);
  Busy b; int s = slot(p); if (s < 0) return rf(p, ret);
  block(W_JOIN, (void*)(long)s); schedule(2); unblock();
  join(T[me].vc, T[s].vc); T[s].joined = true;
  return rf(p, ret);
}
int pthread_detach(pthread_t p) { REAL(pthread_detach) if (ctl()) { int s = slot(p); if (s >= 0) T[s].detached = true; } return rf(p); }
int __cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
  if (ctl() && me > 0) { Thr& t = T[me]; if (t.ndt < 64) { t.dt[t.ndt].f = f; t.dt[t.ndt++].o = o; } return 0; }
  typedef int (*F)(void (*)(void*), void*, void*); static F rf; if (!rf) rf = (F)dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl"); return rf(f, o, d);
}
int sched_yield() { REAL(sched_yield) if (!ctl()) return rf(); Busy b; T[me].yielding = true; schedule(4); return 0; }
int nanosleep(const timespec* a, timespec* r) { REAL(nanosleep) if (!ctl()) return rf(a, r); Busy b; T[me].yielding = true; schedule(4); return 0; }
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* r) { REAL(clock_nanosleep) if (!ctl()) return rf(c, f, a, r); Busy b; T[me].yielding = true; schedule(4); return 0; }
int usleep(useconds_t u) { REAL(usleep) if (!ctl()) return rf(u); Busy b; T[me].yielding = true; schedule(4); return 0; }

// ---- mutexes, conditions, once ----------------------------------------------
static int lock_m(pthread_mutex_t* m, bool try_) {
  Busy b; Obj* o = &obj(m);
  const bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (o->owner == me) { if (rec) { o->depth++; return 0; } if (try_) return EBUSY; }
  schedule(5); 
  if (try_ && o->owner >= 0) return EBUSY;
  if (o->owner >= 0) { block(W_MUTEX, m); schedule(5); unblock(); }
  o->owner = me; o->depth = 1; acquire(*o); return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { REAL(pthread_mutex_lock) if (!ctl()) return rf(m); return lock_m(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { REAL(pthread_mutex_trylock) if (!ctl()) return rf(m); return lock_m(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { REAL(pthread_mutex_timedlock) if (!ctl()) return rf(m, t); return lock_m(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock) if (!ctl()) return rf(m);
  Busy b; Obj& o = obj(m); if (o.owner == me && --o.depth > 0) return 0; o.owner = -1; release(o); schedule(6); return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Busy b; Obj& o = obj(m); int depth = o.depth; o.owner = -1; release(o);
  T[me].timed = timed; T[me].timed_out = false; block(W_COND, c); schedule(7); unblock(); T[me].timed = false;
  acquire(obj(c)); bool to = T[me].timed_out;
  if (o.owner >= 0) { block(W_MUTEX, m); schedule(5); unblock(); }
  o.owner = me; o.depth = depth; acquire(o); return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait) if (!ctl()) return rf(c, m); return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { REAL(pthread_cond_timedwait) if (!ctl()) return rf(c, m, t); return cwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { REAL(pthread_cond_clockwait) if (!ctl()) return rf(c, m, k, t); return cwait(c, m, true); }
static int wake(const void* a, int kind, int n) {
  int k = 0; release(obj(a));
  while (n-- > 0) { int w = -1; for (int i = 0; i < nslots; i++) if (T[i].st == RUN && T[i].wait_kind == kind && T[i].wait_obj == a && (w < 0 || T[i].seq < T[w].seq)) w = i; if (w < 0) break; T[w].wait_kind = W_NONE; k++; }
  return k;
}
int pthread_cond_signal(pthread_cond_t* c) { REAL(pthread_cond_signal) if (!ctl()) return rf(c); Busy b; wake(c, W_COND, 1); schedule(8); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { REAL(pthread_cond_broadcast) if (!ctl()) return rf(c); Busy b; wake(c, W_COND, 1 << 20); schedule(8); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_rdlock) if (!ctl()) return rf(m); Busy b; schedule(5); Obj& o = obj(m); if (o.owner >= 0) { block(W_RD, m); schedule(5); unblock(); } o.readers++; acquire(o); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_wrlock) if (!ctl()) return rf(m); Busy b; schedule(5); Obj& o = obj(m); if (o.owner >= 0 || o.readers) { block(W_WR, m); schedule(5); unblock(); } o.owner = me; acquire(o); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_unlock) if (!ctl()) return rf(m); Busy b; Obj& o = obj(m); if (o.owner == me) o.owner = -1; else o.readers--; release(o); schedule(6); return 0; }
int pthread_once(pthread_once_t* c, void (*f)()) {
  REAL(pthread_once) if (!ctl()) return rf(c, f);
  // a completed one-time initialisation commutes with everything: no scheduling point
  { Busy b; if (*(volatile int*)c == 2) { acquire(obj(c)); return 0; } schedule(5); Obj& o = obj(c); if (o.owner >= 0) { block(W_GUARD, c); schedule(5); unblock(); } if (*(volatile int*)c == 2) { acquire(o); return 0; } o.owner = me; }
  f();
  { Busy b; Obj& o = obj(c); o.owner = -1; o.count = 1; *(int*)c = 2; release(o); schedule(6); }
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  typedef int (*F)(uint64_t*); static F rf; if (!ctl()) { if (!rf) { busy++; rf = (F)dlsym(RTLD_NEXT, "__cxa_guard_acquire"); busy--; } return rf(g); }
  Busy b; Obj& o = obj(g); if (*(volatile char*)g) { acquire(o); return 0; } schedule(5);
  if (*(volatile char*)g) { acquire(o); return 0; }
  if (o.owner >= 0) { block(W_GUARD, g); schedule(5); unblock(); if (*(volatile char*)g) { acquire(o); return 0; } }
  o.owner = me; return 1;
}
void __cxa_guard_release(uint64_t* g) {
  typedef void (*F)(uint64_t*); static F rf; if (!ctl() || obj(g).owner != me) { if (!rf) { busy++; rf = (F)dlsym(RTLD_NEXT, "__cxa_guard_release"); busy--; } rf(g); return; }
  Busy b; Obj& o = obj(g); *(volatile char*)g = 1; o.owner = -1; release(o); schedule(6);
}
void __cxa_guard_abort(uint64_t* g) {
  typedef void (*F)(uint64_t*); static F rf; if (!ctl() || obj(g).owner != me) { if (!rf) { busy++; rf = (F)dlsym(RTLD_NEXT, "__cxa_guard_abort"); busy--; } rf(g); return; }
  Busy b; Obj& o = obj(g); o.owner = -1; release(o); schedule(6);
}
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b_ = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && ctl()) {
    const int op = b_ & 127; Busy b;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      schedule(7); if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      T[me].timed = d != 0; T[me].timed_out = false; block(W_FUTEX, (void*)a); schedule(7); unblock(); T[me].timed = false; acquire(obj((void*)a));
      if (T[me].timed_out) { errno = ETIMEDOUT; return -1; } return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k = wake((void*)a, W_FUTEX, (int)c); schedule(8); return k; }
  }
  long r = raw(n, a, b_, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}

// ---- memory ------------------------------------------------------------------
static void fresh(void* p, size_t n) { if (on && me >= 0 && !busy && p) { Busy b; forget((uintptr_t)p, malloc_usable_size(p)); } }
void* malloc(size_t n) { void* p = __libc_malloc(n); fresh(p, n); return p; }
void* calloc(size_t a, size_t n) { void* p = __libc_calloc(a, n); fresh(p, a * n); return p; }
void free(void* p) {
  if (p && on && me >= 0 && !busy) { RA; size_t n = malloc_usable_size(p); uintptr_t a = (uintptr_t)p; while (n) { size_t m = 4096 - (a & 4095); if (m > n) m = n; if (page(a >> 12, false)) acc(a, m, true); a += m; n -= m; } }
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (p && on && me >= 0 && !busy) { RA; size_t m = malloc_usable_size(p); acc((uintptr_t)p, m < n ? m : n, true); }
  void* q = __libc_realloc(p, n); if (q != p) fresh(q, n); return q;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); fresh(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
static inline void cpy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* d, const void* s, size_t n) { if (on && me >= 0 && !busy && n) { RA; acc((uintptr_t)s, n, false); acc((uintptr_t)d, n, true); } cpy(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) {
  if (on && me >= 0 && !busy && n) { RA; acc((uintptr_t)s, n, false); acc((uintptr_t)d, n, true); }
  if ((uintptr_t)d - (uintptr_t)s >= n) cpy(d, s, n);
  else { const char* ss = (const char*)s + n - 1; char* dd = (char*)d + n - 1; size_t m = n; asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(m) : : "memory"); }
  return d;
}
void* memset(void* d, int v, size_t n) { if (on && me >= 0 && !busy && n) { RA; acc((uintptr_t)d, n, true); } void* p = d; asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); return d; }

// ---- instrumentation ---------------------------------------------------------
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { RA; acc((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { RA; acc((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { RA; acc((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { RA; acc((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void* p) { RA; acc((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void* p) { RA; acc((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { RA; acc((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { RA; acc((uintptr_t)p, n, true); }
void __tsan_vptr_update(void** p, void* v) { RA; if (*p != v) acc((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { RA; acc((uintptr_t)p, 8, false); }

static void at_pre() { Thr& t = T[me]; if (++t.spins > 3000) { t.spins = 0; t.yielding = true; } schedule(10); }
static inline bool acqo(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool relo(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(const volatile void* p, int mo) { Obj& o = obj((const void*)p); if (acqo(mo)) acquire(o); else join(T[me].acq, o.vc); }
static void at_store(const volatile void* p, int mo, bool rmw) { Obj& o = obj((const void*)p); if (!rmw) memset(o.vc, 0, sizeof(VC)); if (relo(mo)) release(o); else join(o.vc, T[me].rel); }
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) { if (ctl()) { Busy b; at_pre(); at_load(p, mo); return *p; } ty v; __atomic_load((ty*)p, &v, __ATOMIC_SEQ_CST); return v; } \
  void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { if (ctl()) { Busy b; at_pre(); at_store(p, mo, false); *p = v; return; } __atomic_store((ty*)p, &v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo) { if (ctl()) { Busy b; at_pre(); at_load(p, mo); at_store(p, mo, true); ty o = *p; *p = v; return o; } ty o; __atomic_exchange((ty*)p, &v, &o, __ATOMIC_SEQ_CST); return o; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty c, ty v, int mo, int fmo) { if (ctl()) { Busy b; at_pre(); ty o = *p; if (o == c) { at_load(p, mo); at_store(p, mo, true); *p = v; } else at_load(p, fmo); return o; } __atomic_compare_exchange((ty*)p, &c, &v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* c, ty v, int mo, int fmo) { ty o = __tsan_atomic##bits##_compare_exchange_val(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* c, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); }
#define ATF(bits, ty, nm, expr, blt) \
  ty __tsan_atomic##bits##_fetch_##nm(volatile ty* p, ty v, int mo) { if (ctl()) { Busy b; at_pre(); at_load(p, mo); at_store(p, mo, true); ty o = *p; *p = (ty)(expr); return o; } return blt((ty*)p, v, __ATOMIC_SEQ_CST); }
#define ATA(bits, ty) AT(bits, ty) ATF(bits, ty, add, o + v, __atomic_fetch_add) ATF(bits, ty, sub, o - v, __atomic_fetch_sub) ATF(bits, ty, and, o & v, __atomic_fetch_and) ATF(bits, ty, or, o | v, __atomic_fetch_or) ATF(bits, ty, xor, o ^ v, __atomic_fetch_xor) ATF(bits, ty, nand, ~(o & v), __atomic_fetch_nand)
ATA(8, uint8_t) ATA(16, uint16_t) ATA(32, uint32_t) ATA(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (ctl()) { Busy b; at_pre(); if (acqo(mo)) join(T[me].vc, T[me].acq); if (relo(mo)) { memcpy(T[me].rel, T[me].vc, sizeof(VC)); T[me].vc[me]++; } } else __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
