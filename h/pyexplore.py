"""The exploration driver for harnesses in Python: same command line and output files as explore.hpp."""
import hashlib, mmap, os, signal, struct, sys, time, traceback

class Violation(Exception): pass
def expect(c, *msg):
    if not c: raise Violation(" ".join(str(m) for m in msg))

def h64(x): return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little")

class Explorer:
    def __init__(self, tier, only, workers, me, after, shared, viol):
        self.tier, self.only, self.workers, self.me, self.after, self.sh, self.viol = tier, only, workers, me, after, shared, viol
        self.states, self.outcomes, self.extra, self.samples = set(), set(), {}, []
        self.transitions = self.traces = self.evaluations = self.skipped = 0
        self.idx = 0; self.reported = 0; self.group = ""
    def thorough(self): return self.tier == "thorough"
    def state(self, x): self.states.add(h64(x))
    def outcome(self, x): self.outcomes.add(h64(x))
    def count(self, k, n=1): self.extra[k] = self.extra.get(k, 0) + n
    def run(self, desc, body):
        i = self.idx; self.idx += 1
        if (i != self.only) if self.only >= 0 else (i % self.workers != self.me or i <= self.after): return
        if self.sh.stopped(): return
        d = (self.group + " " + (desc() if callable(desc) else desc)).strip()
        self.sh.begin(self.me, i, d); self.evaluations += 1
        try: body()
        except Violation as v: self.report(i, d, str(v))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.report(i, d, "unexpected %s: %s (line %d)" % (type(e).__name__, e, tb.lineno))
        if len(self.samples) < 3: self.samples.append(d)
        self.sh.end(self.me, i)
    def report(self, i, d, w):
        with open(self.viol, "a") as f: f.write("%d\t%s\t%s\n" % (i, clean(d), clean(w)))
        self.reported += 1
        if self.reported >= 5: self.sh.stop()

def clean(s): return s.replace("\n", " ").replace("\t", " ")[:3000]

SLOT = 4096
class Shared:
    def __init__(self, n): self.m = mmap.mmap(-1, SLOT * (n + 1)); self.n = n
    def begin(self, w, i, d):
        b = d.encode()[:SLOT - 40]
        self.m[w * SLOT + 16:w * SLOT + 20 + len(b)] = struct.pack("i", len(b)) + b
        self.m[w * SLOT:w * SLOT + 16] = struct.pack("qd", i, time.time())
    def end(self, w, i): self.m[w * SLOT:w * SLOT + 16] = struct.pack("qd", -1, time.time())
    def idle(self, w): self.end(w, 0)
    def get(self, w):
        i, t = struct.unpack("qd", self.m[w * SLOT:w * SLOT + 16]); n = struct.unpack("i", self.m[w * SLOT + 16:w * SLOT + 20])[0]
        return i, t, self.m[w * SLOT + 20:w * SLOT + 20 + n].decode(errors="replace")
    def stop(self): self.m[self.n * SLOT] = 1
    def stopped(self): return self.m[self.n * SLOT] == 1

def driver(argv, modes):
    o = {"--tier": "quick", "--out": None, "--workers": "8", "--only": "-1", "--case-timeout": "40", "--deadline": "0", "--mem": "0"}
    mode = None; i = 0
    while i < len(argv):
        if argv[i] in o: o[argv[i]] = argv[i + 1]; i += 2
        else: mode = argv[i]; i += 1
    out, only, workers, ct, deadline = o["--out"], int(o["--only"]), int(o["--workers"]), int(o["--case-timeout"]), int(o["--deadline"])
    if mode not in modes or not out: return 3
    if only >= 0: workers = 1
    sh = Shared(workers); viol = os.path.join(out, "violations"); open(viol, "w").close()
    pids, gen, parts = {}, 0, []
    def spawn(w, after):
        nonlocal gen
        part = os.path.join(out, "part.%d" % gen); gen += 1; parts.append(part); sh.idle(w); sys.stdout.flush()
        p = os.fork()
        if p == 0:
            rc = 7
            try:
                os.setpgid(0, 0)
                fd = os.open(os.path.join(out, "worker.%d.log" % w), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644); os.dup2(fd, 1); os.dup2(fd, 2)
                import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                e = Explorer(o["--tier"], only, workers, w, after, sh, viol)
                modes[mode](e)
                with open(part, "w") as f: f.write(repr((e.states, e.outcomes, e.transitions, e.traces, e.evaluations, e.skipped, e.idx, e.extra, e.samples)))
                rc = 0
            except BaseException: traceback.print_exc()
            finally: os._exit(rc)
        try: os.setpgid(p, p)
        except OSError: pass
        pids[p] = w
    for w in range(workers): spawn(w, -1)
    t0, rc, crashes, capped = time.time(), 0, 0, 0
    def add(w, what):
        i, _, d = sh.get(w)
        with open(viol, "a") as f: f.write("%d\t%s\t%s\n" % (i, clean(d), what))
        return i
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            now = time.time()
            if deadline and now - t0 > deadline and not sh.stopped(): sh.stop(); capped = 1
            for q, w in list(pids.items()):
                i, t, _ = sh.get(w)
                if i >= 0 and now - t > ct:
                    os.killpg(q, signal.SIGKILL); os.waitpid(q, 0); del pids[q]; i = add(w, "HANG: no result within the case time limit"); crashes += 2
                    if crashes > 5 or only >= 0: sh.stop()
                    else: spawn(w, i)
            time.sleep(0.02); continue
        if p not in pids: continue
        w = pids.pop(p)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0: continue
        if (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7) or sh.get(w)[0] < 0: rc = 3; continue
        i = add(w, "CRASH: signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "CRASH: exit status %d" % os.WEXITSTATUS(st)); crashes += 1
        if crashes > 5 or only >= 0: sh.stop()
        else: spawn(w, i)
    S, O, n, ex, smp = set(), set(), [0] * 4, {}, []; cases = 0
    for part in parts:
        if not os.path.exists(part): continue
        s, oc, *c, idx, x, sm = eval(open(part).read()); S |= s; O |= oc; cases = max(cases, idx)
        for k in range(4): n[k] += c[k]
        for k, v in x.items(): ex[k] = ex.get(k, 0) + v
        smp += sm
    with open(os.path.join(out, "summary"), "w") as f:
        f.write("states %d\noutcomes %d\ntransitions %d\ntraces %d\nevaluations %d\nskipped %d\ncases %d\nstopped %d\ncapped %d\n" % (len(S), len(O), *n, cases, sh.stopped(), capped))
        for k, v in sorted(ex.items()): f.write("x %s %d\n" % (k, v))
        for s in smp[:8]: f.write("s %s\n" % clean(s))
    if rc: return rc
    return 1 if os.path.getsize(viol) else 0
