"""C16: the Python module against the library (same parameters, same device) and against a model of a Python sequence."""
import ctypes, gc, itertools, os, struct, sys, tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "..", "h"))
from pyexplore import driver, expect, Violation
MOD = os.environ["VERIF_PYMOD"]; sys.path.insert(0, os.path.dirname(MOD))
import pyvotess as vt
mod = ctypes.CDLL(MOD); ref = ctypes.CDLL(os.environ["VERIF_PYREF"]); libc = ctypes.CDLL(None)
mod.dev_items.restype = ref.dev_items.restype = ctypes.c_long
try: threads = ctypes.c_long.in_dll(libc, "c16_threads")
except ValueError: threads = None

def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
class Lcg:
    def __init__(s, seed): s.x = seed * 2654435761 % 2**32 or 1
    def __call__(s):
        s.x = (s.x * 1664525 + 1013904223) % 2**32
        return 0.01 + 0.98 * (s.x >> 8) / 2**24
def cloud(n, seed): r = Lcg(seed); return [[r(), r(), r()] for _ in range(n)]
ALPHA = [[0.11, 0.23, 0.31], [0.87, 0.19, 0.43], [0.45, 0.91, 0.12], [0.33, 0.41, 0.79], [0.71, 0.66, 0.55], [0.52, 0.08, 0.93], [0.05, 0.77, 0.64], [0.95, 0.52, 0.88]]
BOOLS = ["use_chunking", "use_recompute", "dev_suppress_stdout"]
INTS = ["k", "cpu_nthreads", "gpu_ndsize", "chunksize", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize"]
KEYS = INTS + BOOLS

def reference(pts, cfg, gpu, present):
    n = len(pts); fl = [c for p in pts for c in p]
    P = (ctypes.c_float * max(1, len(fl)))(*fl); ks = [k.encode() for k in cfg]
    K = (ctypes.c_char_p * max(1, len(ks)))(*ks); V = (ctypes.c_double * max(1, len(ks)))(*[float(v) for v in cfg.values()])
    cap = max(64, n * max(64, n) + 64); O = (ctypes.c_int * (n + 1))(); L = (ctypes.c_int * cap)()
    if threads is not None: threads.value = 0
    m = ref.ref_run(P, n, K, V, len(ks), int(gpu), int(present), O, L, cap)
    work = (threads.value if threads is not None else 0, ref.dev_items())
    if m < 0: raise RuntimeError("the library call itself failed (%d)" % m)
    return [list(L[O[i]:O[i + 1]]) for i in range(n)], work

def rows_of(d): return [[r[j] for j in range(r.size())] for r in (d[i] for i in range(d.size()))]

class Seq:                       # a sequence that is neither list nor tuple
    def __init__(s, x): s.x = x
    def __len__(s): return len(s.x)
    def __getitem__(s, i): return s.x[i]
FORMS = {"lists": lambda p: [list(x) for x in p], "tuples": lambda p: [tuple(x) for x in p], "tuple": lambda p: tuple(tuple(x) for x in p), "sequence": lambda p: Seq([Seq(x) for x in p])}

def args_of(cfg):
    a = vt.vtargs()
    for k, v in cfg.items(): a[k] = v
    return a

def tess(pts, a, dev):
    return vt.tesellate(pts, a) if dev == "default" else vt.tesellate(pts, args=a, device=getattr(vt.device, dev)) if dev == "gpu" else vt.tesellate(pts, a, vt.device.cpu)

def compare(e, pts, cfg, dev, present, form="lists"):
    """one call of the module and one of the library"""
    want, work = reference(pts, cfg, dev != "cpu", present)
    a = args_of(cfg); before = {k: a[k] for k in KEYS}
    mod.dev_set(int(present))
    if threads is not None: threads.value = 0
    src = FORMS[form](pts)
    d = tess(src, a, dev)
    got_work = (threads.value if threads is not None else 0, mod.dev_items())
    e.transitions += 1
    expect(d.size() == len(pts), "size() is", d.size(), "for", len(pts), "points")
    got = rows_of(d)
    expect(got == want, "the module returned", got, "but the library", want)
    expect(got_work == work, "threads/device work of the module call", got_work, "differ from the library call's", work)
    for k in KEYS:
        if k in cfg: expect(a[k] == cfg[k], "after the call", k, "reads", repr(a[k]), "but was set to", repr(cfg[k]))
        expect(a[k] == before[k], "the call changed", k)
    e.traces += len(want); e.state((pts, sorted(cfg.items()), dev, present)); e.outcome(want)
    return d, want

def index_error(f, what):
    try: v = f()
    except IndexError: return
    except Exception as x: raise Violation("%s raised %s instead of IndexError" % (what, type(x).__name__))
    raise Violation("%s returned %r instead of raising IndexError" % (what, v if isinstance(v, int) else type(v).__name__))

def sequence(e, d, want):
    """indexing and iteration of a result and of all its rows"""
    n = len(want)
    far = [2**31 - 1, -2**31, 2**30, -2**30, 65536, -65536, 256, -256]
    for i in list(range(-n - 2, 0)) + list(range(n, n + 4)) + far:
        if 0 <= i < n: continue
        index_error(lambda: d[i], "result[%d] of %d rows" % (i, n)); e.transitions += 1
    expect([list(r) for r in d] == want, "iterating the result gives", [list(r) for r in d], "instead of", want)
    for i in range(n):
        r = d[i]; m = len(want[i])
        expect(r.size() == m, "row", i, "size() is", r.size(), "instead of", m)
        for j in range(m): expect(r[j] == want[i][j], "result[%d][%d] is" % (i, j), r[j], "instead of", want[i][j])
        for j in list(range(-m - 2, 0)) + list(range(m, m + 4)) + far:
            if 0 <= j < m: continue
            index_error(lambda: r[j], "result[%d][%d] of %d entries" % (i, j, m)); e.transitions += 1
        acc = []
        for x in r: acc.append(x)
        expect(acc == want[i] and list(r) == want[i] and tuple(r) == tuple(want[i]) and sorted(r) == sorted(want[i]) and sum(r) == sum(want[i]) and set(r) == set(want[i]),
               "iterating row", i, "gives", acc, "instead of", want[i])
        it = iter(r); two = [next(it, None), list(d[i]), next(it, None)]
        expect(two == [(want[i] + [None, None])[0], want[i], (want[i] + [None, None])[1]], "interleaved iteration of row", i, "gives", two)
        for x in want[i]: expect(x in r, x, "not in row", i)
        expect(-1 not in r and 99999 not in r, "row", i, "contains what it does not list")
        e.traces += 1

def stdout_of(f):
    """what f writes to file descriptor 1"""
    libc.fflush(None); sys.stdout.flush(); save = os.dup(1); t = tempfile.TemporaryFile(dir=os.environ.get("VERIF_OUT"))
    os.dup2(t.fileno(), 1)
    try: f()
    finally: libc.fflush(None); os.dup2(save, 1); os.close(save)
    t.seek(0); s = t.read().decode(); t.close(); return s

BASE = {"k": 64, "knn_grid_resolution": 2, "cpu_nthreads": 1}
def configs(thorough):
    out = [{}]
    dom = {"k": [1, 2, 3, 5, 64, 200], "knn_grid_resolution": [1, 2, 3, 7, 16], "cpu_nthreads": [0, 1, 2, 3, 8], "gpu_ndsize": [1, 2, 3, 8], "cc_p_maxsize": [6, 9, 32, 200], "cc_t_maxsize": [8, 13, 32, 300],
           "use_recompute": [False, True], "use_chunking": [False, True], "chunksize": [1, 2, 3, 1000]}
    for k, v in dom.items():
        for x in v: out.append(dict(BASE, **{k: x}))
    pr = list(itertools.combinations(dom, 2))
    for a, b in pr:
        for x in dom[a][:: 1 if thorough else 2] + [dom[a][-1]]:
            for y in dom[b][:: 1 if thorough else 2] + [dom[b][-1]]: out.append(dict(BASE, **{a: x, b: y}))
    for k in [1, 4, 64]:
        for ch in [0, 1, 3]:
            for rec in [False, True]:
                for p in [6, 32]:
                    for nd in [1, 3]:
                        for nt in [1, 2]: out.append({"k": k, "use_chunking": ch > 0, "chunksize": ch or 9, "use_recompute": rec, "cc_p_maxsize": p, "gpu_ndsize": nd, "cpu_nthreads": nt, "knn_grid_resolution": 3})
    seen, r = set(), []
    for c in out:
        h = tuple(sorted(c.items()))
        if h not in seen: seen.add(h); r.append(c)
    return r

def rows(e):
    th = e.thorough()
    e.group = "rows"
    for size in range(0, 9 if th else 6):
        for sub in itertools.combinations(ALPHA, size):
            for dev, pres in [("cpu", 0), ("gpu", 0), ("gpu", 1), ("default", 1), ("default", 0)]:
                for form in (FORMS if size <= 3 else ["lists"]):
                    for cfg in [{}, BASE, dict(BASE, k=2), dict(BASE, use_recompute=True, k=1, cc_p_maxsize=7), dict(BASE, use_chunking=True, chunksize=2)]:
                        e.run(lambda: "subset %r %r %s gpu=%d %s" % (sub, cfg, dev, pres, form), lambda: compare(e, [list(p) for p in sub], cfg, dev, pres, form))
    sets = [cloud(9, 1), cloud(24, 2), [list(p) for p in ALPHA]] + ([cloud(60, 3)] if th else [])
    for pts in sets:
        for cfg in configs(th):
            for dev, pres in [("cpu", 0), ("gpu", 1), ("default", 0)]:
                e.run(lambda: "%d points %r %s gpu=%d" % (len(pts), cfg, dev, pres), lambda: compare(e, pts, cfg, dev, pres))
    for n, seed in [(100, 5), (300, 6)] + ([(1000, 7)] if th else []):
        for cfg in [{}, dict(BASE, k=20), {"k": 40, "knn_grid_resolution": 8, "use_chunking": True, "chunksize": 33, "use_recompute": True}]:
            for dev, pres in [("cpu", 0), ("gpu", 1), ("default", 1)]:
                e.run(lambda: "%d points %r %s gpu=%d" % (n, cfg, dev, pres), lambda: compare(e, cloud(n, seed), cfg, dev, pres))

def indexing(e):
    th = e.thorough(); e.group = "index"
    for size in range(0, 9 if th else 6):
        for sub in itertools.combinations(ALPHA, size):
            for cfg in [BASE, dict(BASE, k=1), dict(BASE, k=3)]:
                e.run(lambda: "subset %r %r" % (sub, cfg), lambda: sequence(e, *compare(e, [list(p) for p in sub], cfg, "cpu", 0)))
    for n, seed in [(12, 1), (40, 2), (150, 3)]:
        e.run("%d points" % n, lambda: sequence(e, *compare(e, cloud(n, seed), dict(BASE, k=30), "cpu", 0)))
    # hand-made containers: empty rows anywhere
    e.group = "container"
    e.run("empty", lambda: sequence(e, vt.dnn(), []))
    for nr in range(0, 6 if th else 5):
        for lens in itertools.product(range(4 if th else 3), repeat=nr):
            def body():
                v, want = 0, []
                for L in lens: want.append(list(range(v, v + L))); v += L
                flat = [x * 7 % 31 for x in range(v)]; want = [[flat[x] for x in r] for r in want]; offs = [0]
                for L in lens: offs.append(offs[-1] + L)
                l2, o2 = list(flat), list(offs); d = vt.dnn(l2, o2)
                e.state(lens); e.outcome(want)
                sequence(e, d, want)
                l2.clear(); o2.clear(); gc.collect(); expect(rows_of(d) == want, "a container changes when the lists it was made from change")
                f = os.path.join(os.environ["VERIF_OUT"], "save-%d" % os.getpid()); d.savetxt(f)
                got = [[int(x) for x in l.split()] for l in open(f)]; os.unlink(f)
                expect(got == want, "savetxt wrote", got, "instead of", want)
                t = stdout_of(d.print)
                rows = [l for l in t.split("\n") if l.strip()][1:-1] if nr else []
                got = [[int(x) for x in l.replace("{", " ").replace("}", " ").replace(",", " ").split()] for l in rows]
                expect(got == want, "print wrote", repr(t), "instead of", want)
            e.run(lambda: "rows of lengths %r" % (lens,), body)

def params(e):
    th = e.thorough(); e.group = "parameter"
    dflt = {k: ref.ref_default(k.encode()) for k in KEYS}
    vals = [0, 1, 2, 3, 7, 63, 64, 65, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 70000, 10**6, 16777216, 16777217, 10**9, 2**31 - 1, -1, -2, -128, -32769, -2**31,
            True, False, 0.0, 0.5, 2.5, 3.0, 0.1, 0.3, 1.0 / 3, 0.123456789, 2.718281828459045, 16777217.0, 123456789.0, 1e-3, 1e-7, 1.5e10, 1e15, -0.25, -7.0, 1e22, 1e300, 1e-300, 5e-324,
            2.0**53, 2.0**63, 2.0**64, -2.0**63, "abc", "gpu", "yes", "x", "", "a b"]
    for key in KEYS:
        for v in vals:
            def body():
                a, b = vt.vtargs(), vt.vtargs()
                for k in KEYS: expect(a[k] == dflt[k], "untouched", k, "reads", repr(a[k]), "instead of", dflt[k])
                a[key] = v
                for k in KEYS:
                    got, want = a[k], v if k == key else dflt[k]
                    expect(got == want and isinstance(got, str) == isinstance(want, str), "%s set to %r: %s reads %r" % (key, v, k, got))
                    expect(b[k] == dflt[k], "another vtargs object changed")
                e.transitions += 1; e.traces += len(KEYS); e.state((key, repr(v))); e.outcome(repr(a[key]))
            e.run(lambda: "%s = %r" % (key, v), body)
    for key in ["", "K", "k ", "threads", "cc_p_maxsiz", "cc_p_maxsizes", "dev", "knn", "unknown", "cpu_nthread", "use_chunking\0"]:
        def body():
            a = vt.vtargs()
            for what, f in [("reading", lambda: a[key]), ("writing", lambda: a.__setitem__(key, 3)), ("writing", lambda: a.__setitem__(key, True)), ("writing", lambda: a.__setitem__(key, 0.5)), ("writing", lambda: a.__setitem__(key, "s"))]:
                try: f()
                except Exception: pass
                else: raise Violation("%s the unknown key %r raises nothing" % (what, key))
                e.transitions += 1
            for k in KEYS: expect(a[k] == dflt[k], "an unknown key changed", k)
        e.run(lambda: "unknown key %r" % key, body)
    for key in KEYS:
        for v in [None, [], [1], {}, (1, 2), object(), 2**31, -2**31 - 1, 2**63, 2**64, 10**30]:
            def body():
                a = vt.vtargs()
                try: a[key] = v
                except Exception: expect(a[key] == dflt[key], "a rejected value changed", key, "to", repr(a[key]))
                else: expect(a[key] == v, key, "accepted", repr(v), "and reads", repr(a[key]))
                e.transitions += 1; e.state((key, repr(v) if isinstance(v, int) else type(v).__name__))
            e.run(lambda: "%s = %s" % (key, repr(v) if isinstance(v, int) else type(v).__name__), body)
    # all sequences of assignments to two objects, in lockstep with two dictionaries
    ops = [(o, k, v) for o in (0, 1) for k in (KEYS if th else ["k", "chunksize", "use_recompute", "cc_p_maxsize", "knn_grid_resolution"]) for v in ((0, 5, True, 0.25, 300, "s") if th else (5, True, 0.25))]
    depth = 3
    for first in ops:
        def body():
            for rest in itertools.product(ops, repeat=depth - 1):
                obj, mdl = (vt.vtargs(), vt.vtargs()), (dict(dflt), dict(dflt))
                for o, k, v in (first,) + rest: obj[o][k] = v; mdl[o][k] = v; e.transitions += 1
                for o in (0, 1):
                    for k in KEYS: expect(obj[o][k] == mdl[o][k], "after", (first,) + rest, "object", o, k, "reads", repr(obj[o][k]))
                e.traces += 1
            e.state(("seq", first))
        e.run(lambda: "assignment sequences starting with %r" % (first,), body)
    # every way of writing a value takes effect
    for key, vs in [("k", [3, 3.0, "3", True, 4.5]), ("knn_grid_resolution", [4, 4.0, "4"]), ("use_chunking", [True, 1, 1.0, "1", False, 0]), ("use_recompute", [True, 1, "1", False, 0, 0.0]),
                    ("cc_p_maxsize", [7, 7.0, "7"]), ("cc_t_maxsize", [9, 9.0, "9"]), ("chunksize", [2, 2.0, "2"]), ("cpu_nthreads", [3, 3.0, "3"]), ("gpu_ndsize", [4, 4.0, "4"])]:
        for v in vs:
            for dev, pres in [("cpu", 0), ("gpu", 1)]:
                def body():
                    base = {"k": 4, "knn_grid_resolution": 2, "cpu_nthreads": 2, "chunksize": 3, "use_chunking": True}
                    cfg = dict(base); cfg[key] = float(v) if isinstance(v, str) else v
                    want, work = reference(ALPHA, cfg, dev == "gpu", pres)
                    a = args_of(dict(base, **{key: v})); mod.dev_set(pres)
                    if threads is not None: threads.value = 0
                    got = rows_of(tess(ALPHA, a, dev)); w = (threads.value if threads is not None else 0, mod.dev_items())
                    expect(got == want and w == work, "%s = %r: rows %s work %s instead of %s %s" % (key, v, got, w, want, work))
                    e.transitions += 1; e.traces += len(want); e.state((key, repr(v), dev)); e.outcome(want)
                e.run(lambda: "effect of %s = %r %s" % (key, v, dev), body)
    for v, show in [(True, 0), (1, 0), (False, 1), (0, 1)]:
        for n in (0, 1, 5, 8):
            def body():
                a = vt.vtargs(); a["dev_suppress_stdout"] = v; a["k"] = 8
                t = stdout_of(lambda: vt.tesellate(ALPHA[:n], a, vt.device.cpu))
                expect(bool(t) == bool(show) or (show and n == 0), "dev_suppress_stdout=%r: standard output got %r" % (v, t)); e.transitions += 1
            e.run(lambda: "dev_suppress_stdout = %r, %d points" % (v, n), body)

def lifetime(e):
    """all sequences of operations on results and rows up to a depth; every row still held is read after every step"""
    th = e.thorough(); e.group = "lifetime"
    A, B = [list(p) for p in ALPHA[:6]], cloud(40, 4)
    wa, wb = (reference(p, dict(BASE, k=30), False, 0)[0] for p in (A, B))
    OPS = ["tessA", "tessB", "container", "first", "last", "rows", "iter", "iterresult", "step", "temp", "drop", "droprow", "gc", "alias", "junk"]
    ARG = args_of(dict(BASE, k=30))
    def play(seq):
        res = want = alias = None; held, its, junk = [], [], []
        for op in seq:
            if op == "tessA": res, want = vt.tesellate(A, ARG, vt.device.cpu), wa
            elif op == "tessB": res, want = vt.tesellate(B, ARG, vt.device.cpu), wb
            elif op == "container": res, want = vt.dnn([3, 1, 2, 9, 8, 7], [0, 3, 3, 6]), [[3, 1, 2], [], [9, 8, 7]]
            elif op == "temp": held.append((vt.tesellate(A, ARG, vt.device.cpu)[2], wa[2]))
            elif op == "drop": res = None
            elif op == "droprow": held = held[1:]
            elif op == "gc": gc.collect()
            elif op == "alias": alias = (res, want) if res is not None else alias
            elif op == "junk": junk = [bytearray(range(256)) * (1 + i % 9) for i in range(64)] + [vt.dnn(list(range(50 + i)), [0, 10, 50 + i]) for i in range(8)]
            elif op == "step":
                for i, (it, acc, w) in enumerate(its):
                    x = next(it, None)
                    if x is not None: acc.append(x if isinstance(x, int) else list(x))
            elif res is None: return False
            elif op == "first": held.append((res[0], want[0]))
            elif op == "last": held.append((res[len(want) - 1], want[-1]))
            elif op == "rows": held += list(zip(list(res), want))
            elif op == "iter": its.append((iter(res[1]), [], want[1]))
            elif op == "iterresult": its.append((iter(res), [], want))
            e.transitions += 1
            for r, w in held: expect(list(r) == w and r.size() == len(w), "after", seq, "a held row reads", list(r), "instead of", w)
            if res is not None: expect(rows_of(res) == want, "after", seq, "the result reads", rows_of(res))
            if alias: expect(rows_of(alias[0]) == alias[1], "after", seq, "the second reference reads", rows_of(alias[0]))
        for it, acc, w in its:
            acc += [x if isinstance(x, int) else list(x) for x in it]
            expect(acc == w, "after", seq, "an iterator started earlier gave", acc, "instead of", w)
        e.traces += 1
        return True
    depth = 6 if th else 4
    for pre in [p for L in (1, 2, 3) for p in itertools.product(OPS, repeat=L)]:
        def body():
            for L in range(0, depth - 2 if len(pre) == 3 else 1):
                for rest in itertools.product(OPS, repeat=L):
                    if play(pre + rest): e.state(pre + rest)
        e.run(lambda: "sequences starting with %s" % (pre,), body)
    # the classic chains, deeper
    for chain in itertools.product(["tessA", "tessB", "container"], ["first", "last", "rows", "iter", "iterresult"], ["drop", "tessB", "tessA", "container"], ["gc", "junk", "drop"], ["junk", "tessA", "gc"], ["step", "temp", "junk"], ["droprow", "gc", "junk"]):
        e.run(lambda: "chain %s" % (chain,), lambda: (play(chain), e.state(chain)))

def explore(e):
    os.environ["VERIF_OUT"] = os.path.dirname(e.viol)
    rows(e); indexing(e); params(e); lifetime(e)
    e.count("operation_sequences", 0)
if __name__ == "__main__": sys.exit(driver(sys.argv[1:], {"C16": explore}))
