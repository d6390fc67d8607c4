#!/usr/bin/env python3
"""Runs one check:  run.py C01 [--tier quick|thorough] [--replay FILE] [--keep]

Builds the harness of the property from /repo's working tree, explores, confirms every
reported violation by re-running that case alone, writes evidence/<id>.json and prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held, 1: violated, 2: the check could not run."""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
import registry

def log(*a): print(*a, flush=True)

class CheckError(Exception): pass

def compile_unit(out, src, flags, work, real_fallback=True, libs=()):
    inc = ["-include", os.path.join(HERE, "h/std.hpp"), "-I", os.path.join(HERE, "h"), "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src")]
    tail = ["-pthread"] + list(libs)
    cmd = ["g++", "-std=gnu++17", "-w"] + flags + ["-I", os.path.join(HERE, "mock")] + inc + src + ["-o", out] + tail
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0: return "modelled SYCL runtime"
    first = r.stdout
    if any("VERIF_NO_DEV" in open(x).read() for x in src):      # device overloads called in another way than here: host code only
        r = subprocess.run(cmd[:3] + ["-DVERIF_NO_DEV"] + cmd[3:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: return "modelled SYCL runtime, without direct calls of the device overloads"
    if real_fallback:
        cmd = ["g++", "-std=gnu++17", "-w", "-DVERIF_REAL_SYCL"] + flags + inc + ["-I/opt/sycl/include", "-I/opt/sycl/include/sycl"] + src + \
              ["-o", out, "-L/opt/sycl/lib", "-lsycl", "-Wl,-rpath,/opt/sycl/lib"] + tail
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: return "SYCL headers of /opt/sycl"
    log("compilation failed:\n" + first[-6000:])
    raise CheckError("compile")

def parse_summary(path):
    s = {"extra": {}, "samples": []}
    with open(path) as f:
        for l in f:
            l = l.rstrip("\n")
            if l.startswith("x "): _, k, v = l.split(" ", 2); s["extra"][k] = int(v)
            elif l.startswith("s "): s["samples"].append(l[2:])
            else: k, v = l.split(" "); s[k] = int(v)
    return s

def parse_viol(path):
    out = []
    if os.path.exists(path):
        for l in open(path, errors="replace"):
            p = l.rstrip("\n").split("\t", 2)
            if len(p) == 3: out.append((int(p[0]), p[1], p[2]))
    return out

def known(pid):
    try: kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    except FileNotFoundError: return []
    return [k for k in kf.get("findings", []) if k["property"] == pid]

def run_harness(unit, exe, out, tier, mode, only=None, env=None, deadline=None, timeout=None):
    os.makedirs(out, exist_ok=True)
    cmd = [exe, mode, "--tier", tier, "--out", out, "--workers", str(unit.get("workers", 8))]
    if unit.get("mem", 6000): cmd += ["--mem", str(unit.get("mem", 6000))]
    cmd += ["--case-timeout", str(timeout or unit.get("case_timeout", 40))]
    if deadline: cmd += ["--deadline", str(deadline)]
    if only is not None: cmd += ["--only", str(only)]
    e = dict(os.environ); e.update(unit.get("env", {})); e.update(env or {})
    r = subprocess.run(cmd, cwd=out, env=e, stdin=subprocess.DEVNULL)
    return r.returncode

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    spec = registry.CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, ".work"))
    budget = 3 * 3600 if tier == "thorough" else 700
    total = {"states": 0, "outcomes": 0, "transitions": 0, "traces": 0, "evaluations": 0, "skipped": 0, "cases": 0, "stopped": 0, "capped": 0}
    extra, samples, viols, notes = {}, [], [], []
    rc = 0
    try:
        replay = json.load(open(a.replay)) if a.replay else None
        units = spec["units"]
        procs = []
        # build all units in parallel
        import concurrent.futures as cf
        def build(u):
            if u.get("kind", "cpp") == "cpp":
                exe = os.path.join(work, u["name"])
                srcs = [os.path.join(HERE, s) if not s.startswith("/") else s for s in u["src"]]
                if "build" in u: how = u["build"](u, exe, work, HERE, REPO, compile_unit)
                else: how = compile_unit(exe, srcs, u.get("flags", ["-O2"]), work, u.get("real_fallback", True), u.get("libs", ()))
                return exe, how
            return None, u["build"](u, work, HERE, REPO, compile_unit)
        with cf.ThreadPoolExecutor(8) as pool: built = list(pool.map(build, units))
        log("[%s] built in %.1f s" % (pid, time.time() - t0))
        for u, (exe, how) in zip(units, built):
            if replay and replay["unit"] != u["name"]: continue
            out = os.path.join(work, "out-" + u["name"])
            os.makedirs(out, exist_ok=True)
            extra["build_" + u["name"]] = how
            left = max(30, budget - (time.time() - t0))
            share = left / max(1, len(units) - units.index(u)) if tier == "quick" else left
            if u.get("kind", "cpp") == "cpp":
                runner = lambda o, only=None, timeout=None: run_harness(u, exe, o, tier, u["mode"], only, None, int(share), timeout)
            else:
                runner = lambda o, only=None, timeout=None: u["run"](u, o, work, HERE, REPO, tier, only, int(share))
            r = runner(out, only=replay["case"] if replay else None)
            if r not in (0, 1): 
                for f in sorted(os.listdir(out)):
                    if f.startswith("worker."): log(open(os.path.join(out, f), errors="replace").read()[-1500:])
                raise CheckError("harness %s ended with status %s" % (u["name"], r))
            s = parse_summary(os.path.join(out, "summary"))
            for k in total: total[k] += s.get(k, 0)
            for k, v in s["extra"].items(): extra[k] = extra.get(k, 0) + v if isinstance(extra.get(k, 0), int) else v
            samples += s["samples"][:4]
            vs = parse_viol(os.path.join(out, "violations"))
            if replay:
                for v in vs: log("REPLAY FAILS: case %d: %s: %s" % v)
                if not vs: log("replay: the case holds")
                return 1 if vs else 0
            if vs:
                confirmed = []
                uniq = []
                for v in vs:
                    if v[0] not in [x[0] for x in uniq]: uniq.append(v)
                uniq.sort(key=lambda v: (v[2].startswith("HANG"), v[0]))
                for n, v in enumerate(uniq[:3]):
                    if confirmed and v[2].startswith("HANG"): break
                    again = os.path.join(work, "confirm-%s-%d" % (u["name"], n))
                    rr = runner(again, only=v[0], timeout=90 if v[2].startswith("HANG") else None)
                    w = parse_viol(os.path.join(again, "violations"))
                    if rr == 1 and w: confirmed.append(w[0])
                    else: notes.append("case %d (%s) did not fail again when re-run alone" % (v[0], v[1]))
                if not confirmed:      # depends on more than the case: explore once more
                    again = os.path.join(work, "second-" + u["name"])
                    rr = runner(again)
                    w = parse_viol(os.path.join(again, "violations"))
                    if rr == 1 and w: confirmed.append(w[0])
                for c in confirmed: viols.append((u, c, out))
                if viols and tier == "quick": break
        kn = known(pid); shown = set()
        for u, (idx, desc, what), out in viols:
            hit = [k for k in kn if k["match"] in desc + " :: " + what]
            if hit:
                if hit[0]["match"] not in shown: log("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"])); shown.add(hit[0]["match"])
                continue
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            h = hashlib.sha1((desc + what).encode()).hexdigest()[:10]
            path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, h))
            json.dump({"property": pid, "unit": u["name"], "tier": tier, "case": idx, "input": desc, "violation": what,
                       "replay_cmd": "python3 /verif/run.py %s --tier %s --replay %s" % (pid, tier, path)}, open(path, "w"), indent=1)
            log("  input: %s\n  violation: %s" % (desc, what))
            log("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        cov = {"states": total["states"], "transitions": total["transitions"],
               "traces_validated_against_impl": total["traces"], "cases": total["evaluations"],
               "distinct_outcomes": total["outcomes"], "samples": samples[:8] or ["none"],
               "exhaustive": not total["capped"] and not total["stopped"] and not extra.get("schedule_cap_reached") and not extra.get("not_decided"), "bounds": spec["bounds"],
               "counting": spec["counting"]}
        cov.update({k: v for k, v in extra.items()})
        if total["capped"]: cov["cap"] = "time budget reached: only the first cases of the enumeration were covered"
        if notes: cov["notes"] = notes
        ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
              "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len([1 for v in viols]) if rc else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
        log("[%s] %s: states=%d transitions=%d traces=%d outcomes=%d cases=%d %s%.1f s" % (pid, "VIOLATED" if rc else "held", total["states"],
            total["transitions"], total["traces"], total["outcomes"], total["evaluations"], "(capped) " if total["capped"] else "", time.time() - t0))
        return rc
    except CheckError as e:
        log("check could not run: %s" % e); return 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
