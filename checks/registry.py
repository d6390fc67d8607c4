"""The table of checks: what each builds, runs, and how its numbers are to be read."""
O2 = ["-O2"]
COUNT_VT = ("states: distinct (point set[, k, array sizes]) reference states, hashed; transitions: executions of votess::tesellate from a state; "
            "traces: rows of those executions compared with the reference model or the reference execution; outcomes: distinct results")
A_FP = "neighbours whose face is closer to vanishing than the margin (1e-4 of the cube edge in float, 1e-7 in double) are not judged; rows with candidates at indistinguishable distances at position k are not judged"
A_MOCK = "the host code path is compiled against the SYCL runtime model in /verif/mock (the CPU path uses no SYCL call); when a tree uses SYCL features the model lacks, the installed SYCL headers are used"

CHECKS = {}
def check(pid, units, bounds, counting=COUNT_VT, assumptions=(A_FP, A_MOCK), technique="", note="", thorough=True):
    CHECKS[pid] = {"units": units, "bounds": bounds, "counting": counting, "assumptions": list(assumptions),
                   "technique": technique, "note": note}

def cpp(name, mode, src=None, flags=O2, **kw):
    d = {"name": name, "mode": mode, "src": [src or "checks/%s.cpp" % name], "flags": flags}
    d.update(kw); return d

def mc_build(u, exe, work, here, repo, compile_unit):
    """instrumented harness + controlled-scheduler runtime"""
    import os, subprocess
    rt = os.path.join(work, u["name"] + "-mcrt.o"); ob = os.path.join(work, u["name"] + ".o")
    subprocess.run(["g++", "-std=c++17", "-O2", "-w", "-c", os.path.join(here, "mc/mcrt.cpp"), "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-o", rt], check=True)
    how = compile_unit(ob, [os.path.join(here, x) for x in u["src"]], u["flags"] + ["-fsanitize=thread", "-c"], work)
    real = ["-L/opt/sycl/lib", "-lsycl", "-Wl,-rpath,/opt/sycl/lib"] if "opt/sycl" in how else []
    subprocess.run(["g++", "-o", exe, ob, rt, "-rdynamic", "-pthread", "-ldl"] + real, check=True)
    return how + ", instrumented, controlled scheduler"
def mc(name, mode, **kw):
    d = {"name": name, "mode": mode, "src": ["checks/%s.cpp" % name], "flags": ["-O1"], "build": mc_build, "case_timeout": 120, "mem": 0}
    d.update(kw); return d

T_BOUND = "bounded exhaustive model checking of the real code against an executable geometric reference model"

check("C01", [cpp("c01", "C01")],
  "all subsets of 4 point alphabets (up to 5-8 points), fixed families up to 1500 points (generic, clustered, slab, rod, wall, grid-plane, lattice, shell, security-radius-edge) and sets of up to 70001 points judged by an independent cell-list reference, each under a set of k, grid resolution, thread, chunk, array-size configurations",
  technique=T_BOUND, note="completeness of every row against exact polyhedron clipping; bounded by the enumerated alphabets and families")
check("C02", [cpp("c02", "C02")],
  "all subsets of 4 point alphabets, fixed families up to 1500 points and sets of up to 70001 points x k x resolution x threads x chunks x work-array sizes",
  technique=T_BOUND, note="shape (distinct, in range, not self) on every row, soundness on every row in general position")
check("C03", [cpp("c03", "C03")],
  "every k from 1 to n+3 for all subsets of the alphabets and for families up to 40 points; selected k for larger families and for sets of more than 65536 points",
  technique=T_BOUND, note="row must equal the cell cut by exactly the k nearest points, for every k")
check("C04", [cpp("c04", "C04")],
  "resolutions 1..20 (1..48 thorough), several up to 100, and above 255, on alphabets and families including points on cell faces, one ulp off them and next to the walls",
  technique=T_BOUND, note="differential exploration: every resolution against the single-cell grid, plus the reference model")
check("C06", [cpp("c06", "C06")],
  "every chunk size from 1 to n+2, non-positive and huge ones, x thread counts x recompute x array sizes, on subsets of two alphabets and families up to 1500 points",
  technique=T_BOUND, note="every chunked execution compared row by row with the unchunked one")
check("C07", [cpp("c07", "C07")],
  "initial k 1..n x initial array sizes from 1 on subsets of the alphabets and families, shells up to the plane-index limit, and sets in which one cell needs the very last of up to thousands of candidates (every doubling of k)",
  technique=T_BOUND, note="recompute result compared with the complete reference rows and with the ample direct run")
check("C23", [cpp("c23", "C23", "checks/c23.cpp", ["-O1"], libs=["-ldl"])],
  "about 90 (100) calls (0..400 (900) points x threads x chunks x recompute x array sizes x types x device, present or not, x output on/off x unreadable parameters), each alone, every ordered pair of them, overlapping results, copies, printed and saved results",
  counting="states: calls and ordered pairs of calls; transitions: calls; traces: resource balances compared; outcomes: distinct resource histories",
  assumptions=("memory is what operator new hands out", "a first tiny call per type and device may leave one-time state of the C++ library", A_MOCK),
  technique="exhaustive exploration of call sequences on the real code under a counting allocator and counting thread functions", note="memory, threads and descriptors are back to the level before, after every call")
check("C24", [cpp("c24", "C24", "checks/c23.cpp", ["-O1"], libs=["-ldl"])],
  "66 (74) calls with 0..27 (40) points; for each of them every single allocation and every single thread start made by the calling thread fails in turn, alone or with all later ones",
  counting="states: (call, failing acquisition) pairs; transitions: calls with a fault; traces: outcomes compared with the property; outcomes: distinct (position, thrown) pairs",
  assumptions=("faults are injected where operator new or pthread_create is called by the thread that made the call", A_MOCK),
  technique="exhaustive fault injection on the real code: all single fault points (and all suffixes) of every explored call", note="exception or right result, balance of resources, points intact, next call right")
SAN = ["-O1", "-g1", "-fsanitize=address", "-fno-sanitize-recover=all"]
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0"}
check("C08", [cpp("c08", "C08"), cpp("c08san", "C08", "checks/c08.cpp", SAN + ["-DVERIF_SAN"], mem=0, env=SANENV)],
  "plane-array sizes 1..26 and around 255/256, triangle-array sizes 1..40 and larger, all pairs, on subsets of the alphabets and families, shells up to 300 planes",
  technique=T_BOUND, note="the reference model predicts for each row and size pair whether the cell fits; a thinned pass repeats under AddressSanitizer")
check("C09", [cpp("c09", "C09")],
  "all sequences of up to 4 (5) points over an alphabet of wall, face and interior coordinates, all permutations of 6 points, all subsets of two alphabets, all families up to 1500 points, resolutions 1..20 (1..48) and up to 320; more than 65536 points; double coordinates down to 2e-16 off the cell faces of power-of-two grids; int/int64/short x float/double",
  counting="states: distinct (input sequence, resolution) states; transitions: executions of xyzset::sort or tesellate; traces: points whose position, cell and offsets were compared with the model's stable counting sort; outcomes: distinct orders",
  assumptions=(A_MOCK,), technique="exhaustive enumeration of input sequences against an explicit-state model of the stable cell sort, checked on the real code", note="order, ids, offsets and bit-exact coordinates compared with the model")
check("C11", [cpp("c11", "C11")],
  "all orders of all subsets (up to 5 or 6 points) of three alphabets, all 48 cube symmetries of all subsets up to 6 (9) points and of the families, fixed shuffles of families up to 260 points, x resolution x k",
  technique="exhaustive enumeration of input orders and cube symmetries, differential on the real code", note="every order / symmetry gives the same relation; symmetry of the relation on complete cells")
check("C12", [cpp("c12", "C12")],
  "all subsets of four alphabets up to 7 (12) points and families up to 1500 points in all four instantiations x resolution x k x recompute; families shrunk to scales 1e-2..1e-5 at three places for double; double sets whose candidates differ by 1e-6..1e-10 in distance, within and across rings of grid cells, or lie within 2e-9..1e-6 of twice the cell radius; 70001 points in all instantiations",
  technique=T_BOUND, note="four instantiations against each other and against the reference model; fine detail against the model at double margin")
check("C13", [cpp("c13", "C13")],
  "every key x a domain of values of every arithmetic type and strings x every read type; all sequences up to 4 (5) set/copy/read operations over a reduced alphabet",
  counting="states: distinct store contents reached; transitions: operations executed; traces: reads compared with the model store; outcomes: distinct read results",
  assumptions=("8-bit character types are not read as numbers", "fractional values are compared at the precision of the stored type"),
  technique="explicit-state exploration of operation sequences on the real store, in lockstep with a model store", note="all operation sequences up to the depth")
check("C14", [cpp("c14", "C14")],
  "every pattern of up to 6 (8) rows with 0..3 (0..4) entries, constructed by copy and move, copied, assigned, written through, printed and saved",
  counting="states: distinct row-length patterns; transitions: operations on the container; traces: rows and text lines compared with the model; outcomes: distinct texts",
  assumptions=("a row's text is the sequence of integers on its line",),
  technique="exhaustive enumeration of container shapes and operations against a model container, on the real code", note="all jagged shapes up to the bound")
check("C17", [cpp("c17", "C17")],
  "all subsets of four alphabets and families up to 1500 points x work-group size x chunk size x resolution x k x array sizes x recompute, under five work-item orders and three initial memory contents; all orders of up to 6 (7) work-groups; work-item conflicts tracked per element",
  assumptions=(A_FP, "the device is the explicit runtime model in /verif/mock: buffers, accessors, ranges, work-item orders, poisoned device memory and bounds are modelled; barriers and sub-group operations are not used by the code and are refused"),
  technique="model checking of the device code on an explicit model of the SYCL runtime: all work-group orders for small launches, chosen orders otherwise", note="rows must equal the CPU rows; every element touched by two work-items with a change is a conflict")
check("C19", [cpp("c19", "C19")],
  "all closed triangulated surfaces reachable from the octahedron by clipping up to 8 (9) vertices up to isomorphism, every disk patch in them, all patch orders for small patches and a fixed set for larger ones, several slice offsets, host and device version",
  counting="states: surfaces (canonical form); transitions: clip operations between surfaces; traces: calls of boundary::compute compared with the rim of the patch; outcomes: distinct rims",
  assumptions=("surfaces are those the cell builder can reach from the cube's dual",),
  technique="explicit-state reachability over triangulated surfaces with every patch replayed on the real code", note="exact rim cycle, orientation and untouched neighbours on every patch")
check("C20", [cpp("c20", "C20")],
  "all sequences of up to 3 calls over an alphabet of 15 (19) calls (sizes, types, chunking, recompute, device, degenerate), each sequence in its own process, sharing point storage, parameters and kept results",
  counting="states: call sequences; transitions: calls; traces: results compared with a fresh process; outcomes: distinct results",
  assumptions=(A_MOCK,), technique="exhaustive exploration of call sequences on the real code", note="each call in each sequence equals the call in a fresh process")
check("C21", [cpp("c21", "C21")],
  "all words of up to 8 (9) candidates over up to 4 (5) distances and all permutations of up to 9 (11) distinct distances for every k, host and device layouts, plus the selection inside whole calls",
  counting="states: distinct (k, arrival sequence) inputs; transitions: heap operations; traces: final selections compared with the sorted model; outcomes: distinct selections",
  assumptions=("the heap is driven as knn does: replace the top by a smaller candidate, restore, finally sort",),
  technique="exhaustive enumeration of arrival orders against a model selection, on the real heap code", note="k smallest, ascending, paired, slice-local")
check("C22", [cpp("c22", "C22")],
  "all subsets of the alphabets and families up to 260 points x k x array sizes x chunk x threads x recompute x device",
  technique=T_BOUND, note="counts in the printed summary against counts predicted by the reference model (an interval where rounding leaves a cell undecided)")
check("C05", [mc("c05", "C05"), cpp("c05n", "C05N", mem=0)],
  "all schedules with up to 2 preemptions (0 or 1 with chunking/recompute and 3 threads; 3 in the thorough tier) of calls on 1..5 (6) points with 2..3 (4) threads; 1..17 (20) threads x 0..9 (12) points x chunk sizes x recompute x array sizes under three scheduling policies; families up to 130 points; every memory access checked for happens-before races; besides, free-running: 2..40 (140) threads and 20 (25) larger counts up to 300 (600) x 1..520 (600) points x chunks x recompute, sets up to 1500 points, and 14 answers of the machine (0..384) when the number is left to it",
  counting="states: distinct schedules (decision sequences) and configurations; transitions: controlled executions; traces: results compared with the single-threaded result; outcomes: distinct results",
  assumptions=("scheduling points are synchronisation operations (thread create/start/join/exit, mutex, condition, atomics, guards, once, futex); between them race freedom, which is checked, makes the order of accesses irrelevant", "sequentially consistent values, happens-before by the memory orders of the atomics", "C++ library code outside headers is not instrumented", A_MOCK),
  technique="stateless model checking of the real code under a controlled scheduler (preemption-bounded), with vector-clock race detection", note="complete up to the preemption bound for the listed calls")

def c10u_build(u, exe, work, here, repo, compile_unit):
    import concurrent.futures as cf, os
    def var(k): 
        so = os.path.join(work, "var-%s.so" % k)
        compile_unit(so, [os.path.join(here, "checks/c10var.cpp")], ["-O2", "-shared", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-ftrivial-auto-var-init=" + k], work, True, ["-Wl,-Bsymbolic"])
        return so
    with cf.ThreadPoolExecutor(3) as p:
        m = p.submit(compile_unit, exe, [os.path.join(here, "checks/c10.cpp")], ["-O2", "-DVERIF_UNINIT"], work, True, ["-ldl"])
        sos = list(p.map(var, ["zero", "pattern"])); how = m.result()
    u["env"] = {"VERIF_VARIANTS": ":".join(sos)}
    return how + "; variants with zero- and pattern-initialised locals"
check("C25", [cpp("c25", "C25", "checks/c25.cpp", ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], mem=0,
                  env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0", "UBSAN_OPTIONS": "print_stacktrace=0"})],
  "every parameter set to each of 14 to 40 values outside or at the edge of its range (zero, negative, next to the limits of 32 and 64 bits, sizes whose products wrap around, unreadable strings, fractions) x 0..20 points x CPU, GPU, missing GPU x chunking x recompute x two type pairs, and every third (every) pair of such settings of two parameters",
  counting="states: (settings, call) pairs; transitions: calls; traces: calls judged; outcomes: distinct results",
  assumptions=("a single block of memory is at most 256 MB, larger requests throw std::bad_alloc", "thread counts between 1000 and 2^28 are not tried", A_MOCK),
  technique="exhaustive enumeration of parameter settings (all single ones, all pairs) on the real code under sanitizers", note="exception or well-formed result, points intact, next call right")
check("C26", [cpp("c26", "C26", "checks/c26.cpp"),
              cpp("c26s", "C26", "checks/c26.cpp", ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], mem=0,
                  env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0"})],
  "44 coordinate values (signed zero, one, their neighbours, outside by a little and by much, beyond the integer types, beyond the squares of float and double, infinite, not a number) in every axis of single points of sets of 1..20, in all pairs of two coordinates, in a quarter, all but one and all points; stray points around the cube; x grid, k, threads, chunks, recompute, device, two type pairs",
  counting="states: (point set, parameters, types); transitions: calls; traces: calls judged; outcomes: distinct results",
  assumptions=("a message is anything written to descriptor 2 during the call", A_MOCK),
  technique="exhaustive enumeration of coordinate alphabets and configurations on the real code under sanitizers, rows of inside points against the clipping model", note="diagnosis on standard error, well-formed rows, inside points unaffected")
check("C10", [{"name": "c10u", "mode": "C10", "src": [], "build": c10u_build},
              cpp("c10a", "C10", "checks/c10.cpp", ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], mem=0, libs=["-ldl"],
                  env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0", "UBSAN_OPTIONS": "print_stacktrace=0"})],
  "all subsets of five alphabets (generic, special, extreme coordinates down to denormals and up to the last float below 1, one cell, lattice), all multisets of three places, degenerate and generic families up to 260 points, shells up to 300 planes, array sizes 1..65537, resolutions up to 257, host and device path; every case in a sanitized build, and under 5 contents of heap, device and stack memory plus 2 contents of local variables",
  counting="states: distinct (point set, configuration); transitions: executions; traces: executions (or rows) compared or shape-checked; outcomes: distinct results",
  assumptions=("work arrays whose element count overflows the index type are out of scope (stated in the property)", "uninitialised reads are detected through their effect on the result", A_MOCK),
  technique="bounded exhaustive execution of the real code under memory and undefined-behaviour monitors and under enumerated contents of uninitialised memory", note="monitors: ASan, UBSan with conversion overflow, libstdc++ assertions, case time limit")

def c15_build(u, exe, work, here, repo, compile_unit):
    import concurrent.futures as cf, os
    cli = os.path.join(work, "clvotess"); pr = os.path.join(here, "checks/probe.cpp")
    with cf.ThreadPoolExecutor(2) as p:
        a = p.submit(compile_unit, cli, [os.path.join(repo, "src/main.cpp"), pr], ["-O1"], work, True, ["-ldl"])
        b = p.submit(compile_unit, exe, [os.path.join(here, "checks/c15.cpp"), pr], ["-O1"], work, True, ["-ldl"])
        how = "tool: %s; harness: %s" % (a.result(), b.result())
    u["env"] = {"VERIF_CLI": cli}
    return how
check("C15", [{"name": "c15", "mode": "C15", "src": [], "build": c15_build, "mem": 0}],
  "all 1024 subsets of the ten documented options in short, joined, long and long= form and reversed order, all orders of four groups of five options, value domains of every option in four contexts and repeated options, with and without a GPU; all files of up to 3 (4) lines over ten line shapes; bad lines at every tenth position; missing, empty and unreadable inputs; default options for 0..200 points; files up to 3000 points",
  counting="states: distinct command lines and files; transitions: processes of the tool; traces: rows (or error outcomes) compared with a direct library call; outcomes: distinct outputs",
  assumptions=("the tool is built from src/main.cpp against the SYCL runtime model", "undocumented inputs (unknown options, non-numeric values, k = 0) are not judged"),
  technique="bounded exhaustive enumeration of command lines and input files on the real tool against the library as reference", note="stdout, exit status, stderr, threads started and device work-items compared")

def c16_build(u, exe, work, here, repo, compile_unit):
    import concurrent.futures as cf, os, subprocess, sysconfig
    ck = os.path.join(here, "checks"); so = os.path.join(work, "pymod", "pyvotess.so"); rf = os.path.join(work, "c16ref.so"); th = os.path.join(work, "c16threads.so")
    os.makedirs(os.path.dirname(so), exist_ok=True)
    fl = ["-O1", "-shared", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-I", "/usr/include/python3.12"]
    with cf.ThreadPoolExecutor(3) as p:
        a = p.submit(compile_unit, so, [os.path.join(repo, "src/pybind11/pyvotess.cpp"), os.path.join(ck, "c16dev.cpp")], fl, work, True, ["-Wl,-Bsymbolic"])
        b = p.submit(compile_unit, rf, [os.path.join(ck, "c16ref.cpp")], fl, work, True, ["-Wl,-Bsymbolic"])
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", th, os.path.join(ck, "c16threads.c"), "-ldl"], check=True)
        how = "module: %s; library: %s" % (a.result(), b.result())
    with open(exe, "w") as f: f.write("#!/bin/sh\nLD_PRELOAD=%s exec /usr/bin/python3 %s \"$@\"\n" % (th, os.path.join(ck, "c16.py")))
    os.chmod(exe, 0o755)
    u["env"] = {"VERIF_PYMOD": so, "VERIF_PYREF": rf, "MALLOC_PERTURB_": "165", "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    return how
check("C16", [{"name": "c16", "mode": "C16", "src": [], "build": c16_build, "mem": 0}],
  "all subsets of up to 5 (8) of 8 points x devices (cpu, gpu, default; GPU present or absent) x input forms x parameter sets; all single values and pairs of parameter values on clouds of 8..24 points, clouds up to 300 (1000); every index from -n-2 to n+3 and the int extremes for every result and row; all containers of up to 4 (5) rows with 0..2 (0..3) entries; every key x 60 values of int, bool, float, str; all assignment sequences of length 3 on two objects; all sequences of up to 4 (6) operations on results, rows and iterators, and 7-step chains, with freed memory overwritten",
  counting="states: distinct (points, parameters, device) inputs, parameter assignments and operation sequences; transitions: operations on the module; traces: rows, reads or sequences compared with the library or the model; outcomes: distinct results",
  assumptions=("the module is built from src/pybind11/pyvotess.cpp against the SYCL runtime model", "numpy is not installed: a plain sequence class stands in for arrays", "indices that do not fit a C int, and strings that read as numbers, are not judged"),
  technique="exhaustive enumeration of operation sequences and inputs on the real module, in lockstep with the library and a model of Python sequences", note="a use of freed memory shows through overwritten contents or a crash of the isolated worker")

check("C18", [mc("c18", "C18")],
  "all schedules with up to 2 (3) preemptions of two concurrent calls on 0..4 points with 1..2 threads each, up to 0 (1) preemptions of three calls and of calls with recompute or chunking, every combination of suppression, with recompute, chunking, fallback, double precision and failing calls, on a user's buffer and on the process's standard output; calls on the device and up to 4 callers under three scheduling policies; all sequences of up to 2 (3) calls over 23 calls from 7 initial conditions of std::cout",
  counting="states: distinct schedules and call sequences; transitions: controlled executions and calls; traces: executions whose results, text and stream state were compared with the calls alone; outcomes: distinct results",
  assumptions=("scheduling points are synchronisation operations and operations on the standard streams' buffers and state; race freedom elsewhere is checked", "text of concurrent reports is compared as a whole, not line by line", "standard error is not judged", A_MOCK),
  technique="stateless model checking of concurrent calls of the real code under a controlled scheduler (preemption-bounded), with vector-clock race detection", note="complete up to the preemption bound for the listed calls")
