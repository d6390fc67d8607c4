#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))

TESS = "votess::tesellate (include/votess.hpp)"
prop("C01", "Every true Voronoi neighbour is reported",
 "For every set of points with coordinates strictly between 0 and 1, the row returned for a point contains every other point whose bisector plane bounds that point's Voronoi cell inside the unit cube, whenever k is at least the number of points minus one, or the k nearest points already certify the cell, whatever the grid resolution, thread count, chunking and work-array sizes. "
 "Only neighbours whose face is smaller than the rounding error of the coordinate type may be left out.",
 ["inputs", "configurations"],
 "all finite point sets in the open unit cube (generic, clustered, flat, degenerate, near the walls, on grid planes), all k, grid resolutions, thread counts, chunk sizes and work-array sizes",
 "The tests compare a few dozen fixed point sets with voro++ for one or two k and grid resolutions; a lost neighbour that needs a particular distance ratio, cell alignment or cell size is not in the sample.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/boundary.ipp", "src/planes.ipp", "src/sradius.ipp", "src/heap.ipp"],
 [("nearest-candidate search ring by ring with a safe stopping distance", "src/knn.ipp knni::compute"),
  ("incremental half-space clipping of the dual triangulation", "src/cc.ipp cci::compute"),
  ("security radius test before stopping", "src/sradius.ipp")],
 [("k nearest candidates", "sorted nearest candidate list per point", "src/knn.ipp"), ("cell", "planes P and dual triangles T", "src/cc.ipp")],
 [TESS])

prop("C02", "No false, repeated, self or out-of-range neighbour is reported",
 "In every returned row all entries are distinct valid point indices different from the row's own index. "
 "For points in general position, whenever the cell is computed without exhausting the work arrays, no entry is a point whose bisector plane stays clear of the Voronoi cell formed by the candidates (by more than rounding error), whatever the parameters.",
 ["inputs", "configurations"],
 "all finite point sets in general position in the open unit cube and all parameter values, including k larger than the number of points; distinctness and range for degenerate sets too",
 "The tests only check that the returned rows include the expected neighbours; a superfluous, duplicated or self neighbour never fails one of them.",
 ["src/cc.ipp", "src/votess.ipp", "src/boundary.ipp", "src/knn.ipp"],
 [("final filter keeps only candidates that still own a cell vertex", "src/cc.ipp end of cci::compute"),
  ("row compaction and undefined marker", "src/votess.ipp tmpnn_fill")],
 [], [TESS])

prop("C03", "With limited k a row is the cell cut by exactly the k nearest points",
 "For every k from 1 up, and without recompute, the row of a point lists exactly those of its k nearest other points that bound the cell cut from the unit cube by those k points alone (up to rounding and distance ties); all points are used when k is larger than the number of other points. "
 "In particular raising k never removes a neighbour that is a neighbour in the complete diagram.",
 ["inputs", "configurations"],
 "all point sets, all k from 1 to beyond the number of points, all grid resolutions",
 "Tests use a single large k per data set; wrong candidates at small k, at k close to n or beyond n are never compared with anything.",
 ["src/knn.ipp", "src/heap.ipp", "src/cc.ipp", "src/votess.ipp"],
 [("bounded max-heap of candidates and stopping rule", "src/knn.ipp"), ("heap sort into ascending distance", "src/heap.ipp")],
 [], [TESS])

prop("C04", "Grid resolution never changes the reported neighbours",
 "For every point set and every grid resolution of at least 1 (coarser or finer than the points, odd or even, not dividing the unit length exactly, larger than 255), the tessellation reports, per point, the same neighbours as with a grid of a single cell. "
 "This holds for points lying exactly on cell faces and arbitrarily close to the walls.",
 ["inputs", "configurations"],
 "all point sets, all grid resolutions, all k",
 "Tests try a handful of resolutions on sets for which k is large enough to hide ring-stopping errors.",
 ["src/xyzset.ipp", "src/knn.ipp", "src/votess.ipp"],
 [("cell id from coordinates", "src/xyzset.ipp sort"), ("ring traversal with shell skipping and stop distance", "src/knn.ipp")],
 [("cell id/offset tables", "points per grid cell", "src/xyzset.ipp")], [TESS])

prop("C05", "Thread count and scheduling never change the result",
 "For every thread count and every interleaving of the worker threads, the tessellation (with and without chunking and recompute) returns the same result as a single-threaded run. "
 "No two worker threads access the same memory without synchronisation when one of them writes.",
 ["schedules", "configurations", "inputs"],
 "all schedules of the worker threads, thread counts from 1 to more than the number of points, chunked/unchunked, recompute on/off",
 "Tests never set the thread count and observe one schedule per run.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp"],
 [("static partition of points over threads, per-point slices of the work arrays", "src/votess.ipp __cpu__tesellate, __cpu__recompute"),
  ("join before use", "src/votess.ipp")],
 [("per-point work slices", "heap, P, T, dR, states", "src/votess.ipp")], [TESS, "instrumented memory accesses and thread operations"])

prop("C06", "Chunked processing gives the same result as unchunked",
 "With chunking enabled and any chunk size (1, dividing or not dividing the number of points, equal to or larger than it, or non-positive), every row equals the row obtained without chunking, for every thread count and with or without recompute.",
 ["configurations", "inputs", "histories"],
 "all chunk sizes, thread counts, point sets, recompute on/off",
 "No test enables chunking.",
 ["src/votess.ipp"],
 [("chunk loop with reused work arrays", "src/votess.ipp __cpu__tesellate"), ("per-chunk copy-out", "src/votess.ipp tmpnn_fill")],
 [("reused arrays", "carry-over between chunks", "src/votess.ipp")], [TESS])

prop("C07", "Recompute turns every cell into the complete Voronoi cell",
 "With recompute enabled, whatever the initial k (from 1) and the initial work-array sizes (from 1), every returned row is the complete row: it equals the row obtained with k equal to all other points and ample work arrays, for every cell cut by fewer than 250 planes (the 8-bit plane index limits a cell to 255). "
 "The call always terminates.",
 ["inputs", "configurations", "histories"],
 "all point sets, all initial k, all initial work-array sizes, all thread counts",
 "No test enables recompute.",
 ["src/votess.ipp", "src/cc.ipp"],
 [("retry loop doubling k and the work arrays for unfinished points", "src/votess.ipp __cpu__recompute"), ("per-point status", "src/status.ipp, src/cc.ipp")],
 [("status bits", "which points are finished / overflowed", "include/status.hpp")], [TESS])

prop("C08", "Undersized work arrays degrade only the affected rows, safely",
 "For every size of the two convex-cell work arrays, a point whose cell does not fit is reported with all its k nearest candidates (so no neighbour among them is lost), and every other row is exactly what it would be with ample arrays. "
 "No size causes a memory error, a hang, or an effect on another point's row.",
 ["configurations", "inputs"],
 "all sizes of the plane and triangle arrays from 1 to beyond 256 for all point sets and k",
 "Tests run with sizes that never overflow and never inspect what an overflow leaves behind.",
 ["src/cc.ipp", "src/boundary.ipp", "src/votess.ipp"],
 [("overflow checks and early return that leaves the candidate row untouched", "src/cc.ipp"), ("per-point array slices", "src/cc.ipp")],
 [("plane/triangle counts", "fill level of the arrays", "src/cc.ipp")], [TESS])

prop("C09", "Points are only permuted into grid order and rows follow that order",
 "The call rearranges the caller's points without changing, losing or duplicating any coordinate bit; afterwards points are ordered by grid cell (x fastest, then y, then z), keeping input order inside a cell, and the result has exactly one row per point in that order, whose entries index the rearranged points. "
 "The cell ids are non-decreasing, lie in the grid, and the cell offset table delimits exactly the points of each cell.",
 ["inputs", "configurations"],
 "all point sets (including duplicates, coordinates next to 0 and 1, on cell faces), all grid resolutions, float and double, 32- and 64-bit indices",
 "Tests check a few sets with two resolutions and only that ids match a formula.",
 ["src/xyzset.ipp", "src/votess.ipp"],
 [("stable radix sort by cell id", "src/xyzset.ipp sort"), ("prefix-sum offsets", "src/xyzset.ipp sort")],
 [], ["xyzset::sort", TESS])

prop("C10", "No memory error, undefined behaviour or hang on any valid input",
 "For every set of points with coordinates strictly between 0 and 1, including empty, single-point, duplicate, collinear, coplanar, cospherical and wall-hugging sets, and every parameter combination with positive sizes whose work arrays have element counts the index type can express, the call returns normally: no out-of-bounds or uninitialised access, no integer or conversion overflow, no exception and no endless loop.",
 ["inputs", "configurations"],
 "all valid point sets and parameter combinations",
 "Tests run without sanitizers on benign sets.",
 ["src/votess.ipp", "src/cc.ipp", "src/boundary.ipp", "src/knn.ipp", "src/xyzset.ipp", "src/heap.ipp", "src/dnn.ipp"],
 [("bounds and overflow guards", "src/cc.ipp, src/boundary.ipp, src/xyzset.ipp")],
 [], [TESS])

prop("C11", "Only the geometry matters: input order and cube symmetries are irrelevant",
 "For points in general position, shuffling the input points leaves the neighbour relation between points unchanged, permuting the coordinate axes or mirroring an axis leaves the neighbour relation unchanged, and the relation is symmetric: a is in b's row exactly when b is in a's row, whenever the cells are complete.",
 ["inputs"],
 "all point sets, all orders of the input, all 48 symmetries of the cube, several grid resolutions and k",
 "Tests use one fixed order and orientation per data set.",
 ["src/xyzset.ipp", "src/knn.ipp", "src/cc.ipp"],
 [("cell ordering of the points before the search", "src/xyzset.ipp"), ("axis-symmetric arithmetic in search and clipping", "src/knn.ipp, src/cc.ipp, src/planes.ipp")],
 [], [TESS])

prop("C12", "float and double, 32- and 64-bit index runs agree",
 "For point sets in general position (with coordinates representable in float) the neighbour relation is the same for float and double coordinates and for 32- and 64-bit index types, for every parameter setting. "
 "Double-precision runs resolve features far below float resolution.",
 ["inputs", "configurations"],
 "all generic point sets, all four instantiations, all parameters; fine features at 1e-6 relative scale for double",
 "Tests instantiate almost only <int,float>.",
 ["src/votess.ipp", "src/cc.ipp", "src/knn.ipp", "src/xyzset.ipp", "src/planes.ipp"],
 [("templates over index and coordinate type", "src/votess.ipp")],
 [], [TESS])

prop("C13", "The parameter store returns exactly what was stored, key by key",
 "After any sequence of assignments, copies and reads, reading a parameter yields the last value assigned to that key (finite numbers keep their value when read as any numeric type wider than a character that can hold it, also large ones, and fractional ones to the precision of the type they were stored as), other keys and copies are unaffected, untouched keys have the documented defaults, and unknown keys or impossible conversions throw instead of returning a value.",
 ["histories", "inputs"],
 "all sequences of set/get/copy operations over all keys and value types",
 "Tests perform a few fixed assignments of small ints.",
 ["include/arguments.hpp"],
 [("string-backed value with stream conversion", "include/arguments.hpp vtargref"), ("key map with default initialisation and lookup that throws", "include/arguments.hpp vtargs")],
 [("key/value map", "parameter values", "include/arguments.hpp")], ["votess::vtargs"])

prop("C14", "The result container and its text output represent every row faithfully",
 "For every jagged content (empty rows anywhere, empty result, copies), size() is the number of rows, row and element access return the stored neighbours, writes through an element are visible, and both the printed and the saved text contain exactly one line per row in order, listing exactly that row's neighbours.",
 ["inputs", "histories"],
 "all shapes of result (every pattern of row lengths up to the bound), after construction by copy or move and after copying",
 "No test prints, saves or indexes a result with empty rows.",
 ["src/dnn.ipp", "src/votess.ipp"],
 [("offset table over a flat list", "src/dnn.ipp"), ("flattening of rows", "src/votess.ipp tmpnn_getdnn")],
 [("list/offs", "flat neighbours and row starts", "src/dnn.ipp")], ["votess::dnn", "stdout of print()", "file written by savetxt()"])

prop("C15", "The command-line tool prints what the library computes for its options",
 "For every input file of points and every combination of documented options in short or long form, in any order, the tool prints exactly the rows the library returns for those points and parameters and exits 0. "
 "A missing, unreadable or malformed input yields an error message, a non-zero exit status and no rows.",
 ["inputs", "configurations"],
 "all option combinations up to the bound, all option orders, all input-file shapes",
 "There are no tests of the command-line tool.",
 ["src/main.cpp", "src/dnn.ipp"],
 [("getopt_long option table and parameter assignment", "src/main.cpp parse_args"), ("file parsing", "src/main.cpp main")],
 [], ["exit status, stdout and stderr of clvotess"])

prop("C16", "The Python module behaves like the library and like a Python sequence",
 "For every point list, parameter setting and device, the Python module returns the same rows as the library; parameters set from Python take effect and read back unchanged. "
 "Indexing a result or a row outside its range raises IndexError, iterating a row yields exactly its neighbours, and a row stays valid while it is referenced even if its result object is gone.",
 ["inputs", "configurations", "histories"],
 "all parameter keys and value types, all index values in and out of range, all result/row lifetimes up to the bound",
 "There are no tests of the Python module.",
 ["src/pybind11/pyvotess.cpp"],
 [("bindings of vtargs, dnn, row proxy and tesellate", "src/pybind11/pyvotess.cpp")],
 [], ["module pyvotess in a Python process"])

prop("C17", "The GPU code path gives the same rows as the CPU path",
 "When a GPU device is present, running on it returns for every point the same neighbours as the CPU run, for every work-group size, chunk size, grid resolution, k and work-array size, with recompute on or off, whatever order work-items and work-groups execute in and whatever device memory contained before. "
 "No work-item touches memory outside its buffers or another work-item's slice; without a GPU the call falls back to the CPU with the same result.",
 ["schedules", "configurations", "inputs"],
 "all execution orders of independent work-items, all work-group sizes, chunk sizes and initial device-memory contents, all point sets and parameters",
 "GPU tests cannot run here (no device compiler) and elsewhere use one work-group size without chunking.",
 ["src/votess.ipp", "src/knn.ipp", "src/cc.ipp", "src/boundary.ipp", "src/heap.ipp"],
 [("one work-item per point over strided device buffers", "src/votess.ipp __gpu__tesellate"), ("accessor overloads of search, clipping, boundary and heap", "src/knn.ipp, src/cc.ipp, src/boundary.ipp, src/heap.ipp")],
 [("device buffers", "heap, P, T, states, local dR", "src/votess.ipp")], [TESS + " with device::gpu on a modelled SYCL runtime"])

prop("C18", "Calls leave standard output as found, also when they run concurrently",
 "With output suppression on (the default) a call writes nothing to standard output, and afterwards std::cout writes where it wrote before; with suppression off the progress report appears there. "
 "Calls made concurrently from several threads, in any interleaving, return what they return alone and leave std::cout intact.",
 ["schedules", "histories"],
 "all interleavings (within the preemption bound) of two or three concurrent calls; all sequences of suppressed and unsuppressed calls",
 "Tests make one call at a time and never look at std::cout.",
 ["src/votess.ipp"],
 [("output suppression around a call", "src/votess.ipp")],
 [("std::cout's stream buffer", "process-wide output target", "src/votess.ipp")], [TESS, "std::cout"])

prop("C19", "Boundary extraction returns the exact rim of any removed region",
 "For every simply connected patch of consistently oriented triangles on a closed triangulated surface, listed in any order, boundary extraction succeeds and yields the single closed, correctly oriented cycle of the patch's rim edges, without touching entries outside its own slice of the arrays. "
 "The host and the device version agree.",
 ["inputs"],
 "all triangulations reachable by cell cuts from the cube, all disk-shaped patches of them, all triangle orders (small patches) and all rotations of start triangle",
 "Tests use a few dozen recorded patches in one order each.",
 ["src/boundary.ipp", "src/cc.ipp"],
 [("incremental merge of triangles into the cycle with postponement", "src/boundary.ipp compute")],
 [("cycle", "successor map of rim vertices", "src/boundary.ipp")], ["boundary::compute"])

prop("C20", "A call's result depends only on its own arguments",
 "Any sequence of tessellation calls with arbitrary point sets, parameters, types and devices gives, for each call, the result that call gives in a fresh process; repeating a call on the already rearranged points reproduces the same result and order. "
 "The caller's parameters are left unmodified and results stay valid and unchanged when later calls run.",
 ["histories", "configurations"],
 "all call sequences up to the depth bound over a menu of point sets, parameters and types",
 "Tests never relate two calls to each other.",
 ["src/votess.ipp", "src/cc.ipp", "include/arguments.hpp"],
 [("call-local state only; parameters taken by value", "src/votess.ipp tesellate")],
 [], [TESS])

prop("C21", "Nearest-candidate selection keeps exactly the k smallest, in ascending order",
 "For every k and every arrival order of candidates (ties included), replacing the current largest by each smaller candidate, restoring the order and finally sorting leaves exactly the k smallest distances in ascending order, each still paired with its own candidate, and nothing outside the selection's own slice changes. "
 "Host and device versions agree.",
 ["inputs", "histories"],
 "all arrival orders with ties of up to the bound candidates for every k",
 "Tests check a few arrays.",
 ["src/heap.ipp", "src/knn.ipp"],
 [("max-heap replace-top and heap sort on parallel arrays", "src/heap.ipp")],
 [("heap arrays", "candidate ids and distances", "src/heap.ipp")], ["heap::maxheapify, heap::sort, heap::swap"])

prop("C22", "The printed failure summary counts exactly the unfinished cells",
 "With output enabled, the summary printed at the end of a call counts exactly the points whose cell is not certified complete by the neighbours examined (a cell is certified when the last neighbour examined lies farther away than twice the distance to the farthest vertex of the cell cut by the others), the points whose cell overflowed the plane array and those that overflowed the triangle array, as they stand for the returned result; this holds for every chunk size, thread count, and with recompute, where finished points are not counted as failures.",
 ["inputs", "configurations"],
 "all point sets, k, work-array sizes, chunk sizes, recompute on/off",
 "No test reads the summary.",
 ["src/votess.ipp", "src/cc.ipp", "src/status.ipp", "src/sradius.ipp"],
 [("per-point status bits and final tally", "src/votess.ipp tesellate, src/cc.ipp"), ("security radius test", "src/sradius.ipp")],
 [("status bits", "per-point outcome", "include/status.hpp")], ["text on std::cout with dev_suppress_stdout=false"])

prop("C23", "A call leaves nothing behind: memory, threads and descriptors are released",
 "After any sequence of calls, on either device, with any parameters, including calls that throw because a parameter cannot be read, and once the returned results (also copied, moved, printed or saved) are destroyed, the process holds exactly the memory and the open files it held before, and every thread the call started has finished and been joined. One-time initialisation by a first call is the only exception.",
 ["histories", "configurations"],
 "all calls of the menu, all ordered pairs of them, overlapping results, throwing calls",
 "No test measures resources; a slow leak shows only in long-running programs.",
 ["src/votess.ipp", "src/dnn.ipp", "src/xyzset.ipp", "src/cc.ipp", "src/knn.ipp"],
 [("call-local containers, joined worker threads", "src/votess.ipp"), ("result container owning two vectors", "src/dnn.ipp")],
 [], [TESS, "operator new/delete, thread start and join, /proc/self/fd"])

prop("C24", "A failing allocation or thread start ends in an exception, never worse",
 "If one allocation or one thread start made by the calling thread fails during a call, whichever it is, alone or together with all later ones, the call either throws an exception derived from std::exception or returns the correct result. The process is not terminated, nothing is leaked, all started threads have been joined, the caller's points are still the same points (perhaps rearranged), and the next call gives the result it always gives.",
 ["fault_sequences", "configurations"],
 "every single fault point, and every suffix of fault points, of every call of the menu",
 "No test injects a failure.",
 ["src/votess.ipp", "src/xyzset.ipp", "src/dnn.ipp"],
 [("worker threads joined on every path", "src/votess.ipp __cpu__tesellate, __cpu__recompute"), ("points rearranged only by copying complete passes", "src/xyzset.ipp sort")],
 [], [TESS])

prop("C25", "Parameters outside their range never corrupt or kill the process",
 "Whatever value a parameter is given (zero, negative, beyond what its integer type holds, not a number at all, or so large that products of it with other sizes wrap), a call either throws an exception derived from std::exception or returns a well-formed result: one row per point, entries distinct, valid and never the point itself, and no true neighbour among the candidates missing. No memory outside the call's own arrays is touched, the process does not crash or hang, the caller's points are still the same points, and the next call gives the result it always gives.",
 ["configurations", "inputs"],
 "every parameter over its boundary values and values that cannot be read, alone and in pairs, on host and device paths",
 "No test passes an invalid parameter.",
 ["src/votess.ipp", "src/xyzset.ipp", "include/arguments.hpp", "src/knn.ipp", "src/cc.ipp"],
 [("parameter values brought into range before sizes are computed", "src/votess.ipp tesellate"), ("grid resolution checked before cells are indexed", "src/xyzset.ipp sort")],
 [], [TESS])

prop("C26", "Points outside the unit cube are reported and harm nothing else",
 "A call whose points include coordinates that are not strictly between 0 and 1 (on or beyond a face, infinite, not a number) either throws an exception derived from std::exception or writes a message to standard error and returns one row per point whose entries are valid point indices; a call whose points all lie inside writes nothing to standard error on a device that exists. As long as the squares of the distances between the points can be represented, rows have no repeated or self entries and every point inside the cube still gets exactly its neighbours, points outside included. No memory outside the call's own arrays is touched, and the caller's points are only rearranged.",
 ["inputs", "configurations"],
 "44 coordinate values in every axis of single points, in all pairs of coordinates, and in parts of the set; strays around the cube; grid, k, threads, chunks, recompute, device and types",
 "No test passes a point outside the cube.",
 ["src/xyzset.ipp", "src/votess.ipp", "src/knn.ipp"],
 [("validation of the points", "src/xyzset.ipp validate_xyzset, src/votess.ipp tesellate"), ("cell of a coordinate clamped to the grid", "src/xyzset.ipp cell_index")],
 [], [TESS, "messages on standard error"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
