"""Harness builds and per-property jobs."""
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
EDGE = ["-fsanitize-coverage=trace-pc-guard"]
O1 = ["-O1", "-g0"]
O2 = ["-O2", "-g0"]

ALLOC = ["alloc.cpp", O2 + ["-fsanitize=address", "-DSIM_EDGES"]]
CORE = ["core.cpp", O1]

GLIB = ["-D_GLIBCXX_ASSERTIONS"]
HARNESSES = {
    "h1": {
        "tus": [["ops_p1.cpp", O1 + ASAN + EDGE + GLIB], ["ops_p2.cpp", O1 + ASAN + EDGE + GLIB],
                ["ops_p3.cpp", O1 + ASAN + EDGE + GLIB], ["h1.cpp", O1], ["oplan.cpp", O2], ["model.cpp", O2],
                ALLOC, CORE],
        "link": ASAN,
    },
    "cmp": {
        "tus": [["cmp_%s.cpp" % d, O1 + ASAN + EDGE + GLIB] for d in ("11", "12", "21", "22", "32", "23", "31", "33")] +
               [["cmph.cpp", O1], ["model.cpp", O2], ALLOC, CORE],
        "link": ASAN,
    },
    "ad": {
        "tus": [["ad.cpp", O1 + ASAN + EDGE + GLIB], ALLOC, CORE],
        "link": ASAN,
    },
    "b64": {  # asserts on
        "tus": [["b64.cpp", O1 + ASAN + EDGE], ALLOC, CORE],
        "link": ASAN,
    },
    "b64n": {  # release build: asserts compiled out
        "tus": [["b64.cpp", O1 + ASAN + EDGE + ["-DNDEBUG"]], ALLOC, CORE],
        "link": ASAN,
    },
}

LOGF = ["-DENABLE_LOGGING"]
HARNESSES["log"] = {
    "tus": [["ops_p%d.cpp" % d, O1 + ASAN + EDGE + GLIB + LOGF] for d in (1, 2, 3)] +
           [["plain_p%d.cpp" % d, O1 + ASAN + EDGE + GLIB] for d in (1, 2, 3)] +
           [["log.cpp", O1 + ASAN + EDGE + GLIB + LOGF], ["simos.cpp", O2], ["oplan.cpp", O2], ["model.cpp", O2], ALLOC, CORE],
    "link": ASAN + ["-ldl"],
}

B64_REAL = ["bezman::utils::Base64 encode/decode for 19 element types (address and undefined-behaviour sanitizers, exact buffer bounds)"]
B64_STUB = ["C++ allocation (operator new/delete) replaced by a seeded fault-injecting heap", "storage medium replaced by an in-memory store that damages texts"]

OPS_REAL = ["all operations of BezierSpline and RationalBezierSpline but composition, for 1, 2 and 3 parametric and 1, 2 and 3 physical dimensions (address and undefined-behaviour sanitizers, library assertions on)",
            "Point, BernsteinPolynomial, RecursiveCombine, FastBinomialCoefficient, logger calls (logging compiled out)"]
CMP_REAL = ["composition, group composition and composition sensitivities for (outer, inner) parametric dimensions 1-1, 1-2, 2-1, 2-2, 2-3, 3-1, 3-2, 3-3, polynomial and rational on both sides, with elevation, splitting and unit-cube mapping (address and undefined-behaviour sanitizers, library assertions on)"]
OPS_STUB = ["C++ allocation (operator new/delete) replaced by a seeded fault-injecting heap with garbage contents"]
OPS_MEASURE = "distinct (operation, kinds and degrees of the operands, outcome of every attempt, failed allocation or not) tuples"

def ops(prop, rule, q=(24000, 100), t=(3000000, 800), **kw):
    d = {"jobs": [{"harness": "h1", "quick": q, "thorough": t}], "rule": rule, "measure": OPS_MEASURE,
         "real": OPS_REAL, "stub": OPS_STUB}
    d.update(kw)
    if prop in ("C03", "C05", "C07"):
        d["jobs"].append({"harness": "cmp", "quick": (8000, 60), "thorough": (500000, 250)})
        d["jobs"][0]["thorough"] = (t[0], 500)
        d["real"] = OPS_REAL + CMP_REAL
        d["rule"] += "; or a seeded program of 4 to 13 compositions and refinements over 12 splines under the same faults"
    return d

R_OPS = ("a run is a seeded program of 5 to 25 (occasionally up to 185) operations on 18 splines of 6 kinds with seeded degrees, data, aliasing, "
         "allocation faults (single, several, lasting, by size) and heap contents; non-trivial = at least one allocation failed inside a call")
PROPS = {
    "C04": {
        "jobs": [{"harness": "cmp", "quick": (16000, 100), "thorough": (3000000, 780)}],
        "rule": "a run is a seeded program of 4 to 13 compositions, sensitivities, group compositions and refinements over 12 splines with seeded allocation faults and heap contents; non-trivial = at least one allocation failed inside a call",
        "measure": "distinct (operation, kinds, dimensions and degrees of outer and inner, outcomes) tuples",
        "real": CMP_REAL, "stub": OPS_STUB[:1],
    },
    "C01": ops("C01", R_OPS),
    "C02": ops("C02", R_OPS),
    "C03": ops("C03", R_OPS + "; each program is also run a second time in the same process and once in a fresh one"),
    "C05": ops("C05", R_OPS),
    "C07": ops("C07", R_OPS + "; each program is also run without its rejected requests"),
    "C13": {
        "jobs": [
            {"harness": "b64", "quick": (16000, 25), "thorough": (400000, 600)},
        ],
        "rule": "a run is a seeded program of store/load/re-encode steps over 4 records and 19 element types with seeded heap contents; "
                "non-trivial = at least one allocation failure fired inside a call",
        "measure": "distinct (operation, element type, length class, failed or not) tuples",
        "real": B64_REAL, "stub": B64_STUB,
    },
    "C14": {
        "jobs": [
            {"harness": "b64n", "quick": (16000, 25), "thorough": (400000, 600)},
        ],
        "rule": "a run is a seeded program of store/damage/load steps over 4 records and 19 element types; "
                "non-trivial = at least one storage fault or allocation failure fired",
        "measure": "distinct (operation, damage kind, element type, text length mod 4, damaged or not, result length class) tuples",
        "real": B64_REAL, "stub": B64_STUB,
        "assumptions": ["release build (asserts off); a build with asserts may refuse text that is not a whole number of groups or elements"],
    },
    "C15": {
        "jobs": [{"harness": "ad", "quick": (40000, 60), "thorough": (3000000, 780)}],
        "rule": "a run is a seeded program of 5 to 34 operations on 6 differentiated numbers and 2 vectors of them (first or second order) with seeded allocation faults and heap contents; non-trivial = at least one allocation failed inside a call",
        "measure": "distinct (operation, variant, aliasing, gradient size, fault kind, outcomes) tuples",
        "real": ["AlgoDiffType<double> and AlgoDiffType<AlgoDiffType<double,2>> with run-time sized gradients: all operators and functions that compile (address and undefined-behaviour sanitizers)"],
        "stub": OPS_STUB[:1],
    },
}

LOG_REAL = ["Logger (all message kinds, levels, terminating errors) compiled with logging and with address and undefined-behaviour sanitizers, std::ofstream and std::filebuf of the C++ runtime",
            "all operations of BezierSpline and RationalBezierSpline but composition with logging compiled in, and the same without logging as reference"]
LOG_STUB = ["disk: the C library's file functions served from memory, with open, space, I/O, short-write, interrupt and close faults",
            "clock: time functions served from a seeded clock with jumps, repeated and backward readings",
            "console: stream buffer of std::cout that works, fails, throws, is absent or fails in the middle of a line"] + OPS_STUB[:1]
LOG_MEASURE = "distinct (operation and kind, level, disk window, console state, allocation fault, outcome) tuples"
R_LOG = ("a run is a seeded program of 5 to 50 (occasionally up to 540) log messages of all kinds (up to several times the stream buffer), level changes, caught terminating errors, "
         "spline operations and rejected requests%s; non-trivial = at least one fault fired")
A_LOG = ["clock readings between the years 1900 and 2262 (what std::chrono::system_clock can represent)"]

def log(prop, what, q=(24000, 60), t=(3000000, 780), assume=()):
    return {"jobs": [{"harness": "log", "quick": q, "thorough": t}], "rule": R_LOG % what, "measure": LOG_MEASURE,
            "real": LOG_REAL, "stub": LOG_STUB, "assumptions": A_LOG + list(assume)}

PROPS["C08"] = log("C08", " with disk, console, clock and allocation faults, every result compared with the library without logging")
PROPS["C09"] = log("C09", " with clock jumps and level histories, ended normally", assume=["no disk or allocation fault (their effect on the log is C12 and C05)"])
PROPS["C10"] = log("C10", " with clock jumps, ended by a crash or normally", assume=["the disk works; what a failing disk refused cannot be on it (C12)"])
PROPS["C12"] = log("C12", " with disk fault windows of every kind")
for _p in ("C05", "C07"):
    PROPS[_p]["jobs"].append({"harness": "log", "quick": (8000, 40), "thorough": (600000, 200)})
    PROPS[_p]["real"] = PROPS[_p]["real"] + LOG_REAL[:1]
    PROPS[_p]["stub"] = PROPS[_p]["stub"] + LOG_STUB[:3]
    PROPS[_p]["rule"] += "; or " + R_LOG % " with disk, console, clock and allocation faults"

TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
for _n, _f in (("thr", []), ("thrlog", LOGF)):
    HARNESSES[_n] = {
        "tus": [["ops_p%d.cpp" % d, O1 + TSAN + GLIB + _f] for d in (1, 2, 3)] + [["thr_lib.cpp", O1 + TSAN + GLIB + _f]] +
               [["thrh.cpp", O1 + _f], ["thr.cpp", O2], ["simos.cpp", O2], ["oplan.cpp", O2], ["model.cpp", O2],
                ["alloc.cpp", O2], CORE],
        "link": ["-ldl", "-pthread"],
    }
THR_REAL = ["BezierSpline and RationalBezierSpline (all operations; composition for one pair of dimensions), Point, AlgoDiffType, Base64, the algorithms and the logger, run by 2 to 8 real threads, every memory access instrumented, with logging compiled in and without"]
THR_STUB = ["thread scheduling: one thread runs at a time, a seeded scheduler decides every switch",
            "locks, once-flags, guards of function statics, condition variables, sleeping and yielding: simulated with the semantics of POSIX and of the C++ ABI",
            "data race detector: happens-before over every access of instrumented code (own run time behind the compiler's instrumentation)",
            "disk, clock and console as seeded in-memory replacements"] + OPS_STUB[:1]
THR_MEASURE = "distinct sequences of context switches (thread, thread, operation)"
R_THR = ("a run is a seeded set of 2 to 8 thread programs %s under a seeded schedule of up to 12 (occasionally 100) preemptions at memory accesses, synchronisation or operation boundaries; "
         "non-trivial = at least one preemption took effect or a fault fired")
PROPS["C06"] = {
    "jobs": [{"harness": "thr", "quick": (40000, 60), "thorough": (1500000, 400)},
             {"harness": "thrlog", "quick": (40000, 60), "thorough": (1500000, 400)}],
    "rule": R_THR % "of operations on own and shared splines, compositions, differentiation, encoding, messages and rejected requests with failing allocations, disks and consoles",
    "measure": THR_MEASURE, "real": THR_REAL, "stub": THR_STUB,
    "assumptions": ["code that is not instrumented (the C++ runtime's compiled parts, the C library) is free of races of its own"],
}
PROPS["C11"] = {
    "jobs": [{"harness": "thrlog", "quick": (120000, 90), "thorough": (6000000, 800)}],
    "rule": R_THR % "of messages of all kinds, level changes, terminating errors and some spline operations",
    "measure": THR_MEASURE, "real": THR_REAL, "stub": THR_STUB,
    "assumptions": ["disk, console and memory work (their failure is C12 and C05)"],
}
for _p in ("C05", "C07", "C10"):
    for _j in PROPS[_p]["jobs"]:
        _j["thorough"] = (_j["thorough"][0], int(_j["thorough"][1] * 0.8))
    PROPS[_p]["jobs"].append({"harness": "thrlog", "quick": (20000, 40), "thorough": (1000000, 160)})
    PROPS[_p]["real"] = PROPS[_p]["real"] + THR_REAL
    PROPS[_p]["stub"] = PROPS[_p]["stub"] + [x for x in THR_STUB if x not in PROPS[_p]["stub"]]
    PROPS[_p]["rule"] += "; or " + R_THR % "of messages, level changes, rejected requests and operations"
