#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "deterministic simulation of writing sessions over a simulated storage that splits and interrupts transfers; refinement against a reference model",
    "C02": "deterministic simulation of writing sessions with live configuration changes; metadata refinement against a reference model",
    "C03": "deterministic simulation of writing sessions over a splitting storage; independent structural parser as invariant",
    "C04": "deterministic simulation of LAZ writing and reading over a splitting storage; refinement against a sequence model",
    "C05": "deterministic simulation with injected write, seek, flush, close, open and disk-full faults; durability check of unreported runs",
    "C06": "deterministic simulation with injected read, seek and open faults, healing and recheck by the same reader; refinement against a reference model",
    "C07": "deterministic simulation with crashes at enumerated and sampled write boundaries, torn writes included; leftover judged by the reader",
    "C08": "deterministic simulation with injected storage corruption, before and between calls, under heap, stack and step limits",
    "C09": "deterministic simulation of request histories with failing allocations; refinement against a reference model",
    "C10": "deterministic simulation of query histories; refinement against a reference evaluation",
    "C11": "deterministic simulation of task interleavings decided per basic block; comparison with each task run alone",
    "C12": "deterministic simulation of writing sessions with refused operations, failing allocations and operations after close; comparison with the accepted operations alone",
    "C13": "deterministic simulation of the process pool: seeded choice of which worker runs between file operations, of feeding, delivery and completion order; refinement against a sequential transform",
    "C14": "deterministic simulation of the process pool with worker deaths, start-up failures, failing I/O, failing functions and unshippable values; every call raises or returns the sequential result",
    "C15": "deterministic simulation of the process pool under seeded schedules; comparison with a sequential read",
    "C16": "deterministic simulation of values shipped through worker processes over several hops in drawn orders; comparison of every accessor and of use",
    "C17": "deterministic simulation with I/O and allocation faults and full accounting of handles and heap blocks over repetitions",
}
NOTE = ("Seeded random search: it shows the property on the simulated runs only (counts in the evidence). The library code is real and unmodified; "
        "laz-perf is a stand-in with the same interface and container format but a simpler point coder, storage, heap and scheduling are simulated. "
        "Trusted: the reference model and parser in sim/src/model.cpp, the stand-in, the compiler.")
PYNOTE = ("Seeded random search: it shows the property on the simulated runs only (counts in the evidence). The Python package, its bindings and the C++ library "
          "are real and unmodified; pybind11 and laz-perf are stand-ins, the process pool is a simulated one with CPython 3.12's semantics whose workers "
          "are separate forked processes that run one at a time when the scheduler says so. Trusted: the stand-ins, the pool model in pysim/sched.py, the oracles in pysim/scen.py.")
NA = {
    "C18": "Pure functions of their arguments: no scheduling, time, I/O, failure or second party that a simulator could control, so simulated schedules and faults add nothing to calling them.",
    "C19": "Pure in-memory conversions of single records, no nondeterminism or failure for a simulator to decide (their effect on files is covered through C01 and C04).",
    "C20": "Argument checks of constructors without state, I/O, time or concurrency; nothing for a schedule or a fault to influence.",
}
checks = []
for p in sorted(T):
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                   "technique": T[p], "level": "exploration", "level_note": PYNOTE if p in ("C13", "C14", "C15", "C16") else NOTE})
m = {"version": 1, "setup_cmd": "make -s -j8 -C sim && make -s -j8 -C pysim", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA) if p not in T],
     "notes": "No hooks in /repo: the simulator replaces the file system calls, operator new and the thread primitives underneath the library at link time, or (Python) the process pool by assignment and the file calls by a preloaded library."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
