#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
NOTE = {
 "C01": "oracle: the same call on each slice alone, one core, own centre/guess; interleavings at every instrumented native memory access, Python line and lock operation; garbage in fresh memory",
 "C02": "oracle: one-core call and each slice alone; simulated pool over real forked workers, scheduler decides who takes which chunk",
 "C03": "oracle: the filter on each image alone, one core, fault-free; thread pool under the simulator; fresh memory garbage-filled",
 "C04": "oracle: one-member team; simulated OpenMP teams interleaved at memory-access granularity",
 "C05": "oracle: executable model of the distribution (exactly-once per index, slice, arguments, place) recorded by the user function itself",
 "C06": "fault injection: exceptions at seeded points of units, worker threads and processes, during hand-over of results; a returned array after a fired fault is a violation",
 "C07": "fault injection: workers killed or exiting at seeded scheduling points, at any stage; liveness bound in virtual time after the death",
 "C08": "census of processes, threads, shared-memory blocks, environment, numexpr setting after calls with and without faults",
 "C09": "refinement: each call of a seeded history is compared with the same call made first in a fresh process; faults and kills between",
 "C10": "several caller threads under the scheduler; each result compared with the call run alone; settings compared afterwards",
 "C11": "bitwise comparison of caller-owned buffers before and after, under faults; result compared with that for a fresh contiguous copy",
 "C12": "every native access checked against the allocated blocks (red zones, guarded caller arrays), heap census per call, FFT planner overlap detector",
 "C13": "concurrency counters of threads/processes/team members kept by the simulator, compared with a model of the limits",
 "C14": "oracle: one-core call, and an order-revealing model per image; seeded completion orders",
 "C15": "interrupts at seeded blocking points and native returns, alone or with workers; bounded virtual time, no survivors, later calls compared with fresh ones",
 "C16": "disk faults (full, I/O error, short write) at seeded write operations of the real file library; reads back files and compares",
 "C17": "simulated MPI communicators (ranks as actors) over the real division code; exact cover and barrier checked",
 "C18": "simulated toolboxes and devices (ASTRA, LPrec); exclusive-device monitor, exactly-once per slice, errors at seeded devices",
 "C19": "oracle: one-core search in a fresh process; repeated and concurrent searches, failing workers",
}
TECH = "deterministic simulation: seeded scheduler over threads, forked processes, OpenMP teams and native memory accesses, with fault injection"
NA = {
 "C20": "numerical accuracy of a pure function: no schedule, time, I/O or failure can influence it beyond what C01 decides, so simulation has nothing to vary",
 "C21": "point-wise formulas over single arrays: pure functions of their input; what does vary (threads, layout, settings) is decided by C03, C08, C10 and C11",
 "C22": "statistical law of simulated noise drawn from numpy's global generator: a property of distributions, not of schedules, histories or faults",
 "C23": "the accelerated C++/CUDA library is not part of this build (needs PTL, OpenCV/IPP and nvcc, none installed), so there is no code to run under the simulator",
}
if __name__ == "__main__":
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/sim/build.py", "checks": [], "not_applicable": []}
    for p in sorted(NOTE):
        m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "exploration",
                            "level_note": NOTE[p] + ". Seeded exploration, not exhaustive; trusts the simulator's stand-ins listed in the evidence."})
    for p in sorted(NA):
        m["not_applicable"].append({"property": p, "reason": NA[p]})
    m["notes"] = "No hooks in /repo: all seams are reached from outside (module replacement, compiler instrumentation of the C sources, preloaded stand-ins)."
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
