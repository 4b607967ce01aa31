#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it is easy to edit)."""
import json, os
R = "source/tomopy/"
L = "source/libtomo/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

prop("C01", "Parallel reconstruction equals slice-by-slice reconstruction",
 "For every built-in reconstruction algorithm, data set and choice of core count and chunk size, each slice of the reconstructed volume equals (to within rounding, relative to the largest values of the volume) what reconstructing that slice alone, on one core, with its own rotation centre and initial guess gives. No slice is skipped, computed from another slice's data or centre, or influenced by what other worker threads do at the same time or by what memory held before.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the reconstruction worker threads at memory-access granularity, every ncore/nchunk/CPU count, every slice count, grid, per-slice centre and initial guess",
 "The tests reconstruct one fixed volume per algorithm with the default core count and compare with stored arrays; they run one OS-chosen schedule with one partition of the slices.",
 [R+"recon/algorithm.py", R+"util/mproc.py", R+"util/extern/recon.py", R+"util/extern/gridrec.py", L+"recon", L+"gridrec/gridrec.c"],
 [("slice partition into chunks", R+"util/mproc.py:get_ncore_slices"), ("thread pool over chunks", R+"recon/algorithm.py:_dist_recon"), ("kernels keep all scratch state on their own heap/stack; planner made thread safe", L+"gridrec/gridrec.c, "+L+"recon/*.c")],
 observe=["tomopy.recon return value"])

prop("C02", "Process-distributed preprocessing is independent of cores, chunks, schedule",
 "Every preprocessing and simulation routine that spreads its work over worker processes (ROI/background normalisation, phase retrieval, all stripe removers, distortion correction, projection) returns, for any core count, chunk size, CPU count and worker timing, the same array as the single-core run, and every slice or projection equals the one obtained when it is processed alone (with parameters that default to a value derived from the shape of the volume kept at that value). Each slice is processed exactly once.",
 ["schedules", "inputs", "configurations"],
 "every assignment of chunks to worker processes, every interleaving of the workers and the host, every ncore/nchunk/CPU count and array shape",
 "The tests run each routine once, on one shape, with the machine's own core count and whatever schedule the OS picks.",
 [R+"util/mproc.py", R+"prep/normalize.py", R+"prep/phase.py", R+"prep/stripe.py", R+"prep/alignment.py", R+"sim/project.py", R+"util/dtype.py", L+"prep"],
 [("chunking, shared input/output arrays, worker pool", R+"util/mproc.py:distribute_jobs"), ("worker functions touch only their slice", R+"prep/*.py")],
 observe=["return value of each public routine"])

prop("C03", "Thread-pool filters are independent of cores and schedule",
 "The thread-parallel image filters (Gaussian, median, Sobel, 2-D and 1-D outlier removal, ring removal) return, for any axis, core count, chunk size and thread timing, an array in which every element has been computed and every image equals the one the filter gives for that image alone on one core. Nothing of the previous content of memory shows in the result.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of the filter threads, every ncore/axis/shape, every previous content of uninitialised memory",
 "Tests check one small array per filter with one core count; Sobel and 1-D outlier removal have no test at all.",
 [R+"misc/corr.py", R+"util/extern/misc.py", L+"misc/remove_ring.c"],
 [("one pool task per image or chunk, disjoint output views", R+"misc/corr.py"), ("pool shut down before the result is returned", R+"misc/corr.py")],
 observe=["return value"])

prop("C04", "OpenMP volume kernels do not depend on team size or thread timing",
 "The native volume kernels that run an OpenMP team (3-D median filter and dezinger, morphological inpainter with median or mean fill, 3-D stripe detection and stripe mask) give bit-identical results for every team size and every interleaving of the team's memory accesses. The random-fill inpainter leaves unmasked voxels unchanged and fills masked voxels with values within the range of the known data for every schedule.",
 ["schedules", "inputs", "configurations"],
 "every OpenMP team size and every interleaving of the team members at memory-access granularity",
 "Tests call the kernels with the default team and compare a few statistics; a data race that needs a particular interleaving or team size is invisible to them.",
 [L+"misc/median_filt3d.c", L+"misc/inpainter.c", L+"prep/stripes_detect3d.c", R+"misc/corr.py", R+"prep/stripe.py"],
 [("private loop variables, separate input and output buffers per pass", L+"misc/inpainter.c, "+L+"misc/median_filt3d.c, "+L+"prep/stripes_detect3d.c")],
 observe=["return value"])

prop("C05", "Distributed jobs run exactly once on the right data, in the right place",
 "When an array (or several arrays) is distributed over workers along an axis, the user's function is applied exactly once to every index along that axis, sees exactly the corresponding slices plus the given arguments, and its result lands in exactly the corresponding part of the output, for every axis, chunk size, core count, output array and timing. A job that asks to be run on the host instead of in a worker is run exactly once on the host and its result is in the returned array, whatever the core count.",
 ["schedules", "inputs", "configurations", "histories"],
 "every axis/shape/dtype/ncore/nchunk/out combination, every assignment of batches to workers and every interleaving of workers, host and deferred-job queue",
 "Two tests use one constant function; nothing exercises deferred jobs, several arrays, separate output or timing.",
 [R+"util/mproc.py", R+"util/dtype.py"],
 [("per-chunk argument tuples and in-place/returned results", R+"util/mproc.py:_arg_parser"), ("deferred-job queue drained on the host", R+"util/mproc.py:clear_queue")],
 observe=["return value of the distribution routine, calls of the user's function"])

prop("C06", "A failure inside any worker is reported to the caller",
 "If the computation of any slice, image or chunk raises an exception in a worker thread or worker process, the call that started it raises an exception (the worker's, when the worker could deliver it) and never returns an array as if it had succeeded, however the failing and the healthy workers are interleaved and however many fail. When the system refuses the call a thread, a process or memory, the call raises or still returns the complete result.",
 ["fault_sequences", "schedules"],
 "every choice of failing task(s) or refused system request(s), point of failure within the task and interleaving with the other workers, over all thread- and process-parallel routines",
 "No test makes a worker fail; several routines discard the results of their tasks, so a test that succeeds says nothing about failures.",
 [R+"recon/algorithm.py", R+"misc/corr.py", R+"util/mproc.py", R+"prep/alignment.py", R+"recon/wrappers.py"],
 [("results of all tasks are collected and re-raised", R+"recon/algorithm.py:_dist_recon, "+R+"util/mproc.py:distribute_jobs, "+R+"misc/corr.py")],
 observe=["exception or return value of the call"])

prop("C07", "Death of a worker process never hangs a call or yields partial results",
 "If a worker process disappears at any point (killed, crashed, or exiting by itself with any status) while a process-parallel call is in progress, the call ends within a bounded time after the death, either raising an error or returning the complete correct result; it never waits for ever and never returns a partially computed array. Surviving workers are stopped.",
 ["crash_points", "fault_sequences", "schedules"],
 "every point in a worker's life (start-up, task fetch, computation, result delivery, idle), every exit status or signal, one or several deaths, every schedule",
 "No test kills a worker; in production it is the out-of-memory killer or a native crash that does.",
 [R+"util/mproc.py", R+"misc/corr.py", R+"prep/alignment.py", R+"recon/algorithm.py"],
 [("host polls the workers' exit status while waiting", R+"util/mproc.py:distribute_jobs"), ("broken-pool detection of the executor", R+"misc/corr.py:enhance_projs_aps_1id, "+R+"prep/alignment.py")],
 observe=["call outcome, simulated time to outcome, live worker processes"])

prop("C08", "Calls restore process-wide settings and release workers, success or failure",
 "After any call returns or raises, the settings of the process and of the calling thread (environment variables, the numerical-expression thread count, the OpenMP team size, floating-point error handling, signal handlers, the working directory; the state of the random-number generators unless the call is one that draws from them) are what they were before, and its worker threads, worker processes, helper processes and shared-memory blocks are gone. This holds when workers fail, when a worker dies and when arguments are rejected.",
 ["fault_sequences", "histories", "schedules"],
 "every outcome of a call (success, worker exception, worker death, invalid argument) and every schedule in which it is reached",
 "Tests look at return values of successful calls only; leaked settings and processes show up in later, unrelated calls.",
 [R+"recon/algorithm.py", R+"util/mproc.py", R+"prep/normalize.py", R+"misc/corr.py", R+"misc/morph.py"],
 [("save/restore around the call", R+"util/mproc.py:set_numexpr_threads, "+R+"recon/algorithm.py:_dist_recon"), ("shared state cleared at the end", R+"util/mproc.py:clear_shared")],
 state=[("thread limit variable", "environment variable limiting Python-level threads during a reconstruction", R+"recon/algorithm.py"), ("shared arrays and queue", "module-level references used by workers", R+"util/mproc.py")],
 observe=["os.environ, numexpr thread count, live threads/processes/managers/shared blocks after the call"])

prop("C09", "A call's result does not depend on the calls made before it",
 "In any sequence of library calls in one process, including calls that failed, lost a worker, were given the same arrays again or used other algorithms and options, each call returns what it would return as the first call in a fresh process with the same arguments, and it accepts and rejects the same arguments. A result belongs to the caller: later calls do not change it, and what the caller does with it changes no later call.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of operations over a pool of arrays, with failures injected into some of them, under every schedule",
 "Tests run isolated calls; module-level tables, caches, environment variables and shared buffers couple calls only in particular histories.",
 [R+"recon/algorithm.py", R+"util/mproc.py", R+"util/dtype.py", R+"prep", R+"misc/corr.py", L],
 [("per-call copies of option tables, scratch memory and shared buffers", R+"recon/algorithm.py:recon, "+R+"util/mproc.py:distribute_jobs, "+L)],
 observe=["outcome of each call in a history against the outcome in a fresh process"])

prop("C10", "Concurrent callers do not disturb each other",
 "When several threads of one process call library routines at the same time on their own data (any mix of reconstruction, preprocessing, filtering and native kernels), each call returns what it returns when it runs alone, none fails or hangs or has its result changed afterwards because of another, and once all have finished the process-wide settings are what they were before the first started.",
 ["schedules", "histories"],
 "every interleaving of two or more caller threads and all their workers, over every mix of routines",
 "Tests call the library from one thread.",
 [R+"util/mproc.py", R+"recon/algorithm.py", R+"misc/corr.py", R+"prep", L],
 [("no mutable state shared between calls except behind a lock", R+"util/mproc.py, "+R+"recon/algorithm.py, "+L)],
 state=[("shared arrays and queue", "module-level references used while distributing jobs", R+"util/mproc.py"), ("thread limit variable", "environment variable set during a reconstruction", R+"recon/algorithm.py")],
 observe=["return values, settings after quiescence"])

prop("C11", "Inputs are never modified, and results depend only on their values",
 "Except for the point-wise value replacements (range, NaN, negative, circular mask), which work in place, calls without an in-place request leave the caller's ordinary (not shared-memory) input arrays - data, angles, flats, darks, centres, initial guesses, masks, parameters - bit-identical, whatever the schedule and even when the call fails part-way. The result depends only on the values of the inputs: C- or Fortran-ordered, strided, reversed or read-only views and arrays already held in shared memory (or views of them) give the same result as a fresh contiguous copy.",
 ["inputs", "schedules", "fault_sequences"],
 "every routine, every storage layout of its inputs, every schedule and every failure point",
 "Tests pass fresh contiguous arrays and compare outputs only.",
 [R+"util/dtype.py", R+"util/mproc.py", R+"recon/algorithm.py", R+"prep", R+"misc/corr.py", R+"sim/project.py"],
 [("inputs copied to shared memory before workers write", R+"util/dtype.py:as_sharedmem"), ("contiguity enforced before native code", R+"recon/algorithm.py:init_tomo")],
 observe=["input arrays before/after, return value"])

prop("C12", "Native kernels free what they allocate and stay inside their buffers",
 "Under every partition of the work and every interleaving of threads, a call into the native libraries frees every heap block it allocated exactly once, never reads or writes outside the blocks it allocated or was given (images at least as large as the filter windows), also when its arguments do not belong together (it may refuse those), and never uses the planner of the FFT library from two threads at once.",
 ["schedules", "inputs", "configurations"],
 "every native kernel, slice count (including 1, odd and even), grid size, team size and interleaving; arrays of sizes that do not match, wild values",
 "Tests neither measure memory nor run the kernels concurrently on purpose; a leak or a small overflow does not change their results.",
 [L+"recon", L+"gridrec/gridrec.c", L+"misc", L+"prep"],
 [("matching malloc/free in each kernel", L), ("thread-safe FFT planner", L+"gridrec/gridrec.c")],
 observe=["heap blocks alive after the call, guard zones around blocks and arrays, planner entries"])

prop("C13", "The requested core count is an upper bound on parallelism",
 "A call never has more worker threads, worker processes or native team members active at the same moment than the smaller of the core count it was given, the machine's CPU count where the documentation promises that cap, and the limit set by the user's environment; with a core count of one, work runs one piece at a time. With several cores and enough pieces the work is really offered to several workers.",
 ["schedules", "configurations"],
 "every ncore/nchunk/CPU count/environment limit, every schedule",
 "Tests never look at how many workers run at once.",
 [R+"util/mproc.py", R+"recon/algorithm.py", R+"misc/corr.py", R+"prep/stripe.py"],
 [("core and chunk computation", R+"util/mproc.py:get_ncore_nchunk, get_ncore_slices"), ("environment limit", R+"recon/algorithm.py:_dist_recon")],
 observe=["number of simultaneously active workers over time"])

prop("C14", "Process-pool image operations return all results, in order",
 "Operations that send images to a pool of processes and gather results (projection enhancement, slit-corner detection and detector-drift adjustment, device-parallel reconstruction) put each image's result at that image's position for every completion order, core count and number of images, and return the same as on one core.",
 ["schedules", "inputs", "configurations"],
 "every completion order of the pool's tasks, every pool size and image count",
 "Only default core counts with one completion order are sampled, and the device-parallel path is not run at all without the accelerated build.",
 [R+"misc/corr.py", R+"prep/alignment.py", R+"recon/algorithm.py"],
 [("futures gathered in submission order", R+"misc/corr.py:enhance_projs_aps_1id, "+R+"prep/alignment.py, "+R+"recon/algorithm.py:_dist_recon")],
 observe=["return value"])

prop("C15", "An interrupt stops a call promptly and leaves the library usable",
 "If the user interrupts a parallel call while the host waits for its workers or computes in native code, the call ends with the interrupt within a bounded time instead of returning data or waiting for ever, no worker process keeps running on its behalf (an image pool may end the image a worker is at), and later calls in the same process give correct results.",
 ["crash_points", "schedules", "histories"],
 "every instant of the call at which the interrupt can be delivered to the host (alone or together with its workers), every schedule",
 "No test interrupts a call.",
 [R+"util/mproc.py", R+"recon/algorithm.py", R+"misc/corr.py"],
 [("interrupt handler terminates the pool and re-raises", R+"util/mproc.py:distribute_jobs")],
 observe=["call outcome, simulated time, live workers, result of a later call"])

prop("C16", "Saved images are complete or the call fails, even with concurrent writers",
 "When saving an image, or the series of trial-centre reconstructions, returns normally, every announced file exists and holds exactly the image computed for it; when the disk fails, is full or writes short, the call raises and files completed earlier stay intact. Several writers saving different files into the same new folder at the same time all succeed.",
 ["fault_sequences", "schedules", "crash_points"],
 "every disk fault (error or short write at any write, full disk, failing directory creation) and every interleaving of concurrent writers",
 "The one test of saving uses an idle, healthy disk and one writer.",
 [R+"util/misc.py", R+"recon/rotation.py"],
 [("folder created, file written, errors propagated", R+"util/misc.py:write_tiff"), ("one file per centre", R+"recon/rotation.py:write_center")],
 observe=["files on disk, call outcome"])

prop("C17", "Work split over MPI ranks covers every slice exactly once",
 "When the slices of an axis are divided among the ranks of an MPI job, the ranks' shares together contain every index of the axis exactly once for any axis length, core count, chunk size and number of ranks, without an MPI installation the single process gets all of it, and no rank can leave the division step before all ranks have reached it.",
 ["schedules", "inputs", "configurations"],
 "every axis length/core count/chunk size/rank count and every order in which the ranks arrive",
 "There is no test, and MPI is not installed where the tests run.",
 [R+"util/mproc.py"],
 [("barrier, then contiguous split by rank", R+"util/mproc.py:get_worker_ncore_slices")],
 observe=["slices returned on each rank, order of barrier and return events"])

prop("C18", "Multi-GPU back ends process each slice once on an exclusively held device",
 "When a reconstruction is delegated to an external toolbox on several GPUs, every slice is reconstructed exactly once with its own data and centre (one common centre where the toolbox takes one) and its result lands at its own position, no device runs two jobs of the call at once, and an error of the toolbox on any device makes the call fail, for every timing of the devices.",
 ["schedules", "fault_sequences", "configurations"],
 "every number of devices and slices, every completion order and every failing device",
 "The toolboxes are not installed where the tests run.",
 [R+"recon/wrappers.py", R+"util/mproc.py"],
 [("one thread per device, slices split between devices", R+"recon/wrappers.py:astra"), ("device table under a lock", R+"recon/wrappers.py:lpmultigpu")],
 observe=["calls received by the toolbox stub, return value"])

prop("C19", "Rotation-centre searches give the same answer however they are parallelised",
 "Each automatic rotation-centre finder returns the same centre for any core count, CPU count and worker timing, and keeps returning it when called repeatedly or from several threads; a failing worker makes it raise rather than return a centre.",
 ["schedules", "configurations", "fault_sequences"],
 "every ncore/CPU count, assignment of trial positions to workers, completion order and worker failure",
 "Tests call each finder once with default settings.",
 [R+"recon/rotation.py", R+"util/mproc.py"],
 [("cost of each trial position computed by a worker into its own place", R+"recon/rotation.py:_search_coarse, _search_fine")],
 observe=["returned centre"])

prop("C20", "Reconstruction inverts projection within documented accuracy",
 "Reconstructing the simulated projections of an object recovers the object within the algorithm's accuracy, and iterative algorithms do not increase their cost.",
 ["inputs"], "every object, angle set and grid",
 "Tests compare a single stored volume.",
 [R+"recon/algorithm.py", R+"sim/project.py", L+"recon"], [("ray-driven projector/back-projector pair", L+"recon/utils.c")])
prop("C21", "Pointwise corrections follow their formulas",
 "Flat/dark normalisation, minus-log, NaN/negative replacement, masking, padding, up- and down-sampling and dtype conversion compute their documented formulas for every input value, including zeros, NaN and infinities.",
 ["inputs"], "every input array", "Tests sample a handful of values.",
 [R+"prep/normalize.py", R+"misc/corr.py", R+"misc/morph.py", R+"util/dtype.py"], [("numexpr expressions", R+"prep/normalize.py")])
prop("C22", "Noise and artefact simulators have the documented distribution",
 "Simulated Gaussian, Poisson, zinger, ring, drift and salt-and-pepper artefacts follow their documented distributions and parameters.",
 ["inputs"], "every input and random seed", "Tests mostly check that the functions run.",
 [R+"sim/project.py"], [("numpy random draws", R+"sim/project.py")])
prop("C23", "Accelerated C++/CUDA kernels agree with the plain C kernels",
 "The accelerated SIRT/MLEM implementations (rotation-based, thread-pool and GPU) agree with the reference algorithms within interpolation error for every pool size and device.",
 ["schedules", "configurations"], "every pool size, device and interpolation mode",
 "They are not built in this configuration.",
 [L+"accel"], [("PTL thread pool", L+"accel/cxx")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
