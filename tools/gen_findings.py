#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the defects found and repaired (and, if any, those left open)."""
import json, os, subprocess
FIX = [
 ("C07", "notice pool workers that exit with status 0", "a worker that exits with status 0 in a process-parallel call: the call waits for ever"),
 ("C05", "run jobs queued for the host also", "jobs queued for the host are never run with one core, their result is missing"),
 ("C17", "replace np.int, which numpy has removed", "get_worker_ncore_slices raises AttributeError for every input"),
 ("C05", "pass each distributed array to the jobs", "several distributed arrays of different dtypes: workers read all but the first with the wrong dtype"),
 ("C10", "keep the state of distributed jobs per thread", "two threads calling process-parallel routines at once overwrite each other's job state (also kept alive after errors: C08)"),
 ("C03", "call the Sobel filter of scipy with a tuple", "sobel_filter raises for every input with the installed numpy"),
 ("C03", "index with a tuple in remove_outlier1d", "remove_outlier1d raises for every axis with the installed numpy"),
 ("C04", "choose the 3D median kernel by the dtype", "median_filter3d/remove_outlier3d pick the kernel by the input's dtype while the array has been converted"),
 ("C06", "report errors of the threads that filter images", "an exception in a filter thread is dropped and an array of uninitialised memory is returned"),
 ("C03", "filter the given data, not the old content of out", "remove_ring with out= filters the previous content of out"),
 ("C06", "raise the error of the first failed slice group", "recon raises the error of whichever slice group failed last in time"),
 ("C09", "leave the table of allowed keywords as it is in recon", "a call with a user's function or accelerated=True changes which keywords later calls accept"),
 ("C08", "restore TOMOPY_PYTHON_THREADS after failed", "TOMOPY_PYTHON_THREADS stays changed after a failed recon, or after concurrent ones (C10)"),
 ("C16", "let several writers create the output folder", "two writers creating the same new folder: the second fails with FileExistsError"),
 ("C10", "let one caller at a time set the numexpr thread count", "concurrent callers leave the numexpr thread count changed"),
 ("C02", "project every slice with its own rotation center", "project with one centre per slice: chunks after the first use the centres of the first slices"),
 ("C01", "reconstruct every slice with its own rotation center in art", "art uses the first slice's rotation centre for every slice of its group"),
 ("C01", "pair slices in gridrec only if they have the same", "gridrec reconstructs the second slice of each pair with the centre of the first"),
 ("C12", "free every buffer of the reconstruction and projection kernels", "heap blocks leaked by several kernels on every call"),
 ("C12", "define the correction factor of the last row and column", "gridrec reads the last element of its correction table uninitialised (and C01: result depends on memory content)"),
 ("C12", "stay inside the volume when stripes of a small mask", "stripes_mask3d reads and writes outside the volume when merging stripes"),
 ("C01", "give each slice its own regularization data in tikh", "tikh with reg_data: groups after the first use the first slices' data"),
 ("C18", "report errors of the threads that drive ASTRA", "an error of ASTRA on one of several GPUs is dropped"),
 ("C18", "track the busy GPUs of each lprec call", "a GPU stays marked busy after an error: the next call waits for ever"),
 ("C11", "leave the caller's options as they are in the ASTRA wrapper", "the caller's options dictionary is changed"),
 ("C14", "stop after the last candidate kernel", "detector_drift_adjust_aps_1id reads past the last candidate"),
 ("C11", "copy views of shared memory", "a view of a shared-memory array is misread by the workers"),
 ("C07", "notice dead pool workers that the pool has already replaced", "a worker replaced by the pool before the check sees it: the call waits for ever"),
 ("C11", "hand contiguous angles, centers and objects", "strided angles, centres or objects are read as if they were contiguous"),
 ("C14", "use one worker by default on single-core machines", "default core count on a one-CPU machine is 0: the call raises"),
 ("C12", "do not read beyond the polar image in remove_ring", "remove_ring reads beyond the polar image"),
 ("C11", "leave the initial guess of the caller", "recon overwrites the array given as init_recon"),
 ("C11", "leave the projections of the caller as they are in scale", "align_seq, align_joint, shift_images and add_jitter rescale the caller's projections"),
 ("C11", "add simulated noise to a copy of the projections", "add_gaussian and add_salt_pepper write into the caller's projections"),
 ("C05", "accept negative axes in distribute_jobs", "with a negative axis every job gets (and overwrites) the whole array"),
 ("C05", "return what jobs do in place to an array that is also the output", "jobs that work in place on an array given as out too: the output keeps its old content"),
 ("C18", "end ufo_fbp and ufo_dfi with the error", "an error in the thread that feeds the UFO scheduler makes ufo_fbp and ufo_dfi wait for ever"),
 ("C11", "let normalize_nf average the darks by their median", "normalize_nf(averaging='median') raises TypeError for every input"),
 ("C11", "pass filter parameters and regularization data to the C functions in C order", "filter_par (custom2d) given as a Fortran-ordered or transposed array is read as if it were in C order"),
 ("C03", "write only to the given array in remove_ring", "remove_ring with a non-contiguous array as output (or in place) reads and writes the memory behind it instead"),
 ("C12", "stay inside volumes that are smaller than the stencil", "stripes_detect3d reads outside volumes smaller than its stencil (for instance of one sinogram)"),
 ("C12", "make the transforms of gridrec as large as", "gridrec with a grid larger than the padded projections reads and writes outside its tables"),
 ("C12", "refuse initial reconstructions, block orders and parameters", "recon with an initial reconstruction of another shape, an incomplete ind_block, no block or too few parameters reads and writes outside its arrays"),
 ("C12", "refuse angles, centers and data that do not fit in vector", "vector, vector2 and vector3 with too few angles or centers or data of other shapes read and write outside their arrays"),
 ("C12", "refuse centers and components that do not fit in project", "project, project2 and project3 with too few centers or components of other shapes read outside their arrays"),
 ("C08", "leave the OpenMP settings of the caller", "median filters, inpainting and stripe detection leave the OpenMP team size of the calling thread changed"),
 ("C12", "refuse a center of rotation outside of the images", "remove_ring with a center outside of the image writes outside an empty polar image"),
 ("C12", "refuse boundaries that are wider than the projections", "normalize_bg with air wider than the projections reads outside of them"),
 ("C12", "refuse a mask or a window that does not fit", "inpainter_morph with a smaller mask or an empty window reads outside its arrays"),
]
if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True, check=True).stdout.splitlines()
    out = []
    for p, s, w in FIX:
        c = [l.split(" ", 1)[0] for l in log if s in l]
        assert len(c) == 1, (s, c)
        out.append({"status": "fixed", "property": p, "commit": c[0], "line": "fixed: property=%s %s %s" % (p, c[0][:12], w)})
    n = sum("fix:" in l for l in log)
    assert n == len(out), (n, len(out))
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
