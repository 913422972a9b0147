"""What each check builds and runs.  PROPS: the properties claimed; jobs(prop,
tier): the harness builds and the workload size (quick, thorough) of each."""

import os

TYPES = {"d": "double", "s": "float", "z": "std::complex<double>", "c": "std::complex<float>"}


def job(name, src, cases, vt=None, **kw):
    j = {"name": name, "src": src, "cases": cases, "defs": list(kw.pop("defs", []))}
    if vt:
        j["defs"].append("VT=" + TYPES[vt])
    if kw.pop("omp", False):
        j["opt"] = kw.pop("opt", "-O1") + " -fopenmp"
    j.update(kw)
    return j


def core(prop, quick, thorough, types="dszc", omp="d", **kw):
    out = [job("core_" + t, "core.cpp", (quick, thorough), vt=t, args="--prop " + prop, **kw) for t in types]
    out += [job("core_%s_omp" % t, "core.cpp", (max(1, quick // 2), thorough), vt=t, omp=True,
                args="--prop " + prop, **kw) for t in omp]
    return out


PROPS = {}
JOBS = {}


def prop(pid, rule, jobs, technique, note, assumptions=(), must_see=None, thorough_s=3600):
    PROPS[pid] = {"rule": rule, "assumptions": list(assumptions), "must_see": must_see or {},
                  "thorough_s": thorough_s, "technique": technique, "note": note}
    JOBS[pid] = jobs


def jobs(pid, tier):
    js = JOBS[pid]
    return [dict(j) for j in (js(tier) if callable(js) else js)]


prop("C01",
     "a case counts when the operator and its inverse were both finite and conditioned well enough for the "
     "relations to be judged; distinct by matrix, tolerance and stored size",
     core("C01", 8*5000, 200000),
     "runtime monitor: explicit operators rebuilt from executed solves/products vs extended-precision reference",
     "random matrices up to n=48 (quick) / 80 (thorough), all control parameters, four value types, with and without OpenMP",
     must_see={"*/judged-full-rank": 1000, "*/judged-rank-deficient": 50, "*/levels=3": 100, "*/explicit-rank": 100})
prop("C02",
     "a case counts when the operator is conditioned well enough for the adjoint relations to be judged",
     core("C02", 8*5000, 200000),
     "runtime monitor: transposed operators compared with conjugate transposes of executed plain operators",
     "as C01",
     must_see={"*/judged-full-rank": 1000, "*/judged-rank-deficient": 50, "*/levels=3": 100, "*/explicit-rank": 100})
prop("C03",
     "a case counts when the product was compared entry by entry with the input matrix",
     core("C03", 8*5000, 200000),
     "runtime monitor: executed product/solve with dropping disabled vs the input matrix and its exact inverse",
     "random matrices up to n=64 (quick) / 110 (thorough) over all structural control parameters",
     must_see={"*/judged-product": 1000, "*/judged-solve": 1000, "*/levels=3": 100, "*/symm-mode": 100})
prop("C11",
     "a case counts when every stored level was inspected and the off-diagonal blocks were compared with the scaled input",
     core("C11", 6*5000, 150000),
     "runtime monitor: state inspection of the built levels (shapes, index order, permutations, scalings, triangularity, chaining) and comparison of E/F with the scaled input",
     "all levels of factorizations of random matrices up to n=56 (quick) / 120 (thorough)",
     must_see={"*/judged-offdiagonal": 1000, "*/levels=3": 100, "*/symm-mode": 100, "*/ends-without-dense": 100})
prop("C19",
     "a case counts when at least one level with kept factor lines was judged against thresholds and fill limits",
     core("C19", 6*5000, 150000),
     "runtime monitor: replay of the elimination recurrence on the kept factors in extended precision; every kept/dropped entry judged against the documented threshold and fill limit",
     "first level replayed entry by entry, all levels judged against limits; random matrices up to n=48 / 90",
     must_see={"*/judged": 1000, "*/fill-limit-binding": 100, "*/dropped-by-fill": 100, "*/lower-lines-with-drops": 100,
               "*/upper-lines-with-drops": 100})
prop("C23",
     "a case counts when the symmetric preconditioner's operators were finite and conditioned well enough to compare with their adjoints",
     core("C23", 6*5000, 150000),
     "runtime monitor: executed operators compared with their conjugate transposes, mirrored factors, definiteness by Cholesky",
     "symmetric and Hermitian matrices up to n=44 / 80, definite and indefinite modes",
     must_see={"*/judged": 1000, "*/judged-positive": 200, "*/judged-negative": 200, "*/definite-truncated": 100})
prop("C25",
     "a case counts when the reported statistics were recomputed from the stored levels",
     core("C25", 4*5000, 100000),
     "runtime monitor: statistics recomputed from the stored levels and from the executed operator (rank = trace of solve x product)",
     "one to three factorizations into the same object, before and after use and emptying",
     must_see={"*/judged-rank": 1000, "*/judged-deficient-rank": 50, "*/emptied": 100, "*/judged-no-drops": 100})
prop("C26",
     "a case counts when the pivots and inverse-norm estimates of at least one level were judged",
     core("C26", 6*5000, 150000),
     "runtime monitor: inverse-norm estimates and pivots recomputed from the stored factors vs the configured bounds of each level",
     "all levels of factorizations of random matrices up to n=48 / 90",
     must_see={"*/judged": 1000, "*/pivot-near-bound": 100, "*/levels=3": 100})


def each(src, prop, quick, thorough, types="dszc", omp="", std="c++14", tag="", **kw):
    """One job per value type (and, for the types in omp, one with OpenMP)."""
    name = os.path.basename(src).split(".")[0] + tag
    out = [job("%s_%s" % (name, t), src, (quick, thorough), vt=t, std=std, args="--prop " + prop, **kw) for t in types]
    out += [job("%s_%s_omp" % (name, t), src, (max(1, quick // 2), thorough), vt=t, omp=True, std=std,
                args="--prop " + prop, **kw) for t in omp]
    return out


prop("C06",
     "a case counts when an operation completed and every input (arrays, matrix, options, preconditioner) was compared bit by bit",
     each("ops.cpp", "C06", 8*4000, 150000, omp="d"),
     "runtime monitor: bit-exact snapshots of every input before and after each executed operation, including failing ones",
     "all public operations on random systems up to n=48 / 80; four value types, 0- and 1-based, rows and columns",
     must_see={"*/factorization": 500, "*/failed-factorization": 50, "*/one-based": 100})
prop("C07",
     "a case counts when two executions that must agree were compared bit by bit",
     each("ops.cpp", "C07", 8*4000, 150000, omp="d"),
     "runtime monitor: bitwise comparison of repeated executions, with different histories of the object and poisoned heap (M_PERTURB)",
     "histories of factorizations, failures, solves of other sizes, optimisations, emptied objects",
     must_see={"*/judged-fresh": 500, "*/judged-history": 500, "*/levels=3": 50})
prop("C08",
     "a case counts when two representations of one matrix were factorized and compared",
     each("ops.cpp", "C08", 8*2000, 100000, omp="d"),
     "runtime monitor: differential execution over representations of the same matrix",
     "user arrays, wrapped arrays, one-based offsets, other index/offset types, rows and columns, other precision vectors",
     must_see={"*/form:*": 500, "*/judged-rows-vs-columns": 300, "*/judged-other-precision-vectors": 100})
prop("C09",
     "a case counts when a several-vector operation was compared with the single-vector operation on each column",
     each("ops.cpp", "C09", 8*4000, 150000, omp="d") + each("sparse.cpp", "C09", 8*2000, 100000, omp="d"),
     "runtime monitor: differential execution of several-vector operations against single-vector operations and dense definitions",
     "preconditioner solve/multiply, sparse products, triangular solves, 1-16 vectors",
     must_see={"ops_*/judged": 500, "*/width=*": 500, "*/explicit-rank": 100, "*/other-precision": 100,
               "sparse_*/multiply_mrhs_nt:rows": 1000, "sparse_*/strict_upper_mrhs_tran:columns": 100})
prop("C10",
     "a case counts when a refinement was replayed step by step against the documented iteration",
     each("ops.cpp", "C10", 8*1000, 60000, omp="d"),
     "runtime monitor: replay of the documented refinement with the executed operators; return values, status and stopping point judged",
     "fixed and bounded refinement, transposed, callbacks, several right-hand sides",
     must_see={"*/judged-fixed": 500, "*/status-*": 500, "*/form:callback": 100, "*/stopped-after-several": 50,
               "*/wide-rows": 50, "*/zero-rhs": 20, "*/used-with-larger-system": 50})
prop("C13",
     "a case counts when a filtered operation was compared with the projected unfiltered operation",
     each("ops.cpp", "C13", 8*4000, 150000, omp="d"),
     "runtime monitor: executed filtered operations against the projection applied to executed unfiltered operations",
     "constant, partial, explicit, user-defined null spaces, left/right, single/multi-vector, refinement",
     must_see={"*/judged": 500, "*/judged-refinement": 50, "*/right-filter-*": 50, "*/block-solve-refused": 20, "*/wrong-range": 20})
prop("C16",
     "a case counts when all storage operations on a generated matrix were compared with their dense definition",
     each("sparse.cpp", "C16", 8*3000, 120000, omp="d"),
     "runtime monitor: executed storage operations judged against dense definitions computed in extended precision",
     "square, rectangular, empty matrices with empty lines and explicit zeros; rows and columns; four value types",
     must_see={"*/rectangular": 500, "*/no-entries": 200, "*/split-dual-start-second-columns": 200, "*/prune-rows-one-based": 100,
               "*/permute-columns": 500, "*/wrap-rows": 500, "*/free-multiply-t:columns": 500})

prop("C17",
     "a case counts when a dense factorization was compared with an independent extended-precision decomposition",
     each("dense.cpp", "C17", 8*1500, 60000),
     "runtime monitor: executed dense solves, products and ranks judged against extended-precision decompositions of the same block",
     "QRCP, LUP, SYEIG on blocks up to 24: full rank, deficient, zero, ill-conditioned, indefinite; all ways to hand over the block; explicit ranks; several vectors; refactorization",
     must_see={"*/judged-rank-deficient": 300, "*/judged-rank-full": 1000, "*/judged-solve": 3000, "*/judged-truncated": 2000,
               "*/judged-symmetric-solve": 1000, "*/judged-symmetric-truncated": 300, "*/definite-truncated": 300, "*/lu-judged": 200,
               "*/refactorized": 500, "*/block-width=8": 500, "*/user-block-compared": 200})
prop("C18",
     "a case counts when permutations and scalings were judged against the matrix and an independent optimal assignment",
     each("pre.cpp", "C18", 8*20000, 600000),
     "runtime monitor: executed preprocessing judged by an independent assignment solver, permutation and scaling monitors",
     "any pattern up to n=22 / 40 incl. empty lines, explicit zeros, ties, dense rows; ordering of patterns up to n=60",
     must_see={"*/judged-matching": 5000, "*/structurally-singular": 2000, "*/with-deferrals": 2000, "*/rcm": 2000, "*/amd": 2000,
               "*/judged-reordering": 3000, "*/symmetric": 500})
prop("C20",
     "a case counts when parameters set, read, printed or defaulted in one way were compared with the documented table or with the other ways",
     each("params.cpp", "C20", 8*3000, 100000, omp="d"),
     "runtime monitor: model of the documented parameter table against executed setters, text input/output and both interfaces; parameter positions and defaults compared by bitwise-equal factorizations",
     "random sequences of settings by name, text round trips and broken texts, C vectors vs C++ fields, out-of-range values vs documented defaults",
     must_see={"*/defaults": 8, "*/named": 5000, "*/unknown-name": 1000, "*/text-round-trip": 500, "*/text-broken": 500, "*/vectors": 1000,
               "*/position-matters:*": 500, "*/fallback-matters:*": 100, "*/invalid-reorder": 100, "*/both-rejected": 50, "*_omp/thread-environments": 50})
prop("C21",
     "a case counts when one random history of operations on one kind of container was followed, step by step, by a reference model",
     each("cont.cpp", "C21", 8*2500, 150000, types="dz", opt="-O1 -g1", san="address,undefined") +
     each("cont.cpp", "C21", 8*2500, 150000, types="sc", defs=["HIF_DEBUG"], tag="_asserts") +
     each("cont.cpp", "C21", 8*2500, 150000, types="d", opt="-O2", tag="_O2"),
     "runtime monitor: reference models stepped with the executed operations, counted element lifetimes, injected allocation failures, AddressSanitizer/UBSan and the package's own assertions",
     "histories of up to 40 operations on up to 5 arrays, dense matrices, permutations, sparse vectors and augmented storages (two index-pointer widths), optimised, sanitized and asserting builds",
     must_see={"*/array-steps": 100000, "*/array-wrapped": 5000, "*/array-stolen": 1000, "*/array-failed-resize": 50, "*/array-enlarged": 2000,
               "*/dense-steps": 30000, "*/permutation-steps": 10000, "*/sparse-steps": 30000, "*/sparse-compressed": 1000,
               "*/augmented-interchanges": 20000, "*/augmented-deferrals": 1000, "*/augmented-reassembled": 100, "*/augmented-shrunk": 100})
prop("C15",
     "a case counts when the bytes of a file were read by the package (C++ and C) and by an independent reader, or written by the package and read back by both",
     each("io.cpp", "C15", 8*4000, 200000, types="dz", opt="-O0 -g1", san="address,undefined", nullalloc=True) +
     each("io.cpp", "C15", 8*4000, 200000, types="sc", opt="-O0"),
     "runtime monitor: an independent reader of the same bytes against the executed readers and writers; AddressSanitizer/UBSan, guarded user arrays, open-file accounting",
     "generated files of every header with random formatting, comments and number texts; 15 kinds of damage incl. truncation at any byte; every storage format, index width and the C readers",
     must_see={"*/read-exactly": 5000, "*/text-error": 1500, "*/rejected:*": 2000, "*/round-trips": 1000, "*/vector-round-trips": 300,
               "*/vector-read-exactly": 500, "*/only-a-diagonal": 200, "*/c-read-exactly": 1000, "*/c-vector-read": 500, "*/c-mismatched": 200,
               "*/c-rejected": 1000, "*/queried": 2000, "*/missing-files": 100, "*/valid-type-1": 100, "*/valid-type-2": 50, "*/valid-type-3": 50})
_capi = dict(args="--prop C14", std="c++14")
prop("C14",
     "a case counts when a history of C calls ran next to the C++ calls they stand for and every status, result, statistic and message was compared",
     [job("capi", "capi.cpp", (8*4000, 150000), opt="-O0", **_capi),
      job("capi_int64", "capi.cpp", (8*2000, 80000), opt="-O0", defs=["LIBHIFIR_INT_SIZE=64"], **_capi),
      job("capi_indptr32", "capi.cpp", (8*2000, 80000), opt="-O0", defs=["LIBHIF_INDPTR_SIZE=32"], **_capi),
      job("capi_san", "capi.cpp", (8*500, 30000), opt="-O0 -g1", san="address,undefined", leaks=True, **_capi)],
     "runtime monitor: mirror objects driven through the C++ interface next to executed C calls, compared bit by bit; status automaton; AddressSanitizer/LeakSanitizer/UBSan",
     "histories of up to 40 calls on up to 4 matrix and 3 preconditioner handles of every value type incl. mixed precision, null, empty, rewrapped, mismatching and corrupt operands; three integer-size builds",
     must_see={"*/compared-apply-*": 20000, "*/compared-apply-refine": 2000, "*/compared-apply-refine-bounds": 2000, "*/compared-mixed-refine*": 300,
               "*/compared-rank": 10000, "*/create-failed": 3000, "*/refused": 5000, "*/internal-errors": 10000, "*/status-2": 2000,
               "*/stats-compared": 50000, "*/wrapped": 3000, "*/refactorized": 5000})
prop("C12",
     "a case counts when a random history of valid, malformed and misused operations ran on one object and every refusal was followed by a comparison with an untouched object",
     each("invalid.cpp", "C12", 8*3000, 120000, omp="d") +
     each("invalid.cpp", "C12", 8*700, 40000, types="dz", tag="_san", opt="-Og -g1", san="address,undefined", leaks=True, defs=["HIF_DEBUG"]),
     "runtime monitor: every malformed input must raise; guarded caller arrays and AddressSanitizer watch memory; the object must be empty or bit-identical in behaviour to an independent untouched one, and then be rebuilt, used and destroyed",
     "18 kinds of malformed matrices by rows/columns, 0-/1-based, wrapped and plain arrays; mismatched vectors and matrices in every operation; empty objects; failing user code; invalid parameters; wrapped arrays, validity checks, products and dense blocks",
     must_see={"*/refused": 20000, "*/judge-valid": 20000, "*/judge-empty": 20000, "*/apply-mismatched": 3000, "*/apply-on-empty": 5000,
               "*/failing-user": 500, "*/bad-queries": 3000, "*/wrap-malformed": 1000, "*/check-malformed": 1000, "*/product-mismatched": 2000,
               "*/dense-misused": 1000, "*/malformed index one past the end": 300, "*/malformed unsorted indices": 300,
               "*/malformed last start position decreases": 300, "*/malformed fewer rows than columns": 300})
def _thr(tag, types, n, shim=0, **kw):
    out = []
    for t in types:
        k = dict(kw)
        if shim:
            k.update(defs=["VF_SHIM=%d" % shim, "VF_TSAN=%d" % (shim == 2)], extra=["@H@/omp_shim.cpp"], noomplink=True,
                     libs="-llapack -lblas -lpthread")
        out.append(job("thr%s_%s" % (tag, t), "thr.cpp", n, vt=t, omp=True, std="c++14", args="--prop C05", **k))
    return out


prop("C05",
     "a case counts when a build or product with several threads, under one team size and schedule, was compared bit by bit with one thread",
     _thr("", "dz", (8*25, 8000), env={"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}) + _thr("_order", "dszc", (8*40, 12000), shim=1) +
     _thr("_tsan", "dc", (8*9, 3000), shim=2, san="thread"),
     "runtime monitor: bitwise comparison of every level and result with the single-threaded run on the system's OpenMP runtime and on an own runtime with chosen team sizes and thread orders; ThreadSanitizer with injected delays for races",
     "systems with remainders of 190-420 unknowns beyond the package's parallel thresholds, 2-300 threads, smaller teams than requested, nested and user teams, environment settings; products of 1-1300 rows, 1-9 vectors",
     must_see={"thr_order_*/builds-in-parallel": 300, "thr_order_*/parallel-regions-of-a-build=2": 120, "thr_tsan_*/builds-in-parallel": 25,
               "thr_tsan_*/products-in-parallel": 60, "*/smaller-teams": 1000, "*/inside-a-team": 200, "*/shared-products": 200,
               "thr_order_*/chosen-orders": 500, "*/partitions": 10000})

_SAN = dict(opt="-Og -g1 -fno-sanitize-recover=float-cast-overflow -D_GLIBCXX_ASSERTIONS",
            san="address,undefined,float-cast-overflow,bounds-strict", leaks=True, only_crash=True)
_VG = dict(opt="-O1 -g1", only_crash=True, hang=300,
           wrap="valgrind -q --error-exitcode=77 --exit-on-first-error=yes --leak-check=no --num-callers=16")


def _c04():
    out, std = [], "c++14"
    for src, p, quick, tho in (("core", "C04", 8*1000, 300000), ("ops", "C04", 8*400, 120000), ("sparse", "C16", 8*250, 60000),
                               ("dense", "C17", 8*250, 60000), ("pre", "C18", 8*2000, 400000)):
        for t in "dz" if src != "core" else "dszc":
            out.append(job("%s_asan_%s" % (src, t), src + ".cpp", (quick, tho), vt=t, std=std, args="--prop " + p,
                           defs=["VF_ASSERT_ABORT"], **_SAN))
    out.append(job("ops_asan_s", "ops.cpp", (8*200, 60000), vt="s", std=std, args="--prop C04", defs=["VF_ASSERT_ABORT"], **_SAN))
    for src, p, quick, tho, ts in (("core", "C04", 8*60, 8000, "ds"), ("ops", "C04M", 8*14, 2500, "dz"), ("sparse", "C16", 8*50, 6000, "z"),
                                   ("dense", "C17", 8*10, 1500, "dc"), ("pre", "C18", 8*250, 20000, "d"), ("io", "C15", 8*25, 3000, "d"),
                                   ("capi", "C14", 8*10, 1500, "")):
        for t in ts or [None]:
            out.append(job("%s_memcheck_%s" % (src, t or "all"), src + ".cpp", (quick, tho), vt=t, std=std, args="--prop " + p, **_VG))
    return out


prop("C04",
     "a case counts when a workload of valid operations ran to its end under the sanitizers; distinct by generated input",
     _c04(),
     "AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer (with bounds-strict and float-cast-overflow), the package's own assertions and valgrind memcheck (decisions on uninitialised values) over the workloads of the other monitors",
     "the workloads of the other monitors (factorizations, solves, products, refinement, storage, dense blocks, preprocessing, file input, C interface), with extreme valid parameters and written reports in a quarter of the cases",
     must_see={"core_asan_*/workload=*": 20000, "ops_asan_*/workload=*": 6000, "core_memcheck_*/workload=*": 500, "ops_memcheck_*/workload=*": 150})

prop("C24",
     "a case counts when a batch of systems of one family was solved with several settings and its steps, digits per step, fill, dense part and refinement residual were compared with the family's limits",
     each("eff.cpp", "C24", 40, 4000, types="dzsc", opt="-O2", hang=300),
     "runtime monitor: own flexible GMRES and the package's refinement executed with the built preconditioner; steps, gained digits per step, stored sizes against per-family limits calibrated beyond everything observed; tightened against default parameters",
     "convection-diffusion, Helmholtz-like, Stokes/Oseen, constrained, anisotropic, pure Neumann and singular Stokes systems in 2-D/3-D, 20-2500 unknowns, several numberings and units, four value types, default and tightened parameters and small dense blocks",
     must_see={"*/system:*": 500, "*/judged-tightening": 150, "*/judged-mean": 100, "*/judged-refinement": 300, "*/levels=3": 20})
