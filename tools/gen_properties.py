#!/usr/bin/env python3
"""Writes properties.jsonl (the one place the properties are stated)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


S = "src/hif/"
prop("C01", "Solve and product apply one operator and its (pseudo-)inverse",
     "For every successfully built preconditioner the solve is a linear map that inverts the product (multiplying after solving, or solving after multiplying, returns the input when the preconditioner has full rank; a reflexive generalized inverse when the final dense block is rank deficient or truncated to a requested rank). The operator applied by the product is the one described by the stored factors of all levels, results do not depend on what the output buffer held before, and zero maps to exactly zero.",
     ["inputs", "configurations"], "all square matrices, value types, control parameters, numbers of levels, explicit ranks, right-hand sides",
     "The existing tests apply solve to a handful of fixed systems and mostly compare residuals; none relates product, solve and the stored levels over random multi-level, rank-deficient, pivoted or symmetric hierarchies.",
     [S + "alg/prec_solve.hpp", S + "alg/prec_prod.hpp", S + "builder.hpp", S + "small_scale/QRCP.hpp"],
     [("multilevel solve", S + "alg/prec_solve.hpp:prec_solve"), ("multilevel product", S + "alg/prec_prod.hpp:prec_prod"), ("dense end level", S + "small_scale/QRCP.hpp")])
prop("C02", "Adjoint solve and product are the conjugate transposes of the plain ones",
     "For every successfully built preconditioner, the transposed solve and the transposed product realise exactly the conjugate transposes of the plain solve and product, for real and complex values, for the default and any explicitly requested rank of the final block.",
     ["inputs", "configurations"], "all matrices, value types, parameters, ranks, vectors",
     "Tests exercise the transposed operations on a few real problems; the complex, multi-level, rank-truncated and symmetric-final-block combinations are not compared against the plain operation.",
     [S + "alg/prec_solve.hpp", S + "alg/prec_prod.hpp", S + "ds/CompressedStorage.hpp", S + "small_scale/QRCP.hpp"],
     [("transposed multilevel solve", S + "alg/prec_solve.hpp:prec_solve_tran"), ("transposed product", S + "alg/prec_prod.hpp:prec_prod_tran"), ("dense end level", S + "small_scale/QRCP.hpp:_solve_t")])
prop("C03", "Without dropping, the factorization is exact",
     "When the drop tolerances are zero and the fill factors do not bind, the built preconditioner equals the input matrix up to rounding: the product reproduces the matrix, the solve (plain and transposed) solves linear systems with it to an accuracy governed by its condition number, and a well-conditioned matrix is reported to have full rank. This holds for every combination of matching, reordering, pivoting, symmetric mode, scaling, level structure and value type, and for consistent singular systems too.",
     ["inputs", "configurations"], "all square matrices x all combinations of the structural control parameters with dropping disabled",
     "Tests check approximate residuals for default settings; whether every row and entry survives deferral, pivoting, reordering and level hand-over can only be seen by exact comparison across the parameter space.",
     [S + "alg/factor.hpp", S + "alg/pivot_factor.hpp", S + "alg/symm_factor.hpp", S + "alg/Schur.hpp", S + "alg/Crout.hpp", S + "alg/PivotCrout.hpp", S + "pre"],
     [("level factorization", S + "alg/factor.hpp:level_factorize"), ("pivoted kernel", S + "alg/pivot_factor.hpp"), ("symmetric kernel", S + "alg/symm_factor.hpp"), ("Schur complement", S + "alg/Schur.hpp")])
prop("C04", "No memory error, undefined behaviour, leak or failed internal assertion",
     "Every public operation given valid input (any square matrix including singular, empty, badly scaled or structurally deficient ones; any valid control parameters; solves, products, refinement, multi-vector, null-space filtered and refactorized use) executes without out-of-bounds or use-after-free accesses, uninitialised-value decisions, undefined behaviour, leaks, or violation of the library's own debug assertions.",
     ["inputs", "configurations", "histories"], "all valid inputs and parameter combinations and operation sequences",
     "The test suite runs without sanitizers or debug assertions, on a few fixed sizes; overruns that stay inside an allocation's slack, or paths only reached by rare deferral/pivot/level patterns, are invisible to it.",
     [S + "alg", S + "ds", S + "pre", S + "small_scale", S + "builder.hpp", "libhifir/src/libhifir.cpp"],
     [("factorization kernels", S + "alg/*factor.hpp"), ("augmented storage linked lists", S + "ds/AugmentedStorage.hpp"), ("reorderings", S + "pre/amd.hpp, rcm.hpp"), ("matching", S + "pre/equilibrate.hpp")])
prop("C05", "Thread count and schedule never change the result, and there are no data races",
     "Building a preconditioner and applying multi-threaded matrix products gives bit-for-bit the same levels, ranks and results for every requested number of threads and every schedule. No two threads access the same memory in a conflicting, unsynchronised way.",
     ["schedules", "configurations", "inputs"], "all thread counts and interleavings of the parallel regions; all matrices large enough to enter them",
     "The tests are built so that parallel regions are rarely or never entered with several threads; a race or a schedule-dependent result needs many interleavings and an instrumented runtime to be seen.",
     [S + "utils/mt.hpp", S + "alg/Schur.hpp", S + "utils/mt_mv.hpp", S + "builder.hpp"],
     [("parallel Schur and dropping", S + "alg/Schur.hpp:mt"), ("parallel matrix-vector product", S + "utils/mt_mv.hpp")])
prop("C06", "Inputs are never modified",
     "No operation modifies the caller's matrix arrays, right-hand sides, initial data or parameter objects that it receives as inputs, whether it succeeds or fails; only the documented output arguments change.",
     ["inputs", "configurations", "fault_sequences"], "all operations x storage formats x index bases x successes and failures",
     "Tests never hash their inputs around calls; temporary in-place index shifting and scaling used internally is restored only on the paths the tests take.",
     [S + "builder.hpp", S + "pre/matching_scaling.hpp", S + "pre/driver.hpp", S + "alg/IterRefine.hpp", "libhifir/src/libhifir.cpp"],
     [("matching on user arrays", S + "pre/matching_scaling.hpp"), ("index shifting", S + "ds/CompressedStorage.hpp"), ("C interface wrapping of user pointers", "libhifir/src/libhifir.cpp")])
prop("C07", "Deterministic and history independent",
     "The same input and parameters always give bitwise the same preconditioner, statistics and results, independent of what the object was used for before (earlier factorizations, solves, failed calls, other sizes), of other live objects, and of the prior contents of memory.",
     ["histories", "inputs"], "all sequences of operations on one or several objects; all heap contents",
     "Tests use a fresh object per scenario and compare tolerantly; stale workspaces and reads of uninitialised memory usually go unnoticed.",
     [S + "builder.hpp", S + "ds/Array.hpp", S + "alg/Prec.hpp", S + "alg/IterRefine.hpp"],
     [("workspace reuse", S + "builder.hpp:_prec_work"), ("refactorize / clear", S + "builder.hpp"), ("lazy work arrays", S + "alg/IterRefine.hpp")])
prop("C08", "Equivalent representations of a matrix give equivalent preconditioners",
     "The result does not depend on how the same matrix is handed over: row-wise or column-wise storage, owned arrays or raw user pointers (C++ objects or pointer overloads), index and offset integer widths. A preconditioner in lower precision used with higher precision vectors or matrices behaves as the same operator applied in that precision, and the choice of storage never changes which system is solved.",
     ["inputs", "configurations"], "all matrices x storage formats x ownership x integer widths x precision mixes",
     "Tests feed one representation each; mixing combinations of types and formats is never compared.",
     [S + "builder.hpp", S + "ds/CompressedStorage.hpp", "libhifir/src/libhifir.cpp"],
     [("factorize overloads", S + "builder.hpp:factorize"), ("storage conversion", S + "ds/CompressedStorage.hpp")])
prop("C09", "Operations on several vectors equal the column-by-column operations",
     "Solving with a preconditioner, multiplying by a sparse matrix (plain or transposed), and solving or multiplying with the dense and triangular building blocks for a block of several vectors gives for each column the result of the single-vector operation (up to rounding), for every block width, at every rank, in mixed precision, and whatever widths were used before on the same object.",
     ["inputs", "configurations", "histories"], "all block widths, sequences of widths, matrices and ranks",
     "Tests use one width once on easy problems; mixing widths on one object, multi-level hierarchies and transposition are not covered.",
     [S + "builder.hpp", S + "alg/prec_solve.hpp", S + "alg/prec_prod.hpp", S + "ds/CompressedStorage.hpp", S + "alg/IterRefine.hpp"],
     [("multi-rhs solve", S + "alg/prec_solve.hpp:prec_solve_mrhs"), ("multi-rhs product", S + "alg/prec_prod.hpp"), ("multi-vector sparse kernels", S + "ds/CompressedStorage.hpp:multiply_mrhs_nt")])
prop("C10", "Iterative refinement performs the documented iteration and stops as documented",
     "Refinement with a fixed number of steps yields exactly the iterate of the stationary recurrence x <- x + G(b - A x) from a zero start after that many steps (plain or transposed, any rank). With residual bounds it stops at the first step whose relative residual is at most the lower bound (success), above the upper bound (divergence), or at the step limit, and returns that status with the number of steps taken; with residual bounds and more than one step allowed, a zero right-hand side yields a zero solution and zero steps. The matrix may be given by rows, by columns or as a user callback.",
     ["inputs", "configurations"], "all matrices, preconditioner qualities, bounds, limits, ranks, transposition",
     "Tests check that refinement reduces an error on easy problems; the exact iterates, step counts and statuses on divergent, stagnating, converged-at-once and zero inputs are untested.",
     [S + "alg/IterRefine.hpp", S + "builder.hpp", "libhifir/src/libhifir.cpp"],
     [("refinement loop", S + "alg/IterRefine.hpp:iter_refine"), ("bounded variant", S + "builder.hpp:hifir")])
prop("C11", "Every level is structurally well formed and describes its matrix",
     "After every successful build each level consists of mutually inverse row and column permutations, positive finite scalings, strictly triangular unit factors with sorted, in-range, duplicate-free indices and finite values, a finite nonzero diagonal, and off-diagonal blocks of matching sizes; level sizes chain exactly into each other and only the last level carries a dense block. The first level's off-diagonal blocks equal the scaled and permuted blocks of the input.",
     ["inputs", "configurations"], "all matrices and control parameters",
     "Tests look at the solution vector only; malformed structures often still give a plausible approximate answer.",
     [S + "alg/Prec.hpp", S + "alg/factor.hpp", S + "alg/pivot_factor.hpp", S + "alg/symm_factor.hpp", S + "alg/Schur.hpp"],
     [("level container", S + "alg/Prec.hpp"), ("assembly of a level", S + "alg/factor.hpp"), ("extraction of off-diagonal blocks", S + "alg/factor.hpp:extract_E, extract_F")])
prop("C12", "Invalid input is rejected and failures leave objects safe",
     "Malformed matrices (wrong sizes, out-of-range or inconsistent indices, non-square systems, size mismatches) and operations on an empty preconditioner are reported as errors without corrupting memory or the caller's data, when input validation is on. After any failed operation the object is either empty or its previous valid self, and can be used, rebuilt and destroyed normally.",
     ["inputs", "fault_sequences", "histories"], "all malformed inputs and all positions of a failing call in an operation sequence",
     "Tests feed valid data; error paths and the state left behind by a failure are hardly executed.",
     [S + "builder.hpp", S + "ds/CompressedStorage.hpp", S + "alg/IterRefine.hpp", "libhifir/src/libhifir.cpp"],
     [("input validation", S + "ds/CompressedStorage.hpp:check_validity"), ("factorize entry", S + "builder.hpp:factorize"), ("C error status", "libhifir/src/libhifir.cpp")])
prop("C13", "Null-space filtering removes exactly the declared component",
     "With a right null-space filter attached every plain solve, and with a left filter attached every transposed solve, equals the unfiltered solve followed by the projection that removes the declared null-space component (the mean over the declared index range, or the user's callback, invoked exactly once per solve), also inside iterative refinement; products are unaffected, a solve with several right-hand sides is refused rather than left unfiltered, and ranges that do not fit the vector are reported. Removing the filter restores the unfiltered behaviour exactly.",
     ["inputs", "configurations", "histories"], "all filters (ranges, callbacks), vectors, attach/detach sequences",
     "One test applies a constant filter to one singular problem; ranges, callbacks, transposition and interaction with other operations are untested.",
     [S + "NspFilter.hpp", S + "builder.hpp"],
     [("constant-mode filter", S + "NspFilter.hpp"), ("filter application in solve", S + "builder.hpp:solve")])
prop("C14", "The C interface agrees with the C++ interface and reports errors by status",
     "For each of the four value types, every C function produces what the corresponding C++ operation produces (build, update, solve, product, refinement, statistics, parameters), returns success or the documented error status, never lets an exception escape, and leaves a retrievable message after an internal error. Handles can be created, emptied, reused and destroyed in any order.",
     ["inputs", "histories", "configurations"], "all sequences of C calls with all operations, ranks, parameter vectors, including invalid and null arguments",
     "The C library has almost no tests; equivalence and error behaviour over call histories is not examined.",
     ["libhifir/src/libhifir.cpp", "libhifir/include/libhifir.h"],
     [("C entry points", "libhifir/src/libhifir.cpp"), ("parameter vectors", "libhifir/src/libhifir.cpp:lhfSetDefaultParams")])
prop("C15", "Matrix Market files round trip and are read faithfully",
     "Every supported Matrix Market file (coordinate matrices and one-column arrays; real or complex; general, symmetric, skew-symmetric or Hermitian; any letter case, comments and blank formatting) is read as exactly the matrix or vector it describes in each storage format, with both triangles of a symmetric one, and written matrices and vectors read back unchanged. Malformed files (unsupported or damaged header, missing, negative or non-numeric sizes, missing or non-numeric entries, indices out of range, a symmetric matrix that is not square) are reported as errors and never read as something else, overrun memory or hang. The C interface reads and reports the same.",
     ["inputs", "fault_sequences"], "all files, well formed or damaged at any position",
     "Tests read one or two well-formed files; symmetric, complex, malformed and truncated files are not tried.",
     [S + "utils/io.hpp", "libhifir/src/libhifir.cpp", S + "ds/CompressedStorage.hpp"],
     [("Matrix Market parser", S + "utils/io.hpp"), ("reading into storage", S + "ds/CompressedStorage.hpp:read_mm"), ("C readers", "libhifir/src/libhifir.cpp")])
prop("C16", "Sparse storage operations compute what their dense counterparts define",
     "Conversions between row-wise and column-wise storage, transposes, matrix-vector and multi-vector products (plain, transposed, partial, with scaling), triangular solves, scalings, sub-block extraction, splitting, pruning and permutation agree with the dense definition of the operation for every shape, including empty rows, empty matrices and rectangular ones.",
     ["inputs", "configurations"], "all sparse matrices, shapes, value types and operations",
     "Unit tests compare a few random matrices of one shape for part of the operations; transposed multi-vector, partial-range and empty cases are missing.",
     [S + "ds/CompressedStorage.hpp", S + "ds/PermMatrix.hpp", S + "utils/mv_helper.hpp", S + "utils/coo2compress.hpp", S + "alg/Schur.hpp"],
     [("storage kernels", S + "ds/CompressedStorage.hpp"), ("coordinate conversion", S + "utils/coo2compress.hpp")])
prop("C17", "Dense end-level solvers solve, multiply and reveal rank correctly",
     "The dense solvers used for the last level solve consistent systems and reproduce products to rounding accuracy for full-rank input, return the generalized inverse truncated at the requested rank otherwise, report the numerical rank of a square block (full when all pivots stay above the square root of machine precision times the largest, otherwise the largest leading part whose estimated condition is within the threshold), and agree between plain, (conjugate) transposed, single- and multi-vector use and after refactorization. A block passed by reference is left unchanged. The symmetric solver honours the declared definiteness by discarding exactly the directions that contradict it.",
     ["inputs", "configurations"], "all dense blocks, conditionings, ranks, thresholds, value types, definiteness flags",
     "Unit tests solve a few well-conditioned random systems; rank decisions, truncation, complex adjoints and definiteness handling are not compared against an independent decomposition.",
     [S + "small_scale/QRCP.hpp", S + "small_scale/LUP.hpp", S + "small_scale/SYEIG.hpp", S + "small_scale/lapack.hpp"],
     [("rank-revealing QR", S + "small_scale/QRCP.hpp"), ("symmetric eigensolver", S + "small_scale/SYEIG.hpp"), ("LU", S + "small_scale/LUP.hpp")])
prop("C18", "Preprocessing yields valid permutations and a normalised leading block",
     "Matching with equilibration returns permutations and positive scalings such that no scaled entry exceeds one in magnitude and every matched diagonal entry is one (to rounding) whenever the matrix is structurally nonsingular, with the product of matched entries maximal; symmetric use keeps row and column treatment identical (on later levels badly unbalanced scaling pairs may be reset). Pairs with a negligible diagonal entry, and only those, are moved behind the leading block, and the matrix is left unchanged. Fill-reducing and bandwidth-reducing orderings are valid permutations of exactly the requested block for any sparsity pattern.",
     ["inputs", "configurations"], "all sparsity patterns and value ranges",
     "Tests check one or two matrices; optimality of a matching and validity of an ordering on disconnected, dense-row, unsymmetric or degenerate graphs are not tested.",
     [S + "pre/equilibrate.hpp", S + "pre/EqlDriver.hpp", S + "pre/matching_scaling.hpp", S + "pre/amd.hpp", S + "pre/rcm.hpp", S + "pre/reordering.hpp", S + "pre/a_priori_scaling.hpp"],
     [("weighted matching", S + "pre/equilibrate.hpp"), ("minimum degree", S + "pre/amd.hpp"), ("reverse Cuthill-McKee", S + "pre/rcm.hpp"), ("a-priori scaling", S + "pre/a_priori_scaling.hpp")])
prop("C19", "Fill and drop controls are honoured",
     "In every row of the upper and column of the lower factor the number of kept entries stays within the fill factor times the corresponding input row or column size, and every kept entry is at least as large as the level's drop threshold. Dropping discards the smallest entries first, the lower and upper controls govern the lower and upper factors respectively, and a larger fill factor or smaller tolerance never is ignored.",
     ["inputs", "configurations"], "all matrices and drop/fill parameters",
     "Tests never inspect the kept pattern; a preconditioner with swapped, mis-scaled or ignored controls still converges.",
     [S + "alg/factor.hpp", S + "alg/Crout.hpp", S + "alg/Schur.hpp", S + "alg/thresholds.hpp"],
     [("row/column dropping", S + "alg/factor.hpp:apply_dropping_and_sort"), ("level-wise parameters", S + "alg/factor.hpp:determine_fac_pars"), ("Schur-factor dropping", S + "alg/Schur.hpp:drop_L_E_and_U_F")])
prop("C20", "Control parameters parse, print, default and validate consistently",
     "Default parameters have the documented values; parameters written to text and read back, set by name or by position in a parameter vector, or obtained through either interface are identical; unknown names and unreadable values are rejected without altering other fields, and out-of-range values fall back to the documented defaults when used.",
     ["inputs", "configurations"], "all parameter names, values and texts",
     "Tests print parameters; round trips and rejection are not checked for each field.",
     [S + "Options.h", "libhifir/src/libhifir.cpp"],
     [("text input/output", S + "Options.h:operator>>"), ("set by name", S + "Options.h:set_option_attr"), ("C parameter vector", "libhifir/include/libhifir.h")])
prop("C21", "Containers behave as their models under any operation sequence",
     "Reference-counted and wrapped arrays, sparse vectors, dense matrices, permutations and the augmented linked-list storages behave like simple reference models under every sequence of construction, resize, assignment, copying, wrapping, swapping, insertion, interchange and clearing, with exactly one release of each owned block.",
     ["histories", "inputs"], "all operation sequences",
     "Unit tests cover single operations; ownership and linked-list invariants after long mixed histories are not tested.",
     [S + "ds/Array.hpp", S + "ds/SparseVec.hpp", S + "ds/DenseMatrix.hpp", S + "ds/PermMatrix.hpp", S + "ds/AugmentedStorage.hpp"],
     [("shared arrays", S + "ds/Array.hpp"), ("augmented storage", S + "ds/AugmentedStorage.hpp"), ("sparse vector", S + "ds/SparseVec.hpp")])
prop("C23", "Symmetric mode yields a symmetric preconditioner",
     "When the input is declared symmetric, the preconditioner's leading parts are symmetric: rows and columns use identical permutations and scalings, both triangular factors and both off-diagonal blocks mirror each other, and the product and solve operators are symmetric (Hermitian for real data) up to rounding. A declared positive or negative definite final block gives a solve whose final block has no direction of the opposite sign.",
     ["inputs", "configurations"], "all symmetric matrices and parameters in symmetric mode",
     "Tests run symmetric mode on one or two problems and check only the solution.",
     [S + "alg/symm_factor.hpp", S + "pre/driver.hpp", S + "small_scale/SYEIG.hpp"],
     [("symmetric kernel", S + "alg/symm_factor.hpp"), ("symmetric matching", S + "pre/matching_scaling.hpp"), ("symmetric end level", S + "small_scale/SYEIG.hpp")])
prop("C24", "The preconditioner is effective",
     "With default parameters on the problem families the package targets (convection-diffusion, Helmholtz-like, saddle-point, anisotropic and singular consistent systems), preconditioned GMRES converges to a small residual within a modest number of steps, so does the package's iterative refinement on the nonsingular ones, tightening the parameters does not make it fail, and the fill stays within a small multiple of the input.",
     ["inputs", "configurations"], "all members of the targeted problem families at many sizes and coefficients",
     "The tests solve a few fixed systems with generous iteration limits; degraded dropping, deferral or level hand-over that costs iterations or memory passes them.",
     [S + "alg/factor.hpp", S + "alg/pivot_factor.hpp", S + "alg/symm_factor.hpp", S + "alg/Schur.hpp", S + "pre/driver.hpp"],
     [("multilevel factorization", S + "alg/factor.hpp"), ("preprocessing driver", S + "pre/driver.hpp")])
prop("C25", "Reported statistics match the preconditioner that was built",
     "The reported numbers of stored entries, levels, rows, rank, final-block size and rank, and the deferral and dropping counters equal what can be counted from the stored levels and from the operator itself, right after building and after any later use, update or emptying.",
     ["inputs", "configurations", "histories"], "all matrices, parameters and operation sequences",
     "Tests print the statistics; they are compared with nothing.",
     [S + "builder.hpp", S + "alg/Prec.hpp", "libhifir/src/libhifir.cpp"],
     [("statistics accessors", S + "builder.hpp:nnz, rank, stats"), ("per-level counts", S + "alg/Prec.hpp")])
prop("C26", "Pivot and factor conditioning stays within the configured bounds",
     "In every level the inverse of each scaled pivot is bounded by the configured diagonal threshold for that level, and the estimated inverse norms of the unit triangular factors stay within the configured inverse-norm threshold, because rows and columns violating either are deferred to the next level.",
     ["inputs", "configurations"], "all matrices and thresholds",
     "Tests never inspect pivots or inverse norms; missing deferrals only show up as instability on hard problems.",
     [S + "alg/factor.hpp", S + "alg/pivot_factor.hpp", S + "alg/symm_factor.hpp", S + "alg/Crout.hpp", S + "alg/thresholds.hpp"],
     [("deferral tests", S + "alg/factor.hpp"), ("inverse-norm estimates", S + "alg/Crout.hpp"), ("level-wise thresholds", S + "alg/factor.hpp:determine_fac_pars")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
