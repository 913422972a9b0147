#!/usr/bin/env python3
"""Writes known_findings.json: open findings (OPEN) and the record of repaired
defects (FIXED, resolved to commits by the subject of their commit)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = []
FIXED = [  # (start of the commit subject, property, what failed)
 ("RCM must number every node", "C18", "reorder=RCM on an unsymmetric pattern left nodes unnumbered: invalid permutation, garbage levels"),
 ("QRCP of an all-zero block", "C17", "QRCP of an all-zero Schur complement reported full rank; solve returned inf/nan"),
 ("zero rows or columns must not", "C18", "EqlDriver returned infinite scaling factors for zero rows/columns"),
 ("iterative pre-scaling must not", "C18", "pre_scale=1/2 divided by zero for zero rows/columns: nan scalings"),
 ("a Schur complement without nonzeros", "C12", "an empty (all-zero) Schur complement ended in a spurious allocation-failure exception"),
 ("skipping preprocessing must respect", "C23", "no_pre=1 ignored the symmetric leading block size"),
 ("symmetric factorization of complex Hermitian", "C23", "is_symm=1 with complex Hermitian input mixed transpose and conjugate transpose: wrong factors, wrong solves"),
 ("an entirely deferred symmetric", "C12", "symmetric mode with every row deferred threw an allocation failure"),
 ("extracting a leading block without", "C12", "a leading block without nonzeros threw an allocation failure"),
 ("preprocessing of a block without nonzeros skips", "C12", "matching of a block without nonzeros threw"),
 ("test the index range before", "C04", "compute_leading_block read the mask out of bounds (ASan heap-buffer-overflow)"),
 ("an input without nonzeros", "C12", "an input without stored entries threw an allocation failure"),
 ("pre-scaling and reordering accept", "C12", "pre-scaling/reordering of a block without nonzeros threw"),
 ("the lower and upper drop tolerances", "C19", "tau_L and tau_U were exchanged on levels >= 2: entries kept below / dropped above their threshold"),
 ("truncate the wrong-signed", "C23", "spd=+1/-1 dense block kept wrong-signed eigenvalues (and used a negative threshold): solve opposite in sign on a subspace"),
 ("several right-hand sides in the symmetric dense", "C09", "SYEIG::solve_mrhs/multiply_mrhs addressed column i*Nrhs (out of bounds) and multiply divided"),
 ("several right-hand sides keep the solution", "C09", "multi-vector solve lost the next level's solution (reversed copies) and undersized its work space: wrong results / out-of-bounds for multi-level preconditioners"),
 ("assigning and copying moved-from", "C21", "assigning to or copying from moved-from or aliasing arrays: double release / wrong sharing"),
 ("the transposed product with several vectors conj", "C16", "the multi-vector transposed product did not conjugate while the single-vector one does"),
 ("transposed lower triangular solves with several", "C16", "transposed strict lower triangular solves with several right-hand sides skipped entries"),
 ("pruning compares with the largest entry", "C16", "prune compared with the wrong row/column maxima"),
 ("validity checking detects", "C12", "check_validity accepted decreasing or missing offsets and read out of bounds"),
 ("wrapping user columns checks", "C12", "wrap_const_ccs checked nrows columns: out of bounds for rectangular input"),
 ("the transposed product of a matrix without rows", "C16", "transposed product of a 0 x n matrix left the output unset"),
 ("reject matrices with too short", "C12", "matrices with too short arrays were read out of bounds instead of being rejected"),
 ("a failed factorization does not leave", "C12", "a failed factorization left an incomplete hierarchy that later solves dereferenced"),
 ("the sizes of an object that was never built", "C07", "statistics/sizes of a never built object were uninitialised"),
 ("reject vectors that do not fit", "C12", "vectors of the wrong size were read/written out of bounds"),
 ("offsets of another integer type", "C08", "matrices whose offsets use another integer type than the library's were read through reinterpreted pointers: garbage or out-of-bounds"),
 ("the Hif alias respects its index type", "C08", "the Hif alias ignored its index type argument"),
 ("a new factorization never reuses the work space", "C07", "after re-factorizing with another size the previous work space was used: out-of-bounds / history-dependent results"),
 ("reject a leading symmetric block larger", "C12", "a leading symmetric block size beyond the matrix was used unchecked (out-of-bounds)"),
 ("wrapping user arrays rejects negative", "C12", "wrapping arrays with negative (or, one-based, zero) indices was accepted and read out of bounds"),
 ("wrapping user rows keeps the offset type", "C16", "wrap_const_crs/ccs did not compile/kept the wrong offset type for index types other than the default"),
 ("pruning handles 1-based offsets", "C16", "prune() of a one-based matrix indexed with unshifted offsets: entries lost, out-of-bounds"),
 ("coordinates without entries give", "C16", "assembling a matrix from an empty list of coordinates threw an allocation failure"),
 ("products of an empty dimension with several", "C16", "multi-vector products over an empty dimension left the result untouched instead of zero"),
 ("permuting accepts an empty block", "C16", "extracting an empty leading block by permutation threw an allocation failure"),
 ("dense factorizations keep the given block", "C17", "QRCP/LUP/SYEIG::set_matrix(const DenseMatrix<T>&) of the solver's own type shared the block, so factorizing overwrote the caller's matrix"),
 ("transposed solves with LU are", "C17", "LUP::solve(tran) of complex blocks solved with the plain transpose, unlike QRCP/SYEIG"),
 ("preprocessing of a block without nonzeros keeps", "C18", "do_preprocessing on level>1 with a block without nonzeros decremented the input's index arrays"),
 ("matching of columns with many equally", "C18", "MC64 kernel: dense 9x9 columns with tied best rows overwrote the row list by the second queue: entries above one after scaling, wrong matching"),
 ("reading options from a stream", "C20", "operator>> skipped `pivot`: every later option was read one position off"),
 ("the name of the verbose levels", "C20", "get_verbose left out `info` when `warning` was set"),
 ("augmented structures can be built", "C21", "AugCRS::build_aug of a column-wise matrix and AugCCS::build_aug of a moved column-wise matrix did not compile"),
 ("an array whose allocation failed", "C21", "Array(n, data) kept size n without data after a failed allocation"),
 ("an array that cannot grow", "C21", "a failed resize/reserve left the array pointing to released memory (stores after the destructor are dead)"),
 ("an empty matrix handle has", "C14", "lhf?GetMatrixNnz dereferenced the null arrays of an empty handle"),
 ("lhfcCreate checks whether", "C14", "lhfcCreate used a null object after a failed allocation"),
 ("lhf?Apply uses the given rank", "C14", "lhf?Apply ignored its rank argument without refinement and in multiplications"),
 ("a failed setup or update keeps", "C14", "failed lhf?Setup/Update/sdUpdate/czUpdate replaced the matrices in use"),
 ("lhf?ReadSparse refuses", "C14", "lhf?ReadSparse of a file with an empty matrix wrote through a null pointer of an empty handle"),
 ("lhfQueryMmFile reports what", "C15", "lhfQueryMmFile let exceptions escape into C, reported stored instead of actual nonzeros of symmetric files and sizes of dense files against its documentation"),
 ("long words in the first line", "C15", "banner tokens above 64 characters overflowed stack buffers"),
 ("entries of a symmetric MatrixMarket", "C15", "symmetric file with only diagonal entries was read with uninitialised entries appended"),
 ("the line of sizes of a MatrixMarket", "C15", "blank lines, comments and non-numeric tokens before the sizes were misread or looped forever; negative sizes accepted"),
 ("MatrixMarket files with invalid", "C15", "indices out of range/of the index type, non-square symmetric files and unallocatable sizes were read out of bounds"),
 ("verbose levels of the C interface", "C14", "LHF_VERBOSE_* were one bit lower than the C++ levels: every level switched on another one"),
 ("lhfEnableWarning and lhfDisableWarning", "C14", "declared C functions without definition: programs using them did not link"),
 ("matrix handles without arrays", "C14", "setting up/refactorizing/refining with an empty matrix handle dereferenced null arrays"),
 ("bounded refinement refuses an empty", "C12", "bounded refinement of a zero right-hand side reported success on an empty preconditioner and with vectors of other sizes"),
 ("wrapping user arrays rejects decreasing", "C12", "checked wrapping of user arrays read out of bounds when the offsets decrease instead of refusing them"),
 ("parallel regions divide the work", "C05", "products and builds computed only a part when the OpenMP team was smaller than requested (e.g. called inside a parallel region)"),
 ("parallel dropping handles rows without", "C05", "parallel dropping with a non-positive space limit selected before the first entry (out of bounds) where the sequential one drops everything"),
    ("size limits beyond the range of sizes no longer convert to zero", "C04", "alpha, c_d or rho so large that the limit exceeds the range of sizes (1e30, infinity: 'no limit') was converted out of range: undefined, on this machine zero, i.e. the tightest limit"),
    ("verbose factorization reports levels whose pivots were all deferred", "C04", "VERBOSE_FAC read the first element of empty ranges when every pivot of a level had been deferred"),
]
EXTRA = os.path.join(V, "tools", "fixed_extra.json")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
if os.path.exists(EXTRA):
    d = json.load(open(EXTRA))
    FIXED += [tuple(x) for x in d.get("fixed", [])]
    OPEN += d.get("open", [])
out, used = list(OPEN), set()
for sub, prop, what in FIXED:
    h = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + sub)]
    if len(h) != 1:
        raise SystemExit("no unique commit for %r: %r" % (sub, h))
    used.add(h[0])
    out.append({"status": "fixed", "property": prop, "what": "fixed: property=%s %s %s" % (prop, h[0].split()[0], what)})
for l in log:
    if " fix:" in l and l not in used:
        print("unrecorded:", l)
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(OPEN), "open", len(out) - len(OPEN), "fixed")
