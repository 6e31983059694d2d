#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run tools/gen.py to regenerate it)."""

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": anchors}

B = "include/tlapack/blas/"
L = "include/tlapack/lapack/"
BASE = "include/tlapack/base/"
PL = "include/tlapack/plugins/"
LEG = "include/tlapack/legacy_api/"

PROPS = [
P("C01", "Matrix products and rank updates equal their mathematical definition",
  "For every shape (including empty), storage layout, element type (including mixed types), scalar pair alpha/beta and every combination of transposition, triangle, side and diagonal options, a matrix-vector or matrix-matrix product, rank-1/rank-2 or rank-k/rank-2k update returns the value of its defining formula up to rounding (a matrix-vector product with an empty dimension may return at once). Omitting beta means the previous content of the output does not influence the result, Hermitian updates leave an exactly real diagonal, and block-size options do not change the result beyond rounding.",
  ["inputs", "configurations"],
  "every option combination x every small shape x every operand value over a small exact alphabet, x scalar alphabet {0,1,-1,generic,complex} x layouts x types x block sizes",
  "The suite checks each product on a handful of sizes with random data, mostly with one scalar pair and one layout per test, and several triangular/Hermitian variants have no test of their own.",
  [B+"gemm.hpp", B+"gemv.hpp", B+"symm.hpp", B+"hemm.hpp", B+"syrk.hpp", B+"herk.hpp", B+"syr2k.hpp", B+"her2k.hpp", B+"trmm.hpp", B+"trmv.hpp", B+"hemv.hpp", B+"symv.hpp", B+"ger.hpp", B+"geru.hpp", B+"her.hpp", B+"her2.hpp", B+"syr.hpp", B+"syr2.hpp", L+"gemmtr.hpp", L+"hemm2.hpp", L+"trmm_out.hpp", L+"mult_hehe.hpp", L+"trmm_blocked_mixed.hpp"],
  [("explicit loop nest per option combination; separate beta and no-beta overloads", B+"gemm.hpp"), ("StrongZero as beta in the no-beta overloads", BASE+"StrongZero.hpp"), ("blocked/recursive variants built on the unblocked kernels", L+"mult_hehe.hpp")],
  ["output operand of each public routine"]),

P("C02", "Triangular solves and inverses satisfy their defining equations",
  "For every side, triangle, transposition and diagonal option, shape, layout, element type and scaling factor, a triangular solve returns an X whose substitution into the equation leaves a residual at rounding level, and a triangular inversion returns the inverse of that same triangle. With a unit diagonal the stored diagonal has no influence, and an inversion that meets an exactly zero diagonal entry reports the position of that entry instead of claiming success.",
  ["inputs", "configurations"],
  "every option combination x every small shape x alpha alphabet x well-conditioned exact triangular matrices (all off-diagonal patterns over a small alphabet) x layouts x types x block/recursion variants",
  "The suite exercises trsm/trtri on a few random sizes; most side/trans/diag combinations of the generic code are only reached through other algorithms.",
  [B+"trsv.hpp", B+"trsm.hpp", L+"trsm_tri.hpp", L+"trtri_recursive.hpp"],
  [("forward/backward substitution loop per option combination", B+"trsm.hpp"), ("recursive halving", L+"trtri_recursive.hpp")],
  ["solution operand", "returned info"]),

P("C03", "Vector kernels compute their definition for any length, stride and direction",
  "Sums of absolute values, scaled additions, copies, dot products (conjugated and unconjugated), scaling, swapping, plane rotations, modified rotations, index of the largest entry, conjugation and Euclidean norms return their definition for every length (including 0 and 1), every stride and traversal direction of each vector view, and every element type. Index of the largest entry returns the first maximal position under the documented magnitude measure (with the NaN check, which is the default: the first NaN if there is one, otherwise the first infinity if there is one).",
  ["inputs", "configurations"],
  "every vector over a small value alphabet up to a length bound x stride x direction x type, for every level-1 routine; every generator/consumer pair of plane and modified plane rotations over an exponent/sign lattice",
  "Tests cover iamax special values and a few random vectors; strided and backward views, ties and modified rotations are essentially untested.",
  [B+"asum.hpp", B+"axpy.hpp", B+"copy.hpp", B+"dot.hpp", B+"dotu.hpp", B+"iamax.hpp", B+"nrm2.hpp", B+"rot.hpp", B+"rotg.hpp", B+"rotm.hpp", B+"rotmg.hpp", B+"scal.hpp", B+"swap.hpp", L+"conjugate.hpp", L+"rscl.hpp"],
  [("element-wise loop over the vector view", B+"axpy.hpp"), ("strict greater-than comparison keeps the first maximum", B+"iamax.hpp"), ("flag-coded 2x2 transformations", B+"rotm.hpp")],
  ["returned scalar", "contents of both vectors"]),

P("C04", "Routines read only referenced data and write only their documented outputs",
  "A routine's result never depends on data it is documented not to reference: the opposite triangle of a triangular, symmetric or Hermitian operand, the diagonal of a unit-triangular operand, an output passed with beta zero, padding between columns or rows of a view, or elements outside the view. It never writes to inputs documented as constant, to the unreferenced triangle, or to memory outside its output views.",
  ["inputs", "configurations"],
  "every routine x every option combination x every small shape, with every unreferenced location poisoned by NaN and every non-output location compared bit for bit before and after the call",
  "Tests build dense full matrices and compare final residuals; a stray read of the other triangle that happens to hold consistent data, or a write past the view, is invisible to them.",
  [B, L+"potrf_blocked.hpp", L+"potf2.hpp", L+"hetrf.hpp", L+"lauum_recursive.hpp", L+"trtri_recursive.hpp", L+"laset.hpp", L+"lacpy.hpp", L+"lantr.hpp", L+"lanhe.hpp", L+"hetd2.hpp"],
  [("loop bounds restricted to the referenced triangle", L+"potf2.hpp"), ("no-beta overloads with StrongZero", BASE+"StrongZero.hpp")],
  ["all memory of every operand's backing buffer"]),

P("C05", "Submatrix, row, column, diagonal and vector views alias exactly the named elements",
  "Every chain of view operations (slice, rows, columns, single row or column, diagonal, transposed view, reshape) on every supported array type, layout, stride and direction yields a view whose (i,j) element is exactly the element of the underlying array that the composition of index maps names. Sizes, layout queries and newly created arrays agree with what was requested; reshaping that succeeds preserves aliasing and splits memory into disjoint parts, and reshaping that cannot be done safely is refused rather than corrupting memory.",
  ["programs", "configurations"],
  "all states reachable by composing view operations up to a depth bound on all small base arrays (matrix, vector, banded; forward/backward; strided), compared with an index-map model",
  "Tests slice one matrix a few ways through algorithms; no test composes views or checks negative-direction vectors.",
  [PL+"legacyArray.hpp", PL+"stdvector.hpp", "include/tlapack/LegacyMatrix.hpp", "include/tlapack/LegacyVector.hpp", "include/tlapack/LegacyBandedMatrix.hpp", BASE+"arrayTraits.hpp", BASE+"utils.hpp"],
  [("pointer offset + leading dimension arithmetic per layout", PL+"legacyArray.hpp"), ("contiguity checks before reshape", PL+"legacyArray.hpp")],
  ["address of every element of every reachable view"]),

P("C06", "Orthogonal factorizations (QR, LQ, QL, RQ) reproduce the input with orthogonal Q",
  "Every unblocked, blocked, recursive or compact-WY variant of the QR, LQ, QL and RQ factorizations, for every shape and block size, yields a trapezoidal factor and reflectors whose product equals the input to rounding, with Q orthogonal/unitary to rounding. All variants of the same factorization agree with each other up to rounding when they define the same factor.",
  ["inputs", "configurations"],
  "every small m x n shape, plus shapes around block-size boundaries, x every block size x layout x type x structured data families (zero columns, real-only complex columns, rank deficient, graded, tiny/huge scale, generic)",
  "Tests use a few m,n,nb triples with one random matrix each; blocks larger than the matrix, nb not dividing, rank-deficient and graded inputs are not sampled systematically.",
  [L+"geqr2.hpp", L+"geqrf.hpp", L+"geqrt3.hpp", L+"gelq2.hpp", L+"gelqf.hpp", L+"gelqt.hpp", L+"geql2.hpp", L+"geqlf.hpp", L+"gerq2.hpp", L+"gerqf.hpp", L+"householder_qr.hpp", L+"householder_lq.hpp", L+"householder_ql.hpp", L+"householder_rq.hpp", L+"trge_qr2.hpp", L+"trge_ung2r.hpp", L+"hessenberg_rq.hpp"],
  [("Householder reflector per column/row", L+"larfg.hpp"), ("panel + larft/larfb trailing update", L+"geqrf.hpp")],
  ["factor, tau and T-matrix outputs; explicitly formed Q"]),

P("C07", "Reflectors annihilate, and generating or applying Q is consistent with them",
  "An elementary reflector generated from any vector is unitary, maps that vector to a multiple of the first (or last) unit vector with real coefficient, and is stored as documented for every direction and storage mode. A block reflector equals the product of its elementary reflectors, and applying Q or its conjugate transpose from either side, or generating any leading/trailing part of Q, equals multiplying by that explicit product for every option and block size.",
  ["inputs", "configurations"],
  "every vector over a small alphabet up to a length bound x direction x store mode x type for single reflectors; every side/trans/direction/store-mode/shape/k/block-size combination for block reflectors and Q generation/application",
  "Tests check only selected block-reflector option combinations at a few sizes with random reflectors.",
  [L+"larfg.hpp", L+"larf.hpp", L+"larft.hpp", L+"larfb.hpp", L+"ung2r.hpp", L+"ung2l.hpp", L+"ungl2.hpp", L+"ungr2.hpp", L+"ungqr.hpp", L+"unglq.hpp", L+"ungql.hpp", L+"ungrq.hpp", L+"ungq.hpp", L+"ungq_level2.hpp", L+"unm2r.hpp", L+"unm2l.hpp", L+"unml2.hpp", L+"unmr2.hpp", L+"unmqr.hpp", L+"unmlq.hpp", L+"unmql.hpp", L+"unmrq.hpp", L+"unmq.hpp", L+"unmq_level2.hpp", L+"gen_householder_q.hpp", L+"householder_q_mul.hpp"],
  [("scaled norm and beta sign choice", L+"larfg.hpp"), ("triangular T accumulation and three-multiply block application", L+"larfb.hpp")],
  ["C after application; generated Q; tau, v, T"]),

P("C08", "LU factorization with partial pivoting, its products and its inverses are correct",
  "Every LU variant returns pivots and factors with P*A = L*U to rounding for every shape, |L| entries bounded by one in the pivoting measure, and pivots in range; it returns 0 exactly when no zero pivot was met and otherwise the one-based position of the first exactly zero pivot. Every inversion variant started from such factors returns the inverse to rounding (or reports singularity), and in-place L*U and U*L products equal the explicit product.",
  ["inputs", "configurations"],
  "every matrix over a small exact alphabet at tiny shapes (all pivoting paths, all singular patterns) and structured families at larger shapes x all algorithm variants x layouts x types",
  "Tests use random (hence non-singular, tie-free) matrices on a few sizes; pivot ties, zero columns and singular returns are unsampled.",
  [L+"getrf.hpp", L+"getrf_level0.hpp", L+"getrf_recursive.hpp", L+"getri.hpp", L+"getri_uili.hpp", L+"getri_uxli.hpp", L+"lu_mult.hpp", L+"ul_mult.hpp"],
  [("pivot search by largest magnitude and row interchange", L+"getrf_level0.hpp"), ("recursive split with pivot offset composition", L+"getrf_recursive.hpp")],
  ["A, piv, info"]),

P("C09", "Cholesky factorizations, solves and inverses are correct for every variant",
  "For every Hermitian positive-definite input, triangle, block size and algorithm variant (including banded and tridiagonal forms) the factor reproduces the input, the solve satisfies the system, the inverse is the inverse and triangular self-products equal their definition, all to rounding. For every other input the routine reports the one-based order of the first leading principal submatrix that is not positive definite instead of claiming success.",
  ["inputs", "configurations"],
  "every small exact matrix over an integer alphabet (definite, semi-definite, indefinite) and every position of an injected indefiniteness at larger orders x variants x block sizes x bandwidths x triangle x layout x type",
  "Tests factor random diagonally dominant matrices; failure positions across block boundaries are not enumerated.",
  [L+"potrf.hpp", L+"potf2.hpp", L+"potrf2.hpp", L+"potrf_blocked.hpp", L+"potrf_blocked_right_looking.hpp", L+"potri.hpp", L+"potrs.hpp", L+"pttrf.hpp", L+"pbtrf_with_workspace.hpp", L+"lauum_recursive.hpp", L+"mult_llh.hpp", L+"mult_uhu.hpp"],
  [("positive pivot test and info offset per block", L+"potrf_blocked.hpp"), ("recursive split with info offset", L+"potrf2.hpp")],
  ["A, info"]),

P("C10", "Symmetric-indefinite LDL factorization reproduces every Hermitian or symmetric input",
  "For every symmetric or Hermitian matrix, triangle and block size of at least two, the indefinite factorization with 1x1 and 2x2 pivots reproduces the input to rounding relative to its norm, with a well-formed pivot vector and (for Hermitian input) a real diagonal. It returns zero unless a 1x1 pivot is exactly zero, in which case it reports the first such position in elimination order and the factorization is still valid.",
  ["inputs", "configurations"],
  "every symmetric/Hermitian matrix over a small alphabet up to a bound on the order (all 1x1/2x2 pivot sequences) and pattern families at orders crossing block boundaries x triangle x block size x type",
  "The suite factors a few random matrices; specific pivot sequences (2x2 pivot straddling a block edge, zero diagonals) are not reached deliberately.",
  [L+"hetrf.hpp", L+"hetrf_blocked.hpp", L+"hetf3.hpp"],
  [("bounded pivoting search", L+"hetf3.hpp"), ("blocked panel and trailing update", L+"hetrf_blocked.hpp")],
  ["A, ipiv, info"]),

P("C11", "Two-sided reductions to condensed form are orthogonal similarities/equivalences",
  "Reduction to Hessenberg, Hermitian tridiagonal, bidiagonal, or Hessenberg-triangular form (blocked or not, on the full range or on an active sub-range) gives a matrix of exactly the advertised shape which, together with the returned orthogonal/unitary factors, reproduces the input to rounding. Generated and implicitly applied orthogonal factors agree, rows and columns outside the active range are only transformed as the definition requires, and block sizes or crossover thresholds do not change correctness.",
  ["inputs", "configurations"],
  "every small order/shape x every active range x block size x crossover x triangle x layout x type x structured data families",
  "Tests sample few (n, ilo, ihi, nb) combinations; default block sizes exceed the tested orders, so the default blocked paths are rarely taken.",
  [L+"gehd2.hpp", L+"gehrd.hpp", L+"lahr2.hpp", L+"hessenberg.hpp", L+"unghr.hpp", L+"unmhr.hpp", L+"hetd2.hpp", L+"ungtr.hpp", L+"gebd2.hpp", L+"gebrd.hpp", L+"labrd.hpp", L+"bidiag.hpp", L+"ungbr.hpp", L+"gghrd.hpp", L+"gghd3.hpp"],
  [("reflector from both sides per column", L+"gehd2.hpp"), ("panel factorization with delayed updates", L+"labrd.hpp")],
  ["reduced matrix, tau, explicit Q/Z"]),

P("C12", "Singular value decompositions are valid for every shape and vector request",
  "For every matrix shape and every request for left/right singular vectors the singular values are non-negative, sorted in decreasing order and equal the true ones to rounding relative to the norm, requested vectors are orthonormal, and together they reproduce the input. The result for values does not depend on which vectors were requested, and the bidiagonal solver handles zeros on the diagonal or off-diagonal, either triangle, and accumulates into given bases correctly.",
  ["inputs", "configurations"],
  "every bidiagonal over a small alphabet (zeros, ties, signs, tiny entries) up to an order bound x triangle x vectors requested; every dense shape across the tall/wide crossover x all flag combinations x types",
  "Tests take random dense matrices for a few shapes; zero diagonals, splits and ties are not enumerated.",
  [L+"svd_qr.hpp", L+"gesvd.hpp", L+"svd22.hpp", L+"singularvalues22.hpp", L+"gebrd.hpp", L+"bidiag.hpp"],
  [("implicit zero-shift and shifted QR sweeps, sort at end", L+"svd_qr.hpp"), ("QR/LQ preprocessing for tall/wide", L+"gesvd.hpp")],
  ["s, U, Vt, info"]),

P("C13", "Symmetric tridiagonal eigensolver and divide-and-conquer kernels are correct",
  "For every real symmetric tridiagonal matrix whose entries can be squared without overflow or harmful underflow the eigensolver returns success with eigenvalues in increasing order, equal to the true ones to rounding relative to the norm, and vectors that are orthonormal and reproduce the input; values do not depend on whether vectors are requested. The merge permutation and the sort return, for every valid input, a sorted permutation of it. The secular-equation kernels return roots that interlace the poles, satisfy the secular equation to rounding and come with pole distances of matching accuracy; they may report failure only for the last root when the last two poles nearly coincide and carry negligible weight.",
  ["inputs", "configurations"],
  "every tridiagonal over a small alphabet up to an order bound; every pair of sorted lists and strides for merging; every pole/weight/rho lattice point for the secular solvers",
  "The suite runs a few random or hand-made matrices; splitting branches and degenerate poles are hit by luck only.",
  [L+"steqr.hpp", L+"lae2.hpp", L+"laev2.hpp", L+"laed4.hpp", L+"laed5.hpp", L+"laed6.hpp", L+"lamrg.hpp", L+"lasrt.hpp"],
  [("implicit QL/QR with Wilkinson shifts and splitting", L+"steqr.hpp"), ("rational interpolation with safeguards", L+"laed4.hpp")],
  ["d, e, Q, permutations, delta, info"]),

P("C14", "Schur decomposition is a unitary similarity to (quasi-)triangular form",
  "For every square Hessenberg matrix and active range, each QR-iteration variant (double-shift, multishift with aggressive early deflation, any deflation-window and shift-count options) returns success with an upper (quasi-)triangular matrix whose 2x2 blocks are standardised, eigenvalues that match its diagonal blocks, and accumulated vectors that are unitary and reproduce the input. Asking for eigenvalues only, or for the Schur form without vectors, gives eigenvalues that are as accurate (same power sums to rounding). The multishift variant needs nmin >= 15 and leaves workspace data below the first subdiagonal.",
  ["inputs", "configurations"],
  "every Hessenberg matrix over a small alphabet up to an order bound x active range x want flags; larger structured families x all iteration options x types",
  "Tests use random plus a few special matrices with a single option set; defective, split and tiny-subdiagonal patterns are not enumerated.",
  [L+"lahqr.hpp", L+"lahqr_eig22.hpp", L+"lahqr_schur22.hpp", L+"lahqr_shiftcolumn.hpp", L+"multishift_qr.hpp", L+"multishift_qr_sweep.hpp", L+"aggressive_early_deflation.hpp", L+"move_bulge.hpp", L+"qr_iteration.hpp", L+"FrancisOpts.hpp"],
  [("deflation criterion and bulge chasing", L+"lahqr.hpp"), ("AED window with reordering", L+"aggressive_early_deflation.hpp")],
  ["A, w, Z, info"]),

P("C15", "Generalized Schur decomposition is a unitary equivalence of the pencil",
  "For every Hessenberg-triangular pencil (A,B) of moderate magnitude (including singular B, infinite and multiple eigenvalues, split pencils, identity and scaled B) and every active range [ilo,ihi), lahqz and multishift_qz (every shift count, window size and threshold, including tiny and oversized requests) return success with A quasi-triangular and B triangular on the active range, alpha/beta equal to the diagonals of 1x1 blocks and to the eigenvalues of 2x2 blocks (real case only, whose B block is diagonal), and Q and Z unitary with Q S Z^H = A, Q T Z^H = B. Without aggressive early deflation every 1x1 block but the topmost has a real non-negative B diagonal. Requests without Schur form or without one or both vector sets give the same eigenvalues to backward-stable rounding and, where requested, the same transformation; given bases are post-multiplied. gghrd reduces every (A, triangular B) with ilo<ihi to Hessenberg-triangular form by the same kind of equivalence, changing nothing outside the range's rows and columns.",
  ["inputs", "configurations"],
  "every pencil over a small alphabet up to an order bound x active range x want flags; every zero pattern of diag(B) and subdiag(A); 30 Hessenberg families x 12 triangular families x options x types up to n=100",
  "Tests use random B (non-singular) with one fixed structure; zero patterns on the diagonal of B are hardly sampled and partial requests are not compared.",
  [L+"lahqz.hpp", L+"lahqz_eig22.hpp", L+"lahqz_shiftcolumn.hpp", L+"multishift_qz.hpp", L+"multishift_qz_sweep.hpp", L+"aggressive_early_deflation_generalized.hpp", L+"inv_house3.hpp", L+"gghrd.hpp"],
  [("infinite-eigenvalue deflation by chasing zeros", L+"lahqz.hpp"), ("implicit double-shift sweep", L+"lahqz.hpp")],
  ["A, B, alpha, beta, Q, Z, info"]),

P("C16", "Reordering a Schur form preserves the decomposition along every sequence of moves",
  "Starting from any (generalized) Schur form, every sequence of adjacent-block swaps and eigenvalue moves leaves a valid Schur form whose accumulated transformations are unitary and reproduce the original matrices, with the eigenvalues permuted as requested and 2x2 blocks kept intact. A swap that cannot be done accurately is reported and leaves the decomposition valid.",
  ["histories", "inputs"],
  "all states reachable by adjacent swaps and moves from every block structure (all patterns of 1x1/2x2 blocks) up to an order bound, x value families",
  "The suite performs single moves on a handful of random matrices; sequences and all block-pattern combinations are not explored.",
  [L+"schur_swap.hpp", L+"schur_move.hpp", L+"generalized_schur_swap.hpp", L+"generalized_schur_move.hpp", L+"lasy2.hpp"],
  [("direct swap via Sylvester solve and QR", L+"schur_swap.hpp"), ("bubble loop over blocks", L+"schur_move.hpp")],
  ["T, Q, S, Z, ifst/ilst, info"]),

P("C17", "Eigenvectors of (quasi-)triangular matrices are eigenvectors, for every selection",
  "For every (quasi-)triangular matrix in Schur canonical form, including ones with repeated eigenvalues, the left and right eigenvectors computed for all eigenvalues, a selected subset, or back-transformed by a given basis are non-zero and finite and satisfy T*x = w*x (right) or y^H*T = w*y^H (left) to rounding relative to the norms of T and the vector; a selected member of a complex pair yields the pair's two columns, selected vectors are stored consecutively in the order of their eigenvalues, and nothing else of the output is written. Back-transformed vectors equal the basis times the vectors of T, and selected vectors of the unblocked variant equal the ones of the full computation. The unblocked variant does not overflow even for entries near the overflow threshold; the blocked variant is only claimed where the vectors do not outgrow the range.",
  ["inputs", "configurations"],
  "every quasi-triangular matrix over a small alphabet up to an order bound x every selection subset x side x back-transformation mode x blocking x types, plus scaling extremes",
  "Tests check all-eigenvector mode on a few random matrices; subset selections, repeated eigenvalues and growth protection are scarcely sampled.",
  [L+"trevc.hpp", L+"trevc3.hpp", L+"trevc_backsolve.hpp", L+"trevc_forwardsolve.hpp", L+"trevc3_backsolve.hpp", L+"trevc3_forwardsolve.hpp", L+"trevc_protect.hpp"],
  [("scaled back substitution with growth control", L+"trevc_backsolve.hpp"), ("blocked back-transformation", L+"trevc3.hpp")],
  ["Vl, Vr"]),

P("C18", "Matrix and vector norms equal their definition for every structure",
  "Max, one, infinity and Frobenius norms of general, symmetric, Hermitian and triangular matrices, and norms of vectors, equal their definition over exactly the referenced entries for every shape (zero for empty), triangle and diagonal option, layout and type. The Hermitian norms ignore imaginary parts stored on the diagonal, unit-diagonal norms count ones on the diagonal of the min(m,n) leading part, workspace variants agree with allocation-free variants, and no intermediate overflow or underflow spoils a representable Frobenius norm.",
  ["inputs", "configurations"],
  "every norm x structure x triangle x diag x all small shapes x every matrix over a small alphabet incl. scale extremes, against an independent definition",
  "Tests compare a few norms on random matrices mainly through other tests.",
  [L+"lange.hpp", L+"lanhe.hpp", L+"lansy.hpp", L+"lantr.hpp", L+"infnorm_colmajor.hpp", L+"infnorm_hermitian_colmajor.hpp", L+"infnorm_symmetric_colmajor.hpp", L+"infnorm_triangular_colmajor.hpp", L+"lassq.hpp"],
  [("running max that keeps NaN", L+"lange.hpp"), ("scaled sum of squares", L+"lassq.hpp")],
  ["returned norm"]),

P("C19", "Scaling-safe kernels neither overflow, underflow nor lose accuracy spuriously",
  "Euclidean norms and sums of squares, hypotenuse functions, complex division, reciprocal scaling, plane-rotation generation, scalar matrix scaling and reflector generation return a result of full relative accuracy whenever the exact result is representable, for operands of any magnitude from the smallest subnormal to the largest finite number (complex quotients normwise; results in the subnormal range to a few units of the smallest subnormal; reciprocal scaling of subnormal entries may round before the scale is undone; reflectors for vectors of norm at most half the largest number). Rotation generation returns c and s with c^2+|s|^2=1 that annihilate the second entry, and zero operands take the documented special values.",
  ["inputs"],
  "the full lattice of operand exponents (every binade, or a dense grid of binades including all threshold neighbours) x signs x mantissa corner cases for each kernel and precision",
  "Tests try a few hand-picked extreme values; threshold neighbourhoods of each branch are not swept.",
  [B+"nrm2.hpp", B+"rotg.hpp", B+"lartg.hpp", L+"lassq.hpp", L+"lapy2.hpp", L+"lapy3.hpp", L+"ladiv.hpp", L+"rscl.hpp", L+"lascl.hpp", L+"larfg.hpp", BASE+"constants.hpp"],
  [("three accumulators with Blue constants", L+"lassq.hpp"), ("scaling thresholds safe_min/safe_max", BASE+"constants.hpp"), ("iterated rescaling", L+"larfg.hpp")],
  ["returned values"]),

P("C20", "A workspace as large as the query answers is sufficient and its contents never matter",
  "Every routine with a workspace query, given a contiguous workspace (matrix or vector) of exactly the amount its query returns for those sizes and options, completes without touching memory outside it and returns bit-for-bit the same results for every initial workspace content, and the same results to rounding as the self-allocating call. The query's own arithmetic (maximum, sum and transposition of requirements) never under-reports, and every degenerate empty problem can be queried.",
  ["inputs", "configurations"],
  "every workspace-taking routine x every small shape and option x adversarial workspace contents (NaN, huge, zero) in a guard-banded buffer of exactly the queried size",
  "The suite nearly always calls the self-allocating overloads and never checks guard bands or dirty workspaces.",
  [BASE+"workspace.hpp", L, B],
  [("worksize queries mirrored by reshape of the work array", BASE+"workspace.hpp"), ("WorkInfo minMax and +=", BASE+"workspace.hpp")],
  ["guard bands, outputs, query result"]),

P("C21", "Invalid arguments are rejected before any operand is modified",
  "With argument checking enabled, a call to a routine that checks its arguments (the level 1-3 BLAS templates; the LU, Cholesky, LDL, triangular inversion and product, norm, copy, scaling, transposition, Householder factorization/generation/application, reduction, QR/QZ iteration, rotation sequence, Schur swap and Tikhonov routines) throws before writing to any operand when the shapes of its operands are inconsistent or an option value is outside the documented set, while every consistent call, including every degenerate empty one, is accepted. The block reflector, unitary generation and unitary application routines may instead return at once when an operand is empty. Compiling the checks out does not change the result of valid calls.",
  ["inputs", "configurations"],
  "every routine x every option value (valid and invalid) x every base shape including zero dimensions x every deviation of up to two (three) operand dimensions, comparing acceptance and operand contents with a table of documented preconditions; every valid call is repeated in a build without checks and compared bit for bit",
  "Tests contain a few throws-checks; the cross product of perturbed operands is not enumerated.",
  [BASE+"exceptionHandling.hpp", BASE+"utils.hpp", B, L],
  [("tlapack_check preconditions at entry", BASE+"exceptionHandling.hpp")],
  ["exception raised; operand bytes"]),

P("C22", "NaN and infinity are detected and propagated, never silently dropped",
  "Detection routines report a NaN or infinity exactly when one exists in the inspected region; the index-of-maximum returns the first NaN if there is one, else the first infinity. A NaN placed in any referenced entry or scalar of a product, update, triangular solve, norm or dot product with non-zero scalars reaches exactly the output entries that depend on it by the definition; an infinity in an operand of a product, update, norm or dot product of otherwise positive data makes exactly the dependent entries infinite (non-finite for complex data). A NaN in any referenced entry of the input of a factorization, reduction, inversion, Schur, eigenvalue or singular value routine does not prevent the call from ending and is either reported by a non-zero info or visible in the output.",
  ["inputs"],
  "every placement of one or two special values (NaN, +Inf, -Inf, in real or imaginary part) in every position of every operand at small shapes x all options",
  "Tests cover NaN in iamax and norms at single positions.",
  [L+"hasnan.hpp", L+"hasinf.hpp", B+"iamax.hpp", L+"lange.hpp", L+"lantr.hpp", L+"lansy.hpp", L+"lanhe.hpp", B+"gemm.hpp", B+"nrm2.hpp", L+"lassq.hpp", L+"lapy2.hpp", L+"lapy3.hpp", BASE+"utils.hpp"],
  [("NaN-aware comparisons", L+"lange.hpp"), ("no skip on zero operand", B+"gemm.hpp")],
  ["outputs and booleans"]),

P("C23", "Legacy, C, CBLAS and Fortran interfaces compute what the templates compute",
  "Every pointer-based routine of the legacy BLAS and LAPACK interface, the C and CBLAS headers and the Fortran module (axpy, snrm2, ssymm) returns the result its definition gives for the matrix or vector that (pointer, layout, sizes, leading dimension, increment) denote: for every layout argument, option, size (including zero), leading dimension, positive or negative increment (where the routine accepts it) and scalar. Constant operands are never written, elements outside the operand or in an unreferenced triangle are neither read nor written, row-major calls equal column-major calls on transposed storage, and both C headers are self-contained. In builds with input checks an undefined option value, a leading dimension that is too small, or (where representable) a negative matrix size is rejected by an exception before any operand is changed; a negative length of a vector operation may instead be treated as an empty vector. Uplo::General, which some routines accept without documenting it, is outside the claim.",
  ["inputs", "configurations"],
  "every exported BLAS entry point and every legacy LAPACK routine x layout x options x shapes up to 3-5 x padded leading dimensions x increments {1,2,-1,-3} x scalar alphabet against the definition",
  "No unit test calls the C/CBLAS wrappers, and the legacy API is hardly covered by the suite.",
  ["src/tlapack_cwrappers.cpp", "include/tlapack.h.in", "include/tlapack_cblas.h.in", LEG+"blas", LEG+"base", LEG+"lapack", "src/tlapack.f90"],
  [("row-major handled by swapping operands/options", LEG+"blas"), ("negative increments start from the end", LEG+"base/legacyArray.hpp")],
  ["output buffers, exceptions"]),

P("C24", "Calls are reentrant, deterministic and independent of call history",
  "The result of a call depends only on its arguments: repeating it, preceding it by any other calls, or interleaving it with calls on disjoint data in other threads gives bitwise identical results. It does not depend on the previous contents of stack or heap memory. Random-number generation depends only on the caller's seed and the distribution, adds one to that seed and touches nothing else, gives the same prefix for every length, and produces values in the documented range of each distribution (up to rounding of the end points) with its mean and mean square.",
  ["schedules", "histories", "inputs"],
  "all interleavings (up to a preemption bound) of two concurrent calls at scalar-operation granularity over pairs of routines, and all call histories up to a depth over a routine alphabet, against the isolated result",
  "Tests run every routine once in a single thread; hidden state would be invisible.",
  [B, L, L+"larnv.hpp", BASE+"workspace.hpp", BASE+"constants.hpp"],
  [("no static mutable state; all scratch is local or caller-provided", BASE+"workspace.hpp"), ("seed passed by reference", L+"larnv.hpp")],
  ["outputs under every schedule/history"]),

P("C25", "Copying, initialising, transposing, scaling and rotation sequences act as defined",
  "Copying or initialising a full matrix or triangle changes exactly that region; out-of-place and in-place (conjugate) transposition, conjugation and ratio scaling act element-wise as defined for every shape, region type, option and block size. Random initialisation fills exactly the vector with values from the documented distribution and advances the seed by one. Ratio scaling neither overflows nor loses accuracy while x*a/b is representable. Applying a sequence of plane rotations, in any side, direction and blocking variant, equals applying the rotations one after the other (forward sequences from the last row or column pair to the first, backward ones from the first to the last).",
  ["inputs", "configurations"],
  "every shape, region type, band width, block size and option combination at small sizes and around the block thresholds, all rotation-sequence shapes x side x direction, types and layouts",
  "Tests cover a few sizes per routine; blocking edges and region types are not crossed exhaustively.",
  [L+"lacpy.hpp", L+"laset.hpp", L+"larnv.hpp", L+"transpose.hpp", L+"conjugate.hpp", L+"lascl.hpp", L+"rscl.hpp", L+"rot_sequence.hpp", L+"rot_sequence3.hpp"],
  [("block recursion", L+"transpose.hpp"), ("wavefront/fused rotation application", L+"rot_sequence3.hpp")],
  ["output matrix"]),

P("C26", "Tikhonov-regularised least squares returns the minimiser, for every variant",
  "For every full-column-rank matrix, right-hand-side block and regularisation parameter, each of the regularised least-squares variants (QR, bidiagonal elimination, SVD) returns the minimiser of ||Ax-b||^2 + lambda^2||x||^2 to the accuracy the conditioning allows. All variants agree with each other, for any number of right-hand sides and every m >= n.",
  ["inputs", "configurations"],
  "every small shape m>=n, number of right-hand sides, lambda alphabet (0, tiny, 1, large), variant, matrix family, layout and type, against the normal equations solved in higher precision",
  "The suite tests a few shapes with random data and only compares residuals with one another.",
  [L+"tkhnv.hpp", L+"tik_qr.hpp", L+"tik_bidiag_elden.hpp", L+"tik_svd.hpp"],
  [("stacked QR with triangular structure", L+"tik_qr.hpp"), ("bidiagonalisation + elimination", L+"tik_bidiag_elden.hpp")],
  ["b after the call"]),

P("C27", "Tiled task-parallel execution equals sequential execution for every schedule",
  "When operations are expressed as tasks on tiles, the data accesses declared to the task runtime cover every access the task body performs, so every task order consistent with the declared dependencies gives the sequential result. Tile views, partitioning into any tile sizes, and element entry access address the same elements as the underlying matrix.",
  ["schedules", "configurations"],
  "all topological orders of the task graphs generated by tiled operations on small tile grids (every tile count, every option), with declared access modes enforced by copies that hide undeclared accesses",
  "StarPU is not available when the suite is built, so nothing under the tiled plugin is compiled or run.",
  ["include/tlapack/starpu/Matrix.hpp", "include/tlapack/starpu/Tile.hpp", "include/tlapack/starpu/tasks.hpp", "include/tlapack/starpu/codelets.hpp", "include/tlapack/starpu/functions.hpp", "include/tlapack/starpu/gemm.hpp", "include/tlapack/starpu/herk.hpp", "include/tlapack/starpu/trsm.hpp", "include/tlapack/starpu/potf2.hpp", "include/tlapack/starpu/filters.hpp", "include/tlapack/starpu/MatrixEntry.hpp", PL+"starpu.hpp"],
  [("access mode per data handle in task insertion", "include/tlapack/starpu/tasks.hpp"), ("loop over tiles in dependency order", "include/tlapack/starpu/gemm.hpp")],
  ["matrix contents after all tasks ran; declared access modes"]),

P("C28", "Closed-form 2x2 and small-system kernels are accurate for every input pattern",
  "The 2x2 symmetric eigenproblem, 2x2 Schur standardisation, 2x2 generalized Schur form and eigenvalues, 2x2 triangular singular values and vectors, shift-column construction and small Sylvester solves return values that satisfy their defining identities to rounding for every sign, zero, tie and magnitude pattern, with unit-norm rotations (eigenvalues are those of a matrix or pencil within rounding of the given one; nearly double roots are determined to the square root of the precision). The shift column is parallel to the first column of the shifted product (for a 2x2 pencil: the singly shifted one). Only the 1x1 and 2x2 Sylvester cases are implemented. Results are ordered and normalised as documented.",
  ["inputs"],
  "every 2x2 (and 1x2, 2x1) operand over a signed, graded value alphabet including zeros, ties and extreme magnitudes, for every kernel, option and precision",
  "Tests use random or single hand-made inputs for these kernels, which almost never take the special branches.",
  [L+"lae2.hpp", L+"laev2.hpp", L+"lahqr_eig22.hpp", L+"lahqr_schur22.hpp", L+"lahqz_eig22.hpp", L+"lahqz_schur22.hpp", L+"lahqr_shiftcolumn.hpp", L+"lahqz_shiftcolumn.hpp", L+"svd22.hpp", L+"singularvalues22.hpp", L+"lasy2.hpp", L+"inv_house3.hpp"],
  [("branch per sign/magnitude ordering", L+"svd22.hpp"), ("scaling before solving", L+"lasy2.hpp")],
  ["returned scalars"]),

P("C29", "Routines are generic: every supported array library, view kind and scalar type gives the defined result",
  "The BLAS, factorization, orthogonal-factor, eigenvalue, generalized eigenvalue and singular value routines compile for and give their defined result, to the accuracy of the scalar type, on every supported array: owned Eigen matrices of either storage order, Eigen blocks of blocks and strided maps, legacy column- and row-major arrays with strided vectors, and operands of different kinds in one call. This holds for real and complex entries and for scalar types beyond float and double (long double, binary128, bfloat16 for the orthogonal factorizations).",
  ["inputs", "configurations"],
  "container kind x scalar type x routine group x every 2x2 over a three-letter alphabet, every shape up to 5x5 and selected larger sizes x families x options",
  "The suite is built here without Eigen and quad precision, so the plugins, their views and the precision-generic code are neither compiled nor run.",
  [PL+"eigen.hpp", PL+"gnuquad.hpp", PL+"eigen_bfloat16.hpp", PL+"legacyArray.hpp", "include/tlapack/base/arrayTraits.hpp", "include/tlapack/base/scalar_type_traits.hpp", "include/tlapack/base/constants.hpp"],
  [("view construction and work array creation per library", PL+"eigen.hpp"), ("numeric limits and elementary functions of the scalar type", PL+"gnuquad.hpp")],
  ["output arrays"]),
]
