"""Registry: property -> how its exhaustive check is built and sharded."""
import os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

TYPES = {"f": "float", "d": "double", "c": "std::complex<float>", "z": "std::complex<double>"}
ALL8 = [(t, l) for l in ("ColMajor", "RowMajor") for t in ("z", "c", "d", "f")]
STARPU = ["-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "starpu_stub")]
DIAG4 = [("z", "ColMajor"), ("c", "RowMajor"), ("d", "RowMajor"), ("f", "ColMajor")]


def std(srcs, combos=None, shards=1, opt="-O1", flags=None, defs=None, suffix=""):
    """One unit per (source, type, layout)."""
    if isinstance(srcs, str):
        srcs = [srcs]

    def mk(tier):
        us = []
        for s in srcs:
            for t, l in (combos or ALL8):
                d = {"MC_T": TYPES[t], "MC_L": l}
                if t in "df":
                    d["MC_REAL"] = "1"
                d.update(defs or {})
                us.append({"name": "%s_%s%s%s" % (s.split(".")[0], t, l[0], suffix), "src": s, "defs": d, "shards": shards(tier) if callable(shards) else shards,
                           "opt": opt, "flags": flags or []})
        return us
    return mk


def both(*mks):
    return lambda tier: [u for m in mks for u in m(tier)]


ND = dict(defs={"TLAPACK_NDEBUG": "1"}, suffix="N")

# ---- C23: the C, CBLAS and Fortran libraries are compiled from the working tree and linked into the harness ----
_shared = {}
_lock = threading.Lock()


def _sh(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=cwd)
    if r.returncode != 0:
        raise RuntimeError("command failed:\n%s\n%s" % (" ".join(cmd), r.stderr[:4000]))


def _c23_shared(repo, verif, outdir):
    """Objects shared by the units of C23 (futures), started once per build directory."""
    with _lock:
        if outdir in _shared:
            return _shared[outdir]
        gen = os.path.join(outdir, "gen")
        os.makedirs(gen, exist_ok=True)

        def sub(src, dst, **kv):
            t = open(os.path.join(repo, src)).read()
            for k, v in kv.items():
                t = t.replace("@%s@" % k, v)
            open(os.path.join(gen, dst), "w").write(t)
        # the default configuration of src/CMakeLists.txt
        sub("include/tlapack.h.in", "tlapack.h", TLAPACK_DEFINES="#define TLAPACK_SIZE_T size_t\n#define TLAPACK_INT_T int64_t\n")
        sub("include/tlapack_cblas.h.in", "tlapack_cblas.h", TLAPACK_CBLAS_DEFINES="#define CBLAS_INT int64_t\n")
        sub("src/tlapack.fi.in", "tlapack.fi", FTLAPACK_SIZE_T="c_size_t", FTLAPACK_INT_T="c_int64_t")
        sub("src/base/constants.f90.in", "constants.f90", FTLAPACK_SIZE_T="c_size_t", FTLAPACK_INT_T="c_int64_t")
        inc = ["-I", gen, "-I", os.path.join(repo, "include"), "-I", os.path.join(verif, "harness")]
        cxx = ["g++", "-std=c++20", "-O0", "-w"] + inc + ["-c"]
        har = os.path.join(verif, "harness")

        def headers():  # both headers are self-contained C
            for h in ("tlapack.h", "tlapack_cblas.h"):
                f = os.path.join(gen, "only_%s.c" % h)
                open(f, "w").write('#include "%s"\n' % h)
                _sh(["gcc", "-std=c11", "-w", "-fsyntax-only"] + inc + [f])

        def fort(outs):
            fc = ["gfortran", "-O0", "-w", "-J", gen, "-I", gen, "-c"]
            _sh(fc + [os.path.join(gen, "constants.f90"), "-o", outs[0]])
            _sh(fc + [os.path.join(repo, "src", "tlapack.f90"), "-o", outs[1]])
            _sh(fc + [os.path.join(har, "c23_fdrv.f90"), "-o", outs[2]])
        o = lambda n: os.path.join(gen, n + ".o")
        ex = ThreadPoolExecutor(6)
        jobs = [ex.submit(_sh, cxx + ["-DTLAPACK_CHECK_INPUT", os.path.join(repo, "src", "tlapack_cwrappers.cpp"), "-o", o("w")]),
                ex.submit(_sh, cxx + ["-DTLAPACK_CHECK_INPUT", "-DBUILD_CBLAS", os.path.join(repo, "src", "tlapack_cwrappers.cpp"), "-o", o("wb")]),
                ex.submit(_sh, ["g++", "-std=c++20", "-w"] + inc + ["-c", os.path.join(har, "c23_capi.cpp"), "-o", o("capi")]),
                ex.submit(_sh, ["g++", "-std=c++20", "-w", "-DUSE_CBLAS"] + inc + ["-c", os.path.join(har, "c23_capi.cpp"), "-o", o("capib")]),
                ex.submit(headers), ex.submit(fort, [o("f0"), o("f1"), o("f2")])]
        _shared[outdir] = (jobs, [o(n) for n in ("w", "wb", "capi", "capib", "f0", "f1", "f2")])
        return _shared[outdir]


def c23_build(u, tmp, repo, verif, outdir):
    jobs, objs = _c23_shared(repo, verif, outdir)
    cmd = ["g++", "-std=c++20", "-O1", "-w", "-DTLAPACK_CHECK_INPUT", "-I", os.path.join(outdir, "gen"), "-I", os.path.join(repo, "include"),
           "-I", os.path.join(verif, "mc"), "-I", os.path.join(verif, "harness")] + ["-D%s=%s" % kv for kv in u["defs"].items()]
    _sh(cmd + ["-c", os.path.join(verif, "harness", u["src"]), "-o", tmp + ".o"])
    for j in jobs:
        j.result()
    _sh(["g++", tmp + ".o"] + objs + ["-lgfortran", "-o", tmp])
    os.unlink(tmp + ".o")


def c23(tier):
    us = []
    for p, t in (("s", "f"), ("d", "d"), ("c", "c"), ("z", "z")):
        d = {"MC_T": TYPES[t], "MC_L": "ColMajor", "MC_TYPE": "'%s'" % p, "MC_FORTRAN": "1"}
        if t in "fd":
            d["MC_REAL"] = "1"
        us.append({"name": "c23_legacy_" + p, "src": "c23_legacy.cpp", "defs": d, "shards": 1, "build": c23_build})
    return us


def c24(tier):
    """Interleavings with the yielding scalar (may not compile after an unrelated change: then left out and reported) and histories."""
    us = []
    for g in (3, 5, 4, 2, 1):
        for n, t in (("z", "std::complex<ys::Y>"), ("d", "ys::Y")):
            us.append({"name": "c24_inter%d_%s" % (g, n), "src": "c24_inter.cpp", "defs": {"MC_T": t, "MC_G": str(g)}, "shards": 2 if tier == 0 else 4, "flags": ["-pthread"], "optional": True, "leaf_cpu": 200})
        for n in ("z", "f") if tier == 0 else ("z", "c", "d", "f"):
            us.append({"name": "c24_hist%d_%s" % (g, n), "src": "c24_hist.cpp", "defs": {"MC_T": TYPES[n], "MC_G": str(g)}, "shards": 1 if tier == 0 else 4, "leaf_cpu": 200})
    return us


FOUR = (("z", "ColMajor"), ("f", "RowMajor"), ("d", "ColMajor"), ("c", "RowMajor"))
EIGHT = tuple((t, l) for l in ("ColMajor", "RowMajor") for t in "zfdc")


def _ctab_defs(g, t, l):
    return {"MC_T": TYPES[t], "MC_L": l, "MC_G": str(g)}


def c04(tier):
    return [{"name": "c04_foot%d_%s%s" % (g, t, l[0]), "src": "c04_foot.cpp", "defs": _ctab_defs(g, t, l), "shards": 1 if tier == 0 else 2}
            for g in (4, 2, 1, 5, 3) for t, l in (FOUR if tier == 0 else EIGHT)]


def c21_build(u, tmp, repo, verif, outdir):
    """The call table is compiled twice: with argument checks, and without them in another namespace."""
    base = ["g++", "-std=c++20", "-O1", "-w", "-DNDEBUG", "-I", os.path.join(repo, "include"), "-I", os.path.join(verif, "mc"),
            "-I", os.path.join(verif, "harness")] + ["-D%s=%s" % kv for kv in u["defs"].items()]
    p = subprocess.Popen(base + ["-DTLAPACK_NDEBUG", "-c", os.path.join(verif, "harness", "c21_nd.cpp"), "-o", tmp + ".nd.o"], stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        _sh(base + ["-DTLAPACK_CHECK_INPUT", "-c", os.path.join(verif, "harness", u["src"]), "-o", tmp + ".o"])
    finally:
        err = p.communicate()[1]
    if p.returncode != 0:
        raise RuntimeError("c21_nd.cpp does not compile:\n" + err[:4000])
    _sh(["g++", tmp + ".o", tmp + ".nd.o", "-o", tmp])
    os.unlink(tmp + ".o")
    os.unlink(tmp + ".nd.o")


def c21(tier):
    return [{"name": "c21_args%d_%s%s" % (g, t, l[0]), "src": "c21_args.cpp", "defs": _ctab_defs(g, t, l), "shards": 1 if tier == 0 else 4, "build": c21_build}
            for g in (4, 2, 1, 5, 3) for t, l in (FOUR if tier == 0 else EIGHT)]


def c20(*srcs):
    """Types paired with the workspace form: column-major matrix, row-major matrix, vector."""
    return both(*[std(src, [c], shards=sh, defs={"MC_WL": str(w)}) for src, sh in srcs
                  for c, w in ((("z", "ColMajor"), 0), (("c", "RowMajor"), 1), (("d", "RowMajor"), 0), (("f", "ColMajor"), 2))])


def c29(tier):
    """Container kind x scalar type x routine group."""
    us = []
    eig = ["-I", "/usr/include/eigen3"]
    for kind, name, T, defs in [("e2", "z", "std::complex<double>", {"MC_K": "2", "MC_EIGEN": "1"}), ("e3", "c", "std::complex<float>", {"MC_K": "3", "MC_EIGEN": "1"}),
                                ("e4", "d", "double", {"MC_K": "4", "MC_EIGEN": "1"}), ("e5", "z", "std::complex<double>", {"MC_K": "5", "MC_EIGEN": "1"}),
                                ("e6", "f", "float", {"MC_K": "6", "MC_EIGEN": "1"}), ("q0", "r", "__float128", {"MC_K": "0", "MC_QUAD": "1"}),
                                ("q1", "c", "std::complex<__float128>", {"MC_K": "1", "MC_QUAD": "1"}), ("l1", "c", "std::complex<long double>", {"MC_K": "1"}),
                                ("b3", "r", "Eigen::bfloat16", {"MC_K": "3", "MC_EIGEN": "1", "MC_BF16": "1"})]:
        for g in range(1 if kind == "b3" else 5):
            d = {"MC_T": T, "MC_G": str(g)}
            d.update(defs)
            us.append({"name": "c29_%s%s_g%d" % (kind, name, g), "src": "c29_generic.cpp", "defs": d, "shards": 1, "opt": "-O0",
                       "flags": ["-std=gnu++20"] + (eig if kind[0] in "eb" else []), "libs": ["-lquadmath"], "must_compile": True})
    return us


CHECKS = {
    "C01": dict(units=std(["c01_products.cpp", "c01_products2.cpp"], shards=2),
                note="Every option combination x bounded shapes x scalar kinds x layouts x types executed on the real templates and compared componentwise with the definition evaluated in 80-bit arithmetic; unreferenced operand parts are NaN-poisoned. Assumes sizes above the bound behave like the enumerated ones."),
    "C03": dict(units=std("c03_level1.cpp", shards=2), note="Every vector over a small value alphabet up to the length bound x stride x direction x type for each level-1 routine, bit-exact where the operation is exact and componentwise otherwise; generator/consumer pairs of (modified) rotations over a sign/exponent lattice. Assumes longer vectors behave like the enumerated lengths."),
    "C02": dict(units=std("c02_trsolve.cpp", shards=2), note="Every side/triangle/transposition/diagonal combination x bounded shapes x scaling x layouts x types (and recursion variants) executed on the real templates; the solution is substituted back in 80-bit arithmetic, the other triangle is NaN-poisoned, every position of an exact zero pivot is enumerated for inversions."),
    "C06": dict(units=std("c06_factor.cpp", shards=2), note="Every small exact matrix and 16 structured families at every bounded shape x block size x algorithm variant x layout x type factored by the real code; Q is rebuilt reflector by reflector in 80-bit arithmetic and column/row-wise backward error and unitarity are checked. Assumes larger shapes behave like those enumerated (all block-boundary relations are covered)."),
    "C07": dict(units=std("c07_reflect.cpp", shards=2), note="Every vector over a small alphabet x scale x direction x store mode for single reflectors; every side/trans/direction/store/shape/k/nb combination at bounded sizes for larf, larft, larfb, all ung*/unm* routines and their dispatchers, compared with explicit 80-bit products; unit entries and unreferenced triangles are NaN."),
    "C08": dict(units=std("c08_lu.cpp", shards=2), note="Every matrix over an exact alphabet at tiny shapes (all pivot paths, ties and singular patterns; expected return code from column dependence computed exactly) and structured families at all bounded shapes, for each LU, inverse and in-place product variant; P*A=L*U is checked componentwise against |L||U|."),
    "C09": dict(units=both(std("c09_chol.cpp", shards=2), std("c09_chol.cpp", DIAG4[1:3], shards=2, **ND)), note="Every Hermitian matrix over an exact alphabet at tiny orders (positive definite, singular, indefinite; the exact order of the first failing minor is computed), every failing position x block size x variant, and structured families at larger orders, in builds with and without error checks; factors are multiplied back componentwise, solves substituted back, unreferenced triangle and diagonal imaginary parts are NaN. Banded (every bandwidth x block size) and tridiagonal forms included."),
    "C10": dict(units=std("c10_ldl.cpp", shards=2), note="Every symmetric/Hermitian matrix over an exact alphabet at orders 1-4, every diagonal/off-diagonal zero pattern of cyclic tridiagonals at orders 5-7 (all sequences of 1x1 and 2x2 pivots, including ones straddling a block edge) and structured families at larger orders, x triangle x block size x symmetric/Hermitian; the product is rebuilt from the documented pivot storage in 80-bit arithmetic."),
    "C11": dict(units=std(["c11_hess.cpp", "c11_bidiag.cpp"], shards=2), note="Every order/shape x every active range x block size x crossover x algorithm variant x triangle x layout x type on every small exact matrix and 16 structured families (plus orders crossing the default block sizes 32/128), executed on the real reductions; reflectors are multiplied out in 80-bit arithmetic, the condensed shape is checked exactly, and generated/applied orthogonal factors are compared with that product."),
    "C12": dict(units=std("c12_svd.cpp", shards=3), note='Every bidiagonal over an alphabet of zeros, ties, signs and tiny entries up to order 5-6 (both triangles, all vector requests, generic bases), graded/clustered/split families at larger orders and extreme scales, every dense shape x flag x factor size, and an exponent lattice for the 2x2 kernels, executed on the real code; product, orthonormality, order and sign are checked in 80-bit arithmetic.'),
    "C13": dict(units=both(std("c13_steqr.cpp", shards=2), std("c13_secular.cpp", [("d", "ColMajor"), ("f", "ColMajor")], shards=4)), note="Every symmetric tridiagonal over an alphabet of zeros, ties, signs and tiny entries up to order 5 (6), 14 structured families x scales at larger orders, a sign/exponent lattice for the 2x2 kernels, every short list and every run structure around the cut-off for sorting, every pair of sorted lists for merging, and a pole-gap x weight x rho lattice for the secular solvers, executed on the real code; orthonormality, reconstruction and roots are checked against 80-bit arithmetic (bisection for roots)."),
    "C14": dict(units=std("c14_schur.cpp", shards=3), note='Every upper Hessenberg matrix over an alphabet of zeros, ties, signs, sqrt(eps) and eps^2 entries up to order 4 (5), 30 structured families (cyclic, defective, graded, split, extreme scale) x every active range x algorithm variant x shift/window/crossover options incl. orders crossing the default crossover 75, executed on the real code; similarity, orthonormality, (quasi-)triangular standardised form and eigenvalues (power sums) are checked in 80-bit arithmetic.'),
    "C28": dict(units=std("c28_kernels.cpp", DIAG4, shards=6), note="Every 2x2 / 3x3 operand over a lattice of zeros, ties, signs, sqrt(eps), eps and extreme magnitudes (up to 16 values per entry, x grading) for every 2x2 Schur / eigenvalue / singular value / symmetric kernel, generalized 2x2 pencils, shift columns, 3x3 inverse reflectors and 1x1/2x2 Sylvester kernels, executed on the real code in four precisions; each defining identity (similarity, characteristic polynomial, residual, unit norm, ordering) is evaluated in 80-bit arithmetic."),
    "C16": dict(units=std("c16_reorder.cpp", DIAG4, shards=4), note='Explicit enumeration of operation histories on the real code: from every 1x1/2x2 block pattern up to order 5 (6) x 8 value families (separated, equal, nearly equal, nearly real, graded, unbalanced) x couplings x scales x B families, every sequence of up to 2 (3) adjacent swaps and (ifst,ilst) moves; after every step shape, standardised blocks, unitarity, reconstruction, the permuted eigenvalue list of a list model, ifst/ilst, and bitwise preservation on failure are checked; plus a lattice over all single swaps.'),
    "C15": dict(units=std("c15_qz.cpp", DIAG4, shards=6), note='Runs lahqz, multishift_qz and gghrd on every enumerated pencil and checks structure, normalisation, eigenvalues against det(xA-yB), unitarity, the two residuals, agreement of every partial request with the full one and untouched data outside the active range. Extreme joint scalings (overflowing products) are outside the claim.'),
    "C17": dict(units=std("c17_trevc.cpp", DIAG4, shards=4), note="Every quasi-triangular matrix over a small alphabet (equal, nearly equal, zero and distinct eigenvalues, all 1x1/2x2 patterns) up to order 3-4 x side x all/back/select mode x every selection subset x block sizes, structured families at orders crossing the default block size, and an exponent lattice for growth protection, executed on the real trevc/trevc3; each vector is substituted in its defining equation in 80-bit arithmetic; NaN workspace and NaN output guards. Growth in the blocked variant is outside the claim."),
    "C18": dict(units=std("c18_norms.cpp", shards=1), note="Every matrix over an alphabet spanning all magnitudes (zero, subnormal, tiny, mid, huge, thresholds of Blue's accumulators) at shapes up to 3x3, one dominant entry at every position of every shape up to 6x6 (9x9) and 16 families x scales, for each norm x structure x triangle x diagonal option x workspace/allocating variant; every vector over the alphabet x stride x direction x every split of the accumulation of sums of squares. Compared with the definition on the expanded matrix in 80-bit arithmetic; entries that must not be referenced are NaN."),
    "C25": dict(units=std("c25_move.cpp", shards=1), note="Every uplo x shape (including a larger destination and the opposite layout) for copying/initialising with NaN outside the region, every shape x recursion threshold for (conjugate) transposition incl. sizes around the default 16, every region/band x shape and a lattice of ratios a/b (zero, subnormal, safe_min/max, overflow) for ratio and reciprocal scaling, and every side x direction x length x sequence count (incl. the 256 block edge) for rotation sequences, executed on the real code; moves are compared bitwise, arithmetic in 80-bit."),
    "C26": dict(units=std("c26_tikhonov.cpp", DIAG4, shards=2), note='Every shape m>=n up to 8x6 (10x8; plus sizes crossing the block size 32) x right-hand-side count x variant x regularisation parameter (zero to 1e4) x eight structured full-rank families, four right-hand sides, six joint scales up to the over/underflow thresholds, and every matrix over an exact alphabet up to 2x2 (3x2), executed on the real code; the gradient of the regularised functional at the returned point is evaluated in 80-bit arithmetic against the normwise backward-error bound.'),
    "C05": dict(units=both(std("c05_views.cpp", [("z", "ColMajor"), ("f", "RowMajor")], shards=4), *[std("c05_eigen.cpp", [("d", "ColMajor"), ("c", "RowMajor")], opt="-O0", flags=["-I", "/usr/include/eigen3"], defs={"MC_G": str(g)}, suffix="e%d" % g) for g in range(4)]), note='Explicit-state search to closure: from every base array up to 4x4 (5x5) x layout x leading-dimension padding x index type, and every vector up to length 7 (9) x stride x direction, all views reachable by any number of slice/rows/cols/row/col/diag/transpose/reshape operations (const and non-const) are generated with the real code; every element address is compared with an independent index-map model, and reshape outcomes must partition the array or be refused. Empty views are identified regardless of their position. Eigen arrays (owned, mapped, fixed-size, row and column vectors, both layouts): every chain of three such operations, const and non-const.'),
    "C23": dict(units=both(c23, std("c23_lapack.cpp", [("z", "ColMajor"), ("c", "ColMajor"), ("d", "ColMajor"), ("f", "ColMajor")])), note='Every layout x option x bounded size x leading-dimension padding x increment sign x zero/one/generic scalar for all 33 BLAS routines through the legacy templates, the C header, the CBLAS header and (where bound) the Fortran module, and every legacy LAPACK routine; the libraries are compiled from the working tree. Integer operands make results exact; constant inputs lie in read-only pages, everything not to be referenced is NaN, invalid arguments are enumerated one by one.'),
    "C20": dict(units=c20(("c20_refl.cpp", 2), ("c20_b.cpp", 4)), note="Every workspace-taking routine (reflector application/generation, QR/LQ/QL/RQ, LQT, Hessenberg, bidiagonal, LDL, inversion, infinity norms, eigenvectors, multishift QR, AED and sweep kernels, mixed TRMM) x every small shape, option and block size, run with a guarded column-major, row-major or vector workspace of exactly the queried size for four initial contents (zero, NaN, largest, -Inf); outputs must be bitwise equal and equal to rounding to the self-allocating call; all bounded combinations of workspace-query arithmetic."),
    "C19": dict(units=std("c19_safe.cpp", [("z", "ColMajor"), ("c", "ColMajor"), ("d", "ColMajor"), ("f", "ColMajor")], shards=4), note='Every exponent of the type for two-operand kernels in single precision (a dense grid with all threshold neighbours in double), a 26-point exponent lattice with all threshold neighbours for three and four real operands, x zero x signs x mantissa corner cases, executed on the real code and compared with 80-bit evaluation whose exponent range makes every intermediate exact-range; scaling constants compared with their definitions.'),
    "C22": dict(units=both(std("c22_nan.cpp"), std("c22_fact.cpp", DIAG4)), note='Every placement of a NaN (three complex forms) or infinity in every operand entry and scalar of the level 1-3 routines at small shapes x all options, with outputs compared with the exact dependency mask of the definition; every set of NaN/infinite entries for the detection routines; every NaN/infinity pair for the norms; every vector over a special-value alphabet for iamax, nrm2, asum, lassq; every entry of the input of the factorizations, eigenvalue and singular value routines, which must end and either report or show the value.'),
    "C24": dict(units=c24, note='Stateless exploration under a controlled scheduler: a scalar type whose every operation is a scheduling point; for about 95 routines x two scalar kinds all schedules of two concurrent calls with one preemption (all pairs of routines of a group; two preemptions for short calls) must give the isolated results bit for bit. All call histories of depth 1 (all) and 2 (those containing the routine; all in the thorough tier) in forked processes with three memory contents, compared bitwise with a fresh process. Every distribution x seed lattice x interleaved streams for random vectors.'),
    "C04": dict(units=c04, note='For about 150 routine variants every option combination x every shape up to about 7 (11) x layout x type: the real call is executed with finite garbage and again with NaN in every location that is documented as not referenced (opposite triangle, unit diagonal, imaginary part of a Hermitian diagonal, pure outputs, gaps of the view, surrounding memory); outputs and return values must agree bit for bit and every other bit must be unchanged. The masks are an explicit table; data families are fixed.'),
    "C21": dict(units=c21, note='For about 150 routine variants every option character (valid and invalid) x every base shape (zero dimensions included) x every deviation of up to two (three) operand dimensions is executed; acceptance is compared with an explicit table of documented requirements, rejected calls must leave every byte of the padded operands unchanged, and every valid call is repeated in a second build without argument checks linked into the same program and compared bit for bit.'),
    "C27": dict(units=both(std("c27_starpu.cpp", [(t, "ColMajor") for t in "zcd"], shards=4, flags=STARPU), std("c27_starpu.cpp", [("f", "ColMajor")], shards=4, flags=STARPU, defs={"TILED_FIRST": "1"}, suffix="t")), note='The real StarPU layer is compiled against a small stand-in for the StarPU API whose scheduler is explored exhaustively: for gemm, herk, trsm, Cholesky and chains on windows of one matrix every state (set of finished tasks, memory) reachable in any dependency-respecting order is visited and every terminal memory must equal program order and the sequential definition; task bodies run on private guarded copies, so undeclared accesses, writes outside a tile and aliased buffers are caught. Every composition of view operations up to closure on bounded tilings is checked element by element; generic algorithms on tiled matrices run under all schedules with up to two held-back tasks. Device (CUDA) paths are not covered.'),
    "C29": dict(units=c29, note='Real code on every supported array library and view kind: legacy column/row-major with strided vectors, Eigen owned, blocks of blocks, strided maps, mixed operands, and binary128, long double and bfloat16 scalars; every 2x2 over a three-letter alphabet, every shape up to 5x5, sizes 7, 12 (16, 20 for the multishift algorithms) x four families x options, for the factorizations, orthogonal factors, eigenvalue, singular value, generalized and BLAS routines; residuals, orthogonality and form in wider arithmetic (same precision for binary128). IEEE half is excluded: the installed Eigen reports a wrong machine epsilon for it.'),
}

NA = {}
