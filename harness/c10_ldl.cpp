// C10: symmetric-indefinite (Bunch-Kaufman) factorization.
#include "blasref.hpp"
#include <tlapack/lapack/hetrf.hpp>
using tl::Uplo;
using tl::Op;

// Rebuilds F D F^op from the documented storage; also returns |F||D||F^op|.
static void rebuild(const RM& L, const std::vector<int>& ipiv, Uplo u, bool herm, RM& P, RM& B)
{
    int n = L.m;
    bool upper = u == Uplo::Upper;
    RM D(n, n), F = RM::eye(n), Fa = RM::eye(n);
    auto right = [&](const RM& X) { F = F * X; Fa = Fa * Abs(X); };
    // factors are listed from the last (upper) / first (lower) index on: F = P L P L ...
    for (int c = 0; c < n;) {
        int i = upper ? n - 1 - c : c;
        RM Pm = RM::eye(n), Lm = RM::eye(n);
        int s = i, piv = ipiv[i], w = 1;
        if (piv < 0) {
            int o = upper ? i - 1 : i + 1;
            MC_CHECK(o >= 0 && o < n && ipiv[o] == ipiv[i], "ipiv-pair", "2x2 pivot at %d not marked on both rows: %d", i, ipiv[i]);
            s = o;
            piv = -piv - 1;
            w = 2;
        }
        MC_CHECK(upper ? piv >= 0 && piv <= s : piv >= s && piv < n, "ipiv-range", "ipiv[%d]=%d swaps %d with %d", i, ipiv[i], s, piv);
        if (piv != s)
            for (int r = 0; r < n; ++r) std::swap(Pm(r, s), Pm(r, piv));
        for (int k = 0; k < w; ++k) {
            int col = upper ? i - k : i + k;
            for (int r = 0; r < n; ++r)
                if (upper ? r < std::min(i, s) : r > std::max(i, s)) Lm(r, col) = L(r, col);
            D(col, col) = herm ? cx(L(col, col).re) : L(col, col);
        }
        if (w == 2) {
            int lo = std::min(i, s);
            cx o = upper ? L(lo, lo + 1) : L(lo + 1, lo);
            D(upper ? lo : lo + 1, upper ? lo + 1 : lo) = o;
            D(upper ? lo + 1 : lo, upper ? lo : lo + 1) = herm ? cj(o) : o;
        }
        right(Pm);
        right(Lm);
        c += w;
    }
    P = F * D * (herm ? H(F) : Tr(F));
    B = Fa * Abs(D) * Tr(Fa);
}
static void run(const RM& A0, Uplo u, bool herm, int nb, LD tolc, bool useFront, int expect = -1)
{
    int n = A0.m;
    Mat A(n, n);
    fillTri(A, u, tl::Diag::NonUnit, herm && CPLX, [&](int i, int j) { return A0(i, j); });
    std::vector<int> ipiv(n, -888888);
    tl::HetrfOpts o;
    o.nb = nb;
    o.invariant = herm ? Op::ConjTrans : Op::Trans;
    auto a = A.view();
    int info = useFront ? tl::hetrf(u, a, ipiv, o) : tl::hetrf_blocked(u, a, ipiv, o);
    A.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "footprint", "A");
    MC_CHECK(info >= 0 && info <= n, "info-range", "info %d", info);
    RM F = triFrom(A.get(), u, tl::Diag::NonUnit);
    for (auto& x : F.a) MC_CHECK(fin(x), "finite", "factor not finite");
    if (herm)
        for (int i = 0; i < n; ++i) MC_CHECK(F(i, i).im == 0, "real-diag", "diagonal entry %d of D has an imaginary part", i);
    RM P, B;
    rebuild(F, ipiv, u, herm, P, B);
    LD mx = nrmMax(A0);
    // growth of Bunch-Kaufman is bounded by 2.57^(n-1); in practice (and on every input enumerated) far smaller
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) cmpElt(P(i, j), A0(i, j), tolc * (n + 1) * EPS * mx, "A=LDL", "A", i, j);
    // return code
    int first = 0;
    for (int c = 0; c < n && !first; ++c) {
        int i = u == Uplo::Upper ? n - 1 - c : c;
        if (ipiv[i] >= 0 && F(i, i) == cx(0)) first = i + 1;
    }
    MC_CHECK(info == first, "info", "returned %d but the first exactly zero 1x1 pivot is at %d", info, first);
    if (expect >= 0) MC_CHECK(info == expect, "info", "returned %d expected %d", info, expect);
    mixRM(F);
    for (int p : ipiv) mc::mix(p);
}
static bool pickHerm() { return CPLX ? mc::flag("hermitian") : mc::flag("hermitian"); }
static RM symPick(int n, bool herm, int nd, int no)
{
    static const int dg[] = {0, 1, -1, 2};
    RM A(n, n);
    for (int i = 0; i < n; ++i) A(i, i) = herm || !CPLX ? cx(dg[mc::choose("d", nd)]) : pickScalar<T>("d", nd);
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) {
            A(i, j) = pickScalar<T>("o", no);
            A(j, i) = herm ? cj(A(i, j)) : A(i, j);
        }
    return A;
}
MC_HARNESS(small)
{
    bool herm = pickHerm();
    Uplo u = pickUplo();
    int n = mc::range("n", 1, 3);
    int nb = mc::range("nb", 2, 4);
    RM A = symPick(n, herm, 4, n == 3 ? (mc::thorough() ? 6 : 4) : 6);
    mc::body();
    run(A, u, herm, nb, 24, true);
}
MC_HARNESS(order4)
{
    bool herm = CPLX && mc::flag("hermitian");
    Uplo u = pickUplo();
    int nb = mc::pick("nb", {2, 3, 5});
    RM A = symPick(4, herm, mc::thorough() ? 4 : 3, mc::thorough() ? 3 : 2);
    mc::body();
    run(A, u, herm, nb, 24, false);
}
// mixed magnitudes at order 4: a pivot that violates the Bunch-Kaufman criterion shows as growth
MC_HARNESS(graded)
{
    bool herm = CPLX && mc::thorough() && mc::flag("hermitian");
    Uplo u = pickUplo();
    int nb = mc::pick("nb", {2, 5});
    RM A(4, 4);
    const LD d = std::ldexp(1.0L, sizeof(R) == 4 ? -8 : -20), v[] = {0, 1, d};
    for (int i = 0; i < 4; ++i)
        for (int j = i; j < 4; ++j) {
            A(i, j) = cx(v[mc::choose("a", 3)]) * (i != j && CPLX ? gint<T>(i, j, 5) : cx(1));
            A(j, i) = herm ? cj(A(i, j)) : A(i, j);
        }
    mc::body();
    run(A, u, herm, nb, 24, false);
}
// zero/one/minus-one patterns on few diagonals at order 5..7: long sequences of 1x1 and 2x2 pivots
MC_HARNESS(chains)
{
    bool herm = CPLX && mc::flag("hermitian");
    Uplo u = pickUplo();
    int n = mc::range("n", 5, mc::thorough() ? 8 : 7);
    int nb = mc::pickv("nb", [&] { std::vector<int> v; for (int i = 2; i <= n; ++i) v.push_back(i); return v; }());
    RM A(n, n);
    int dm = mc::choose("diagMask", 1 << n), om = mc::choose("offMask", 1 << (n - 1));
    int extra = mc::choose("corner", 2);
    mc::body();
    auto put = [&](int i, int j, cx v) { A(i, j) = v; A(j, i) = herm ? cj(v) : v; };
    for (int i = 0; i < n; ++i)
        if (dm >> i & 1) put(i, i, cx(i % 2 ? 1 : -1));
    for (int i = 0; i + 1 < n; ++i) put(i, i + 1, (om >> i & 1) ? gint<T>(i, 1, 5) : cx(0));
    if (extra) put(0, n - 1, gint<T>(0, 2, 5));
    run(A, u, herm, nb, 24, false);
}
static RM symFam(int fam, int n, bool herm, int salt)
{
    RM G = family<T>(fam, n, n, salt), A(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j) {
            A(i, j) = G(i, j);
            if (i == j && herm) A(i, j).im = 0;
            A(j, i) = herm ? cj(A(i, j)) : A(i, j);
        }
    return A;
}
MC_HARNESS(families)
{
    bool herm = pickHerm();
    Uplo u = pickUplo();
    int n = mc::range("n", 0, mc::thorough() ? 14 : 10);
    int nb = mc::range("nb", 2, n + 2);
    int fam = mc::choose("family", FAM_COUNT);
    int zd = mc::choose("zeroDiag", 3);
    mc::require(fam != FAM_HUGE && fam != FAM_TINY);
    mc::body();
    RM A = symFam(fam, n, herm, 3);
    for (int i = 0; i < n; ++i)
        if (zd == 1 || (zd == 2 && i % 2)) A(i, i) = 0;
    run(A, u, herm, nb, 40, true, fam == FAM_ZERO && n ? (u == Uplo::Upper ? n : 1) : -1);
}
MC_HARNESS(large)
{
    bool herm = pickHerm();
    Uplo u = pickUplo();
    int n = mc::pick("n", {31, 32, 33, 34, 64, 65, 70});
    int nb = mc::pick("nb", {32, 2, 7});
    int fam = mc::pick("family", {(int)FAM_GENERIC, (int)FAM_REAL, (int)FAM_RANK1, (int)FAM_INT, (int)FAM_ZEROCOL});
    int zd = mc::choose("zeroDiag", 3);
    mc::body();
    RM A = symFam(fam, n, herm, 3);
    for (int i = 0; i < n; ++i)
        if (zd == 1 || (zd == 2 && i % 2)) A(i, i) = 0;
    run(A, u, herm, nb, 60, true);
}
MC_HARNESS(sweep)
{
    bool herm = pickHerm();
    Uplo u = pickUplo();
    int n = mc::range("n", 8, mc::thorough() ? 72 : 52);
    int nb = n % 2 ? 32 : 5, zd = n % 3;
    mc::body();
    RM A = symFam(FAM_GENERIC, n, herm, 13);
    for (int i = 0; i < n; ++i)
        if (zd == 1 || (zd == 2 && i % 2)) A(i, i) = 0;
    run(A, u, herm, nb, 60, true);
}
// a block of one column cannot hold a 2x2 pivot: must be refused without touching A, never loop
MC_HARNESS(block_of_one)
{
    bool herm = pickHerm();
    Uplo u = pickUplo();
    int n = mc::range("n", 0, 4);
    mc::body();
    RM A0 = symFam(FAM_GENERIC, n, herm, 3);
    if (n <= 1) return run(A0, u, herm, 1, 24, true);
    Mat A(n, n);
    A.set(A0);
    auto a = A.view();
    std::vector<int> ipiv(n);
    tl::HetrfOpts o;
    o.nb = 1;
    o.invariant = herm ? Op::ConjTrans : Op::Trans;
    bool thrown = false;
    try {
        tl::hetrf(u, a, ipiv, o);
    }
    catch (std::domain_error&) {
        thrown = true;
    }
    MC_CHECK(thrown, "nb1", "block size 1 accepted");
    A.constant("A");
}
MC_MAIN
