// C08: LU factorization with partial pivoting, its products and inverses.
#include "blasref.hpp"
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/getri_uxli.hpp>
#include <tlapack/lapack/getri_uili.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/ul_mult.hpp>

static int lu(int variant, Mat& A, std::vector<size_t>& piv)
{
    auto a = A.view();
    switch (variant) {
        case 0: return tl::getrf_level0(a, piv);
        case 1: return tl::getrf_recursive(a, piv);
        case 2: return tl::getrf(a, piv, tl::GetrfOpts{tl::GetrfVariant::Level0});
        default: return tl::getrf(a, piv, tl::GetrfOpts{tl::GetrfVariant::Recursive});
    }
}
// 1-based index of the first column among the first k that depends on the previous ones (exact for dyadic data)
static int firstDependent(RM A, int k)
{
    int r = 0;
    for (int j = 0; j < k; ++j) {
        int p = -1;
        for (int i = r; i < A.m; ++i)
            if (A(i, j) != cx(0) && (p < 0 || ab(A(i, j)) > ab(A(p, j)))) p = i;
        if (p < 0) return j + 1;
        for (int c = 0; c < A.n; ++c) std::swap(A(p, c), A(r, c));
        for (int i = r + 1; i < A.m; ++i) {
            cx f = A(i, j) / A(r, j);
            for (int c = j; c < A.n; ++c) A(i, c) -= f * A(r, c);
            A(i, j) = 0;
        }
        ++r;
    }
    return 0;
}
// returns info; checks everything. expect: -1 = unknown, otherwise the required info
static int doLU(int variant, const RM& A0, int expect)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    Mat A(m, n);
    A.set(A0);
    std::vector<size_t> piv(k + 2, 777777);
    int info = lu(variant, A, piv);
    A.guards("A");
    MC_CHECK(info >= 0 && info <= k, "info-range", "info=%d k=%d", info, k);
    if (expect >= 0) MC_CHECK(info == expect, "info", "info=%d, first zero pivot is %d", info, expect);
    MC_CHECK(piv[k] == 777777 && piv[k + 1] == 777777, "piv-overrun", "pivot vector written past min(m,n)");
    RM F = A.get();
    mixRM(F);
    mc::mix(info);
    if (info) return info;
    std::vector<int> perm(m);
    for (int i = 0; i < m; ++i) perm[i] = i;
    for (int i = 0; i < k; ++i) {
        MC_CHECK((int)piv[i] >= i && (int)piv[i] < m, "piv-range", "piv[%d]=%zu", i, piv[i]);
        std::swap(perm[i], perm[piv[i]]);
    }
    RM L(m, k), U(k, n), PA(m, n);
    LD lb = ((variant == 0 || variant == 2) && CPLX ? sqrtl(2.0L) : 1) * (1 + 8 * EPS);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            PA(i, j) = A0(perm[i], j);
            if (i > j && j < k) {
                L(i, j) = F(i, j);
                MC_CHECK(ab(F(i, j)) <= lb, "multiplier", "|L(%d,%d)| = %Lg", i, j, ab(F(i, j)));
            }
            if (i == j) L(i, j) = 1;
            if (i <= j && i < k) U(i, j) = F(i, j);
        }
    RM P = L * U, B = Abs(L) * Abs(U);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            // 0 * big products may be dropped in the reference; NaN shows up in F
            MC_CHECK(fin(F(i, j)), "finite", "factor not finite at (%d,%d)", i, j);
            cmpElt(P(i, j), PA(i, j), 16 * (k + 2) * EPS * (B(i, j).re + ab1(PA(i, j))), "PA=LU", "LU", i, j);
        }
    return 0;
}
MC_HARNESS(lu_small)
{
    int hi = 3;
    int m = mc::range("m", 1, hi), n = mc::range("n", 1, hi);
    int variant = mc::choose("variant", 2);
    int na = m * n <= 4 ? 6 : m * n <= 6 ? (mc::thorough() ? 4 : 3) : 3;
    RM A(m, n);
    for (auto& x : A.a) x = pickScalar<T>("a", na);
    mc::body();
    doLU(variant, A, na == 6 ? -1 : firstDependent(A, std::min(m, n)));
}
// entries of very different size: 0, 1, sqrt(eps), eps
MC_HARNESS(lu_graded)
{
    int m = mc::range("m", 1, 3), n = mc::range("n", 1, 3);
    int variant = mc::choose("variant", 2);
    int nv = m * n <= 6 ? 4 : 3;
    RM A(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            cx g = gint<T>(i, j, 5);
            if (g == cx(0)) g = cx(1);
            int k = mc::choose("a", nv);
            A(i, j) = k == 0 ? cx(0) : g * cx(ldexpl(1, k == 1 ? 0 : k == 2 ? (sizeof(R) == 4 ? -11 : -25) : (sizeof(R) == 4 ? -23 : -52)));
        }
    mc::body();
    doLU(variant, A, -1);
}
MC_HARNESS(lu_families)
{
    int hi = mc::thorough() ? 9 : 7;
    int m = mc::range("m", 0, hi), n = mc::range("n", 0, hi);
    int variant = mc::choose("variant", 4);
    int fam = mc::choose("family", FAM_COUNT);
    mc::body();
    int k = std::min(m, n), ex = -1;
    if (fam == FAM_ZERO) ex = k ? 1 : 0;
    if (fam == FAM_EYE || fam == FAM_GENERIC || fam == FAM_UPPER) ex = 0;
    if (fam == FAM_ZEROCOL) ex = n / 2 < k ? n / 2 + 1 : 0;
    doLU(variant, family<T>(fam, m, n, 3), ex);
}
MC_HARNESS(lu_large)
{
    static const int sz[][2] = {{13, 29}, {29, 13}, {33, 33}, {64, 17}, {17, 64}, {70, 70}};
    int s = mc::choose("size", 6);
    int variant = mc::choose("variant", 2);
    int fam = mc::pick("family", {(int)FAM_GENERIC, (int)FAM_GRADED_ROWS, (int)FAM_GRADED_COLS, (int)FAM_ZEROCOL, (int)FAM_INT});
    mc::body();
    int m = sz[s][0], n = sz[s][1], k = std::min(m, n);
    int ex = fam == FAM_ZEROCOL ? (n / 2 < k ? n / 2 + 1 : 0) : 0;
    doLU(variant, family<T>(fam, m, n, 3), ex);
}

// every order beyond the exhaustively enumerated ones, as square, tall and wide shapes: a step size or threshold anywhere has its
// boundary here
static std::pair<int, int> sweepShape(int lo, int hi)
{
    int n = mc::range("order", lo, hi), o = mc::choose("shape", 3), h = (n + 1) / 2 + 1;
    return o == 0 ? std::pair<int, int>{n, n} : o == 1 ? std::pair<int, int>{n, h} : std::pair<int, int>{h, n};
}
MC_HARNESS(lu_sweep)
{
    auto [m, n] = sweepShape(10, 72);
    int variant = mc::choose("variant", 2);
    int fam = mc::pick("family", {(int)FAM_GENERIC, (int)FAM_ZEROCOL});
    mc::body();
    int k = std::min(m, n);
    doLU(variant, family<T>(fam, m, n, 23), fam == FAM_ZEROCOL ? (n / 2 < k ? n / 2 + 1 : 0) : 0);
}
// ---- inverses ------------------------------------------------------------------------------------------
static int inv(int variant, Mat& A, std::vector<size_t>& piv)
{
    auto a = A.view();
    if (variant == 0) return tl::getri(a, piv, tl::GetriOpts{tl::GetriVariant::UILI});
    return tl::getri(a, piv, tl::GetriOpts{tl::GetriVariant::UXLI});
}
static void doInv(int variant, const RM& A0)
{
    int n = A0.n;
    Mat A(n, n);
    A.set(A0);
    std::vector<size_t> piv(n);
    int info = lu(1, A, piv);
    if (info) return;
    RM F = A.get(), L(n, n), U(n, n), Li, Ui, X;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            if (i > j) L(i, j) = F(i, j);
            if (i == j) L(i, j) = 1;
            if (i <= j) U(i, j) = F(i, j);
        }
    if (!refSolve(L, RM::eye(n), Li) || !refSolve(U, RM::eye(n), Ui)) return;
    RM P(n, n);
    std::vector<int> perm(n);
    for (int i = 0; i < n; ++i) perm[i] = i;
    for (int i = 0; i < n; ++i) std::swap(perm[i], perm[piv[i]]);
    for (int i = 0; i < n; ++i) P(i, perm[i]) = 1;
    RM ref = Ui * Li * P;
    LD cond = nrmF(Li) * nrmF(L) * nrmF(Ui) * nrmF(U);
    if (!(cond * EPS < 1e-3L)) return;
    LD small_ = std::numeric_limits<R>::min(), big = std::numeric_limits<R>::max();
    if (nrmF(Ui) > big / 1024 || nrmF(ref) > big / 1024 || nrmF(Ui) < small_ * 1024) return;
    auto pc = piv;
    info = inv(variant, A, piv);
    MC_CHECK(info == 0, "info", "getri returned %d for a nonsingular matrix", info);
    MC_CHECK(piv == pc, "piv-const", "piv modified");
    A.guards("A");
    RM D = A.get() - ref;
    mixRM(A.get());
    small(nrmF(D), 60 * (n + 1) * EPS * nrmF(Li) * nrmF(L) * nrmF(Ui) * nrmF(U) * nrmF(Ui) * nrmF(Li), "inverse", "getri");
}
MC_HARNESS(inverse_small)
{
    int variant = mc::choose("variant", 2);
    int n = mc::range("n", 0, 3);
    RM A(n, n);
    for (auto& x : A.a) x = pickScalar<T>("a", n <= 2 ? 6 : 3);
    mc::body();
    doInv(variant, A);
}
MC_HARNESS(inverse_families)
{
    int variant = mc::choose("variant", 2);
    int n = mc::range("n", 1, mc::thorough() ? 16 : 9);
    int fam = mc::choose("family", FAM_COUNT);
    mc::body();
    doInv(variant, family<T>(fam, n, n, 31));
}
MC_HARNESS(inverse_sweep)
{
    int variant = mc::choose("variant", 2);
    int n = mc::range("n", 10, 68);
    mc::body();
    doInv(variant, family<T>(FAM_GENERIC, n, n, 33));
}
MC_HARNESS(inverse_singular)
{
    int variant = mc::choose("variant", 2);
    int n = mc::range("n", 1, mc::thorough() ? 7 : 5);
    int mask = mc::range("zeros", 1, (1 << n) - 1);
    mc::body();
    Mat A(n, n);
    A.fill([&](int i, int j) { return i == j && (mask >> i & 1) ? cx(0) : gen<T>(i, j, 3); });
    std::vector<size_t> piv(n);
    for (int i = 0; i < n; ++i) piv[i] = i;
    int info = 0;
    try {
        info = inv(variant, A, piv);
    }
    catch (std::exception& e) {
        // with error checks enabled the report is thrown as "[info] text"
        if (sscanf(e.what(), "[%d]", &info) != 1) throw;
    }
    MC_CHECK(info >= 1 && info <= n && (mask >> (info - 1) & 1), "singular", "zero pivots mask %d reported as %d", mask, info);
    A.guards("A");
}
// ---- products of the stored triangles ---------------------------------------------------------------------
MC_HARNESS(products)
{
    int ul = mc::choose("ul", 2);
    int n = mc::pickv("n", mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 33} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 18});
    int nx = ul ? 1 : mc::range("nx", 1, std::min(n, 9) + 1);
    int fam = mc::choose("family", FAM_COUNT);
    mc::require(fam != FAM_HUGE && fam != FAM_TINY);
    mc::body();
    RM F = family<T>(fam, n, n, 17), L(n, n), U(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            if (i > j) L(i, j) = F(i, j);
            if (i == j) L(i, j) = 1;
            if (i <= j) U(i, j) = F(i, j);
        }
    Mat A(n, n);
    A.set(F);
    auto a = A.view();
    if (ul) {
        int info = tl::ul_mult(a);
        MC_CHECK(info == 0, "info", "ul_mult returned %d", info);
    }
    else
        tl::lu_mult(a, tl::LuMultOpts{(size_t)nx});
    A.guards("A");
    RM ref = ul ? U * L : L * U, B = ul ? Abs(U) * Abs(L) : Abs(L) * Abs(U), G = A.get();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) cmpElt(G(i, j), ref(i, j), 8 * (n + 2) * EPS * B(i, j).re, "product", ul ? "UL" : "LU", i, j);
    mixRM(G);
}
MC_MAIN
