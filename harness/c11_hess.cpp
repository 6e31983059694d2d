// C11: Hessenberg reduction (gehd2, gehrd, hessenberg), unghr, unmhr; Hermitian tridiagonal hetd2, ungtr.
#include "refl.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/ungtr.hpp>

/// make A upper triangular outside the active block [ilo,ihi)
static void preshape(RM& A, int ilo, int ihi)
{
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < i; ++j)
            if (j < ilo || i >= ihi) A(i, j) = 0;
}
static int runHess(int alg, int nb, int nx, int ilo, int ihi, Mat& A, Vec& tau)
{
    auto a = A.view();
    auto t = tau.fview();
    tl::HessenbergOpts o;
    o.nb = nb;
    o.nx_switch = nx;
    switch (alg) {
        case 0: return tl::gehd2((size_t)ilo, (size_t)ihi, a, t);
        case 1: return tl::gehrd((size_t)ilo, (size_t)ihi, a, t, (const tl::GehrdOpts&)o);
        case 2: o.variant = tl::HessenbergVariant::Level2; return tl::hessenberg((size_t)ilo, (size_t)ihi, a, t, o);
        case 3: o.variant = tl::HessenbergVariant::Blocked; return tl::hessenberg((size_t)ilo, (size_t)ihi, a, t, o);
        default: return tl::gehrd((size_t)ilo, (size_t)ihi, a, t);
    }
}
static RM qOf(const RM& F, const RM& tau, int ilo, int ihi)
{
    int n = F.m;
    RM Q = RM::eye(n);
    for (int i = ihi - 2; i >= ilo; --i) {
        RM v(n, 1);
        v.a[i + 1] = 1;
        for (int r = i + 2; r < ihi; ++r) v.a[r] = F(r, i);
        applyH(Q, v, tau.a[i]);
    }
    return Q;
}
/// returns reflector storage, tau and the exact product Q
static void checkHess(int alg, int nb, int nx, int ilo, int ihi, const RM& A0, RM& F, RM& tau, RM& Q)
{
    int n = A0.m;
    Mat A(n, n);
    A.set(A0);
    Vec t(n ? n - 1 : 0);
    int info = runHess(alg, nb, nx, ilo, ihi, A, t);
    MC_CHECK(info == 0, "info", "returned %d", info);
    A.guards("A");
    t.guards("tau");
    F = A.get();
    tau = t.get();
    RM Hs(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            bool stored = j >= ilo && j < ihi - 2 && i > j + 1 && i < ihi;  // reflector storage
            if (!stored) Hs(i, j) = F(i, j);
            bool outsideLow = i > j && (j < ilo || i >= ihi);
            if (outsideLow) MC_CHECK(F(i, j) == cx(0), "outside-range", "entry (%d,%d) outside the active range became (%Lg,%Lg)", i, j, F(i, j).re, F(i, j).im);
            if (i < j && j < ilo) MC_CHECK(F(i, j) == A0(i, j), "outside-range", "entry (%d,%d) outside the active range changed", i, j);
            if (i < j && i >= ihi) MC_CHECK(F(i, j) == A0(i, j), "outside-range", "entry (%d,%d) outside the active range changed", i, j);
        }
    Q = qOf(F, tau, ilo, ihi);
    LD tol = 40 * (LD)(n + 2) * EPS;
    small(orthCols(Q), tol, "orthogonality", "Q");
    small(nrmF(Q * Hs * H(Q) - A0), tol * nrmF(A0), "similarity", "Q H Q^H - A");
    mixRM(Hs);
}
static RM opR(const RM& Q, tl::Op op) { return op == tl::Op::NoTrans ? Q : op == tl::Op::Trans ? Tr(Q) : H(Q); }
static void checkQ(int ilo, int ihi, const RM& F, const RM& tau, const RM& Q, int sides, int cn)
{
    int n = F.m;
    LD tol = 40 * (LD)(n + 2) * EPS;
    {
        Mat A(n, n);
        A.set(F);
        Vec t(tau.m);
        t.set(tau);
        auto a = A.view();
        auto tv = t.fview();
        int info = tl::unghr((size_t)ilo, (size_t)ihi, a, tv);
        MC_CHECK(info == 0, "info", "unghr returned %d", info);
        A.guards("A");
        t.constant("tau");
        RM G = A.get();
        small(nrmF(G - Q), tol, "unghr", "generated Q");
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (i <= ilo || j <= ilo || i >= ihi || j >= ihi)
                    if (!(i > ilo && i < ihi && j > ilo && j < ihi)) MC_CHECK(G(i, j) == cx(i == j ? 1 : 0), "unghr", "entry (%d,%d) outside the active block is not that of the identity", i, j);
    }
    for (int s = 0; s < sides; ++s)
        for (int o = 0; o < 3; ++o) {
            tl::Op op = o == 0 ? tl::Op::NoTrans : o == 1 ? tl::Op::ConjTrans : tl::Op::Trans;
            if (o == 2 && CPLX) continue;
            tl::Side side = s == 0 ? tl::Side::Left : tl::Side::Right;
            int cm = s == 0 ? n : cn, cc = s == 0 ? cn : n;
            Mat A(n, n), C(cm, cc);
            A.set(F);
            Vec t(tau.m);
            t.set(tau);
            RM C0(cm, cc);
            for (int i = 0; i < cm; ++i)
                for (int j = 0; j < cc; ++j) C0(i, j) = gen<T>(i, j, 91);
            C.set(C0);
            auto a = A.view();
            auto tv = t.fview();
            auto c = C.view();
            int info = tl::unmhr(side, op, (size_t)ilo, (size_t)ihi, a, tv, c);
            MC_CHECK(info == 0, "info", "unmhr returned %d", info);
            A.constant("A");
            t.constant("tau");
            C.guards("C");
            RM ref = s == 0 ? opR(Q, op) * C0 : C0 * opR(Q, op);
            small(nrmF(C.get() - ref), tol * (nrmF(C0) + 1), "unmhr", s == 0 ? "op(Q) C" : "C op(Q)");
        }
}

MC_HARNESS(hess_all_small)
{
    int n = mc::range("n", 2, 3);
    int alg = mc::choose("alg", 2);
    int nb = alg ? mc::range("nb", 1, 2) : 1;
    RM A(n, n);
    int na = n == 2 ? 5 : mc::thorough() ? 4 : 3;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) A(i, j) = (n == 3 && !mc::thorough() && j == 2) ? gint<T>(i, j, 3) : pickScalar<T>("a", na);
    mc::body();
    RM F, tau, Q;
    checkHess(alg, nb, 0, 0, n, A, F, tau, Q);
}
MC_HARNESS(hess_families)
{
    int hi = mc::thorough() ? 8 : 6;
    int n = mc::range("n", 0, hi);
    int ilo = n ? mc::range("ilo", 0, n - 1) : 0;
    int ihi = n ? mc::range("ihi", ilo, n) : 0;
    int alg = mc::choose("alg", 4);
    int nb = (alg == 1 || alg == 3) ? mc::range("nb", 1, mc::thorough() ? 5 : 3) : 1;
    int nx = (alg == 1 || alg == 3) ? mc::pick("nx", {0, 2}) : 0;
    mc::require(!(alg >= 2 && (nb > 2 || ihi - ilo < n)));
    int fam = mc::choose("fam", FAM_COUNT);
    mc::body();
    RM A = family<T>(fam, n, n, 11), F, tau, Q;
    preshape(A, ilo, ihi);
    checkHess(alg, nb, nx, ilo, ihi, A, F, tau, Q);
    if (n && alg <= 1 && nb <= 2) checkQ(ilo, ihi, F, tau, Q, 2, fam % 3 == 0 ? n : fam % 3 == 1 ? 1 : n + 2);
}
/// every order: a step size or threshold anywhere has its boundary here
MC_HARNESS(hess_sweep)
{
    int n = mc::range("n", 7, mc::thorough() ? 68 : 44);
    int alg = mc::choose("alg", 2);
    mc::body();
    int ilo = n % 3, ihi = n - n % 2;
    RM A = family<T>(FAM_GENERIC, n, n, 16), F, tau, Q;
    preshape(A, ilo, ihi);
    checkHess(alg, 8, 0, ilo, ihi, A, F, tau, Q);
    if (alg && n <= 44) checkQ(ilo, ihi, F, tau, Q, 8, 3);
}
/// orders crossing the default block size (32) and crossover (128)
MC_HARNESS(hess_default)
{
    int n = mc::pick("n", {31, 33, 34, 66, 129, 130, 131, 150});
    int ilo = mc::pick("ilo", {0, 1, 5});
    int cut = mc::pick("n-ihi", {0, 1});
    int alg = mc::pick("alg", {1, 4});
    int nx = alg == 1 ? mc::pick("nx", {0, 40}) : 128;
    mc::require(mc::thorough() || (n <= 66 ? alg == 1 : (ilo != 5 && alg == 4)));
    int fam = mc::pick("fam", {FAM_GENERIC, FAM_ZEROCOL, FAM_GRADED_ROWS});
    mc::require(mc::thorough() || fam == FAM_GENERIC || n < 130);
    mc::body();
    int ihi = n - cut;
    RM A = family<T>(fam, n, n, 12), F, tau, Q;
    preshape(A, ilo, ihi);
    checkHess(alg, 32, nx, ilo, ihi, A, F, tau, Q);
    if (n <= 66) checkQ(ilo, ihi, F, tau, Q, 1, 2);
}

// ---- Hermitian tridiagonal ------------------------------------------------------------------------
static void checkTrd(bool upper, const RM& A0)
{
    int n = A0.m;
    Mat A(n, n);
    LD q = std::numeric_limits<LD>::quiet_NaN();
    A.fill([&](int i, int j) -> cx {
        if (i == j) return cx(A0(i, j).re, CPLX ? q : 0);
        return (upper ? i < j : i > j) ? A0(i, j) : cx(q, q);
    });
    Vec tau(n ? n - 1 : 0);
    auto a = A.view();
    auto t = tau.fview();
    int info = tl::hetd2(upper ? tl::Uplo::Upper : tl::Uplo::Lower, a, t);
    MC_CHECK(info == 0, "info", "hetd2 returned %d", info);
    A.unchangedExcept([&](int i, int j) { return upper ? i <= j : i >= j; }, "other-triangle", "A");
    tau.guards("tau");
    RM F = A.get(), tr = tau.get(), Td(n, n), Q = RM::eye(n);
    for (int i = 0; i < n; ++i) {
        MC_CHECK(F(i, i).im == 0, "real-tridiagonal", "diagonal %d has imaginary part %Lg", i, F(i, i).im);
        Td(i, i) = F(i, i);
        if (i + 1 < n) {
            cx e = upper ? F(i, i + 1) : F(i + 1, i);
            MC_CHECK(e.im == 0, "real-tridiagonal", "off-diagonal %d has imaginary part %Lg", i, e.im);
            Td(i, i + 1) = Td(i + 1, i) = e;
        }
    }
    for (int l = 0; l + 1 < n; ++l) {
        // upper: Q = H(n-2)...H(0), apply H(0) first; lower: Q = H(0)...H(n-2), apply H(n-2) first
        int i = upper ? l : n - 2 - l;
        RM v(n, 1);
        if (upper) {
            v.a[i] = 1;
            for (int r = 0; r < i; ++r) v.a[r] = F(r, i + 1);
        }
        else {
            v.a[i + 1] = 1;
            for (int r = i + 2; r < n; ++r) v.a[r] = F(r, i);
        }
        applyH(Q, v, tr.a[i]);
    }
    LD tol = 40 * (LD)(n + 2) * EPS;
    small(orthCols(Q), tol, "orthogonality", "Q");
    small(nrmF(Q * Td * H(Q) - A0), tol * nrmF(A0), "similarity", "Q T Q^H - A");
    mixRM(Td);
    tau.snap();
    int inf2 = tl::ungtr(upper ? tl::Uplo::Upper : tl::Uplo::Lower, a, t);
    MC_CHECK(inf2 == 0, "info", "ungtr returned %d", inf2);
    A.guards("Q");
    tau.constant("tau");
    small(nrmF(A.get() - Q), tol, "ungtr", "generated Q");
}
static RM herm(RM A)
{
    for (int j = 0; j < A.n; ++j) {
        A(j, j).im = 0;
        for (int i = 0; i < j; ++i) A(j, i) = cj(A(i, j));
    }
    return A;
}
MC_HARNESS(trd_all_small)
{
    int n = mc::range("n", 1, 3);
    bool up = mc::flag("upper");
    RM A(n, n);
    int na = mc::thorough() ? 5 : 4;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= j; ++i) A(i, j) = pickScalar<T>("a", i == j ? 3 : na);
    mc::body();
    checkTrd(up, herm(A));
}
MC_HARNESS(trd_families)
{
    int n = mc::range("n", 0, mc::thorough() ? 12 : 8);
    bool up = mc::flag("upper");
    int fam = mc::choose("fam", FAM_COUNT);
    int salt = mc::choose("salt", mc::thorough() ? 6 : 2);
    mc::body();
    checkTrd(up, herm(family<T>(fam, n, n, 21 + salt)));
}
MC_HARNESS(trd_large)
{
    int k = mc::choose("n", mc::thorough() ? 66 : 46), n = k < 4 ? (k < 3 ? 32 + k : 65) : k + 3;
    bool up = mc::flag("upper");
    int fam = k < 4 ? mc::pick("fam", {FAM_GENERIC, FAM_ZEROCOL, FAM_GRADED_ROWS, FAM_REAL}) : FAM_GENERIC;
    mc::body();
    checkTrd(up, herm(family<T>(fam, n, n, 22)));
}
MC_MAIN
