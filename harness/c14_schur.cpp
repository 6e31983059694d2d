// C14: Schur decomposition (lahqr, multishift_qr, qr_iteration), AED and sweep kernels.
#include "hessfam.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/qr_iteration.hpp>

typedef std::complex<R> CR;
struct Opt { int variant; int nmin, ns, nw; };  // variant: 0 lahqr, 1 multishift_qr, 2 qr_iteration(Double), 3 qr_iteration(Multi), 4 multishift default options

struct Out { RM Tm, Z; std::vector<cx> w; };

static int runOne(const RM& A0, int ilo, int ihi, const Opt& o, bool wt, bool wz, const RM& Z0, Out& r)
{
    int n = A0.m;
    Mat A(n, n), Z(Z0.m, Z0.n);
    A.set(A0);
    Z.set(Z0);
    GV<CR> w(n);
    w.fill([](int) { return cx(777, -777); });
    auto a = A.view(), z = Z.view();
    auto wv = w.fview();
    tl::QRIterationOpts op;
    if (o.variant != 4) {
        op.nmin = o.nmin;
        size_t ns = o.ns, nw = o.nw;
        op.nshift_recommender = [ns](size_t, size_t) { return ns; };
        op.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
    }
    op.variant = o.variant == 2 ? tl::QRIterationVariant::DoubleShift : tl::QRIterationVariant::MultiShift;
    int info;
    if (o.variant == 0) info = tl::lahqr(wt, wz, (size_t)ilo, (size_t)ihi, a, wv, z);
    else if (o.variant == 1) info = tl::multishift_qr(wt, wz, (size_t)ilo, (size_t)ihi, a, wv, z, op);
    else if (o.variant == 4) info = tl::multishift_qr(wt, wz, (size_t)ilo, (size_t)ihi, a, wv, z);
    else info = tl::qr_iteration(wt, wz, (size_t)ilo, (size_t)ihi, a, wv, z, op);
    A.guards("A"); Z.guards("Z"); w.guards("w");
    if (!wz) Z.constant("Z");
    bool ws = (o.variant == 1 || o.variant == 3) ? n >= o.nmin : o.variant == 4 && n >= 75;
    r.Tm = A.get(); r.Z = Z.get();
    r.w.clear();
    for (int i = 0; i < n; ++i) {
        r.w.push_back(up(w[i]));
        if (i < ilo || i >= ihi) MC_CHECK(r.w[i] == cx(777, -777), "w-range", "w[%d] outside [%d,%d) was written", i, ilo, ihi);
    }
    // multishift uses the space below the subdiagonal as workspace; elsewhere it must still be zero
    for (int j = 0; j < n; ++j)
        for (int i = j + 2; i < n; ++i) {
            if (!ws && wt) MC_CHECK(r.Tm(i, j) == cx(0), "hessenberg", "entry (%d,%d) below the subdiagonal is (%Lg,%Lg)", i, j, r.Tm(i, j).re, r.Tm(i, j).im);
            r.Tm(i, j) = 0;
        }
    return info;
}
/// power sums of the eigenvalues against traces of powers (well conditioned even for defective matrices)
static void powerSums(const RM& A, const std::vector<cx>& w, LD tol, const char* what)
{
    LD s = nrmF(A);
    if (s == 0) { for (auto& x : w) MC_CHECK(ab(x) == 0, "eigenvalues", "%s: non-zero eigenvalue of the zero matrix", what); return; }
    int n = A.m, K = std::min(n, 6);
    RM B = cx(1 / s) * A, P = B;
    std::vector<cx> v, q;
    for (auto& x : w) v.push_back(cx(x.re / s, x.im / s));
    q = v;
    for (int k = 1; k <= K; ++k) {
        cx t, u;
        LD mag = 1;
        for (int i = 0; i < n; ++i) t += P(i, i), u += q[i];
        cmpElt(u, t, tol * k * mag * sqrtl(n), "eigenvalues", what, k, 0);
        if (k < K) {
            P = P * B;
            for (int i = 0; i < n; ++i) q[i] = q[i] * v[i];
        }
    }
}
static void checkSchur(const RM& A0, int ilo, int ihi, const Opt& o, int full)
{
    int n = A0.m;
    LD nA = nrmF(A0), tol = 60 * (LD)(n + 2) * EPS;
    Out r;
    int info = runOne(A0, ilo, ihi, o, true, true, RM::eye(n), r);
    MC_CHECK(info == 0, "info", "returned %d", info);
    small(orthCols(r.Z), tol, "orthogonality", "Z");
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if ((i < ilo || i >= ihi || j < ilo || j >= ihi)) MC_CHECK(r.Z(i, j) == cx(i == j ? 1 : 0), "range", "Z(%d,%d) outside the active block changed", i, j);
    small(nrmF(r.Z * r.Tm * H(r.Z) - A0), tol * nA, "similarity", "Z T Z^H - A");
    // structure and eigenvalues
    for (int i = 0; i + 1 < n; ++i)
        if (i < ilo || i + 1 >= ihi) MC_CHECK(r.Tm(i + 1, i) == A0(i + 1, i), "range", "subdiagonal %d outside the active block changed", i);
    for (int i = ilo; i < ihi;) {
        bool two = i + 1 < ihi && r.Tm(i + 1, i) != cx(0);
        if (CPLX) MC_CHECK(!two, "triangular", "subdiagonal %d is non-zero", i);
        if (!two) {
            cmpElt(r.w[i], r.Tm(i, i), 4 * EPS * ab(r.Tm(i, i)), "w-diagonal", "w", i, 0);
            if (!CPLX) MC_CHECK(r.w[i].im == 0, "w-diagonal", "real 1x1 block with complex eigenvalue");
            ++i;
            continue;
        }
        if (i + 2 < ihi) MC_CHECK(r.Tm(i + 2, i + 1) == cx(0), "quasi-triangular", "consecutive non-zero subdiagonals at %d", i);
        LD a = r.Tm(i, i).re, b = r.Tm(i, i + 1).re, c = r.Tm(i + 1, i).re, d = r.Tm(i + 1, i + 1).re;
        MC_CHECK(a == d && b * c < 0 , "standardised", "block at %d is [%Lg %Lg; %Lg %Lg]", i, a, b, c, d);
        LD im = sqrtl(fabsl(b)) * sqrtl(fabsl(c));
        LD t = 60 * EPS * (fabsl(a) + std::max(fabsl(b), fabsl(c)));
        cmpElt(r.w[i], cx(a, r.w[i].im >= 0 ? im : -im), t, "w-block", "w", i, 0);
        cmpElt(r.w[i + 1], cx(a, r.w[i].im >= 0 ? -im : im), t, "w-block", "w", i + 1, 0);
        i += 2;
    }
    // complete the eigenvalue list with the parts already triangular
    auto all = [&](const std::vector<cx>& w) {
        std::vector<cx> v = w;
        for (int i = 0; i < n; ++i)
            if (i < ilo || i >= ihi) v[i] = A0(i, i);
        return v;
    };
    powerSums(A0, all(r.w), tol, "power sum (Schur form and vectors)");
    for (auto& x : r.w) mc::mixd((double)x.re);
    if (!full) return;
    for (int k = 0; k < 3; ++k) {
        bool wt = k & 1, wz = k & 2;
        if (full == 1 && k == 2) continue;
        Out q;
        RM Z0 = wz ? RM::eye(n) : RM(0, 0);
        info = runOne(A0, ilo, ihi, o, wt, wz, Z0, q);
        MC_CHECK(info == 0, "info", "returned %d (want_t=%d want_z=%d)", info, wt, wz);
        powerSums(A0, all(q.w), tol, wt ? "power sum (no vectors)" : "power sum (eigenvalues only)");
        if (wt) small(nrmF(r.Z * q.Tm * H(r.Z) - A0), tol * nA, "similarity", "T without vectors");
        if (wz) small(orthCols(q.Z), tol, "orthogonality", "Z (eigenvalues only)");
    }
    if (full < 2) return;
    Out q;
    RM Z0(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) Z0(i, j) = gen<T>(i, j, 71);
    info = runOne(A0, ilo, ihi, o, true, true, Z0, q);
    MC_CHECK(info == 0, "info", "returned %d (generic basis)", info);
    small(nrmF(q.Z - Z0 * r.Z), tol * nrmF(Z0), "accumulate", "Z0*Z");
    Out q1, q2;
    MC_CHECK(runOne(A0, ilo, ihi, o, false, true, RM::eye(n), q1) == 0 && runOne(A0, ilo, ihi, o, false, true, Z0, q2) == 0, "info", "eigenvalues only, with basis");
    small(nrmF(q2.Z - Z0 * q1.Z), tol * nrmF(Z0), "accumulate", "Z0*Z (eigenvalues only)");
}
MC_HARNESS(lahqr_all)
{
    int n = mc::range("n", 0, mc::thorough() ? 5 : 4);
    int na = n <= 1 ? 8 : n == 2 ? 8 : n == 3 ? (mc::thorough() ? 6 : CPLX ? 4 : 5) : n == 4 ? (mc::thorough() ? 3 : 2) : 2;
    RM A(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (i <= j + 1) A(i, j) = hv(mc::choose("a", na));
    mc::body();
    checkSchur(A, 0, n, Opt{0, 15, 2, 2}, n <= 2 ? 2 : n <= 3 ? 0 : 0);
}
static cx gradedPick(int k, cx g)
{
    switch (k) {
        case 0: return cx(0);
        case 1: return g;
        case 2: return g * cx(ldexpl(1, sizeof(R) == 4 ? -11 : -25));
        case 3: return g * cx(ldexpl(1, sizeof(R) == 4 ? -23 : -52));
        default: return g * cx(ldexpl(1, sizeof(R) == 4 ? 12 : 27));
    }
}
// entries of very different size: 0, 1, sqrt(eps), eps, 1/sqrt(eps)
MC_HARNESS(lahqr_graded)
{
    int n = mc::range("n", 2, 4);
    int nv = n == 2 ? 5 : n == 3 ? (mc::thorough() ? 5 : 3) : mc::thorough() ? 4 : 3;
    int far = n == 4 ? mc::choose("upper", 3) : 0;
    RM A(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (i <= j + 1) {
                cx g = gint<T>(i, j, 5);
                if (g == cx(0)) g = cx(1);
                A(i, j) = n == 4 && j > i ? g * cx(far == 0 ? 1.0L : far == 1 ? ldexpl(1, -(int)sizeof(R) * 5) : ldexpl(1, (int)sizeof(R) * 5)) : gradedPick(mc::choose("a", nv), g);
            }
    mc::body();
    checkSchur(A, 0, n, Opt{0, 15, 2, 2}, n == 2 ? 2 : 0);
}
MC_HARNESS(lahqr_signs)
{
    // three-valued matrices of order 4 with fixed super-diagonal pattern: every diagonal/subdiagonal/last-column combination
    int p = mc::choose("upper", 3);
    RM A(4, 4);
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            if (i <= j + 1) A(i, j) = (i > j || i == j || j == 3) ? hv(mc::choose("a", 3)) : p == 0 ? cx(0) : p == 1 ? cx(1) : gint<T>(i, j, 3);
    mc::body();
    checkSchur(A, 0, 4, Opt{0, 15, 2, 2}, 1);
}
MC_HARNESS(lahqr_families)
{
    int n = mc::pick("n", {2, 3, 4, 5, 6, 7, 9, 12, 16});
    int fam = mc::choose("fam", HF);
    int k = mc::choose("range", 4);
    int v = mc::choose("variant", 2);
    mc::body();
    int ilo = (k & 1) ? std::min(2, n / 3) : 0, ihi = (k & 2) ? n - std::min(2, n / 3) : n;
    RM A = hess(fam, n);
    isolate(A, ilo, ihi);
    checkSchur(A, ilo, ihi, Opt{v ? 2 : 0, 15, 2, 2}, 2);
}
// every order: a step size, an iteration count or a threshold anywhere has its boundary here
MC_HARNESS(lahqr_sweep)
{
    int n = mc::range("n", 7, mc::thorough() ? 60 : 40);
    int fam = mc::pick("fam", {0, 7});
    mc::body();
    RM A = hess(fam, n);
    int ilo = n % 4 == 1 ? 2 : 0, ihi = n % 4 == 2 ? n - 2 : n;
    isolate(A, ilo, ihi);
    checkSchur(A, ilo, ihi, Opt{0, 15, 2, 2}, 1);
}
MC_HARNESS(lahqr_ranges)
{
    int n = mc::range("n", 1, mc::thorough() ? 8 : 6);
    int ilo = mc::range("ilo", 0, n), ihi = mc::range("ihi", ilo, n);
    int fam = mc::pick("fam", {0, 7, 13, 16, 20, 22});
    mc::body();
    RM A = hess(fam, n);
    isolate(A, ilo, ihi);
    checkSchur(A, ilo, ihi, Opt{0, 15, 2, 2}, 2);
}
MC_HARNESS(multishift_families)
{
    int n = mc::pick("n", {15, 16, 17, 20, 24, 33});
    int fam = mc::choose("fam", HF);
    int nmin = mc::pick("nmin", {15, 20});
    int ns = mc::pick("ns", {2, 4, 6});
    int nw = mc::pick("nw", {2, 3, 4, 7});
    int k = mc::choose("range", mc::thorough() ? 4 : 2);
    mc::body();
    if (k == 1 && n > 17) k = 3;
    int ilo = (k & 1) ? 2 : 0, ihi = (k & 2) ? n - 3 : n;
    RM A = hess(fam, n);
    isolate(A, ilo, ihi);
    checkSchur(A, ilo, ihi, Opt{1 + 2 * ((n + ns) & 1), nmin, ns, nw}, n <= 20 ? 1 : 0);
}
/// deflation windows that are themselves reduced by the multishift algorithm, long chains of bulges
MC_HARNESS(multishift_window)
{
    int n = mc::pick("n", {48, 51, 57});
    int fam = mc::choose("fam", HF);
    int ns = mc::pick("ns", {4, 12, 16});
    int nw = mc::pick("nw", {15, 18});
    int k = mc::thorough() ? mc::choose("range", 4) : 0;
    mc::body();
    if (!mc::thorough() && (fam + n + ns / 4 + nw) % 3) throw mc::Prune{};
    int ilo = (k & 1) ? 2 : 0, ihi = (k & 2) ? n - 3 : n;
    RM A = hess(fam, n);
    isolate(A, ilo, ihi);
    checkSchur(A, ilo, ihi, Opt{1 + 2 * ((n + ns) & 1), 15, ns, nw}, 0);
}
MC_HARNESS(multishift_large)
{
    int n = mc::pick("n", {75, 80, 100});
    int fam = mc::choose("fam", HF);
    int v = mc::choose("options", mc::thorough() ? 4 : 1);
    mc::body();
    if (!mc::thorough() && fam % 3 != n % 3) throw mc::Prune{};
    RM A = hess(fam, n);
    if (v == 0) checkSchur(A, 0, n, Opt{4, 75, 10, 10}, mc::thorough() ? 1 : 0);
    else checkSchur(A, 0, n, Opt{1, v == 3 ? 75 : 20, 4 * v, 9 * v}, 0);
}
MC_MAIN
