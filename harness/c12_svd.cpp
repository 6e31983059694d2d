// C12: singular value decompositions: svd_qr (bidiagonal), gesvd (dense), svd22, singularvalues22.
#include "refl.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/gesvd.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/singularvalues22.hpp>

static void checkVals(const RM& s, const char* w)
{
    for (int i = 0; i < s.m; ++i) {
        MC_CHECK(std::isfinite(s.a[i].re) && s.a[i].re >= 0, "nonnegative", "%s: value %d is %Lg", w, i, s.a[i].re);
        if (i) MC_CHECK(s.a[i].re <= s.a[i - 1].re, "sorted", "%s: value %d (%Lg) exceeds value %d (%Lg)", w, i, s.a[i].re, i - 1, s.a[i - 1].re);
    }
}
static LD scaleOf(const RM& d, const RM& e)
{
    LD s = 0;
    for (auto& x : d.a) s = std::max(s, ab(x));
    for (auto& x : e.a) s = std::max(s, ab(x));
    return s;
}
/// full = also exercise other flag combinations and generic bases
static void checkBdsqr(bool upper, const RM& d0, const RM& e0, int full)
{
    int n = d0.m;
    LD sc = scaleOf(d0, e0), tol = 60 * (LD)(n + 2) * EPS;
    auto run = [&](bool wu, bool wv, const RM& U0, const RM& V0, RM& s, RM& U1, RM& V1) {
        VecR d(n), e(n ? n - 1 : 0);
        d.set(d0);
        e.set(e0);
        Mat U(U0.m, U0.n), V(V0.m, V0.n);
        U.set(U0);
        V.set(V0);
        auto dv = d.fview(), ev = e.fview();
        auto u = U.view(), v = V.view();
        int info = tl::svd_qr(upper ? tl::Uplo::Upper : tl::Uplo::Lower, wu, wv, dv, ev, u, v);
        MC_CHECK(info == 0, "info", "svd_qr returned %d", info);
        d.guards("d"); e.guards("e"); U.guards("U"); V.guards("Vt");
        if (!wu) U.constant("U");
        if (!wv) V.constant("Vt");
        s = d.get(); U1 = U.get(); V1 = V.get();
        checkVals(s, "svd_qr");
    };
    RM s, U, V, B(n, n), S(n, n);
    for (int i = 0; i < n; ++i) {
        B(i, i) = d0.a[i];
        if (i + 1 < n) (upper ? B(i, i + 1) : B(i + 1, i)) = e0.a[i];
    }
    run(true, true, RM::eye(n), RM::eye(n), s, U, V);
    for (int i = 0; i < n; ++i) S(i, i) = s.a[i];
    small(orthCols(U), tol, "orthogonality", "U");
    small(orthCols(V), tol, "orthogonality", "Vt");
    small(nrmF(U * S * V - B), tol * sc, "reconstruction", "U S Vt - B");
    mixRM(s);
    if (!full) return;
    for (int w = 0; w < 4; ++w) {
        int nu = (w & 1) ? n + 1 : 0, nv = (w & 2) ? n + 2 : 0;
        if (full == 1 && w == 3) continue;
        RM U0(nu, (w & 1) ? n : 0), V0((w & 2) ? n : 0, nv), s2, U2, V2;
        for (int i = 0; i < U0.m; ++i)
            for (int j = 0; j < U0.n; ++j) U0(i, j) = gen<T>(i, j, 51);
        for (int i = 0; i < V0.m; ++i)
            for (int j = 0; j < V0.n; ++j) V0(i, j) = gen<T>(i, j, 52);
        run(w & 1, w & 2, U0, V0, s2, U2, V2);
        for (int i = 0; i < n; ++i) cmpElt(s2.a[i], s.a[i], tol * sc, "flags-agree", "s", i, 0);
        if (w & 1) small(nrmF(U2 - U0 * U), tol * nrmF(U0), "accumulate", "U0*Q");
        if (w & 2) small(nrmF(V2 - V * V0), tol * nrmF(V0), "accumulate", "P^H*Vt0");
    }
}
static LD bv(int k)
{
    switch (k) {
        case 0: return 0;
        case 1: return 1;
        case 2: return 2;
        case 3: return (LD)(R)(EPS * 2);
        case 4: return -1;
        case 5: return (LD)(R)sqrtl(EPS);
        case 6: return -0.5L;
        default: return (LD)(R)(EPS * EPS);
    }
}
MC_HARNESS(bidiagonal_all)
{
    int n = mc::range("n", 0, mc::thorough() ? 6 : 5);
    bool up = mc::flag("upper");
    static const int aq[] = {1, 8, 8, 6, 4, 3, 2}, at[] = {1, 8, 8, 8, 6, 4, 3};
    int na = mc::thorough() ? at[n] : CPLX ? std::min(aq[n], n == 4 ? 3 : 6) : aq[n];
    RM d(n, 1), e(n ? n - 1 : 0, 1);
    for (int i = 0; i < n; ++i) {
        d.a[i] = bv(mc::choose("d", na));
        if (i + 1 < n) e.a[i] = bv(mc::choose("e", na));
    }
    mc::body();
    checkBdsqr(up, d, e, n <= 3 ? 2 : 0);
}
static LD exactR(LD x) { return (LD)(R)x; }
MC_HARNESS(bidiagonal_families)
{
    int n = mc::pick("n", {1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 33});
    bool up = mc::flag("upper");
    int fam = mc::choose("fam", 12);
    int scl = mc::choose("scale", 5);
    bool rev = mc::flag("reverse");
    mc::body();
    LD mx = (LD)std::numeric_limits<R>::max(), mn = (LD)std::numeric_limits<R>::min();
    LD f = scl == 0 ? 1 : scl == 1 ? sqrtl(mx) * 16 : scl == 2 ? sqrtl(mn) / 16 : scl == 3 ? mx / (16 * n) : mn / EPS * 64 * n;
    RM d(n, 1), e(n - 1, 1);
    for (int i = 0; i < n; ++i) {
        LD dd, ee;
        switch (fam) {
            case 0: dd = gen1(i, 0, 61), ee = gen1(i, 1, 61); break;
            case 1: dd = 1, ee = 1; break;
            case 2: dd = 1, ee = EPS * 8; break;
            case 3: dd = powl(2, -3 * i), ee = powl(2, -3 * i - 1); break;
            case 4: dd = powl(2, -3 * (n - 1 - i)), ee = powl(2, -3 * (n - 1 - i)); break;
            case 5: dd = (i == n / 2) ? 0 : gen1(i, 2, 61), ee = gen1(i, 3, 61); break;
            case 6: dd = (i == n - 1) ? 0 : 1, ee = 1; break;
            case 7: dd = (i == 0) ? 0 : 1, ee = 1; break;
            case 8: dd = 0, ee = 1 + (i % 3); break;
            case 9: dd = (i & 1) ? -1 : 1, ee = (i % 3 == 0) ? 0 : gen1(i, 4, 61); break;
            case 10: dd = (i & 1) ? EPS : 1, ee = 1; break;
            default: dd = 1 + (i % 2), ee = (i & 1) ? EPS * EPS : 1; break;
        }
        int p = rev ? n - 1 - i : i;
        d.a[p] = exactR(dd * f);
        if (i + 1 < n) e.a[rev ? n - 2 - i : i] = exactR(ee * f);
    }
    checkBdsqr(up, d, e, n <= 12 ? 2 : 0);
}

static void checkGesvd(const RM& A0, bool wu, bool wv, bool fullU, bool fullV)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    LD tol = 60 * (LD)(m + n + 2) * EPS;
    Mat A(m, n), U(m, fullU ? m : k), V(fullV ? n : k, n);
    A.set(A0);
    VecR s(k);
    auto a = A.view(), u = U.view(), v = V.view();
    auto sv = s.fview();
    int info = tl::gesvd(wu, wv, a, sv, u, v);
    MC_CHECK(info == 0, "info", "gesvd returned %d", info);
    A.guards("A"); s.guards("s"); U.guards("U"); V.guards("Vt");
    if (!wu) U.constant("U");
    if (!wv) V.constant("Vt");
    RM sr = s.get();
    checkVals(sr, "gesvd");
    LD sc = nrmF(A0);
    if (wu) small(orthCols(U.get()), tol, "orthogonality", "U");
    if (wv) small(orthRows(V.get()), tol, "orthogonality", "Vt");
    RM S(k, k);
    for (int i = 0; i < k; ++i) S(i, i) = sr.a[i];
    if (wu && wv) small(nrmF(sub(U.get(), 0, m, 0, k) * S * sub(V.get(), 0, k, 0, n) - A0), tol * sc, "reconstruction", "U S Vt - A");
    if (wu && !wv) {  // A^H U = V S : columns have norms s and are orthogonal
        RM W = H(A0) * sub(U.get(), 0, m, 0, k);
        if (sc > 0) small(nrmF(H((1 / sc) * W) * ((1 / sc) * W) - (1 / sc) * ((1 / sc) * (S * S))), tol, "left-vectors", "U^H A A^H U - S^2");
    }
    if (!wu && wv) {
        RM W = A0 * H(sub(V.get(), 0, k, 0, n));
        if (sc > 0) small(nrmF(H((1 / sc) * W) * ((1 / sc) * W) - (1 / sc) * ((1 / sc) * (S * S))), tol, "right-vectors", "V^H A^H A V - S^2");
    }
    if (!(wu && wv)) {
        Mat A1(m, n), U1(m, k), V1(k, n);
        A1.set(A0);
        VecR s1(k);
        auto a1 = A1.view(), u1 = U1.view(), v1 = V1.view();
        auto sv1 = s1.fview();
        tl::gesvd(true, true, a1, sv1, u1, v1);
        for (int i = 0; i < k; ++i) cmpElt(sr.a[i], s1.get().a[i], tol * sc, "flags-agree", "s", i, 0);
    }
    mixRM(sr);
}
MC_HARNESS(dense_all_small)
{
    int m = mc::range("m", 1, 3), n = mc::range("n", 1, 3);
    mc::require(m * n <= (mc::thorough() ? 6 : 4));
    RM A(m, n);
    for (auto& x : A.a) x = pickScalar<T>("a", m * n <= 3 ? 6 : m * n == 6 ? 3 : 4);
    mc::body();
    checkGesvd(A, true, true, true, true);
}
// entries of very different size: 0, 1, sqrt(eps), eps
MC_HARNESS(dense_graded)
{
    int m = mc::range("m", 1, 3), n = mc::range("n", 1, 3);
    int nv = m * n <= 4 ? 4 : m * n == 6 ? 3 : 2;
    bool tiny = m * n == 9 && mc::flag("tiny");
    mc::require(mc::thorough() || m * n < 9 || !CPLX);
    RM A(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            static const int ex[2][4] = {{0, 0, -11, -23}, {0, 0, -25, -52}};
            cx g = gint<T>(i, j, 5);
            if (g == cx(0)) g = cx(1);
            int k = mc::choose("a", nv);
            if (m * n == 9) A(i, j) = k ? g : tiny ? g * cx(ldexpl(1, ex[sizeof(R) > 4][2])) : cx(0);
            else A(i, j) = k == 0 ? cx(0) : g * cx(ldexpl(1, ex[sizeof(R) > 4][k]));
        }
    mc::body();
    checkGesvd(A, true, true, true, true);
}
MC_HARNESS(dense_families)
{
    int hi = mc::thorough() ? 9 : 6;
    int m = mc::range("m", 0, hi), n = mc::range("n", 0, hi);
    int w = mc::choose("want", 4), sz = mc::choose("size", 4);
    mc::require(!(m >= n && n == m && sz));
    mc::require(!((sz & 1) && (m <= n || !(w & 1))) && !((sz & 2) && (n <= m || !(w & 2))));
    int fam = mc::choose("fam", FAM_COUNT);
    mc::body();
    checkGesvd(family<T>(fam, m, n, 71), w & 1, w & 2, sz & 1, sz & 2);
}
MC_HARNESS(dense_default)
{
    int M[] = {33, 40, 33, 70, 20, 34}, N[] = {33, 34, 40, 20, 70, 66};
    int s = mc::choose("shape", 6);
    int w = mc::pick("want", {0, 3});
    int fam = mc::pick("fam", {FAM_GENERIC, FAM_ZEROCOL, FAM_RANK1, FAM_GRADED_ROWS, FAM_EYE});
    mc::body();
    checkGesvd(family<T>(fam, M[s], N[s], 72), w & 1, w & 2, s == 1, s == 2);
}

// every order: a step size, an iteration count or a threshold anywhere has its boundary here
MC_HARNESS(dense_sweep)
{
    int n = mc::range("order", 7, mc::thorough() ? 60 : 36), o = mc::choose("shape", 3), h = (n + 1) / 2 + 1;
    int w = mc::pick("want", {1, 2, 3});
    mc::body();
    if (w < 3 && n % 3) throw mc::Prune{};
    checkGesvd(family<T>(FAM_GENERIC, o == 2 ? h : n, o == 1 ? h : n, 76), w & 1, w & 2, false, false);
}

// ---- 2x2 kernels --------------------------------------------------------------------------------------
static void ref22(LD f, LD g, LD h, LD& mn, LD& mx)
{
    f = fabsl(f); g = fabsl(g); h = fabsl(h);
    LD s = std::max(f, std::max(g, h));
    if (s == 0) { mn = mx = 0; return; }
    f /= s; g /= s; h /= s;
    LD a = hypotl(f + h, g), b = hypotl(f - h, g);
    mx = (a + b) / 2;
    mn = f * h / mx;
    mn *= s; mx *= s;
}
MC_HARNESS(two_by_two)
{
    // exponent lattice relative to a base scale, both signs, generic and equal mantissas
    int nE = mc::thorough() ? 17 : 11;
    static const int DE[] = {-999, -70, -54, -27, -13, -3, -1, 0, 1, 4, 25, 60, -45, -100, 90, 30, -2};
    int fe = mc::choose("fe", nE), ge = mc::choose("ge", nE), he = mc::choose("he", nE);
    int mant = mc::choose("mant", 4), sg = mc::choose("signs", 8);
    int base = mc::choose("base", 4);
    mc::body();
    LD M[4][3] = {{1, 1, 1}, {1.25L, 1.875L, 1.0625L}, {1, 1 + EPS, 1 - EPS / 2}, {1.5L, 1, 1.75L}};
    int be = base == 0 ? 0 : base == 1 ? std::numeric_limits<R>::max_exponent - 8 : std::numeric_limits<R>::min_exponent + 8;
    auto val = [&](int e, int c, int s) -> LD {
        if (DE[e] == -999) return 0;
        int ex = DE[e];
        if (base == 1 && ex > 0) ex = 0;
        if (base == 2 && ex < 0) ex = -ex;
        if (base == 3) ex = ex >= 0 ? std::numeric_limits<R>::max_exponent - 8 - ex : std::numeric_limits<R>::min_exponent + 8 - ex;
        LD v = ldexpl(M[mant][c], be + ex);
        R r = (R)v;
        if (!std::isfinite(r) || (r != 0 && fabs((double)r) < (double)std::numeric_limits<R>::min())) r = R(0);
        return s ? -(LD)r : (LD)r;
    };
    R f = (R)val(fe, 0, sg & 1), g = (R)val(ge, 1, sg & 2), h = (R)val(he, 2, sg & 4);
    LD mn, mx;
    ref22(f, g, h, mn, mx);
    LD minN = (LD)std::numeric_limits<R>::min() * 4, relt = 24 * EPS;
    R a, b;
    tl::singularvalues22(f, g, h, a, b);
    cmpElt((LD)b, mx, relt * mx, "singularvalues22", "ssmax", 0, 0);
    cmpElt((LD)a, mn, relt * mn + minN, "singularvalues22", "ssmin", 0, 0);
    R smin, smax, csl, snl, csr, snr;
    tl::svd22(f, g, h, smin, smax, csl, snl, csr, snr);
    cmpElt(fabsl((LD)smax), mx, relt * mx, "svd22", "ssmax", 0, 0);
    cmpElt(fabsl((LD)smin), mn, relt * mn + minN, "svd22", "ssmin", 0, 0);
    LD cl = csl, sl = snl, cr = csr, sr = snr;
    small(fabsl(cl * cl + sl * sl - 1), relt, "svd22-rotation", "left");
    small(fabsl(cr * cr + sr * sr - 1), relt, "svd22-rotation", "right");
    LD F = f, G = g, Hh = h;
    // L*T
    LD t00 = cl * F, t01 = cl * G + sl * Hh, t10 = -sl * F, t11 = -sl * G + cl * Hh;
    LD r00 = t00 * cr + t01 * sr, r01 = -t00 * sr + t01 * cr, r10 = t10 * cr + t11 * sr, r11 = -t10 * sr + t11 * cr;
    LD tt = 40 * EPS * mx + minN;
    small(fabsl(r00 - (LD)smax), tt, "svd22-product", "(0,0)");
    small(fabsl(r01), tt, "svd22-product", "(0,1)");
    small(fabsl(r10), tt, "svd22-product", "(1,0)");
    small(fabsl(r11 - (LD)smin), tt, "svd22-product", "(1,1)");
    mc::mixd((double)smax);
    mc::mixd((double)smin);
}
MC_MAIN
