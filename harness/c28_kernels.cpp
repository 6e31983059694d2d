// C28: closed-form 2x2 and small-system kernels over exhaustive signed/graded lattices.
#include "pencil.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/lapack/lae2.hpp>
#include <tlapack/lapack/laev2.hpp>
#include <tlapack/lapack/lahqr_eig22.hpp>
#include <tlapack/lapack/lahqr_schur22.hpp>
#include <tlapack/lapack/lahqr_shiftcolumn.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lahqz_eig22.hpp>
#include <tlapack/lapack/lahqz_schur22.hpp>
#include <tlapack/lapack/lahqz_shiftcolumn.hpp>
#include <tlapack/lapack/inv_house3.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/singularvalues22.hpp>
#include <tlapack/lapack/lasy2.hpp>

typedef std::complex<R> CR;
static const LD TINY = (LD)std::numeric_limits<R>::min();
/// value lattice; the first entries are the most discriminating ones
static cx kv(int k)
{
    static const LD q = (LD)(R)sqrtl(EPS);
    if (CPLX) switch (k) {
        case 0: return 0;
        case 1: return 1;
        case 2: return cx(0, 1);
        case 3: return cx(-2, 1);
        case 4: return cx(q, -q);
        case 5: return cx(EPS);
        case 6: return cx(-1, 0);
        case 7: return cx(0, 1 / q);
        case 8: return cx(EPS * EPS, 0);
        case 9: return cx(1 + EPS, 0);
        default: return cx(0.5L, -0.5L);
    }
    switch (k) {
        case 0: return 0;
        case 1: return 1;
        case 2: return -1;
        case 3: return 2;
        case 4: return q;
        case 5: return -3;
        case 6: return -EPS;
        case 7: return 1 + EPS;
        case 8: return 1 / q;
        case 9: return EPS * EPS;
        case 10: return -0.5L;
        case 11: return -q;
        case 12: return 1 / EPS;
        case 13: return EPS;
        case 14: return -2;
        default: return -1 - EPS;
    }
}
enum { NKV = CPLX ? 11 : 16 };
static LD mx(std::initializer_list<cx> l) { LD s = 0; for (auto& x : l) s = std::max(s, ab(x)); return s; }
static cx pickv_(const char* nm, int n) { return kv(mc::choose(nm, n)); }
/// global power-of-two scale applied to a whole operand
static LD gscale(const char* nm, int nk = 3)
{
    int mxe = std::numeric_limits<R>::max_exponent, d = std::numeric_limits<R>::digits;
    int k = mc::choose(nm, nk);
    if (k >= 3) return ldexpl(1, (k == 3 ? 1 : -1) * (mxe / 2 + 5));  // beyond the range in which squares are representable
    return k == 0 ? 1 : k == 1 ? ldexpl(1, mxe / 2 - d) : ldexpl(1, -(mxe / 2 - d));
}
MC_HARNESS(eig22)
{
    int n = mc::thorough() ? (int)NKV : CPLX ? 8 : 12;
    cx a = pickv_("a", n), b = pickv_("b", n), c = pickv_("c", n), d = pickv_("d", n);
    LD g = gscale("scale");
    mc::body();
    a = cx(g) * a; b = cx(g) * b; c = cx(g) * c; d = cx(g) * d;
    CR s1, s2;
    tl::lahqr_eig22(mk<T>(a), mk<T>(b), mk<T>(c), mk<T>(d), s1, s2);
    LD s = mx({a, b, c, d});
    if (s == 0) { MC_CHECK(up(s1) == cx(0) && up(s2) == cx(0), "eig22", "zero matrix"); return; }
    cx A = a / s, B = b / s, C = c / s, D = d / s, x = up(s1) / s, y = up(s2) / s;
    small(ab(x + y - A - D), 16 * EPS, "eig22-trace", "s1+s2");
    small(ab(x * y - (A * D - B * C)), 24 * EPS, "eig22-det", "s1*s2");
    if (!CPLX) MC_CHECK((x.im == 0 && y.im == 0) || (x.re == y.re && x.im == -y.im), "eig22-conj", "not a conjugate pair");
    mc::mixd((double)x.re);
}
MC_HARNESS(shiftcolumn_qr)
{
    int n = mc::pick("n", {2, 3});
    int nk = mc::thorough() ? 5 : 4;
    RM Hm(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            Hm(i, j) = n == 2 ? pickv_("h", nk + 2) : (i == 0 || (i == 2 && j == 0) || (i == 1 && j == 0)) ? pickv_("h", j == 0 ? 3 : 3) : pickv_("h", 2);
    int k = mc::choose("shifts", 6);
    mc::body();
    cx s1, s2;
    switch (k) {
        case 0: s1 = 0, s2 = 0; break;
        case 1: s1 = 1, s2 = 2; break;
        case 2: s1 = cx(1, 1), s2 = CPLX ? cx(0.5L, -2) : cx(1, -1); break;
        case 3: s1 = cx(0, 3), s2 = cx(0, -3); break;
        case 4: s1 = Hm(0, 0), s2 = Hm(n - 1, n - 1); break;
        default: s1 = cx(1 / EPS, 1), s2 = CPLX ? cx(EPS) : cx(1 / EPS, -1); break;
    }
    Mat A(n, n);
    A.set(Hm);
    Vec v(n);
    auto a = A.view();
    auto vv = v.fview();
    CR c1((R)s1.re, (R)s1.im), c2((R)s2.re, (R)s2.im);
    if constexpr (CPLX) tl::lahqr_shiftcolumn(a, vv, mk<T>(s1), mk<T>(s2));
    else tl::lahqr_shiftcolumn(a, vv, c1, c2);
    A.constant("H"); v.guards("v");
    RM e(n, 1), S1 = Hm, S2 = Hm;
    e(0, 0) = 1;
    for (int i = 0; i < n; ++i) S1(i, i) -= s1, S2(i, i) -= s2;
    RM w = S1 * (S2 * e);
    // documented scaling: division by s
    LD s = CPLX ? ab1(Hm(0, 0) - s2) : fabsl(Hm(0, 0).re - s2.re) + fabsl(s2.im);
    for (int i = 1; i < n; ++i) s += ab1(Hm(i, 0));
    for (int i = 0; i < n; ++i) {
        if (s == 0) { MC_CHECK(up(v[i]) == cx(0), "shiftcolumn", "not zero"); continue; }
        LD t = 0;
        for (int j = 0; j < n; ++j) t += ab1(S1(i, j)) * ab1(S2(j, 0));
        LD sh = (ab1(s1) + ab1(s2) + ab1(Hm(0, 0)) + ab1(Hm(i, i))) * ab1(Hm(i, 0)) + (i == 0 ? (ab1(s1) + ab1(Hm(0, 0))) * (ab1(s2) + ab1(Hm(0, 0))) : 0);
        cmpElt(up(v[i]), w(i, 0) / s, 16 * EPS * (t + sh) / s, "shiftcolumn", "v", i, 0);
    }
}
#ifdef MC_REAL
MC_HARNESS(schur22)
{
    int n = mc::thorough() ? (int)NKV : 13;
    cx a = pickv_("a", n), b = pickv_("b", n), c = pickv_("c", n), d = pickv_("d", n);
    LD g = gscale("scale", 5);
    mc::body();
    R A = (R)(a.re * g), B = (R)(b.re * g), C = (R)(c.re * g), D = (R)(d.re * g);
    LD a0 = A, b0 = B, c0 = C, d0 = D, s = mx({cx(a0), cx(b0), cx(c0), cx(d0)});
    CR s1, s2;
    R cs, sn;
    tl::lahqr_schur22(A, B, C, D, s1, s2, cs, sn);
    LD c_ = cs, s_ = sn, t = 40 * EPS * s;
    small(fabsl(c_ * c_ + s_ * s_ - 1), 16 * EPS, "schur22-rotation", "cs^2+sn^2");
    // [a b; c d] = [cs -sn; sn cs] [A B; C D] [cs sn; -sn cs]
    LD p00 = c_ * A - s_ * C, p01 = c_ * B - s_ * D, p10 = s_ * A + c_ * C, p11 = s_ * B + c_ * D;
    small(fabsl(p00 * c_ - p01 * s_ - a0), t, "schur22", "(0,0)");
    small(fabsl(p00 * s_ + p01 * c_ - b0), t, "schur22", "(0,1)");
    small(fabsl(p10 * c_ - p11 * s_ - c0), t, "schur22", "(1,0)");
    small(fabsl(p10 * s_ + p11 * c_ - d0), t, "schur22", "(1,1)");
    if (C == 0) {
        MC_CHECK(up(s1) == cx((LD)A) && up(s2) == cx((LD)D), "schur22-eig", "eigenvalues differ from the diagonal");
    }
    else {
        MC_CHECK(A == D && ((B > 0 && C < 0) || (B < 0 && C > 0)), "schur22-standard", "block [%Lg %Lg; %Lg %Lg] is not standardised", (LD)A, (LD)B, (LD)C, (LD)D);
        LD im = sqrtl(fabsl((LD)B)) * sqrtl(fabsl((LD)C));
        cmpElt(up(s1), cx((LD)A, im), t, "schur22-eig", "s1", 0, 0);
        cmpElt(up(s2), cx((LD)A, -im), t, "schur22-eig", "s2", 0, 0);
    }
    mc::mixd((double)c_);
}
MC_HARNESS(sym22)
{
    int n = NKV;
    cx a = pickv_("a", n), b = pickv_("b", n), c = pickv_("c", n);
    LD g = gscale("scale");
    mc::body();
    R A = (R)(a.re * g), B = (R)(b.re * g), C = (R)(c.re * g);
    R r1, r2, t1, t2, cs, sn;
    tl::lae2(A, B, C, r1, r2);
    tl::laev2(A, B, C, t1, t2, cs, sn);
    LD s = mx({cx((LD)A), cx((LD)B), cx((LD)C)});
    MC_CHECK(r1 == t1 && r2 == t2, "lae2-agree", "lae2 and laev2 differ");
    LD c_ = cs, s_ = sn;
    small(fabsl(c_ * c_ + s_ * s_ - 1), 16 * EPS, "laev2-rotation", "cs^2+sn^2");
    small(fabsl(A * c_ + B * s_ - t1 * c_), 24 * EPS * s, "laev2-vector", "row 0");
    small(fabsl(B * c_ + C * s_ - t1 * s_), 24 * EPS * s, "laev2-vector", "row 1");
    // the rotation diagonalises: [cs sn; -sn cs] M [cs -sn; sn cs] = diag(rt1, rt2)
    LD o = -s_ * (A * c_ + B * s_) + c_ * (B * c_ + C * s_), q = -s_ * (-A * s_ + B * c_) + c_ * (-B * s_ + C * c_);
    small(fabsl(o), 24 * EPS * s, "laev2-offdiag", "off-diagonal");
    small(fabsl(q - t2), 24 * EPS * s, "laev2-rt2", "rt2");
    MC_CHECK(fabsl((LD)r1) >= fabsl((LD)r2) * (1 - 8 * EPS), "lae2-order", "order");
}
MC_HARNESS(svd22_lattice)
{
    int n = NKV;
    cx a = pickv_("f", n), b = pickv_("g", n), c = pickv_("h", n);
    LD g = gscale("scale");
    mc::body();
    R F = (R)(a.re * g), G = (R)(b.re * g), Hh = (R)(c.re * g);
    R mn, mxv, smin, smax, csl, snl, csr, snr;
    tl::singularvalues22(F, G, Hh, mn, mxv);
    tl::svd22(F, G, Hh, smin, smax, csl, snl, csr, snr);
    LD f = F, gg = G, h = Hh, s = mx({cx(f), cx(gg), cx(h)}), t = 30 * EPS * s;
    LD cl = csl, sl = snl, cr = csr, sr = snr;
    small(fabsl(cl * cl + sl * sl - 1), 16 * EPS, "svd22-rotation", "left");
    small(fabsl(cr * cr + sr * sr - 1), 16 * EPS, "svd22-rotation", "right");
    LD t00 = cl * f, t01 = cl * gg + sl * h, t10 = -sl * f, t11 = -sl * gg + cl * h;
    small(fabsl(t00 * cr + t01 * sr - smax), t, "svd22-product", "(0,0)");
    small(fabsl(-t00 * sr + t01 * cr), t, "svd22-product", "(0,1)");
    small(fabsl(t10 * cr + t11 * sr), t, "svd22-product", "(1,0)");
    small(fabsl(-t10 * sr + t11 * cr - smin), t, "svd22-product", "(1,1)");
    MC_CHECK(mn >= 0 && mxv >= mn, "singularvalues22-order", "%Lg %Lg", (LD)mn, (LD)mxv);
    small(fabsl(fabsl((LD)smax) - mxv), t, "svd22-agree", "ssmax");
    small(fabsl(fabsl((LD)smin) - mn), t, "svd22-agree", "ssmin");
    // relative accuracy of the product of the singular values
    if (f != 0 && h != 0) {
        LD pr = fabsl(f / s) * fabsl(h);
        small(fabsl((LD)mn * (mxv / s) - pr), 40 * EPS * pr + 4 * TINY, "singularvalues22-det", "product of singular values");
        small(fabsl(fabsl((LD)smin) * (fabsl((LD)smax) / s) - pr), 40 * EPS * pr + 4 * TINY, "svd22-det", "product of singular values");
    }
    else MC_CHECK(mn == 0, "singularvalues22-zero", "ssmin=%Lg", (LD)mn);
}
static void doLasy2(int n, int isgn, int tlx, int trx, RM L, RM Rr, RM B);
MC_HARNESS(lasy2_lattice)
{
    int n = mc::pick("n", {1, 2});
    int isgn = mc::flag("plus") ? 1 : -1;
    int tlx = mc::choose("transl", 2), trx = mc::choose("transr", 2);
    RM L(n, n), Rr(n, n), B(n, n);
    int nv = n == 1 ? (int)NKV : mc::thorough() ? 4 : 3;
    for (auto& x : L.a) x = pickv_("l", nv);
    for (auto& x : Rr.a) x = pickv_("r", nv);
    int bk = mc::choose("b", n == 1 ? (int)NKV : mc::thorough() ? 4 : 2);
    int sc = n == 2 && mc::thorough() ? mc::choose("grade", 3) : 0;
    mc::body();
    if (n == 1) B(0, 0) = kv(bk);
    else for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) B(i, j) = bk == 0 ? gint<T>(i, j, 90) : bk == 1 ? cx(i == 0 && j == 1 ? -3 : 0) : bk == 2 ? cx(1) : cx((LD)(R)sqrtl(EPS) * (1 + i));
    LD f = sc == 0 ? 1 : sc == 1 ? (LD)(R)sqrtl(EPS) : 1024;
    doLasy2(n, isgn, tlx, trx, L, cx(f) * Rr, B);
}
/// operands so far apart in magnitude that the unscaled solution is not representable
MC_HARNESS(lasy2_scale)
{
    int isgn = mc::flag("plus") ? 1 : -1;
    int tlx = mc::choose("transl", 2), trx = mc::choose("transr", 2);
    int lo = std::numeric_limits<R>::min_exponent + std::numeric_limits<R>::digits + 4, hi = std::numeric_limits<R>::max_exponent - 6;
    int et = mc::pick("texp", {lo, lo / 2, -8, 0, hi / 2}), eb = mc::pick("bexp", {lo, lo / 2, 0, hi / 2, hi});
    int k = mc::choose("k", 6), bi = mc::choose("b", 6);
    mc::body();
    RM L(2, 2), Rr(2, 2), B(2, 2);
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
            L(i, j) = cx(i == j ? 1 + (k & 1) * i : i > j ? (k % 3 == 2 ? -2 : 0) : 3);
            Rr(i, j) = cx(isgn > 0 ? (i == j ? 5 : i > j ? (k > 2 ? 1 : 0) : -1) : (i == j ? -5 : i > j ? (k > 2 ? 1 : 0) : -1));
            B(i, j) = bi < 4 ? cx(bi == i + 2 * j ? 1.5L : 0) : bi == 4 ? gint<T>(i, j, 91) : cx(i == j ? 1 : 0.25L);
        }
    doLasy2(2, isgn, tlx, trx, cx(ldexpl(1, et)) * L, cx(ldexpl(1, et)) * Rr, cx(ldexpl(1, eb)) * B);
}
static void doLasy2(int n, int isgn, int tlx, int trx, RM L, RM Rr, RM B)
{
    tl::Op ops[] = {tl::Op::NoTrans, tl::Op::Trans};
    Mat l(n, n), r(n, n), b(n, n), x(n, n);
    l.set(L); r.set(Rr); b.set(B); x.fill([](int, int) { return cx(777); });
    auto lv = l.view(), rv = r.view(), bv = b.view(), xv = x.view();
    R scale = -1, xnorm = -1;
    int info = tl::lasy2(ops[tlx], ops[trx], isgn, lv, rv, bv, scale, xv, xnorm);
    l.constant("TL"); r.constant("TR"); b.constant("B"); x.guards("X");
    RM X = x.get();
    MC_CHECK(scale > 0 && scale <= 1, "lasy2-scale", "scale=%Lg", (LD)scale);
    LD nx = 0, mX = 0;
    for (int i = 0; i < n; ++i) {
        LD s = 0;
        for (int j = 0; j < n; ++j) {
            MC_CHECK(fin(X(i, j)), "lasy2-finite", "X not finite");
            s += ab(X(i, j)), mX = std::max(mX, ab(X(i, j)));
        }
        nx = std::max(nx, s);
    }
    small(fabsl(nx - (LD)xnorm), 8 * EPS * nx, "lasy2-xnorm", "xnorm");
    RM OL = tlx ? Tr(L) : L, OR = trx ? Tr(Rr) : Rr;
    LD big = std::max(nrmMax(L), nrmMax(Rr));
    // Kronecker matrix and its conditioning
    int q = n * n;
    RM K(q, q);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            for (int k = 0; k < n; ++k) {
                K(i + n * j, k + n * j) += OL(i, k);
                K(i + n * j, i + n * k) += cx((LD)isgn) * OR(k, j);
            }
    RM KI = RM::eye(q);
    bool sing = false;
    {   // Gauss-Jordan with complete pivoting in 80-bit arithmetic
        RM M = K;
        std::vector<int> cp(q);
        for (int i = 0; i < q; ++i) cp[i] = i;
        for (int p = 0; p < q && !sing; ++p) {
            int bi = p;
            for (int i = p; i < q; ++i) if (ab(M(i, p)) > ab(M(bi, p))) bi = i;
            if (ab(M(bi, p)) <= 1e-15L * big) { sing = true; break; }
            for (int j = 0; j < q; ++j) { std::swap(M(p, j), M(bi, j)); std::swap(KI(p, j), KI(bi, j)); }
            cx d = M(p, p);
            for (int j = 0; j < q; ++j) M(p, j) = M(p, j) / d, KI(p, j) = KI(p, j) / d;
            for (int i = 0; i < q; ++i) if (i != p) {
                cx m = M(i, p);
                for (int j = 0; j < q; ++j) M(i, j) -= m * M(p, j), KI(i, j) -= m * KI(p, j);
            }
        }
    }
    if (!sing && nrmMax(KI) * big < 1e4L && big > 0) MC_CHECK(info == 0, "lasy2-info", "info=%d for a well conditioned system", info);
    if (info == 0) {
        RM res = OL * X + cx((LD)isgn) * (X * OR) - cx((LD)scale) * B;
        small(nrmMax(res), 60 * EPS * big * mX + 64 * EPS * (big + 1) * (LD)std::numeric_limits<R>::min(), "lasy2-residual", "TL X + isgn X TR - scale B");
    }
    else MC_CHECK(info == 1, "lasy2-info", "info=%d", info);
    mc::mixd((double)xnorm);
}
#endif
MC_HARNESS(inv_house3_lattice)
{
    RM A(2, 3);
    int nk = mc::thorough() ? (CPLX ? 6 : 7) : CPLX ? 5 : 6;
    for (auto& x : A.a) x = pickv_("a", nk);
    mc::body();
    Mat a(2, 3);
    a.set(A);
    Vec v(3);
    v.fill([](int) { return cx(777); });
    auto av = a.view();
    auto vv = v.fview();
    T tau;
    tl::inv_house3(av, vv, tau);
    a.constant("A"); v.guards("v");
    RM w(3, 1);
    w(0, 0) = 1; w(1, 0) = up(v[1]); w(2, 0) = up(v[2]);
    MC_CHECK(fin(w(1, 0)) && fin(w(2, 0)) && fin(up(tau)), "inv_house3-finite", "reflector is not finite");
    RM Hh = RM::eye(3) - up(tau) * (w * H(w));
    small(orthCols(Hh), 40 * EPS, "inv_house3-unitary", "H");
    RM e(3, 1);
    e(0, 0) = 1;
    RM r = A * (Hh * e);
    small(nrmF(r), 40 * EPS * nrmF(A), "inv_house3", "A H e1");
}
MC_HARNESS(pencil22)
{
    int n = mc::thorough() ? (CPLX ? 7 : 8) : CPLX ? 5 : 6;
    RM A(2, 2), B(2, 2);
    for (auto& x : A.a) x = pickv_("a", n);
    B(0, 0) = pickv_("b", n);
    B(0, 1) = pickv_("b", mc::thorough() ? 5 : 4);
    B(1, 1) = pickv_("b", n);
    int bsh = mc::thorough() ? mc::choose("grade", 3) : 0;
    mc::body();
    if (bsh) B = cx(bsh == 1 ? ldexpl(1, 20) : ldexpl(1, -20)) * B;
    Mat a(2, 2), b(2, 2);
    a.set(A); b.set(B);
    auto av = a.view(), bv = b.view();
    CR a1, a2;
    R b1, b2;
    tl::lahqz_eig22(av, bv, a1, a2, b1, b2);
    a.constant("A"); b.constant("B");
    LD tol = 60 * EPS;
    checkCharpoly(A, B, up(a1), b1, up(a2), b2, tol, "lahqz_eig22");
    if (!CPLX) MC_CHECK((a1.imag() == 0 && a2.imag() == 0) || a1.imag() == -a2.imag(), "lahqz_eig22-conj", "not a conjugate pair");
    R cl, cr;
    T sl, sr, k0, k1;
    tl::lahqz_schur22(av, bv, a1, a2, b1, b2, cl, sl, cr, sr, k0, k1);
    a.guards("A"); b.guards("B");
    RM S = a.get(), P = b.get(), Q(2, 2), Z(2, 2);
    Q(0, 0) = up(cl); Q(0, 1) = -up(sl); Q(1, 0) = cj(up(sl)); Q(1, 1) = up(cl);
    Z(0, 0) = up(cr) * up(k0); Z(0, 1) = -cj(up(sr)) * up(k1); Z(1, 0) = up(sr) * up(k0); Z(1, 1) = up(cr) * up(k1);
    small(orthCols(Q), 24 * EPS, "lahqz_schur22-unitary", "Q");
    small(orthCols(Z), 24 * EPS, "lahqz_schur22-unitary", "Z");
    MC_CHECK(P(1, 0) == cx(0), "lahqz_schur22-triangular", "B(1,0) is not zero");
    for (int i = 0; i < 2; ++i) MC_CHECK(P(i, i).im == 0 && P(i, i).re >= 0, "lahqz_schur22-nonnegative", "B(%d,%d)=(%Lg,%Lg)", i, i, P(i, i).re, P(i, i).im);
    small(nrmF(Q * S * H(Z) - A), 60 * EPS * nrmF(A), "lahqz_schur22-A", "Q S Z^H - A");
    small(nrmF(Q * P * H(Z) - B), 60 * EPS * nrmF(B), "lahqz_schur22-B", "Q T Z^H - B");
    if (S(1, 0) == cx(0)) {
        MC_CHECK(up(a1) == S(0, 0) && up(a2) == S(1, 1) && (LD)b1 == P(0, 0).re && (LD)b2 == P(1, 1).re, "lahqz_schur22-eig", "alpha/beta differ from the diagonals");
    }
    else {
        MC_CHECK(!CPLX, "lahqz_schur22-triangular", "A(1,0) is not zero");
        MC_CHECK(P(0, 1) == cx(0) && P(0, 0).re > 0 && P(1, 1).re > 0, "lahqz_schur22-diagonal", "B is not diagonal and positive");
        MC_CHECK(a1.imag() != 0, "lahqz_schur22-real", "block with real eigenvalues was not split");
        checkCharpoly(A, B, up(a1), b1, up(a2), b2, tol, "lahqz_schur22-complex");
    }
}
MC_HARNESS(shiftcolumn_qz)
{
    RM A(3, 3), B(3, 3);
    int nk = mc::thorough() ? 4 : 3;
    A(0, 0) = pickv_("a", nk + 1); A(0, 1) = pickv_("a", nk); A(1, 0) = kv(1 + mc::choose("a", nk)); A(1, 1) = pickv_("a", nk); A(2, 1) = kv(1 + mc::choose("a", 3));
    A(0, 2) = 1; A(1, 2) = 2; A(2, 2) = -1;
    B(0, 0) = kv(1 + mc::choose("b", 3)); B(0, 1) = pickv_("b", 3); B(1, 1) = kv(1 + mc::choose("b", 3));
    B(0, 2) = 1; B(1, 2) = -1; B(2, 2) = 1;
    int k = mc::choose("shifts", 6);
    mc::body();
    cx s1, s2;
    LD b1 = 1, b2 = 1;
    switch (k) {
        case 0: s1 = 0, s2 = 0; break;
        case 1: s1 = 1, s2 = 2; b2 = 0.5L; break;
        case 2: s1 = cx(1, 1), s2 = CPLX ? cx(0.5L, -2) : cx(1, -1); break;
        case 3: s1 = cx(0, 3), s2 = cx(0, -3); break;
        case 4: s1 = A(0, 0), s2 = A(1, 1); b1 = 1, b2 = 1; break;
        default: s1 = A(0, 0) / B(0, 0), s2 = 0; b1 = 1, b2 = 0; if (CPLX) s2 = cx(0, 1); else s1.im = s2.im = 0, s2 = cx(1); break;
    }
    Mat a(3, 3), b(3, 3);
    a.set(A); b.set(B);
    Vec v(3);
    v.fill([](int) { return cx(777); });
    auto av = a.view(), bv = b.view();
    auto vv = v.fview();
    CR c1((R)s1.re, (R)s1.im), c2((R)s2.re, (R)s2.im);
    if constexpr (CPLX) tl::lahqz_shiftcolumn(av, bv, vv, c1, c2, T((R)b1), T((R)b2));
    else tl::lahqz_shiftcolumn(av, bv, vv, c1, c2, (T)b1, (T)b2);
    a.constant("A"); b.constant("B"); v.guards("v");
    for (int i = 0; i < 3; ++i) MC_CHECK(fin(up(v[i])), "qz-shiftcolumn-finite", "v[%d] is not finite", i);
    s1 = up(c1); s2 = up(c2);
    // w = (b2 A - s2 B) B^-1 (b1 A - s1 B) e1  (up to a scalar)
    cx w1 = cx(b1) * A(0, 0) - s1 * B(0, 0), w2 = cx(b1) * A(1, 0);
    cx y2 = w2 / B(1, 1), y1 = (w1 - B(0, 1) * y2) / B(0, 0);
    LD m1 = ab(cx(b1) * A(0, 0)) + ab(s1 * B(0, 0)), m2 = ab(w2);
    LD n2 = m2 / ab(B(1, 1)), n1 = (m1 + ab(B(0, 1)) * n2) / ab(B(0, 0));
    cx x[3], got[3];
    LD mag[3], gn = 0, xn = 0;
    for (int i = 0; i < 3; ++i) {
        x[i] = (cx(b2) * A(i, 0) - s2 * B(i, 0)) * y1 + (cx(b2) * A(i, 1) - s2 * B(i, 1)) * y2;
        mag[i] = (ab(cx(b2) * A(i, 0)) + ab(s2 * B(i, 0))) * n1 + (ab(cx(b2) * A(i, 1)) + ab(s2 * B(i, 1))) * n2;
        got[i] = up(v[i]);
        gn = std::max(gn, ab(got[i]));
        xn = std::max(xn, mag[i]);
    }
    (void)gn;
    // the multiple is fixed by the last entry, which is a single product b2*A(2,1)*y2
    if (x[2] == cx(0)) return;
    MC_CHECK(got[2] != cx(0), "qz-shiftcolumn", "v[2] vanishes");
    cx f = got[2] / x[2];
    for (int i = 0; i < 2; ++i) cmpElt(got[i], f * x[i], 40 * EPS * ab(f) * mag[i], "qz-shiftcolumn", "v", i, 0);
}
/// 2x2 pencil: the singly shifted first column
MC_HARNESS(shiftcolumn_qz2)
{
    RM A(2, 2), B(2, 2);
    int nk = mc::thorough() ? 8 : 5;
    A(0, 0) = pickv_("a", nk); A(0, 1) = kv(3); A(1, 0) = pickv_("a", nk); A(1, 1) = pickv_("a", 3);
    B(0, 0) = pickv_("b", nk); B(0, 1) = pickv_("b", 3); B(1, 1) = kv(2);
    int ks = mc::choose("s1", nk), kb = mc::choose("b1", 4);
    mc::body();
    cx s1 = kv(ks), s2 = kv(3);
    LD b1 = kb == 0 ? 1 : kb == 1 ? 0 : kb == 2 ? 0.75L : 3;
    if (!CPLX) s1.im = 0;
    Mat a(2, 2), b(2, 2);
    a.set(A); b.set(B);
    Vec v(2);
    v.fill([](int) { return cx(777); });
    auto av = a.view(), bv = b.view();
    auto vv = v.fview();
    CR c1((R)s1.re, (R)s1.im), c2((R)s2.re, (R)s2.im);
    tl::lahqz_shiftcolumn(av, bv, vv, c1, c2, T((R)b1), T(1));
    a.constant("A"); b.constant("B"); v.guards("v");
    s1 = up(c1);
    for (int i = 0; i < 2; ++i)
        cmpElt(up(v[i]), cx(b1) * A(i, 0) - s1 * (i ? cx(0) : B(0, 0)), 8 * EPS * (ab(cx(b1) * A(i, 0)) + (i ? 0 : ab(s1 * B(0, 0)))), "qz-shiftcolumn2", "v", i, 0);
}
MC_MAIN
