// C22: a NaN (or infinity) in any referenced entry of a factorization's input:
// the call ends, and the value is either reported (non-zero info) or still
// visible in the output.
#include "blasref.hpp"
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/gesvd.hpp>
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/ladiv.hpp>
#include <tlapack/lapack/lae2.hpp>
#include <tlapack/lapack/laev2.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/singularvalues22.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/unm2r.hpp>


using tl::Diag;
using tl::Op;
using tl::Uplo;
typedef std::complex<R> CR;
typedef GV<CR> VecC;

static T special(int k) {
    LD q = NAN, I = INFINITY;
    return mk<T>(k == 0 ? cx(q, q) : k == 1 ? cx(q, 1) : k == 2 ? cx(1, q) : k == 3 ? cx(I) : cx(1, -I));
}
static int pickKind() {
    int k = mc::choose("NaN,NaN+i,1+NaN i,Inf,1-Inf i", 5);
    mc::require(CPLX || k == 0 || k == 3);
    return k;
}
static bool bad(cx c) { return !(std::isfinite(c.re) && std::isfinite(c.im)); }
static bool g_visible;
static void vis(const RM &A) {
    for (auto &x : A.a) g_visible |= bad(x);
}
static void visT(const Mat &A, Uplo u) {
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j)
            if (inTri(u, i, j)) g_visible |= bad(up(A(i, j)));
}
template <class V>
static void visV(const V &v) {
    for (int i = 0; i < v.n; ++i) g_visible |= bad(up(v[i]));
}
template <class F>
static int guarded(F f) {
    try {
        return f();
    } catch (std::exception &e) {
        int info;
        if (sscanf(e.what(), "[%d]", &info) != 1) throw;
        return info;
    }
}
static void judge(int info, const char *what) {
    MC_CHECK(info || g_visible, "dropped", "%s: info = 0 and every output is finite", what);
    mc::mix(info ? 1 : 2);
}
static int SZ() { return mc::thorough() ? 5 : 4; }

MC_HARNESS(lu_qr) {
    static const char *nm[] = {"getrf level 0", "getrf recursive", "geqr2", "geqrf", "gelq2", "gelqf",     "geql2",
                               "geqlf",         "gerq2",           "gerqf", "gebd2", "gebrd", "getri UXLI"};
    int r = mc::choose("routine", 13), m = mc::range("m", 1, SZ()), n = r == 12 ? m : mc::range("n", 1, SZ()), k = pickKind(),
        p = mc::choose("place", m * n);
    int fam = mc::pick("family", {FAM_GENERIC, FAM_EYE, FAM_ZERO}),
        nb = r == 3 || r == 5 || r == 7 || r == 9 || r == 11 ? mc::pick("nb", {1, 2, 32}) : 2;
    mc::require(r != 12 || (fam == FAM_GENERIC && k < 3));  // 1/infinity is a correct zero
    mc::body();
    Mat A(m, n);
    A.set(family<T>(fam, m, n, 3));
    A(p % m, p / m) = special(k);
    A.snap();
    int K = std::min(m, n), info = 0;
    Vec t(K, 1), t2(K, 1);
    auto a = A.view();
    auto tv = t.fview(), t2v = t2.fview();
    size_t b = nb;
    std::vector<size_t> piv(K);
    g_visible = false;
    switch (r) {
        case 0:
            info = tl::getrf(a, piv, tl::GetrfOpts{tl::GetrfVariant::Level0});
            break;
        case 1:
            info = tl::getrf(a, piv, tl::GetrfOpts{tl::GetrfVariant::Recursive});
            break;
        case 2:
            tl::geqr2(a, tv);
            break;
        case 3:
            tl::geqrf(a, tv, tl::GeqrfOpts{b});
            break;
        case 4:
            tl::gelq2(a, tv);
            break;
        case 5:
            tl::gelqf(a, tv, tl::GelqfOpts{b});
            break;
        case 6:
            tl::geql2(a, tv);
            break;
        case 7:
            tl::geqlf(a, tv, tl::GeqlfOpts{b});
            break;
        case 8:
            tl::gerq2(a, tv);
            break;
        case 9:
            tl::gerqf(a, tv, tl::GerqfOpts{b});
            break;
        case 10:
            tl::gebd2(a, tv, t2v);
            break;
        case 11: {
            tl::GebrdOpts o;
            o.nb = b;
            tl::gebrd(a, tv, t2v, o);
            break;
        }
        case 12:
            info = tl::getrf(a, piv);
            if (info == 0) info = tl::getri(a, piv, tl::GetriOpts{tl::GetriVariant::UXLI});
            break;
    }
    if (r < 2)
        for (auto x : piv) MC_CHECK(x < (size_t)m, "pivot-range", "pivot %zu", x);
    vis(A.get());
    judge(info, nm[r]);
}
MC_HARNESS(triangle) {
    static const char *nm[] = {"potf2", "potrf2", "potrf_blocked", "potrf_rl", "potri", "hetrf T", "hetrf H", "hetd2", "trtri", "lauum"};
    int r = mc::choose("routine", 10), n = mc::range("n", 1, SZ() + 1), k = pickKind();
    Uplo u = pickUplo();
    int nb = r == 2 || r == 3 || r == 5 || r == 6 ? mc::pick("nb", {2, 3, 32}) : 2;
    int p = mc::choose("place", n * n), i = p % n, j = p / n, fam = r == 5 || r == 6 ? mc::pick("family", {FAM_GENERIC, FAM_ZERO}) : FAM_GENERIC;
    mc::require(inTri(u, i, j) && !((r == 4 || r == 8) && k >= 3));  // inverses: 1/infinity is a correct zero
    bool herm = r <= 4 || r == 6 || r == 7;
    mc::require(!(herm && CPLX && i == j && (k == 2 || k == 4)));  // imaginary part of the diagonal is not referenced
    mc::body();
    RM A0 = family<T>(fam, n, n, 3);
    for (int c = 0; c < n; ++c) {
        A0(c, c) = fam == FAM_ZERO ? cx(0) : cx(3 + n + c);
        if (herm || r == 5)
            for (int d = 0; d < c; ++d) A0(d, c) = herm ? cj(A0(c, d)) : A0(c, d);
    }
    Mat A(n, n);
    A.fill([&](int x, int y) { return inTri(u, x, y) ? A0(x, y) : cx(777); });
    A(i, j) = special(k);
    A.snap();
    auto a = A.view();
    int info = 0;
    Vec t(n, 1);
    auto tv = t.fview();
    std::vector<int> ipiv(n, 0);
    g_visible = false;
    tl::BlockedCholeskyOpts bo;
    bo.nb = nb;
    tl::HetrfOpts ho;
    ho.nb = nb;
    ho.invariant = r == 6 ? Op::ConjTrans : Op::Trans;
    info = guarded([&] {
        switch (r) {
            case 0:
                return tl::potf2(u, a);
            case 1:
                return tl::potrf2(u, a, tl::EcOpts(bo.ec));
            case 2:
                return tl::potrf_blocked(u, a, bo);
            case 3:
                return tl::potrf_rl(u, a, bo);
            case 4: {
                int q = tl::potrf(u, a);
                if (!q) tl::potri(u, a);
                return q;
            }
            case 5:
            case 6:
                return tl::hetrf(u, a, ipiv, ho);
            case 7:
                return tl::hetd2(u, a, tv);
            case 8:
                return tl::trtri_recursive(u, Diag::NonUnit, a);
            default:
                tl::lauum_recursive(u, a);
                return 0;
        }
    });
    visT(A, u);
    judge(info, nm[r]);
}
MC_HARNESS(tridiagonal) {
    static const char *nm[] = {"pttrf", "steqr", "svd_qr upper", "svd_qr lower"};
    int r = mc::choose("routine", 4), n = mc::range("n", 1, SZ() + 1), p = mc::choose("place", 2 * n - 1), want = r ? mc::choose("vectors", 2) : 0,
        dia = mc::choose("other off-diagonals zero", 2), inf = mc::choose("NaN,Inf,-Inf", 3);
    mc::body();
    VecR d(n, 1), e(n - 1, 1);
    d.fill([&](int i) { return cx(4 + i % 3); });
    e.fill([&](int i) { return dia ? cx(0) : cx(1 + i % 2); });
    R s = inf == 0 ? NAN : inf == 1 ? INFINITY : -INFINITY;
    if (p < n)
        d[p] = s;
    else
        e[p - n] = s;
    Mat U(n, n), V(n, n);
    U.set(RM::eye(n));
    V.set(RM::eye(n));
    auto dv = d.fview(), ev = e.fview();
    auto uv = U.view(), vv = V.view();
    g_visible = false;
    int info = 0;
    if (r == 0) {
        Vec ee(n - 1, 1);
        ee.fill([&](int i) { return cx((LD)e[i]); });
        auto eev = ee.fview();
        info = guarded([&] { return tl::pttrf(dv, eev); });
        visV(ee);
    } else if (r == 1)
        info = guarded([&] { return tl::steqr(want, dv, ev, uv); });
    else
        info = guarded([&] { return tl::svd_qr(r == 2 ? Uplo::Upper : Uplo::Lower, want, want, dv, ev, uv, vv); });
    visV(d);
    judge(info, nm[r]);
}
MC_HARNESS(eigen) {
    static const char *nm[] = {"gehd2",   "gehrd",   "lahqr",   "qr_iteration",    "lahqz A",
                               "lahqz B", "gghrd A", "gghrd B", "multishift_qz A", "multishift_qz B"};
    int r = mc::choose("routine", 10), n = mc::range("n", r >= 2 ? 1 : 2, SZ()), k = pickKind(), p = mc::choose("place", n * n), i = p % n, j = p / n;
    int want = mc::choose("vectors", 2), fam = mc::pick("family", {FAM_GENERIC, FAM_EYE, FAM_ZERO});
    mc::require(k < 3 || !(r == 4 || r == 5 || r >= 8));  // QZ treats entries below eps*norm(B) as zero
    bool hess = r == 2 || r == 3 || r == 4 || r == 8, tri = r == 5 || r == 7 || r == 9;
    mc::require(!(hess && i > j + 1) && !(tri && i > j));
    mc::body();
    Mat A(n, n), B(n, n), Q(n, n), Z(n, n);
    RM A0 = family<T>(fam, n, n, 3), B0 = family<T>(FAM_GENERIC, n, n, 8);
    for (int x = 0; x < n; ++x) B0(x, x) += cx(3);
    A.fill([&](int x, int y) { return (r >= 2 && r <= 5) || r >= 8 ? (x > y + 1 ? cx(0) : A0(x, y)) : A0(x, y); });
    B.fill([&](int x, int y) { return x > y ? cx(0) : B0(x, y); });
    (tri ? B : A)(i, j) = special(k);
    Q.set(RM::eye(n));
    Z.set(RM::eye(n));
    auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view();
    Vec t(n, 1), be(n, 1);
    VecC w(n, 1);
    t.fill([](int) { return cx(0); });
    be.fill([](int) { return cx(0); });
    w.fill([](int) { return cx(0); });
    auto tv = t.fview(), bv = be.fview();
    auto wv = w.fview();
    int info = 0;
    size_t lo = 0, hi = n;
    g_visible = false;
    auto go = [&]() -> int {
        int info = 0;
        switch (r) {
            case 0:
                info = tl::gehd2(lo, hi, a, tv);
                break;
            case 1: {
                tl::GehrdOpts o;
                o.nb = 2;
                o.nx_switch = 2;
                info = tl::gehrd(lo, hi, a, tv, o);
                break;
            }
            case 2:
                info = tl::lahqr(want, want, lo, hi, a, wv, z);
                break;
            case 3: {
                tl::QRIterationOpts o;
                o.variant = tl::QRIterationVariant::MultiShift;
                info = tl::qr_iteration((bool)want, (bool)want, lo, hi, a, wv, z, o);
                break;
            }
            case 4:
            case 5:
                info = tl::lahqz(want, want, want, lo, hi, a, b, wv, bv, q, z);
                break;
            case 6:
            case 7:
                info = tl::gghrd(want, want, lo, hi, a, b, q, z);
                break;
            default: {
                tl::FrancisOpts o;
                info = tl::multishift_qz((bool)want, (bool)want, (bool)want, lo, hi, a, b, wv, bv, q, z, o);
                break;
            }
        }
        return info;
    };
    info = guarded(go);
    vis(A.get());
    vis(B.get());
    visV(w);
    visV(be);
    visV(t);
    judge(info, nm[r]);
}
MC_HARNESS(gesvd) {
    int m = mc::range("m", 1, SZ()), n = mc::range("n", 1, SZ()), k = pickKind(), p = mc::choose("place", m * n), want = mc::choose("vectors", 2);
    mc::body();
    Mat A(m, n), U(m, m), V(n, n);
    A.set(family<T>(FAM_GENERIC, m, n, 3));
    A(p % m, p / m) = special(k);
    VecR s(std::min(m, n), 1);
    auto a = A.view(), u = U.view(), v = V.view();
    auto sv = s.fview();
    g_visible = false;
    int info = guarded([&] { return tl::gesvd(want, want, a, sv, u, v); });
    visV(s);
    judge(info, "gesvd");
}
// ---- reflectors and small kernels
// -------------------------------------------------------------------------
MC_HARNESS(reflector) {
    int n = mc::range("n", 1, 4), k = pickKind(), p = mc::choose("place", n), z = mc::choose("others zero", 2), st = mc::choose("storage", 2),
        f = mc::choose("alpha,x | v", 2);
    mc::body();
    Vec v(n, 1);
    v.fill([&](int i) { return z ? cx(0) : gen<T>(i, 1, 5); });
    v[p] = special(k);
    auto vv = v.fview();
    T tau = T(0);
    g_visible = false;
    T beta;  // what alpha becomes: minus or plus the norm of the whole vector
    if (f) {
        if (st)
            tl::larfg(tl::Direction::Forward, tl::StoreV::Rowwise, vv, tau);
        else
            tl::larfg(tl::Direction::Backward, tl::StoreV::Columnwise, vv, tau);
        beta = v[st ? 0 : n - 1];
    } else {
        beta = v[0];
        auto x = tl::slice(vv, std::pair<size_t, size_t>(1, n));
        if (st)
            tl::larfg(tl::StoreV::Rowwise, beta, x, tau);
        else
            tl::larfg(tl::StoreV::Columnwise, beta, x, tau);
    }
    g_visible = bad(up(beta));
    judge(0, "beta of larfg");
}
MC_HARNESS(apply_reflector) {
    int m = mc::range("m", 1, 4), n = mc::range("n", 1, 3), side = mc::choose("side", 2), k = pickKind(), nv = side ? n : m;
    int what = mc::choose("C,v,tau", 3),
        p = mc::choose("place", what == 0   ? m * n
                                : what == 1 ? nv - 1 + (nv == 1)
                                            : 1),
        st = mc::choose("storage", 2), dr = mc::choose("direction", 2);
    mc::require(!(what == 1 && nv == 1) && k < 3);
    mc::body();
    Mat C(m, n);
    Vec v(nv, 1);
    C.fill([](int i, int j) { return gen<T>(i, j, 2); });
    v.fill([](int i) { return gen<T>(i, 0, 4); });
    T tau = mk<T>(cx(1.5L));
    int q = dr ? p : p + 1;
    if (what == 0) C(p % m, p / m) = special(k);
    if (what == 1) v[q] = special(k);
    if (what == 2) tau = special(k);
    auto c = C.view();
    auto vv = v.fview();
    tl::larf(side ? tl::Side::Right : tl::Side::Left, dr ? tl::Direction::Backward : tl::Direction::Forward,
             st ? tl::StoreV::Rowwise : tl::StoreV::Columnwise, vv, tau, c);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            bool want = what ? true : side ? i == p % m : j == p / m, got = bad(up(C(i, j)));
            MC_CHECK(want == got, want ? "dropped" : "spread", "C(%d,%d) %s", i, j,
                     want ? "depends on the NaN but is finite" : "does not depend on the NaN");
        }
}
MC_HARNESS(small_kernels) {
    static const char *nm[] = {"rotg", "svd22", "singularvalues22", "lae2", "laev2", "ladiv", "rscl", "lahqr_eig22", "lahqr_schur22"};
    int r = mc::choose(
        "rotg,svd22,singularvalues22,lae2,laev2,ladiv,rscl,lahqr_"
        "eig22,lahqr_schur22",
        9);
    LD D = std::numeric_limits<R>::min(), H = std::numeric_limits<R>::max() / 8;
    const LD al[] = {0, 1, -2, (LD)NAN, 3, -D, H};
    int na = r == 0 ? (CPLX ? 4 : 2) : r < 5 ? 3 : r == 6 ? 3 : 4, nans = 0;
    if (r == 7 && CPLX) na = 8;
    mc::require(!CPLX || r == 0 || r == 5 || r == 6 || r == 7);
    LD v[8] = {0};
    for (int i = 0; i < na; ++i) {
        int c = mc::choose("x", na == 8 ? 4 : na == 4 && !mc::thorough() ? 5 : 7);
        v[i] = al[c];
        nans += c == 3;
    }
    mc::require(nans > 0 && nans <= 2);
    if (r == 5 || r == 6) {  // the divisor is not zero
        int d = r == 5 ? 2 : 1;
        mc::require(v[d] != 0 || (r == 5 && v[3] != 0));
    }
    mc::body();
    g_visible = false;
    R x[8];
    for (int i = 0; i < 8; ++i) x[i] = (R)v[i];
    auto out = [&](cx c) { g_visible |= c.re != c.re || c.im != c.im; };
    if (r == 0) {
        R c;
        T a = CPLX ? mk<T>(cx(v[0], v[2])) : mk<T>(cx(v[0])), b = CPLX ? mk<T>(cx(v[1], v[3])) : mk<T>(cx(v[1])), s;
        tl::rotg(a, b, c, s);
        out(up(a));
        out(cx(c));
        out(up(s));
    }
    if (r == 1) {
        R a, b, c, d, e, f;
        tl::svd22(x[0], x[1], x[2], a, b, c, d, e, f);
        out(cx(a, b));
    }
    if (r == 2) {
        R a, b;
        tl::singularvalues22(x[0], x[1], x[2], a, b);
        out(cx(a, b));
    }
    if (r == 3) {
        R a, b;
        tl::lae2(x[0], x[1], x[2], a, b);
        out(cx(a, b));
    }
    if (r == 4) {
        R a, b, c, s;
        tl::laev2(x[0], x[1], x[2], a, b, c, s);
        out(cx(a, b));
    }
    if (r == 5) {
        auto q = tl::ladiv(CR(x[0], x[1]), CR(x[2], x[3]));
        out(cx(q.real(), q.imag()));
    }
    if (r == 6) {
        Vec w(2, 1);
        w.fill([&](int i) { return i ? cx(1) : cx(v[0]); });
        auto wv = w.fview();
        tl::rscl(CPLX ? mk<T>(cx(v[1], v[2])) : mk<T>(cx(v[1])), wv);
        out(up(w[0]));
        out(up(w[1]));
        if (v[0] == v[0] && !CPLX) g_visible = g_visible || v[1] == v[1];
    }
    if (r == 7) {
        CR s1, s2;
        tl::lahqr_eig22(CPLX ? mk<T>(cx(v[0], v[4])) : mk<T>(cx(v[0])), CPLX ? mk<T>(cx(v[1], v[5])) : mk<T>(cx(v[1])),
                        CPLX ? mk<T>(cx(v[2], v[6])) : mk<T>(cx(v[2])), CPLX ? mk<T>(cx(v[3], v[7])) : mk<T>(cx(v[3])), s1, s2);
        out(up(s1));
        out(up(s2));
    }
#ifdef MC_REAL
    if (r == 8) {
        CR s1, s2;
        R cs, sn, a = x[0], b = x[1], c = x[2], d = x[3];
        tl::lahqr_schur22(a, b, c, d, s1, s2, cs, sn);
        out(up(s1));
        out(up(s2));
        out(cx(a, b));
        out(cx(c, d));
    }
#endif
    judge(0, nm[r]);
}
MC_MAIN
