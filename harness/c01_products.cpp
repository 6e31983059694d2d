// C01: every BLAS-2/3 product and update equals its definition.
#include "blasref.hpp"
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
using tl::Op; using tl::Uplo; using tl::Diag; using tl::Side;
#define OPS3 {Op::NoTrans, Op::Trans, Op::ConjTrans}

struct Shape { int m, n, k; };
static Shape pick3(bool useN, bool useK)
{
    {
        int d[3], c = 1 + useN + useK;
        if (sweepDims(d, c)) {
            Shape r{d[0], useN ? d[1] : 1, useK ? d[c - 1] : 1};
            mc::note(r.m * 1000000 + r.n * 1000 + r.k);
            return r;
        }
    }
    int mx = mc::thorough() ? 5 : 3;
    static const Shape big[] = {{5, 7, 6}, {17, 9, 33}, {34, 35, 8}, {1, 70, 2}, {66, 2, 65}, {8, 4, 1}, {4, 16, 16}, {16, 5, 4}, {9, 12, 32}};
    int nb = 9, s = mx + 1;
    int tot = s * (useN ? s : 1) * (useK ? s : 1);
    int c = mc::choose("shape", tot + nb);
    Shape r;
    if (c >= tot) { r = big[c - tot]; if (!useN) r.n = 1; if (!useK) r.k = 1; }
    else { r.m = c % s; c /= s; r.n = useN ? c % s : 1; if (useN) c /= s; r.k = useK ? c % s : 1; }
    mc::note(r.m * 10000 + r.n * 100 + r.k);
    return r;
}
static Shape pick2(bool useN = true) { return pick3(useN, false); }

// scalars: kind 0 (T alpha, T beta), 1 (T alpha, no beta), 2 (real alpha, real beta)
struct SC { int kind; cx al, be; };
static cx scal(int i, bool realOnly, int salt)
{
    if (i == 0) return up(mk<T>(realOnly ? cx(gen<T>(1, 2, salt).re) : gen<T>(1, 2, salt)));
    if (i == 1) return cx(1);
    return cx(0);
}
static SC pickSC(bool realA = false, bool realB = false)
{
    SC s;
    s.kind = chooseS("scalars", CPLX ? 3 : 2);
    bool r = s.kind == 2;
    s.al = scal(chooseS("alpha", 3), realA || r, 50);
    s.be = s.kind == 1 ? cx(0) : scal(chooseS("beta", 3), realB || r, 60);
    return s;
}
// f(alpha,beta) with beta possibly absent
template <class F2, class F1>
static void dispatch(const SC& s, F2 f2, F1 f1)
{
    if (s.kind == 0) f2(mk<T>(s.al), mk<T>(s.be));
    else if (s.kind == 1) f1(mk<T>(s.al));
    else if constexpr (CPLX) f2((R)s.al.re, (R)s.be.re);
}
template <class F2, class F1>
static void dispatchRR(const SC& s, F2 f2, F1 f1)  // real alpha and beta (herk)
{
    if (s.kind == 1) f1((R)s.al.re);
    else f2((R)s.al.re, (R)s.be.re);
}
template <class F2, class F1>
static void dispatchTR(const SC& s, F2 f2, F1 f1)  // her2k
{
    if (s.kind == 1) f1(mk<T>(s.al));
    else if (s.kind == 0) f2(mk<T>(s.al), (R)s.be.re);
    else f2((R)s.al.re, (R)s.be.re);
}
template <class M>
static void fillGen(M& A, int salt)
{
    A.fill([&](int i, int j) { return gen<T>(i, j, salt); });
}
template <class V>
static void fillGenV(V& x, int salt)
{
    x.fill([&](int i) { return gen<T>(i, 0, salt); });
}
/// compares C with alpha*P + beta*C0 componentwise; absP = |..||..|
static void cmpOut(const Mat& C, const RM& P, const RM& absP, const RM& C0, const SC& s, int k, const char* key, Uplo u = Uplo::General, bool hermDiag = false)
{
    for (int j = 0; j < C.n; ++j)
        for (int i = 0; i < C.m; ++i) {
            if (!inTri(u, i, j)) continue;
            cx c0 = C0(i, j), ref = s.al * P(i, j), got = up(C(i, j));
            if (hermDiag && i == j) { c0.im = 0; ref.im = 0; }
            LD sc = ab1(s.al) * absP(i, j).re;
            if (s.kind != 1) { ref += s.be * c0; sc += ab1(s.be) * ab1(c0); }
            LD bound = 8 * (k + 5) * EPS * sc;
            cmpElt(got, ref, bound, key, "C", i, j);
            if (hermDiag && i == j) MC_CHECK(got.im == 0, key, "diagonal entry %d of a Hermitian update is not real: im=%Lg", i, got.im);
        }
    mixRM(C.get());
    C.guards("C");
}

MC_HARNESS(gemm)
{
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    Shape sh = pick3(true, true);
    SC s = pickSC();
    mc::body();
    Mat A(ta == Op::NoTrans ? sh.m : sh.k, ta == Op::NoTrans ? sh.k : sh.m), B(tb == Op::NoTrans ? sh.k : sh.n, tb == Op::NoTrans ? sh.n : sh.k), C(sh.m, sh.n);
    fillGen(A, 1); fillGen(B, 2);
    if (s.kind != 1) fillGen(C, 3);
    RM P = opM(A.get(), ta) * opM(B.get(), tb), aP = Abs(opM(A.get(), ta)) * Abs(opM(B.get(), tb)), C0 = C.get();
    auto a = A.view(), b = B.view(), c = C.view();
    dispatch(s, [&](auto al, auto be) { tl::gemm(ta, tb, al, a, b, be, c); }, [&](auto al) { tl::gemm(ta, tb, al, a, b, c); });
    cmpOut(C, P, aP, C0, s, sh.k, "gemm");
    A.constant("A"); B.constant("B");
}
// every 0/1 operand pair at 2x2x2 and every op: catches value-dependent shortcuts exactly
MC_HARNESS(gemm_values)
{
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    Mat A(2, 2), B(2, 2), C(2, 2);
    RM a0(2, 2), b0(2, 2);
    for (auto& x : a0.a) x = pickScalar<T>("a", 3);
    for (int i = 0; i < 4; ++i) b0.a[i] = i < 2 || mc::thorough() ? pickScalar<T>("b", 3) : gint<T>(i, 1, 4);
    mc::body();
    A.set(a0); B.set(b0);
    C.fill([](int i, int j) { return gint<T>(i, j, 9); });
    RM C0 = C.get();
    auto a = A.view(), b = B.view(), c = C.view();
    tl::gemm(ta, tb, T(1), a, b, T(1), c);
    RM ref = opM(a0, ta) * opM(b0, tb) + C0;
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) cmpElt(up(C(i, j)), ref(i, j), 0, "gemm-exact", "C", i, j);
    mixRM(C.get());
}
static const tl::Layout OTHER = LAY == tl::Layout::ColMajor ? tl::Layout::RowMajor : tl::Layout::ColMajor;
typedef GM<T, OTHER> MatO;
MC_HARNESS(gemm_mixed_layout)
{
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    Shape sh = pick3(true, true);
    mc::require(sh.m < 20 || Sweep::on());
    mc::body();
    MatO A(ta == Op::NoTrans ? sh.m : sh.k, ta == Op::NoTrans ? sh.k : sh.m);
    Mat B(tb == Op::NoTrans ? sh.k : sh.n, tb == Op::NoTrans ? sh.n : sh.k);
    Mat C(sh.m, sh.n);
    fillGen(A, 1); fillGen(B, 2); fillGen(C, 3);
    SC s{0, scal(0, false, 50), scal(0, false, 60)};
    RM P = opM(A.get(), ta) * opM(B.get(), tb), aP = Abs(opM(A.get(), ta)) * Abs(opM(B.get(), tb)), C0 = C.get();
    auto a = A.view(); auto b = B.view(); auto c = C.view();
    tl::gemm(ta, tb, mk<T>(s.al), a, b, mk<T>(s.be), c);
    cmpOut(C, P, aP, C0, s, sh.k, "gemm-mixed-layout");
    A.constant("A"); B.constant("B");
}
// mixed element types: real*complex, and float*double
#ifdef MC_OTHER_REAL
typedef MC_OTHER_REAL R2;
#endif
typedef GM<R, LAY> MatRe;
MC_HARNESS(gemm_mixed_type)
{
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    int which = mc::choose("realOperand", CPLX ? 2 : 1);
    Shape sh = pick3(true, true);
    mc::require(sh.m < 10 && sh.n < 10 && sh.k < 10);
    SC s = pickSC();
    mc::body();
    Mat C(sh.m, sh.n);
    if (s.kind != 1) fillGen(C, 3);
    RM C0 = C.get();
    auto c = C.view();
    int am = ta == Op::NoTrans ? sh.m : sh.k, an = ta == Op::NoTrans ? sh.k : sh.m, bm = tb == Op::NoTrans ? sh.k : sh.n, bn = tb == Op::NoTrans ? sh.n : sh.k;
    auto run = [&](auto& A, auto& B) {
        A.fill([&](int i, int j) { return cx(gen<float>(i, j, 1).re, CPLX ? gen<float>(i, j, 11).re : 0); });
        B.fill([&](int i, int j) { return cx(gen<float>(i, j, 2).re, CPLX ? gen<float>(i, j, 12).re : 0); });
        RM P = opM(A.get(), ta) * opM(B.get(), tb), aP = Abs(opM(A.get(), ta)) * Abs(opM(B.get(), tb));
        auto a = A.view(); auto b = B.view();
        dispatch(s, [&](auto al, auto be) { tl::gemm(ta, tb, al, a, b, be, c); }, [&](auto al) { tl::gemm(ta, tb, al, a, b, c); });
        LD save = EPS;
        (void)save;
        cmpOut(C, P, aP, C0, s, sh.k, "gemm-mixed-type");
        A.constant("A"); B.constant("B");
    };
    if constexpr (CPLX) {
        if (which == 0) { MatRe A(am, an); Mat B(bm, bn); run(A, B); }
        else { Mat A(am, an); MatRe B(bm, bn); run(A, B); }
    }
    else {
        typedef std::conditional_t<CPLX, T, float> Flt;
        GM<Flt, LAY> A(am, an);
        Mat B(bm, bn);
        run(A, B);
    }
}
MC_HARNESS(gemv)
{
    Op ta = mc::pick("trans", {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    int ix = mc::pick("incx", {1, 2}), iy = mc::pick("incy", {1, 3});
    bool bx = mc::flag("backx");
    Shape sh = pick2();
    SC s = pickSC();
    mc::body();
    bool nt = ta == Op::NoTrans || ta == Op::Conj;
    Mat A(nt ? sh.m : sh.n, nt ? sh.n : sh.m);
    Vec x(sh.n, ix, bx), y(sh.m, iy);
    fillGen(A, 1); fillGenV(x, 2);
    if (s.kind != 1) fillGenV(y, 3);
    RM P = opM(A.get(), ta) * x.get(), aP = Abs(opM(A.get(), ta)) * Abs(x.get()), Y0 = y.get();
    auto a = A.view(); auto yv = y.fview();
    auto go = [&](auto xv) { dispatch(s, [&](auto al, auto be) { tl::gemv(ta, al, a, xv, be, yv); }, [&](auto al) { tl::gemv(ta, al, a, xv, yv); }); };
    if (bx) go(x.bview()); else go(x.fview());
    for (int i = 0; i < sh.m; ++i) {
        // BLAS convention: an empty inner dimension may leave y untouched instead of scaling it
        if (sh.n == 0 && bitEq(y[i], y.before[y.off(i)])) continue;
        cx ref = s.al * P(i, 0);
        LD sc = ab1(s.al) * aP(i, 0).re;
        if (s.kind != 1) { ref += s.be * Y0(i, 0); sc += ab1(s.be) * ab1(Y0(i, 0)); }
        cmpElt(up(y[i]), ref, 8 * (sh.n + 5) * EPS * sc, "gemv", "y", i, 0);
    }
    mixRM(y.get());
    y.guards("y"); A.constant("A"); x.constant("x");
}
template <bool HERM>
static void symmBody()
{
    Side side = pickSide();
    Uplo u = pickUplo();
    Shape sh = pick2();
    SC s = pickSC();
    mc::body();
    int na = side == Side::Left ? sh.m : sh.n;
    Mat A(na, na), B(sh.m, sh.n), C(sh.m, sh.n);
    fillTri(A, u, Diag::NonUnit, HERM && CPLX, [](int i, int j) { return gen<T>(i, j, 1); });
    fillGen(B, 2);
    if (s.kind != 1) fillGen(C, 3);
    RM S = symFrom(A.get(), u, HERM), C0 = C.get();
    RM P = side == Side::Left ? S * B.get() : B.get() * S, aP = side == Side::Left ? Abs(S) * Abs(B.get()) : Abs(B.get()) * Abs(S);
    auto a = A.view(), b = B.view(), c = C.view();
    if constexpr (HERM) dispatch(s, [&](auto al, auto be) { tl::hemm(side, u, al, a, b, be, c); }, [&](auto al) { tl::hemm(side, u, al, a, b, c); });
    else dispatch(s, [&](auto al, auto be) { tl::symm(side, u, al, a, b, be, c); }, [&](auto al) { tl::symm(side, u, al, a, b, c); });
    cmpOut(C, P, aP, C0, s, na, HERM ? "hemm" : "symm");
    A.constant("A"); B.constant("B");
}
MC_HARNESS(symm) { symmBody<false>(); }
MC_HARNESS(hemm) { symmBody<true>(); }
// Uplo::General: documented as "the whole matrix is Hermitian/symmetric": treated as Upper
template <int KIND>  // 0 syrk 1 herk
static void rkBody()
{
    constexpr bool HERM = KIND == 1;
    Uplo u = mc::pick("uplo", {Uplo::Upper, Uplo::Lower, Uplo::General});
    Op t = mc::pick("trans", {Op::NoTrans, HERM ? Op::ConjTrans : Op::Trans});
    Shape sh = pick2();  // C m x m, k = n
    SC s = pickSC(HERM, HERM);
    mc::body();
    Mat A(t == Op::NoTrans ? sh.m : sh.n, t == Op::NoTrans ? sh.n : sh.m), C(sh.m, sh.m);
    fillGen(A, 1);
    RM C0(sh.m, sh.m);
    if (s.kind != 1) {
        if (u == Uplo::General) {
            RM g(sh.m, sh.m);
            for (int i = 0; i < sh.m; ++i) for (int j = 0; j < sh.m; ++j) g(i, j) = gen<T>(i, j, 3);
            C.set(symFrom(g, Uplo::Upper, HERM));
        }
        else fillTri(C, u, Diag::NonUnit, HERM && CPLX, [](int i, int j) { return gen<T>(i, j, 3); });
    }
    C0 = C.get();
    RM X = opM(A.get(), t);
    RM Y = HERM ? H(X) : Tr(X);
    RM P = X * Y, aP = Abs(X) * Abs(Y);
    auto a = A.view(), c = C.view();
    if constexpr (HERM) dispatchRR(s, [&](auto al, auto be) { tl::herk(u, t, al, a, be, c); }, [&](auto al) { tl::herk(u, t, al, a, c); });
    else dispatch(s, [&](auto al, auto be) { tl::syrk(u, t, al, a, be, c); }, [&](auto al) { tl::syrk(u, t, al, a, c); });
    cmpOut(C, P, aP, C0, s, sh.n, HERM ? "herk" : "syrk", u, HERM);
    C.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, HERM ? "herk" : "syrk", "C");
    A.constant("A");
}
MC_HARNESS(syrk) { rkBody<0>(); }
MC_HARNESS(herk) { rkBody<1>(); }
template <int KIND>
static void r2kBody()
{
    constexpr bool HERM = KIND == 1;
    Uplo u = mc::pick("uplo", {Uplo::Upper, Uplo::Lower, Uplo::General});
    Op t = mc::pick("trans", {Op::NoTrans, HERM ? Op::ConjTrans : Op::Trans});
    Shape sh = pick2();
    SC s = pickSC(false, HERM);
    mc::body();
    Mat A(t == Op::NoTrans ? sh.m : sh.n, t == Op::NoTrans ? sh.n : sh.m), B(A.m, A.n), C(sh.m, sh.m);
    fillGen(A, 1); fillGen(B, 2);
    RM C0(sh.m, sh.m);
    if (s.kind != 1) {
        if (u == Uplo::General) {
            RM g(sh.m, sh.m);
            for (int i = 0; i < sh.m; ++i) for (int j = 0; j < sh.m; ++j) g(i, j) = gen<T>(i, j, 3);
            C.set(symFrom(g, Uplo::Upper, HERM));
        }
        else fillTri(C, u, Diag::NonUnit, HERM && CPLX, [](int i, int j) { return gen<T>(i, j, 3); });
    }
    C0 = C.get();
    RM X = opM(A.get(), t), Y = opM(B.get(), t);
    // alpha X Y^H + conj(alpha) Y X^H   (Hermitian)  or alpha (X Y^T + Y X^T)
    RM P, aP;
    SC s2 = s;
    if (HERM) {
        P = s.al * (X * H(Y)) + cj(s.al) * (Y * H(X));
        aP = cx(ab1(s.al)) * (Abs(X) * Abs(H(Y)) + Abs(Y) * Abs(H(X)));
        s2.al = cx(1);
    }
    else {
        P = X * Tr(Y) + Y * Tr(X);
        aP = Abs(X) * Abs(Tr(Y)) + Abs(Y) * Abs(Tr(X));
    }
    auto a = A.view(), b = B.view(), c = C.view();
    if constexpr (HERM) dispatchTR(s, [&](auto al, auto be) { tl::her2k(u, t, al, a, b, be, c); }, [&](auto al) { tl::her2k(u, t, al, a, b, c); });
    else dispatch(s, [&](auto al, auto be) { tl::syr2k(u, t, al, a, b, be, c); }, [&](auto al) { tl::syr2k(u, t, al, a, b, c); });
    cmpOut(C, P, aP, C0, s2, 2 * sh.n, HERM ? "her2k" : "syr2k", u, HERM);
    C.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, HERM ? "her2k" : "syr2k", "C");
    A.constant("A"); B.constant("B");
}
MC_HARNESS(syr2k) { r2kBody<0>(); }
MC_HARNESS(her2k) { r2kBody<1>(); }

template <bool HERM>
static void symvBody()
{
    Uplo u = pickUplo();
    Shape sh = pick2(false);
    int ix = mc::pick("incx", {1, 2}), iy = mc::pick("incy", {1, 3});
    SC s = pickSC();
    mc::body();
    Mat A(sh.m, sh.m);
    Vec x(sh.m, ix), y(sh.m, iy);
    fillTri(A, u, Diag::NonUnit, HERM && CPLX, [](int i, int j) { return gen<T>(i, j, 1); });
    fillGenV(x, 2);
    if (s.kind != 1) fillGenV(y, 3);
    RM S = symFrom(A.get(), u, HERM), P = S * x.get(), aP = Abs(S) * Abs(x.get()), Y0 = y.get();
    auto a = A.view(); auto xv = x.fview(), yv = y.fview();
    if constexpr (HERM) dispatch(s, [&](auto al, auto be) { tl::hemv(u, al, a, xv, be, yv); }, [&](auto al) { tl::hemv(u, al, a, xv, yv); });
    else dispatch(s, [&](auto al, auto be) { tl::symv(u, al, a, xv, be, yv); }, [&](auto al) { tl::symv(u, al, a, xv, yv); });
    for (int i = 0; i < sh.m; ++i) {
        cx ref = s.al * P(i, 0);
        LD sc = ab1(s.al) * aP(i, 0).re;
        if (s.kind != 1) { ref += s.be * Y0(i, 0); sc += ab1(s.be) * ab1(Y0(i, 0)); }
        cmpElt(up(y[i]), ref, 8 * (sh.m + 5) * EPS * sc, HERM ? "hemv" : "symv", "y", i, 0);
    }
    mixRM(y.get());
    y.guards("y"); A.constant("A"); x.constant("x");
}
MC_HARNESS(symv) { symvBody<false>(); }
MC_HARNESS(hemv) { symvBody<true>(); }

template <bool CONJ>
static void gerBody()
{
    Shape sh = pick2();
    int ix = mc::pick("incx", {1, 2}), iy = mc::pick("incy", {1, 3});
    bool by = mc::flag("backy");
    int ka = chooseS("alpha", 3), kr = chooseS("realAlpha", CPLX ? 2 : 1);
    mc::body();
    Mat A(sh.m, sh.n);
    Vec x(sh.m, ix), y(sh.n, iy, by);
    fillGen(A, 1); fillGenV(x, 2); fillGenV(y, 3);
    SC s{0, scal(ka, kr, 50), cx(1)};
    RM A0 = A.get(), yt = CONJ ? H(y.get()) : Tr(y.get()), P = x.get() * yt, aP = Abs(x.get()) * Abs(yt);
    auto a = A.view(); auto xv = x.fview();
    auto go = [&](auto yv, auto al) { if constexpr (CONJ) tl::ger(al, xv, yv, a); else tl::geru(al, xv, yv, a); };
    auto go2 = [&](auto yv) { if (kr) go(yv, (R)s.al.re); else go(yv, mk<T>(s.al)); };
    if (by) go2(y.bview()); else go2(y.fview());
    cmpOut(A, P, aP, A0, s, 1, CONJ ? "ger" : "geru");
    x.constant("x"); y.constant("y");
}
MC_HARNESS(ger) { gerBody<true>(); }
MC_HARNESS(geru) { gerBody<false>(); }
template <int KIND>  // 0 syr 1 her 2 syr2 3 her2
static void syrBody()
{
    constexpr bool HERM = KIND & 1, TWO = KIND >= 2;
    Uplo u = pickUplo();
    Shape sh = pick2(false);
    int ix = mc::pick("incx", {1, 2}), iy = TWO ? mc::pick("incy", {1, 3}) : 1;
    int ka = chooseS("alpha", 3);
    mc::body();
    Mat A(sh.m, sh.m);
    Vec x(sh.m, ix), y(sh.m, iy);
    fillTri(A, u, Diag::NonUnit, HERM && CPLX, [](int i, int j) { return gen<T>(i, j, 1); });
    fillGenV(x, 2); fillGenV(y, 3);
    cx al = scal(ka, KIND == 1, 50);
    RM A0 = A.get(), X = x.get(), Y = y.get(), P, aP;
    if (KIND == 0) P = al * (X * Tr(X)), aP = cx(ab1(al)) * (Abs(X) * Abs(Tr(X)));
    if (KIND == 1) P = al * (X * H(X)), aP = cx(ab1(al)) * (Abs(X) * Abs(Tr(X)));
    if (KIND == 2) P = al * (X * Tr(Y) + Y * Tr(X)), aP = cx(ab1(al)) * (Abs(X) * Abs(Tr(Y)) + Abs(Y) * Abs(Tr(X)));
    if (KIND == 3) P = al * (X * H(Y)) + cj(al) * (Y * H(X)), aP = cx(ab1(al)) * (Abs(X) * Abs(Tr(Y)) + Abs(Y) * Abs(Tr(X)));
    auto a = A.view(); auto xv = x.fview(), yv = y.fview();
    if constexpr (KIND == 0) tl::syr(u, mk<T>(al), xv, a);
    if constexpr (KIND == 1) tl::her(u, (R)al.re, xv, a);
    if constexpr (KIND == 2) tl::syr2(u, mk<T>(al), xv, yv, a);
    if constexpr (KIND == 3) tl::her2(u, mk<T>(al), xv, yv, a);
    static const char* nm[] = {"syr", "her", "syr2", "her2"};
    SC s{0, cx(1), cx(1)};
    cmpOut(A, P, aP, A0, s, 2, nm[KIND], u, HERM);
    A.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, nm[KIND], "A");
    x.constant("x"); y.constant("y");
}
MC_HARNESS(syr) { syrBody<0>(); }
MC_HARNESS(her) { syrBody<1>(); }
MC_HARNESS(syr2) { syrBody<2>(); }
MC_HARNESS(her2) { syrBody<3>(); }

MC_HARNESS(trmm)
{
    Side side = pickSide();
    Uplo u = pickUplo();
    Op t = mc::pick("trans", OPS3);
    Diag d = pickDiag();
    Shape sh = pick2();
    int ka = chooseS("alpha", 3), kr = chooseS("realAlpha", CPLX ? 2 : 1);
    mc::body();
    int na = side == Side::Left ? sh.m : sh.n;
    Mat A(na, na), B(sh.m, sh.n);
    fillTri(A, u, d, false, [](int i, int j) { return gen<T>(i, j, 1); });
    fillGen(B, 2);
    SC s{1, scal(ka, kr, 50), cx(0)};
    RM X = opM(triFrom(A.get(), u, d), t), B0 = B.get();
    RM P = side == Side::Left ? X * B0 : B0 * X, aP = side == Side::Left ? Abs(X) * Abs(B0) : Abs(B0) * Abs(X);
    auto a = A.view(), b = B.view();
    if (kr) tl::trmm(side, u, t, d, (R)s.al.re, a, b);
    else tl::trmm(side, u, t, d, mk<T>(s.al), a, b);
    cmpOut(B, P, aP, B0, s, na, "trmm");
    A.constant("A");
}
MC_HARNESS(trmv)
{
    Uplo u = pickUplo();
    Op t = mc::pick("trans", {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    Diag d = pickDiag();
    Shape sh = pick2(false);
    int ix = mc::pick("incx", {1, 2});
    bool bx = mc::flag("backx");
    mc::body();
    Mat A(sh.m, sh.m);
    Vec x(sh.m, ix, bx);
    fillTri(A, u, d, false, [](int i, int j) { return gen<T>(i, j, 1); });
    fillGenV(x, 2);
    RM X = opM(triFrom(A.get(), u, d), t), x0 = x.get(), P = X * x0, aP = Abs(X) * Abs(x0);
    auto a = A.view();
    if (bx) { auto xv = x.bview(); tl::trmv(u, t, d, a, xv); }
    else { auto xv = x.fview(); tl::trmv(u, t, d, a, xv); }
    for (int i = 0; i < sh.m; ++i) cmpElt(up(x[i]), P(i, 0), 8 * (sh.m + 5) * EPS * aP(i, 0).re, "trmv", "x", i, 0);
    mixRM(x.get());
    x.guards("x"); A.constant("A");
}
MC_MAIN
