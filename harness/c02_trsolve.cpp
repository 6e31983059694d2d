// C02: triangular solves and inverses satisfy their defining equations.
#include "blasref.hpp"
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
using tl::Op; using tl::Uplo; using tl::Diag; using tl::Side;
#define OPS3 {Op::NoTrans, Op::Trans, Op::ConjTrans}
static cx scal(int i, bool realOnly) { return i == 0 ? (realOnly ? cx(gen<T>(1, 2, 50).re) : gen<T>(1, 2, 50)) : i == 1 ? cx(1) : cx(0); }
static std::vector<int> dims() { return mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 33, 70} : std::vector<int>{0, 1, 2, 3, 4, 5, 7, 18, 35}; }
static int dim1()
{
    int d[1];
    return sweepDims(d, 1) ? d[0] : mc::pickv("n", dims());
}
// well-conditioned triangle: diagonal magnitude in [1,2], off-diagonals shrunk
static cx entry(int i, int j, int n)
{
    cx g = gen<T>(i, j, 1);
    if (i == j) { LD s = 1 + fabsl(g.re); return up(mk<T>(CPLX ? cx(g.re < 0 ? -s : s, g.im) : cx(g.re < 0 ? -s : s))); }
    return up(mk<T>(cx(1.5L / (n + 1)) * g));
}
// |L X - alpha B| <= c n eps (|L||X| + |alpha B|)
static void residual(const RM& X, const RM& Aop, const RM& B0, cx al, Side side, const char* key)
{
    RM P = side == Side::Left ? Aop * X : X * Aop, aP = side == Side::Left ? Abs(Aop) * Abs(X) : Abs(X) * Abs(Aop);
    int n = Aop.m;
    for (int j = 0; j < X.n; ++j)
        for (int i = 0; i < X.m; ++i) cmpElt(P(i, j), al * B0(i, j), 10 * (n + 4) * EPS * (aP(i, j).re + ab1(al * B0(i, j))), key, "op(A)*X", i, j);
    mixRM(X);
}
MC_HARNESS(trsm)
{
    Side side = pickSide();
    Uplo u = pickUplo();
    Op t = mc::pick("trans", OPS3);
    Diag d = pickDiag();
    int m, n, dd[2];
    if (sweepDims(dd, 2)) m = dd[0], n = dd[1];
    else m = mc::pickv("m", dims()), n = mc::pickv("n", dims());
    int ka = chooseS("alpha", 3), kr = chooseS("realAlpha", CPLX ? 2 : 1);
    mc::body();
    int na = side == Side::Left ? m : n;
    Mat A(na, na), B(m, n);
    fillTri(A, u, d, false, [&](int i, int j) { return entry(i, j, na); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    RM X0 = B.get();
    cx al = scal(ka, kr);
    auto a = A.view(), b = B.view();
    if (kr) tl::trsm(side, u, t, d, (R)al.re, a, b);
    else tl::trsm(side, u, t, d, mk<T>(al), a, b);
    residual(B.get(), opM(triFrom(A.get(), u, d), t), X0, al, side, "trsm");
    A.constant("A"); B.guards("B");
}
MC_HARNESS(trsv)
{
    Uplo u = pickUplo();
    Op t = mc::pick("trans", {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    Diag d = pickDiag();
    int n = dim1(), inc = mc::pick("inc", {1, 2});
    bool back = mc::flag("back");
    mc::body();
    Mat A(n, n);
    Vec x(n, inc, back);
    fillTri(A, u, d, false, [&](int i, int j) { return entry(i, j, n); });
    x.fill([](int i) { return gen<T>(i, 0, 2); });
    RM X0 = x.get();
    auto a = A.view();
    if (back) { auto xv = x.bview(); tl::trsv(u, t, d, a, xv); }
    else { auto xv = x.fview(); tl::trsv(u, t, d, a, xv); }
    residual(x.get(), opM(triFrom(A.get(), u, d), t), X0, cx(1), Side::Left, "trsv");
    A.constant("A"); x.guards("x");
}
// exact: every triangle over {0,1,-1} with power-of-two diagonal, order 3
template <class F>
static RM enumTri(Uplo u, Diag d, int n, int alpha, F diag)
{
    RM A(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            if (!inTri(u, i, j) || (i == j && d == Diag::Unit)) continue;
            A(i, j) = i == j ? diag() : pickScalar<T>("a", alpha);
        }
    return A;
}
static cx dg(int k) { return k == 0 ? cx(1) : k == 1 ? (CPLX ? cx(0, 1) : cx(-1)) : cx(2); }
MC_HARNESS(trsm_exact)
{
    Side side = pickSide();
    Uplo u = pickUplo();
    Op t = mc::pick("trans", OPS3);
    Diag d = pickDiag();
    int n = mc::range("n", 2, 3);
    RM A0 = enumTri(u, d, n, n == 3 ? 3 : 5, [] { return dg(mc::choose("d", 3)); });
    mc::body();
    Mat A(n, n), B(side == Side::Left ? n : 2, side == Side::Left ? 2 : n);
    fillTri(A, u, d, false, [&](int i, int j) { return A0(i, j); });
    B.fill([](int i, int j) { return gint<T>(i, j, 2); });
    RM B0 = B.get(), X = opM(triFrom(A.get(), u, d), t);
    auto a = A.view(), b = B.view();
    tl::trsm(side, u, t, d, T(1), a, b);
    RM P = side == Side::Left ? X * B.get() : B.get() * X;
    for (int i = 0; i < B.m; ++i)
        for (int j = 0; j < B.n; ++j) cmpElt(P(i, j), B0(i, j), 0, "trsm-exact", "op(A)X", i, j);
    mixRM(B.get());
    A.constant("A"); B.guards("B");
}
MC_HARNESS(trsm_tri)
{
    Side side = pickSide();
    Uplo u = pickUplo("uploB");
    Op t = mc::pick("trans", OPS3);
    Diag d = pickDiag();
    int n = dim1(), ka = chooseS("alpha", 3);
    mc::body();
    Uplo ua = t == Op::NoTrans ? u : (u == Uplo::Upper ? Uplo::Lower : Uplo::Upper);
    Mat A(n, n), B(n, n);
    fillTri(A, ua, d, false, [&](int i, int j) { return entry(i, j, n); });
    fillTri(B, u, Diag::NonUnit, false, [](int i, int j) { return gen<T>(i, j, 2); });
    RM B0 = triFrom(B.get(), u, Diag::NonUnit);
    cx al = scal(ka, false);
    auto a = A.view(), b = B.view();
    tl::trsm_tri(side, u, t, d, mk<T>(al), a, b);
    residual(triFrom(B.get(), u, Diag::NonUnit), opM(triFrom(A.get(), ua, d), t), B0, al, side, "trsm_tri");
    A.constant("A");
    B.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "trsm_tri", "B");
}
static void invCheck(const Mat& C, const RM& A, Uplo u, Diag d, LD f, const char* key)
{
    int n = A.n;
    RM X = triFrom(C.get(), u, d), P = X * A, Q = A * X;
    LD s = 20 * (n + 4) * EPS * (nrmF(X) * nrmF(A)) * f;
    small(std::min(nrmF(P - RM::eye(n)), nrmF(Q - RM::eye(n))), s, key, "||X*A-I||");
    mixRM(X);
    C.unchangedExcept([&](int i, int j) { return inTri(u, i, j) && !(d == Diag::Unit && i == j); }, key, "C");
}
MC_HARNESS(trtri)
{
    Uplo u = pickUplo();
    Diag d = pickDiag();
    int n = mc::range("n", 0, mc::thorough() ? 80 : 40);
    mc::body();
    Mat C(n, n);
    fillTri(C, u, d, false, [&](int i, int j) { return entry(i, j, n); });
    RM A = triFrom(C.get(), u, d);
    auto c = C.view();
    int info = tl::trtri_recursive(u, d, c);
    MC_CHECK(info == 0, "trtri-info", "trtri_recursive returned %d on a nonsingular matrix", info);
    invCheck(C, A, u, d, 1, "trtri");
}
// every zero pattern on the diagonal, every off-diagonal over a small alphabet
MC_HARNESS(trtri_singular)
{
    Uplo u = pickUplo();
    Diag d = pickDiag();
    int n = mc::range("n", 1, mc::thorough() ? 9 : 7);
    int mask = mc::choose("zeros", 1 << n);
    mc::body();
    Mat C(n, n);
    fillTri(C, u, Diag::NonUnit, false, [&](int i, int j) { return i == j && (mask >> i & 1) ? cx(0) : entry(i, j, n); });
    RM A = triFrom(C.get(), u, d);
    auto c = C.view();
    tl::EcOpts o;
    o.ec.internal = !mc::flag("noErrorCheck");
    int info = 0;
    try {
        info = tl::trtri_recursive(u, d, c, o);
    }
    catch (std::exception& e) {
        // with error checks enabled the report is thrown as "[info] text"
        if (!o.ec.internal || sscanf(e.what(), "[%d]", &info) != 1) throw;
    }
    int expect = 0;
    if (d == Diag::NonUnit)
        for (int i = n - 1; i >= 0; --i)
            if (mask >> i & 1) expect = i + 1;
    MC_CHECK(info == expect, "trtri-info", "trtri_recursive returned %d, first zero diagonal is %d", info, expect);
    mc::mix(info);
    if (expect == 0) invCheck(C, A, u, d, 1, "trtri");
}
MC_HARNESS(trtri_exact)
{
    Uplo u = pickUplo();
    Diag d = pickDiag();
    int n = mc::range("n", 1, 4);
    mc::require(n < 4 || mc::thorough() || d == Diag::Unit);
    RM A0 = enumTri(u, d, n, 3, [&] { return dg(mc::choose("d", 3)); });
    mc::body();
    Mat C(n, n);
    fillTri(C, u, d, false, [&](int i, int j) { return A0(i, j); });
    RM A = triFrom(C.get(), u, d);
    auto c = C.view();
    int info = tl::trtri_recursive(u, d, c);
    MC_CHECK(info == 0, "trtri-info", "info %d", info);
    invCheck(C, A, u, d, 0, "trtri-exact");
}
/// a tiny or huge diagonal entry is not a zero: every placement of extreme powers of two
MC_HARNESS(trtri_extreme)
{
    Uplo u = pickUplo();
    int n = mc::range("n", 1, 3);
    int me = std::numeric_limits<R>::min_exponent, xe = std::numeric_limits<R>::max_exponent;
    RM A0(n, n);
    std::vector<int> ex;
    for (int i = 0; i < n; ++i) ex.push_back(mc::pick("e", {0, me - 3 + 1, me - 1, me, me + 2, xe - 2}));  // every reciprocal is representable
    int im = CPLX ? mc::choose("imag", 2) : 0;
    mc::body();
    Mat C(n, n);
    fillTri(C, u, Diag::NonUnit, false, [&](int i, int j) { return i == j ? (im ? cx(0, ldexpl(1, ex[i])) : cx(ldexpl(1, ex[i]))) : cx(0); });
    auto c = C.view();
    int info = tl::trtri_recursive(u, Diag::NonUnit, c);
    MC_CHECK(info == 0, "trtri-info", "trtri_recursive returned %d on a nonsingular matrix", info);
    RM X = C.get();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            if (i != j && !(u == Uplo::Upper ? i < j : i > j)) continue;
            cx w = i != j ? cx(0) : im ? cx(0, -ldexpl(1, -ex[i])) : cx(ldexpl(1, -ex[i]));
            cmpElt(X(i, j), w, 8 * EPS * ab(w), "trtri-extreme", "inv", i, j);
        }
}
MC_MAIN
