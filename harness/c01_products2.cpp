// C01 (second half): out-of-place, Hermitian-Hermitian, triangular-output and blocked products.
#include "blasref.hpp"
#include <iostream>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
using tl::Op; using tl::Uplo; using tl::Diag; using tl::Side;
#define OPS3 {Op::NoTrans, Op::Trans, Op::ConjTrans}
static cx scal(int i, int salt) { return i == 0 ? gen<T>(1, 2, salt) : i == 1 ? cx(1) : cx(0); }
static void cmp(const Mat& C, const RM& ref, const RM& sc, int k, const char* key, Uplo u = Uplo::General)
{
    for (int j = 0; j < C.n; ++j)
        for (int i = 0; i < C.m; ++i)
            if (inTri(u, i, j)) cmpElt(up(C(i, j)), ref(i, j), 8 * (k + 6) * EPS * sc(i, j).re, key, "C", i, j);
    mixRM(C.get());
    C.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, key, "C");
}
static int sizeOf(const char* nm) { return mc::pickv(nm, mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33, 70} : std::vector<int>{0, 1, 2, 3, 4, 5, 9, 17}); }
static int sizeOf1(const char* nm) { return mc::pickv(nm, mc::thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33, 70} : std::vector<int>{1, 2, 3, 4, 5, 9, 17}); }
static void sizes(const char* a, int& x, const char* b, int& y, bool pos = false)
{
    int d[2];
    if (sweepDims(d, 2)) { x = d[0]; y = d[1]; return; }
    x = pos ? sizeOf1(a) : sizeOf(a);
    y = sizeOf(b);
}
static int size1(const char* a)
{
    int d[1];
    return sweepDims(d, 1) ? d[0] : sizeOf(a);
}
MC_HARNESS(gemmtr)
{
    Uplo u = pickUplo();
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    int n, k;
    sizes("n", n, "k", k);
    int ka = chooseS("alpha", 3), kb = chooseS("beta", 3);
    mc::body();
    Mat A(ta == Op::NoTrans ? n : k, ta == Op::NoTrans ? k : n), B(tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k), C(n, n);
    A.fill([](int i, int j) { return gen<T>(i, j, 1); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    fillTri(C, u, Diag::NonUnit, false, [](int i, int j) { return gen<T>(i, j, 3); });
    cx al = scal(ka, 50), be = scal(kb, 60);
    RM X = opM(A.get(), ta), Y = opM(B.get(), tb), C0 = triFrom(C.get(), u, Diag::NonUnit);
    RM ref = al * (X * Y) + be * C0, sc = cx(ab1(al)) * (Abs(X) * Abs(Y)) + cx(ab1(be)) * Abs(C0);
    auto a = A.view(), b = B.view(), c = C.view();
    tl::gemmtr(u, ta, tb, mk<T>(al), a, b, mk<T>(be), c);
    cmp(C, ref, sc, k, "gemmtr", u);
    A.constant("A"); B.constant("B");
}
MC_HARNESS(hemm2)
{
    Side side = pickSide();
    Uplo u = pickUplo();
    Op tb = mc::pick("transB", OPS3);
    int m, n;
    sizes("m", m, "n", n);
    int ka = chooseS("alpha", 3), kb = chooseS("beta", 4);
    mc::body();
    Mat B(m, n), C(tb == Op::NoTrans ? m : n, tb == Op::NoTrans ? n : m);
    int na = side == Side::Left ? C.m : C.n;
    Mat A(na, na);
    fillTri(A, u, Diag::NonUnit, false, [](int i, int j) { cx g = gen<T>(i, j, 1); if (i == j) g.im = 0; return g; });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    if (kb < 3) C.fill([](int i, int j) { return gen<T>(i, j, 3); });
    cx al = scal(ka, 50), be = kb < 3 ? scal(kb, 60) : cx(0);
    RM S = symFrom(A.get(), u, true), Y = opM(B.get(), tb), C0 = kb < 3 ? C.get() : RM(C.m, C.n);
    RM P = side == Side::Left ? S * Y : Y * S, aP = side == Side::Left ? Abs(S) * Abs(Y) : Abs(Y) * Abs(S);
    RM ref = al * P + be * C0, sc = cx(ab1(al)) * aP + cx(ab1(be)) * Abs(C0);
    auto a = A.view(), b = B.view(), c = C.view();
    if (kb < 3) tl::hemm2(side, u, tb, mk<T>(al), a, b, mk<T>(be), c);
    else tl::hemm2(side, u, tb, mk<T>(al), a, b, c);
    cmp(C, ref, sc, na, "hemm2");
    A.constant("A"); B.constant("B");
}
MC_HARNESS(trmm_out)
{
    Side side = pickSide();
    Uplo u = pickUplo();
    Diag d = pickDiag();
    Op tb = mc::pick("transB", OPS3);
    int m, n;
    sizes("m", m, "n", n);
    int ka = chooseS("alpha", 3), kb = chooseS("beta", 4);
    mc::body();
    Mat C(m, n), B(tb == Op::NoTrans ? m : n, tb == Op::NoTrans ? n : m);
    int na = side == Side::Left ? m : n;
    Mat A(na, na);
    fillTri(A, u, d, false, [](int i, int j) { return gen<T>(i, j, 1); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    if (kb < 3) C.fill([](int i, int j) { return gen<T>(i, j, 3); });
    cx al = scal(ka, 50), be = kb < 3 ? scal(kb, 60) : cx(0);
    RM S = triFrom(A.get(), u, d), Y = opM(B.get(), tb), C0 = kb < 3 ? C.get() : RM(C.m, C.n);
    RM P = side == Side::Left ? S * Y : Y * S, aP = side == Side::Left ? Abs(S) * Abs(Y) : Abs(Y) * Abs(S);
    RM ref = al * P + be * C0, sc = cx(ab1(al)) * aP + cx(ab1(be)) * Abs(C0);
    auto a = A.view(), b = B.view(), c = C.view();
    if (kb < 3) tl::trmm_out(side, u, Op::NoTrans, d, tb, mk<T>(al), a, b, mk<T>(be), c);
    else tl::trmm_out(side, u, Op::NoTrans, d, tb, mk<T>(al), a, b, tl::StrongZero(), c);
    cmp(C, ref, sc, na + 4, "trmm_out");
    A.constant("A"); B.constant("B");
}
MC_HARNESS(mult_hehe)
{
    Uplo u = pickUplo();
    int n = size1("n");
    int ka = chooseS("alpha", 3), kb = chooseS("beta", 4);
    mc::body();
    Mat A(n, n), B(n, n), C(n, n);
    auto hd = [](int s) { return [s](int i, int j) { cx g = gen<T>(i, j, s); if (i == j) g.im = 0; return g; }; };
    fillTri(A, u, Diag::NonUnit, false, hd(1));
    fillTri(B, u, Diag::NonUnit, false, hd(2));
    if (kb < 3) C.fill([](int i, int j) { return gen<T>(i, j, 3); });
    cx al = scal(ka, 50), be = kb < 3 ? scal(kb, 60) : cx(0);
    RM X = symFrom(A.get(), u, true), Y = symFrom(B.get(), u, true), C0 = kb < 3 ? C.get() : RM(n, n);
    RM ref = al * (X * Y) + be * C0, sc = cx(ab1(al)) * (Abs(X) * Abs(Y)) + cx(ab1(be)) * Abs(C0);
    auto a = A.view(), b = B.view(), c = C.view();
    if (kb < 3) tl::mult_hehe(u, mk<T>(al), a, b, mk<T>(be), c);
    else tl::mult_hehe(u, mk<T>(al), a, b, c);
    cmp(C, ref, sc, n + 8, "mult_hehe");
    A.constant("A"); B.constant("B");
}
// only (Left, NoTrans, Upper) is implemented; the others must refuse
MC_HARNESS(trmm_blocked)
{
    Diag d = pickDiag();
    int m, n;
    sizes("m", m, "n", n, true);
    int nb = mc::pick("nb", {1, 2, 3, 4, 32});
    int ka = chooseS("alpha", 3);
    mc::body();
    Mat A(m, m), B(m, n);
    fillTri(A, Uplo::Upper, d, false, [](int i, int j) { return gen<T>(i, j, 1); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    cx al = scal(ka, 50);
    RM S = triFrom(A.get(), Uplo::Upper, d), B0 = B.get(), ref = al * (S * B0), sc = cx(ab1(al)) * (Abs(S) * Abs(B0));
    Mat W(std::min(nb, m), n, 0);
    auto a = A.view(), b = B.view(), w = W.view();
    tl::TrmmBlockedOpts o;
    o.nb = nb;
    tl::trmm_blocked_mixed(tl::LEFT_SIDE, tl::UPPER_TRIANGLE, tl::NO_TRANS, d, mk<T>(al), a, b, w, o);
    cmp(B, ref, sc, m + 4, "trmm_blocked_mixed");
    A.constant("A");
    W.guards("W");
}
MC_MAIN
