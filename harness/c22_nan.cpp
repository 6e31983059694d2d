// C22: NaN and infinity placed in every entry of every operand: which outputs
// must (not) carry it.
#include "blasref.hpp"
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lapy3.hpp>


using tl::Diag;
using tl::Op;
using tl::Side;
using tl::Uplo;
#define OPS3 \
    { Op::NoTrans, Op::Trans, Op::ConjTrans }
typedef std::pair<int, int> IJ;
static int HI() { return mc::thorough() ? 4 : 3; }

// ---- the special value and its place
// -----------------------------------------------------------------
struct Src {
    int kind, opnd, pos;
};  // kind 0: (NaN,NaN), 1: (NaN,1), 2: (1,NaN), 3: Inf
static int kinds() { return CPLX ? 4 : 2; }
static Src pickSrc(std::initializer_list<int> sizes) {
    int k = mc::choose("special", kinds()), tot = 0;
    for (int s : sizes) tot += s;
    mc::require(tot > 0);
    int p = mc::choose("place", tot), o = 0;
    for (int s : sizes) {
        if (p < s) break;
        p -= s;
        ++o;
    }
    return {CPLX ? k : k == 1 ? 3 : 0, o, p};
}
static T special(int k) {
    LD q = NAN, I = INFINITY;
    return mk<T>(k == 0 ? cx(q, q) : k == 1 ? cx(q, 1) : k == 2 ? cx(1, q) : CPLX ? cx(I, 1) : cx(I));
}
static bool isBad(const T &x, int kind) {
    cx c = up(x);
    return kind == 3 ? !(std::isfinite(c.re) && std::isfinite(c.im)) : c.re != c.re || c.im != c.im;
}
/// positive data (an infinity cannot cancel), or zeros
static cx dat(int i, int j, int s) { return CPLX ? cx(1 + (i + 2 * j + s) % 3, (i + j) % 2) : cx(1 + (i + 2 * j + s) % 3); }

/// dependency masks: -1 not part of the operand, 0 ordinary, 1 special
struct BM {
    int m, n;
    std::vector<signed char> a;
    BM(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, 0) {}
    signed char &operator()(int i, int j) { return a[(size_t)j * m + i]; }
    int operator()(int i, int j) const { return a[(size_t)j * m + i]; }
};
static BM bop(const BM &A, Op t) {
    if (t == Op::NoTrans || t == Op::Conj) return A;
    BM B(A.n, A.m);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) B(j, i) = A(i, j);
    return B;
}
static BM bmul(const BM &A, const BM &B) {
    BM C(A.m, B.n);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < B.n; ++j)
            for (int k = 0; k < A.n; ++k)
                if (A(i, k) >= 0 && B(k, j) >= 0 && (A(i, k) == 1 || B(k, j) == 1)) C(i, j) = 1;
    return C;
}
static BM bor(BM A, const BM &B) {
    for (size_t i = 0; i < A.a.size(); ++i) A.a[i] = A.a[i] == 1 || B.a[i] == 1;
    return A;
}
static BM bsym(const BM &A, Uplo u, bool hermIgnore) {
    BM S(A.m, A.n);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) S(i, j) = (u == Uplo::Upper ? i <= j : i >= j) ? A(i, j) : A(j, i);
    if (hermIgnore)
        for (int i = 0; i < A.m; ++i) S(i, i) = 0;
    return S;
}
static BM btri(const BM &A, Uplo u, Diag d) {
    BM S = A;
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) {
            if (!inTri(u, i, j))
                S(i, j) = -1;
            else if (i == j && d == Diag::Unit)
                S(i, j) = 0;
        }
    return S;
}
/// X with op(A) X = B, A triangular (mask with -1 outside the triangle)
static BM bsolve(const BM &A, const BM &B, bool unit) {
    BM X = B;
    int n = A.m;
    bool lower = true;
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            if (A(i, j) >= 0) lower = false;
    for (int c = 0; c < B.n; ++c)
        for (int t = 0; t < n; ++t) {
            int i = lower ? t : n - 1 - t;
            for (int k = 0; k < n; ++k) {
                if (A(i, k) < 0) continue;
                if (k == i) {
                    if (!unit && A(i, i) == 1) X(i, c) = 1;
                } else if (A(i, k) == 1 || X(k, c) == 1)
                    X(i, c) = 1;
            }
        }
    return X;
}
static BM btr(const BM &A) { return bop(A, Op::Trans); }
/// operand with the special value in it
struct Opnd {
    Mat M;
    BM b;
    Opnd(int m, int n, int which, const Src &s, bool zeros) : M(m, n), b(m, n) {
        M.fill([&](int i, int j) { return zeros ? cx(0) : dat(i, j, which); });
        if (s.opnd == which) {
            M(s.pos % m, s.pos / m) = special(s.kind);
            b(s.pos % m, s.pos / m) = 1;
        }
        M.snap();
    }
};
struct OpndV {
    Vec V;
    BM b;
    OpndV(int n, int which, const Src &s, bool zeros, int inc = 1) : V(n, inc), b(n, 1) {
        V.fill([&](int i) { return zeros ? cx(0) : dat(i, 1, which); });
        if (s.opnd == which) {
            V[s.pos] = special(s.kind);
            b(s.pos, 0) = 1;
        }
        V.snap();
    }
};
static T scalarOf(int which, const Src &s) { return s.opnd == which ? special(s.kind) : mk<T>(cx(2)); }
static void verdict(const T &got, bool want, const Src &s, const char *nm, int i, int j, bool sign = true) {
    mc::E().checks++;
    bool g = isBad(got, s.kind);
    if (want && !g)
        mc::fail("dropped", "%s(%d,%d) depends on the %s but is (%Lg,%Lg)", nm, i, j, s.kind == 3 ? "infinity" : "NaN", up(got).re, up(got).im);
    if (!want && !(std::isfinite(up(got).re) && std::isfinite(up(got).im)))
        mc::fail("spread", "%s(%d,%d) does not depend on the %s but is (%Lg,%Lg)", nm, i, j, s.kind == 3 ? "infinity" : "NaN", up(got).re,
                 up(got).im);
    if (want && sign && s.kind == 3 && !CPLX && !(up(got).re == INFINITY))
        mc::fail("infinity", "%s(%d,%d) is %Lg instead of +infinity", nm, i, j, up(got).re);
}
static void outM(const Mat &C, const BM &want, const Src &s, const char *nm, Uplo u = Uplo::General, bool sign = true) {
    for (int i = 0; i < C.m; ++i)
        for (int j = 0; j < C.n; ++j)
            if (inTri(u, i, j)) verdict(C(i, j), want(i, j) == 1, s, nm, i, j, sign);
}
static void outV(const Vec &C, const BM &want, const Src &s, const char *nm, bool sign = true) {
    for (int i = 0; i < C.n; ++i) verdict(C[i], want(i, 0) == 1, s, nm, i, 0, sign);
}
static BM ball(int m, int n) {
    BM b(m, n);
    for (auto &x : b.a) x = 1;
    return b;
}
static bool pickZero(const Src &s) { return mc::choose("other data(positive,zero)", s.kind == 3 ? 1 : 2) == 1; }

MC_HARNESS(gemm) {
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    int m = mc::range("m", 1, HI()), n = mc::range("n", 1, HI()), k = mc::range("k", 1, HI()), be = mc::choose("beta(none,0,2)", 3);
    Src s = pickSrc({m * k, k * n, be == 2 ? m * n : 0, 1, be == 2 ? 1 : 0});
    bool z = pickZero(s);
    mc::body();
    Opnd A(ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m, 0, s, z), B(tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k, 1, s, z),
        C(m, n, 2, s, z);
    if (be == 0) C.M.fill([](int, int) { return cx(NAN, NAN); });
    auto a = A.M.view(), b = B.M.view(), c = C.M.view();
    T al = scalarOf(3, s), bt = be == 1 ? T(0) : scalarOf(4, s);
    if (be == 0)
        tl::gemm(ta, tb, al, a, b, c);
    else
        tl::gemm(ta, tb, al, a, b, bt, c);
    BM want = bmul(bop(A.b, ta), bop(B.b, tb));
    if (be == 2) want = bor(want, C.b);
    if (s.opnd >= 3) want = ball(m, n);
    outM(C.M, want, s, "C");
}
MC_HARNESS(gemmtr) {
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    Uplo u = pickUplo();
    int n = mc::range("n", 1, HI()), k = mc::range("k", 1, HI()), be = mc::choose("beta(0,2)", 2);
    Src s = pickSrc({n * k, k * n, be ? n * n : 0, 1, be ? 1 : 0});
    bool z = pickZero(s);
    mc::body();
    Opnd A(ta == Op::NoTrans ? n : k, ta == Op::NoTrans ? k : n, 0, s, z), B(tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k, 1, s, z),
        C(n, n, 2, s, z);
    auto a = A.M.view(), b = B.M.view(), c = C.M.view();
    T al = scalarOf(3, s), bt = be ? scalarOf(4, s) : T(0);
    tl::gemmtr(u, ta, tb, al, a, b, bt, c);
    BM want = bmul(bop(A.b, ta), bop(B.b, tb));
    if (be) want = bor(want, C.b);
    if (s.opnd >= 3) want = ball(n, n);
    outM(C.M, want, s, "C", u);
}
MC_HARNESS(gemv) {
    Op t = mc::pick("trans", {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    int m = mc::range("m", 1, HI() + 1), n = mc::range("n", 1, HI() + 1), be = mc::choose("beta(none,0,2)", 3);
    bool tr = t == Op::Trans || t == Op::ConjTrans;
    int lx = tr ? m : n, ly = tr ? n : m;
    Src s = pickSrc({m * n, lx, be == 2 ? ly : 0, 1, be == 2 ? 1 : 0});
    bool z = pickZero(s);
    mc::body();
    Opnd A(m, n, 0, s, z);
    OpndV x(lx, 1, s, z), y(ly, 2, s, z, 2);
    if (be == 0) y.V.fill([](int) { return cx(NAN, NAN); });
    auto a = A.M.view();
    auto xv = x.V.fview(), yv = y.V.fview();
    T al = scalarOf(3, s), bt = be == 1 ? T(0) : scalarOf(4, s);
    if (be == 0)
        tl::gemv(t, al, a, xv, yv);
    else
        tl::gemv(t, al, a, xv, bt, yv);
    BM want = bmul(bop(A.b, t), x.b);
    if (be == 2) want = bor(want, y.b);
    if (s.opnd >= 3) want = ball(ly, 1);
    outV(y.V, want, s, "y");
}
MC_HARNESS(symm_hemm) {
    bool herm = mc::flag("hermitian");
    Side side = pickSide();
    Uplo u = pickUplo();
    int m = mc::range("m", 1, HI()), n = mc::range("n", 1, HI()), be = mc::choose("beta(none,0,2)", 3), na = side == Side::Left ? m : n;
    Src s = pickSrc({na * na, m * n, be == 2 ? m * n : 0, 1, be == 2 ? 1 : 0});
    bool z = pickZero(s);
    mc::body();
    Opnd A(na, na, 0, s, z), B(m, n, 1, s, z), C(m, n, 2, s, z);
    if (be == 0) C.M.fill([](int, int) { return cx(NAN, NAN); });
    auto a = A.M.view(), b = B.M.view(), c = C.M.view();
    T al = scalarOf(3, s), bt = be == 1 ? T(0) : scalarOf(4, s);
    if (herm) {
        if (be == 0)
            tl::hemm(side, u, al, a, b, c);
        else
            tl::hemm(side, u, al, a, b, bt, c);
    } else {
        if (be == 0)
            tl::symm(side, u, al, a, b, c);
        else
            tl::symm(side, u, al, a, b, bt, c);
    }
    BM S = bsym(A.b, u, herm && CPLX && s.kind == 2);
    BM want = side == Side::Left ? bmul(S, B.b) : bmul(B.b, S);
    if (be == 2) want = bor(want, C.b);
    if (s.opnd >= 3) want = ball(m, n);
    outM(C.M, want, s, "C", Uplo::General, s.opnd < 3);
}
MC_HARNESS(symv_hemv) {
    bool herm = mc::flag("hermitian");
    Uplo u = pickUplo();
    int n = mc::range("n", 1, HI() + 1), be = mc::choose("beta(none,0,2)", 3);
    Src s = pickSrc({n * n, n, be == 2 ? n : 0, 1, be == 2 ? 1 : 0});
    bool z = pickZero(s);
    mc::body();
    Opnd A(n, n, 0, s, z);
    OpndV x(n, 1, s, z), y(n, 2, s, z, 2);
    if (be == 0) y.V.fill([](int) { return cx(NAN, NAN); });
    auto a = A.M.view();
    auto xv = x.V.fview(), yv = y.V.fview();
    T al = scalarOf(3, s), bt = be == 1 ? T(0) : scalarOf(4, s);
    if (herm) {
        if (be == 0)
            tl::hemv(u, al, a, xv, yv);
        else
            tl::hemv(u, al, a, xv, bt, yv);
    } else {
        if (be == 0)
            tl::symv(u, al, a, xv, yv);
        else
            tl::symv(u, al, a, xv, bt, yv);
    }
    BM want = bmul(bsym(A.b, u, herm && CPLX && s.kind == 2), x.b);
    if (be == 2) want = bor(want, y.b);
    if (s.opnd >= 3) want = ball(n, 1);
    outV(y.V, want, s, "y", s.opnd < 3);
}
MC_HARNESS(rank_k) {
    int r = mc::choose("syrk,herk,syr2k,her2k", 4);
    bool herm = r & 1, two = r >= 2;
    Uplo u = pickUplo();
    Op t = mc::pick("trans", {Op::NoTrans, Op::Trans, Op::ConjTrans});
    mc::require(herm ? t != Op::Trans : t != Op::ConjTrans);
    int n = mc::range("n", 1, HI()), k = mc::range("k", 1, HI()), be = mc::choose("beta(none,0,2)", 3);
    Src s = pickSrc({n * k, two ? n * k : 0, be == 2 ? n * n : 0, herm && !two ? 0 : 1});
    bool z = pickZero(s);
    mc::require(!(herm && s.opnd == 3 && s.kind == 3));
    mc::body();
    int p = t == Op::NoTrans ? n : k, q = t == Op::NoTrans ? k : n;
    Opnd A(p, q, 0, s, z), B(p, q, 1, s, z), C(n, n, 2, s, z);
    if (be == 0) C.M.fill([](int, int) { return cx(NAN, NAN); });
    auto a = A.M.view(), b = B.M.view(), c = C.M.view();
    T al = scalarOf(3, s), bt = be == 1 ? T(0) : mk<T>(cx(2));
    R ra = 2, rb = be == 1 ? 0 : 2;
    if (r == 0) {
        if (be == 0)
            tl::syrk(u, t, al, a, c);
        else
            tl::syrk(u, t, al, a, bt, c);
    }
    if (r == 1) {
        if (be == 0)
            tl::herk(u, t, ra, a, c);
        else
            tl::herk(u, t, ra, a, rb, c);
    }
    if (r == 2) {
        if (be == 0)
            tl::syr2k(u, t, al, a, b, c);
        else
            tl::syr2k(u, t, al, a, b, bt, c);
    }
    if (r == 3) {
        if (be == 0)
            tl::her2k(u, t, al, a, b, c);
        else
            tl::her2k(u, t, al, a, b, rb, c);
    }
    BM X = bop(A.b, t), Y = bop(B.b, t);
    BM want = two ? bor(bmul(X, btr(Y)), bmul(Y, btr(X))) : bmul(X, btr(X));
    if (be == 2) {
        BM c0 = C.b;
        if (herm && CPLX && s.kind == 2)
            for (int i = 0; i < n; ++i) c0(i, i) = 0;
        want = bor(want, c0);
    }
    if (s.opnd >= 3) want = ball(n, n);
    outM(C.M, want, s, "C", u);
}
MC_HARNESS(rank_1) {
    int r = mc::choose("ger,geru,syr,her,syr2,her2", 6);
    Uplo u = r >= 2 ? pickUplo() : Uplo::General;
    int m = mc::range("m", 1, HI() + 1), n = r < 2 ? mc::range("n", 1, HI() + 1) : m;
    bool herm = r == 3 || r == 5, two = r < 2 || r >= 4;
    Src s = pickSrc({m * n, m, two ? n : 0, r == 3 ? 0 : 1});
    bool z = pickZero(s);
    mc::require(!(herm && s.opnd == 3 && s.kind == 3));
    mc::body();
    Opnd A(m, n, 0, s, z);
    OpndV x(m, 1, s, z, 2), y(n, 2, s, z);
    auto a = A.M.view();
    auto xv = x.V.fview(), yv = y.V.fview();
    T al = scalarOf(3, s);
    if (r == 0) tl::ger(al, xv, yv, a);
    if (r == 1) tl::geru(al, xv, yv, a);
    if (r == 2) tl::syr(u, al, xv, a);
    if (r == 3) tl::her(u, R(2), xv, a);
    if (r == 4) tl::syr2(u, al, xv, yv, a);
    if (r == 5) tl::her2(u, al, xv, yv, a);
    BM P(m, n), a0 = A.b;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) P(i, j) = r < 2 ? x.b(i, 0) || y.b(j, 0) : (x.b(i, 0) || x.b(j, 0) || (two && (y.b(i, 0) || y.b(j, 0))));
    if (herm && CPLX && s.kind == 2)
        for (int i = 0; i < m; ++i) a0(i, i) = 0;
    P = bor(P, a0);
    if (s.opnd == 3) P = ball(m, n);
    outM(A.M, P, s, "A", u);
}
MC_HARNESS(triangular) {
    int r = mc::choose("trmm,trmv,trsm,trsv", 4);
    bool solve = r >= 2, vec = r & 1;
    Side side = vec ? Side::Left : pickSide();
    Uplo u = pickUplo();
    Op t = mc::pick("trans", OPS3);
    Diag d = pickDiag();
    int m = mc::range("m", 1, HI()), n = vec ? 1 : mc::range("n", 1, HI()), na = side == Side::Left ? m : n;
    Src s = pickSrc({na * na, m * n, vec ? 0 : 1});
    bool z = pickZero(s);
    mc::require(!(solve && s.kind == 3 && s.opnd == 0));
    mc::body();
    // zero data: the other operand of a product; only the right-hand side of a
    // solve
    Opnd A(na, na, 0, s, z && !solve), B(m, n, 1, s, z);
    OpndV x(m, 1, vec ? s : Src{0, -1, 0}, z);
    auto a = A.M.view(), b = B.M.view();
    auto xv = x.V.fview();
    T al = scalarOf(2, s);
    if (r == 0) tl::trmm(side, u, t, d, al, a, b);
    if (r == 1) tl::trmv(u, t, d, a, xv);
    if (r == 2) tl::trsm(side, u, t, d, al, a, b);
    if (r == 3) tl::trsv(u, t, d, a, xv);
    BM A1 = bop(btri(A.b, u, d), t), want(m, n);
    const BM &B0 = B.b;
    if (!solve)
        want = side == Side::Left ? bmul(A1, B0) : bmul(B0, A1);
    else
        want = side == Side::Left ? bsolve(A1, B0, d == Diag::Unit) : btr(bsolve(btr(A1), btr(B0), d == Diag::Unit));
    if (s.opnd == 2) want = ball(m, n);
    if (vec)
        outV(x.V, want, s, "x", !solve);
    else
        outM(B.M, want, s, "B", Uplo::General, !solve);
}
MC_HARNESS(level1) {
    int r = mc::choose("axpy,scal,copy,swap,rot,dot,dotu", 7);
    int n = mc::range("n", 1, HI() + 2);
    Src s = pickSrc({n, r == 1 || r == 2 ? 0 : n, r < 2 ? 1 : 0});
    bool z = pickZero(s);
    mc::body();
    OpndV x(n, 0, s, z, 2), y(n, 1, s, z);
    auto xv = x.V.fview(), yv = y.V.fview();
    T al = scalarOf(2, s);
    BM all = ball(n, 1);
    switch (r) {
        case 0:
            tl::axpy(al, xv, yv);
            outV(y.V, s.opnd == 2 ? all : bor(x.b, y.b), s, "y");
            break;
        case 1:
            tl::scal(al, xv);
            outV(x.V, s.opnd == 2 ? all : x.b, s, "x");
            break;
        case 2:
            tl::copy(xv, yv);
            outV(y.V, x.b, s, "y");
            break;
        case 3:
            tl::swap(xv, yv);
            outV(y.V, x.b, s, "y");
            outV(x.V, y.b, s, "x");
            break;
        case 4:
            tl::rot(xv, yv, R(0.5), T(-0.5));
            outV(x.V, bor(x.b, y.b), s, "x", false);
            outV(y.V, bor(x.b, y.b), s, "y", false);
            break;
        default: {
            T d = r == 5 ? tl::dot(xv, yv) : tl::dotu(xv, yv);
            verdict(d, true, s, "dot", 0, 0);
        }
    }
}
// ---- norms
// ---------------------------------------------------------------------------------------------
static LD normOf(int k, tl::Norm nm, Uplo u, Diag d, const Mat &A, bool infn) {
    auto a = const_cast<Mat &>(A).view();
    if (infn)
        return k == 0   ? tl::infnorm_colmajor(a)
               : k == 1 ? tl::infnorm_symmetric_colmajor(u, a)
               : k == 2 ? tl::infnorm_hermitian_colmajor(u, a)
                        : tl::infnorm_triangular_colmajor(u, d, a);
    return k == 0 ? tl::lange(nm, a) : k == 1 ? tl::lansy(nm, u, a) : k == 2 ? tl::lanhe(nm, u, a) : tl::lantr(nm, u, d, a);
}
MC_HARNESS(norms) {
    int k = mc::choose("lange,lansy,lanhe,lantr", 4), w = mc::choose("max,one,inf,fro,inf(column-major)", 5);
    Uplo u = k ? pickUplo() : Uplo::General;
    Diag d = k == 3 ? pickDiag() : Diag::NonUnit;
    int m = mc::range("m", 1, HI()), n = k == 0 || k == 3 ? mc::range("n", 1, HI()) : m;
    int p = mc::choose("NaN at", m * n + 1), q = mc::choose("infinity at", m * n + 1), nk = mc::choose("kind", CPLX ? 3 : 1),
        ik = mc::choose("inf kind", CPLX ? 3 : 1), z = mc::choose("other data zero", 2);
    mc::require((p < m * n || q < m * n) && p != q);
    mc::body();
    Mat A(m, n);
    A.fill([&](int i, int j) { return z ? cx(0) : cx(-1) * dat(i, j, 1); });
    bool isN = false, isI = false, mayN = false;
    auto refd = [&](int i, int j) { return (k == 0 || inTri(u, i, j)) && !(k == 3 && d == Diag::Unit && i == j); };
    if (p < m * n) {
        int i = p % m, j = p / m;
        A(i, j) = special(nk);
        isN = refd(i, j) && !(k == 2 && i == j && nk == 2 && CPLX);
    }
    if (q < m * n) {
        int i = q % m, j = q / m;
        A(i, j) = mk<T>(ik == 0 ? cx(CPLX ? -INFINITY : INFINITY, 0) : ik == 1 ? cx(1, INFINITY) : cx(INFINITY, -INFINITY));
        isI = refd(i, j) && !(k == 2 && i == j && ik == 1);
    }
    A.snap();
    tl::Norm nm = w == 0 ? tl::Norm::Max : w == 1 ? tl::Norm::One : w == 3 ? tl::Norm::Fro : tl::Norm::Inf;
    LD g = normOf(k, nm, u, d, A, w == 4);
    (void)mayN;
    MC_CHECK(!isN || g != g, "norm-nan", "norm of a matrix with a NaN is %Lg", g);
    MC_CHECK(isN || !isI || g == INFINITY, "norm-inf", "norm of a matrix with an infinity is %Lg", g);
    MC_CHECK(isN || isI || std::isfinite(g), "norm-finite", "norm is %Lg although nothing special is referenced", g);
    mc::mix(g != g ? 1 : std::isfinite(g) ? 2 : 3);
}
MC_HARNESS(vector_norms) {
    int n = mc::range("n", 1, 4), na = CPLX ? 8 : 5;
    std::vector<T> x(2 * n + 1, nanOf<T>());
    bool isN = false, isI = false;
    LD I = INFINITY, q = NAN, H = std::numeric_limits<R>::max(), D = std::numeric_limits<R>::denorm_min();
    const cx al[] = {cx(0), cx(1), cx(q), cx(I), cx(-I), cx(1, q), cx(1, -I), cx(D, 0)};
    const cx ar[] = {cx(1), cx(D), cx(H), cx(q), cx(-I)};
    for (int i = 0; i < n; ++i) {
        cx v = CPLX ? al[mc::choose("x", na)] : ar[mc::choose("x", na)];
        x[2 * i] = mk<T>(v);
        isN |= v.re != v.re || v.im != v.im;
        isI |= fabsl(v.re) == I || fabsl(v.im) == I;
    }
    mc::body();
    tl::LegacyVector<T, size_t, int> v(n, x.data(), 2);
    LD g[3];
    g[0] = tl::nrm2(v);
    g[1] = tl::asum(v);
    R sc = 1, sq = 0;
    tl::lassq(v, sc, sq);
    g[2] = (LD)sc * (LD)sq;
    for (int k = 0; k < 3; ++k) {
        static const char *nm[] = {"nrm2", "asum", "lassq"};
        MC_CHECK(!isN || g[k] != g[k], "norm-nan", "%s of a vector with a NaN is %Lg", nm[k], g[k]);
        MC_CHECK(isN || !isI || g[k] == INFINITY, "norm-inf", "%s of a vector with an infinity is %Lg", nm[k], g[k]);
    }
    MC_CHECK(tl::hasnan(v) == isN, "hasnan", "hasnan(vector) = %d", (int)!isN);
    MC_CHECK(tl::hasinf(v) == isI, "hasinf", "hasinf(vector) = %d", (int)!isI);
}
MC_HARNESS(hypotenuse) {
    LD I = INFINITY, q = NAN, H = std::numeric_limits<R>::max(), D = std::numeric_limits<R>::denorm_min();
    const LD v[] = {0, 1, -1, D, H / 2, q, I, -I};
    LD x = v[mc::choose("x", 8)], y = v[mc::choose("y", 8)], z = v[mc::choose("z", 8)];
    mc::body();
    bool N2 = x != x || y != y, I2 = fabsl(x) == I || fabsl(y) == I, N3 = N2 || z != z, I3 = I2 || fabsl(z) == I;
    LD a = tl::lapy2((R)x, (R)y), b = tl::lapy3((R)x, (R)y, (R)z);
    MC_CHECK(N2 ? a != a : I2 ? a == I : std::isfinite(a), "lapy2", "lapy2(%Lg,%Lg) = %Lg", x, y, a);
    MC_CHECK(N3 ? b != b : I3 ? b == I : std::isfinite(b), "lapy3", "lapy3(%Lg,%Lg,%Lg) = %Lg", x, y, z, b);
}
// ---- detection: every placement of special values
// ---------------------------------------------------------
MC_HARNESS(detect) {
    using tl::Uplo;
    int m = mc::range("m", 0, HI()), n = mc::range("n", 0, 3);
    mc::require(m * n <= 9 || mc::thorough());
    Mat A(m, n);
    A.fill([](int, int) { return cx(0); });
    int sub = mc::choose("nan set", 1 << (m * n > 9 ? 0 : m * n)), nk = mc::choose("kind", CPLX ? 3 : 1);
    for (int e = 0; e < m * n && e < 9; ++e)
        if (sub >> e & 1) A(e % m, e / m) = special(nk);
    mc::body();
    if (m * n > 9) A(m - 1, n - 1) = special(nk), A(m - 1, 0) = special(0);
    // the same pattern with infinities
    Mat B(m, n);
    B.fill([](int, int) { return cx(1); });
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (isBad(A(i, j), 0))
                B(i, j) = mk<T>(nk == 0 ? cx(CPLX ? INFINITY : -INFINITY, 1) : nk == 1 ? cx(1, INFINITY) : cx(-INFINITY, INFINITY));
    A.snap();
    B.snap();
    auto a = A.view(), b = B.view();
    uint64_t st = 0;
    auto any = [&](auto in) {
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j)
                if (in(i, j) && isBad(A(i, j), 0)) return true;
        return false;
    };
    for (Uplo u : {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower}) {
        bool w = any([&](int i, int j) { return inTri(u, i, j); });
        MC_CHECK(tl::hasnan(u, a) == w, "hasnan", "hasnan(uplo %c) = %d", (char)u, (int)!w);
        MC_CHECK(tl::hasinf(u, b) == w, "hasinf", "hasinf(uplo %c) = %d", (char)u, (int)!w);
        if (w) MC_CHECK(!tl::hasinf(u, a) && !tl::hasnan(u, b), "confused", "a NaN is reported as infinity or vice versa");
        ++st;
    }
    for (int kl = 0; kl <= m; ++kl)
        for (int ku = 0; ku <= n; ++ku) {
            bool w = any([&](int i, int j) { return i - j <= kl && j - i <= ku; });
            tl::BandAccess ba(kl, ku);
            MC_CHECK(tl::hasnan(ba, a) == w, "hasnan-band", "hasnan(band %d,%d) = %d", kl, ku, (int)!w);
            MC_CHECK(tl::hasinf(ba, b) == w, "hasinf-band", "hasinf(band %d,%d) = %d", kl, ku, (int)!w);
            ++st;
        }
    mc::addStates(st, st);
}
MC_HARNESS(index_of_max) {
    int n = mc::range("n", 0, mc::thorough() ? 5 : 4);
    LD I = INFINITY, q = NAN, H = std::numeric_limits<R>::max();
    const cx al[] = {cx(0), cx(2, -1), cx(q), cx(I), cx(0, q), cx(1, -I), cx(H, H), cx(I, q), cx(q, I), cx(-H, H / 2)};
    const cx ar[] = {cx(0), cx(-2), cx(q), cx(I), cx(-I), cx(H), cx(-q)};
    std::vector<T> x(n);
    int fn = -1, fi = -1;
    std::vector<cx> v(n);
    for (int i = 0; i < n; ++i) {
        v[i] = CPLX ? al[mc::choose("x", n == 5 ? 8 : 10)] : ar[mc::choose("x", 7)];
        x[i] = mk<T>(v[i]);
        if ((v[i].re != v[i].re || v[i].im != v[i].im) && fn < 0) fn = i;
        if ((fabsl(v[i].re) == I || fabsl(v[i].im) == I) && !(v[i].re != v[i].re || v[i].im != v[i].im) && fi < 0) fi = i;
    }
    mc::body();
    tl::LegacyVector<T, size_t> xv(n, x.data());
    long want = 0;
    if (fn >= 0)
        want = fn;
    else if (fi >= 0)
        want = fi;
    else {
        LD best = -1;
        for (int i = 0; i < n; ++i)
            if (ab1(v[i]) > best) {
                best = ab1(v[i]);
                want = i;
            }
    }
    long g1 = tl::iamax(xv), g2 = tl::iamax_ec(xv, [](const T &t) { return tl::abs1(t); });
    tl::IamaxOpts<R (*)(const T &)> o([](const T &t) { return R(tl::abs1(t)); });
    o.ec.inf = false;
    long g3 = tl::iamax(xv, o);
    MC_CHECK(g1 == want && g2 == want && g3 == want, "iamax", "iamax = %ld, %ld, %ld instead of %ld", g1, g2, g3, want);
    mc::mix(want);
}
MC_MAIN
