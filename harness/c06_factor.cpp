// C06: QR, LQ, QL, RQ factorizations.
#include "refl.hpp"
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/lapack/trge_qr2.hpp>
#include <tlapack/lapack/trge_ung2r.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
#include <tlapack/blas/rot.hpp>

enum Kind { QR, LQ, QL, RQ };
static const char* kn[] = {"QR", "LQ", "QL", "RQ"};

/// factor A with the selected algorithm: 0 unblocked, 1 blocked with block size nb, 2 dispatcher level 2, 3 dispatcher blocked
static int factor(Kind k, int alg, int nb, Mat& A, Vec& tau)
{
    auto a = A.view();
    auto t = tau.fview();
    switch (k) {
        case QR: {
            if (alg == 0) return tl::geqr2(a, t);
            if (alg == 1) return tl::geqrf(a, t, tl::GeqrfOpts{(size_t)nb});
            tl::HouseholderQROpts o;
            o.nb = nb;
            o.variant = alg == 2 ? tl::HouseholderQRVariant::Level2 : tl::HouseholderQRVariant::Blocked;
            return tl::householder_qr(a, t, o);
        }
        case LQ: {
            if (alg == 0) return tl::gelq2(a, t);
            if (alg == 1) return tl::gelqf(a, t, tl::GelqfOpts{(size_t)nb});
            tl::HouseholderLQOpts o;
            o.nb = nb;
            o.variant = alg == 2 ? tl::HouseholderLQVariant::Level2 : tl::HouseholderLQVariant::Blocked;
            return tl::householder_lq(a, t, o);
        }
        case QL: {
            if (alg == 0) return tl::geql2(a, t);
            if (alg == 1) return tl::geqlf(a, t, tl::GeqlfOpts{(size_t)nb});
            tl::HouseholderQLOpts o;
            o.nb = nb;
            o.variant = alg == 2 ? tl::HouseholderQLVariant::Level2 : tl::HouseholderQLVariant::Blocked;
            return tl::householder_ql(a, t, o);
        }
        default: {
            if (alg == 0) return tl::gerq2(a, t);
            if (alg == 1) return tl::gerqf(a, t, tl::GerqfOpts{(size_t)nb});
            tl::HouseholderRQOpts o;
            o.nb = nb;
            o.variant = alg == 2 ? tl::HouseholderRQVariant::Level2 : tl::HouseholderRQVariant::Blocked;
            return tl::householder_rq(a, t, o);
        }
    }
}

static void verify(Kind kind, const RM& A0, const RM& F, const RM& taur)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    auto tau = tauOf(taur, k);
    bool colw = kind == QR || kind == QL, fwd = kind == QR || kind == LQ;
    int N = colw ? m : n;
    LD tol = 40 * (LD)(m + n + 2) * EPS;
    // trapezoidal factor
    RM R(m, n), V = F;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            bool in = false;
            switch (kind) {
                case QR: in = i <= j; break;
                case LQ: in = i >= j; break;
                case QL: in = (m - 1 - i) <= (n - 1 - j); break;  // lower, aligned to the bottom right corner
                case RQ: in = (n - 1 - j) <= (m - 1 - i); break;  // upper, aligned to the bottom right corner
            }
            if (in) R(i, j) = F(i, j);
        }
    // reflector storage: QL keeps reflector i in column n-k+i, RQ keeps it in row m-k+i
    if (kind == QL) V = sub(F, 0, m, n - k, n);
    if (kind == RQ) V = sub(F, m - k, m, 0, n);
    RM Hq = hprod(V, tau, k, N, fwd, colw);
    small(orthCols(Hq), tol, "orthogonality", kn[kind]);
    RM P = colw ? Hq * R : R * H(Hq);
    RM D = P - A0;
    if (colw)
        for (int j = 0; j < n; ++j) small(colNrm(D, j), tol * colNrm(A0, j), "reconstruction", kn[kind]);
    else
        for (int i = 0; i < m; ++i) small(rowNrm(D, i), tol * rowNrm(A0, i), "reconstruction", kn[kind]);
    mixRM(R);
}

static void doFactor(Kind kind, int alg, int nb, const RM& A0, bool agree)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    Mat A(m, n);
    A.set(A0);
    Vec tau(k);
    int info = factor(kind, alg, nb, A, tau);
    MC_CHECK(info == 0, "info", "%s returned %d", kn[kind], info);
    A.guards("A");
    tau.guards("tau");
    verify(kind, A0, A.get(), tau.get());
    if (agree && alg != 0) {
        Mat B(m, n);
        B.set(A0);
        Vec tb(k);
        factor(kind, 0, 1, B, tb);
        RM X = A.get(), Y = B.get();
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j) {
                bool in = kind == QR ? i <= j : kind == LQ ? i >= j : kind == QL ? (m - 1 - i) <= (n - 1 - j) : (n - 1 - j) <= (m - 1 - i);
                if (in) cmpElt(X(i, j), Y(i, j), 2e4L * EPS * nrmF(A0) / std::max(1, std::min(m, n)), "variants-agree", kn[kind], i, j);
            }
    }
}

MC_HARNESS(all_small)
{
    Kind kind = (Kind)mc::choose("kind", 4);
    int m = mc::range("m", 1, 3), n = mc::range("n", 1, 3);
    mc::require(m * n <= (mc::thorough() ? 6 : 4));
    int alg = mc::choose("alg", 2);
    int nb = alg == 1 ? mc::range("nb", 1, 2) : 1;
    RM A(m, n);
    int na = m * n <= 3 ? 5 : mc::thorough() ? 4 : 4;
    if (m * n == 6) na = 3;
    for (auto& x : A.a) x = pickScalar<T>("a", na);
    mc::body();
    doFactor(kind, alg, nb, A, false);
}

MC_HARNESS(families)
{
    Kind kind = (Kind)mc::choose("kind", 4);
    int hi = mc::thorough() ? 8 : 6;
    int m = mc::range("m", 0, hi), n = mc::range("n", 0, hi);
    int alg = mc::choose("alg", 4);
    int nb = (alg == 1 || alg == 3) ? mc::range("nb", 1, std::min(m, n) + 1) : 1;
    int fam = mc::choose("family", FAM_COUNT);
    mc::body();
    doFactor(kind, alg, nb, family<T>(fam, m, n, 3), fam == FAM_GENERIC && m != n);
}

// sizes around the default block size and multi-block shapes
MC_HARNESS(large)
{
    Kind kind = (Kind)mc::choose("kind", 4);
    static const int sz[][3] = {{31, 31, 32}, {32, 33, 32}, {33, 33, 32}, {40, 35, 32}, {35, 70, 32}, {70, 34, 32}, {65, 65, 32}, {20, 20, 7}, {20, 9, 4}, {9, 20, 4}, {24, 24, 8}};
    int s = mc::choose("size", 11);
    int alg = mc::choose("alg", 2);
    int fam = mc::pick("family", {(int)FAM_GENERIC, (int)FAM_RANK1, (int)FAM_GRADED_COLS, (int)FAM_ZEROCOL});
    mc::body();
    doFactor(kind, alg, sz[s][2], family<T>(fam, sz[s][0], sz[s][1], 5), false);
}

// every order beyond the exhaustively enumerated ones, as square, tall and wide shapes: a step size or threshold anywhere has its
// boundary here
static std::pair<int, int> sweepShape(int lo, int hi)
{
    int n = mc::range("order", lo, hi), o = mc::choose("shape", 3), h = (n + 1) / 2 + 1;
    return o == 0 ? std::pair<int, int>{n, n} : o == 1 ? std::pair<int, int>{n, h} : std::pair<int, int>{h, n};
}
MC_HARNESS(sweep)
{
    Kind kind = (Kind)mc::choose("kind", 4);
    int alg = mc::choose("alg", 2);
    auto [m, n] = sweepShape(9, mc::thorough() ? 72 : 48);
    mc::body();
    doFactor(kind, alg, 32, family<T>(FAM_GENERIC, m, n, 15), false);
}

// recursive compact-WY QR
static void doGeqrt3(int nx, bool isw, const RM& A0)
{
    int m = A0.m, n = A0.n;
    Mat A(m, n), Tm(n, n);
    A.set(A0);
    // T is output only; its strictly lower part is not documented as referenced
    auto a = A.view();
    auto t = Tm.view();
    tl::geqrt3(a, t, tl::Geqrt3Opts{.isw = isw, .nx = (size_t)nx});
    A.guards("A");
    Tm.guards("T");
    RM tv(n, 1);
    for (int i = 0; i < n; ++i) tv.a[i] = up(Tm(i, i));
    verify(QR, A0, A.get(), tv);
    if (!isw) {
        RM V(m, n), TT = triFrom(Tm.get(), tl::Uplo::Upper, tl::Diag::NonUnit), F = A.get();
        for (int j = 0; j < n; ++j)
            for (int i = j; i < m; ++i) V(i, j) = i == j ? cx(1) : F(i, j);
        RM W = RM::eye(m) - V * TT * H(V);
        small(nrmF(W - hprod(F, tauOf(tv, n), n, m, true, true)), 40 * (LD)(m + n) * EPS, "T-factor", "geqrt3");
    }
}
MC_HARNESS(geqrt3_small)
{
    int m = mc::range("m", 1, 3), n = mc::range("n", 1, 3);
    mc::require(m >= n && m * n <= (mc::thorough() ? 6 : 4));
    RM A(m, n);
    int na = m * n <= 3 ? 5 : m * n == 6 ? 3 : 4;
    for (auto& x : A.a) x = pickScalar<T>("a", na);
    mc::body();
    doGeqrt3(1, false, A);
}
MC_HARNESS(geqrt3_families)
{
    int m = mc::range("m", 1, mc::thorough() ? 12 : 8), n = mc::range("n", 1, mc::thorough() ? 12 : 8);
    mc::require(m >= n);
    int nx = mc::range("nx", 1, n);
    bool isw = mc::flag("isw");
    int fam = mc::choose("family", FAM_COUNT);
    mc::body();
    doGeqrt3(nx, isw, family<T>(fam, m, n, 9));
}
MC_HARNESS(geqrt3_large)
{
    static const int sz[][3] = {{20, 20, 1}, {40, 33, 8}, {70, 40, 40}, {33, 32, 5}};
    int s = mc::choose("size", 4);
    int fam = mc::pick("family", {(int)FAM_GENERIC, (int)FAM_RANK1, (int)FAM_GRADED_COLS});
    mc::body();
    doGeqrt3(sz[s][2], false, family<T>(fam, sz[s][0], sz[s][1], 5));
}

MC_HARNESS(geqrt3_sweep)
{
    auto [m, n] = sweepShape(9, mc::thorough() ? 72 : 48);
    mc::require(m >= n);
    mc::body();
    doGeqrt3(4, false, family<T>(FAM_GENERIC, m, n, 15));
}

// LQ keeping the triangular factors
static void doGelqt(int nb, const RM& A0)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    Mat A(m, n), TT(m, nb);
    A.set(A0);
    auto a = A.view();
    auto t = TT.view();
    int info = tl::gelqt(a, t);
    MC_CHECK(info == 0, "info", "gelqt returned %d", info);
    A.guards("A");
    TT.guards("TT");
    RM tv(k, 1);
    for (int j = 0; j < k; ++j) tv.a[j] = up(TT(j, j % nb));
    RM F = A.get();
    verify(LQ, A0, F, tv);
    for (int j = 0; j < k; j += nb) {
        int ib = std::min(nb, k - j);
        RM W(ib, n - j), Tb(ib, ib), Vb = sub(F, j, j + ib, j, n);
        std::vector<cx> tb;
        for (int i = 0; i < ib; ++i) {
            tb.push_back(tv.a[j + i]);
            for (int c = i; c < n - j; ++c) W(i, c) = c == i ? cx(1) : F(j + i, j + c);
            for (int c = i; c < ib; ++c) Tb(i, c) = up(TT(j + i, c));
        }
        RM P = RM::eye(n - j) - H(W) * Tb * W;
        small(nrmF(P - hprod(Vb, tb, ib, n - j, true, false)), 40 * (LD)(m + n) * EPS, "T-factor", "gelqt");
    }
}
MC_HARNESS(gelqt_families)
{
    int hi = mc::thorough() ? 9 : 7;
    int m = mc::range("m", 1, hi), n = mc::range("n", 1, hi);
    int nb = mc::range("nb", 1, std::min(m, n));
    int fam = mc::choose("family", FAM_COUNT);
    mc::body();
    doGelqt(nb, family<T>(fam, m, n, 21));
}

// QR of a triangle on top of a full block, and the generation of its Q
static void doTrge(int m, int n, int k, int fam)
{
    RM A0 = family<T>(fam, m + n, n, 13);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) A0(i, j) = 0;
    Mat A(m + n, n);
    A.set(A0);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) A(i, j) = nanOf<T>();  // zero by contract, must not be read
    A.snap();
    Vec tau(n);
    auto a = A.view();
    auto t = tau.fview();
    trge_qr2(a, t);
    A.unchangedExcept([&](int i, int j) { return i >= n || i <= j; }, "footprint", "A");
    tau.guards("tau");
    LD tol = 40 * (LD)(2 * n + m + 2) * EPS;
    RM Q = RM::eye(m + n), R(m + n, n);
    for (int i = n - 1; i >= 0; --i) {
        RM v(m + n, 1);
        v.a[i] = 1;
        for (int r = 0; r < m; ++r) v.a[n + r] = up(A(n + r, i));
        applyH(Q, v, up(tau[i]));
    }
    for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j) R(i, j) = up(A(i, j));
    small(orthCols(Q), tol, "orthogonality", "trge_qr2");
    RM D = Q * R - A0;
    for (int j = 0; j < n; ++j) small(colNrm(D, j), tol * colNrm(A0, j), "reconstruction", "trge_qr2");
    // generate k columns of Q
    Mat W(m + n, k);
    for (int i = n; i < m + n; ++i)
        for (int j = 0; j < n; ++j) W(i, j) = A(i, j);
    W.snap();
    auto w = W.view();
    std::vector<T> tv(n);
    for (int i = 0; i < n; ++i) tv[i] = tau[i];
    trge_ung2r(w, tv);
    W.guards("W");
    RM G = W.get();
    // entries of the generated Q above the n-th row strictly below the diagonal belong to the identity part
    small(nrmF(triFrom(sub(G, 0, n, 0, n), tl::Uplo::Upper, tl::Diag::NonUnit) - triFrom(sub(Q, 0, n, 0, n), tl::Uplo::Upper, tl::Diag::NonUnit)), tol, "generate-Q", "trge_ung2r leading");
    small(nrmF(sub(G, n, m + n, 0, k) - sub(Q, n, m + n, 0, k)), tol, "generate-Q", "trge_ung2r bottom");
    small(nrmF(sub(G, 0, n, n, k) - sub(Q, 0, n, n, k)), tol, "generate-Q", "trge_ung2r top right");
}
MC_HARNESS(trge)
{
    int hi = mc::thorough() ? 6 : 4;
    int m = mc::range("m", 1, hi), n = mc::range("n", 1, hi);
    int k = mc::range("k", n, m + n);
    int fam = mc::choose("family", FAM_COUNT);
    mc::body();
    doTrge(m, n, k, fam);
}

// RQ of a Hessenberg matrix given by left rotations on a triangle
MC_HARNESS(hessenberg_rq)
{
    int n = mc::range("n", 0, mc::thorough() ? 6 : 5);
    int fam = mc::choose("family", FAM_COUNT);
    std::vector<int> kind;
    for (int i = 0; i + 1 < n; ++i) kind.push_back(mc::choose("rot", 4));
    mc::body();
    RM T0 = family<T>(fam, n, n, 4);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) T0(i, j) = 0;
    Mat M(n, n);
    M.set(T0);
    int k = std::max(0, n - 1);
    VecR cl(k), cr(k);
    Vec sl(k), sr(k);
    for (int i = 0; i < k; ++i) {
        LD c = kind[i] == 0 ? 1 : kind[i] == 1 ? 0 : kind[i] == 2 ? 0.6L : 0.28L;
        cx s = kind[i] == 0 ? cx(0) : kind[i] == 1 ? cx(1) : kind[i] == 2 ? cx(-0.8L) : (CPLX ? cx(0.576L, -0.768L) : cx(0.96L));
        cl[i] = mk<R>(cx(c));
        sl[i] = mk<T>(s);
    }
    cl.snap();
    sl.snap();
    auto a = M.view();
    auto c1 = cl.fview();
    auto s1 = sl.fview();
    auto c2 = cr.fview();
    auto s2 = sr.fview();
    tl::hessenberg_rq(a, c1, s1, c2, s2);
    M.guards("T");
    cl.constant("cl");
    sl.constant("sl");
    cr.guards("cr");
    sr.guards("sr");
    // reference: left rotations, last pair first as documented for the forward sequence from the left
    RM Hs = T0;
    for (int i = k - 1; i >= 0; --i)
        for (int j = 0; j < n; ++j) {
            cx x = Hs(i, j), y = Hs(i + 1, j), c = up(cl[i]), s = up(sl[i]);
            Hs(i, j) = c * x + s * y;
            Hs(i + 1, j) = -(cj(s) * x) + c * y;
        }
    RM G = M.get();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) MC_CHECK(G(i, j) == cx(0), "triangular", "T(%d,%d) not zero", i, j);
    // triangle = Hessenberg matrix times the returned right sequence (as consumed by gghd3)
    RM P = Hs;
    // forward sequence from the right, in rot_sequence's order (last pair first)
    for (int i = k - 1; i >= 0; --i)
        for (int r = 0; r < n; ++r) {
            cx x = P(r, i), y = P(r, i + 1), c = up(cr[i]), s = up(sr[i]);
            P(r, i) = c * x + cj(s) * y;
            P(r, i + 1) = -(s * x) + c * y;
        }
    for (int i = 0; i < k; ++i) {
        LD c = up(cr[i]).re, s = ab(up(sr[i]));
        small(fabsl(c * c + s * s - 1), 20 * EPS, "rotation", "cr^2+|sr|^2");
    }
    small(nrmF(P - G), 60 * (n + 1) * EPS * nrmF(T0), "reconstruction", "hessenberg_rq");
    mixRM(G);
}
MC_MAIN
