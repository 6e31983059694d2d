// C11: bidiagonal reduction (gebd2, gebrd, bidiag), ungbr_q/p; Hessenberg-triangular (gghrd, gghd3).
#include "refl.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/gghd3.hpp>

/// explicit P or Q factors
static RM qFac(const RM& F, const RM& tv)
{
    int m = F.m, n = F.n;
    RM Q = RM::eye(m);
    bool tall = m >= n;
    for (int i = std::min(m, n) - 1; i >= 0; --i) {
        int p = tall ? i : i + 1;
        if (p >= m) continue;
        RM v(m, 1);
        v.a[p] = 1;
        for (int r = p + 1; r < m; ++r) v.a[r] = F(r, i);
        applyH(Q, v, tv.a[i]);
    }
    return Q;
}
static RM pFac(const RM& F, const RM& tw)
{
    int m = F.m, n = F.n;
    RM P = RM::eye(n);
    bool tall = m >= n;
    for (int i = std::min(m, n) - 1; i >= 0; --i) {
        int p = tall ? i + 1 : i;
        if (p >= n) continue;
        RM v(n, 1);
        v.a[p] = 1;
        for (int r = p + 1; r < n; ++r) v.a[r] = cj(F(i, r));
        applyH(P, v, tw.a[i]);
    }
    return P;
}
static void checkBrd(int alg, int nb, const RM& A0, bool gens)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    Mat A(m, n);
    A.set(A0);
    Vec tq(k), tp(k);
    auto a = A.view();
    auto q = tq.fview(), p = tp.fview();
    tl::BidiagOpts o;
    o.nb = nb;
    int info;
    if (alg == 0) info = tl::gebd2(a, q, p);
    else if (alg == 1) info = tl::gebrd(a, q, p, (const tl::GebrdOpts&)o);
    else if (alg == 2) { o.variant = tl::BidiagVariant::Level2; info = tl::bidiag(a, q, p, o); }
    else if (alg == 3) { o.variant = tl::BidiagVariant::Blocked; info = tl::bidiag(a, q, p, o); }
    else info = tl::gebrd(a, q, p);
    MC_CHECK(info == 0, "info", "returned %d", info);
    A.guards("A");
    tq.guards("tauv");
    tp.guards("tauw");
    RM F = A.get(), B(m, n);
    for (int i = 0; i < k; ++i) {
        auto put = [&](int r, int c) {
            if (r >= m || c >= n) return;
            MC_CHECK(F(r, c).im == 0, "real-bidiagonal", "entry (%d,%d) has imaginary part %Lg", r, c, F(r, c).im);
            B(r, c) = F(r, c);
        };
        put(i, i);
        if (m >= n) put(i, i + 1);
        else if (i + 1 < m) put(i + 1, i);
    }
    RM Q = qFac(F, tq.get()), P = pFac(F, tp.get());
    LD tol = 40 * (LD)(m + n + 2) * EPS;
    small(orthCols(Q), tol, "orthogonality", "Q");
    small(orthCols(P), tol, "orthogonality", "P");
    small(nrmF(Q * B * H(P) - A0), tol * nrmF(A0), "equivalence", "Q B P^H - A");
    mixRM(B);
    if (!gens || k == 0) return;
    // explicit generation
    tl::UngbrOpts uo{(size_t)nb};
    RM tvr = tq.get(), twr = tp.get();
    if (m >= n) {
        for (int nc = n; nc <= m; ++nc) {
            Mat G(m, nc);
            G.fill([&](int i, int j) -> cx { return j < n ? F(i, j) : cx(7); });
            auto g = G.view();
            int inf = tl::ungbr_q((size_t)n, g, q, uo);
            MC_CHECK(inf == 0, "info", "ungbr_q returned %d", inf);
            G.guards("A");
            small(nrmF(G.get() - sub(Q, 0, m, 0, nc)), tol, "ungbr_q", "generated Q");
        }
        Mat G(n, n);
        G.set(sub(F, 0, n, 0, n));
        auto g = G.view();
        int inf = tl::ungbr_p((size_t)m, g, p, uo);
        MC_CHECK(inf == 0, "info", "ungbr_p returned %d", inf);
        G.guards("A");
        small(nrmF(G.get() - H(P)), tol, "ungbr_p", "generated P^H");
    }
    else {
        for (int nr = m; nr <= n; ++nr) {
            Mat G(nr, n);
            G.fill([&](int i, int j) -> cx { return i < m ? F(i, j) : cx(7); });
            auto g = G.view();
            int inf = tl::ungbr_p((size_t)m, g, p, uo);
            MC_CHECK(inf == 0, "info", "ungbr_p returned %d", inf);
            G.guards("A");
            small(nrmF(G.get() - sub(H(P), 0, nr, 0, n)), tol, "ungbr_p", "generated P^H");
        }
        Mat G(m, m);
        G.set(sub(F, 0, m, 0, m));
        auto g = G.view();
        int inf = tl::ungbr_q((size_t)n, g, q, uo);
        MC_CHECK(inf == 0, "info", "ungbr_q returned %d", inf);
        G.guards("A");
        small(nrmF(G.get() - Q), tol, "ungbr_q", "generated Q");
    }
    (void)tvr; (void)twr;
}
MC_HARNESS(brd_all_small)
{
    int m = mc::range("m", 1, 3), n = mc::range("n", 1, 3);
    mc::require(m * n <= (mc::thorough() ? 6 : 4));
    int alg = mc::choose("alg", 2);
    int nb = alg ? mc::range("nb", 1, 2) : 1;
    RM A(m, n);
    int na = m * n <= 3 ? 5 : m * n == 6 ? 3 : 4;
    for (auto& x : A.a) x = pickScalar<T>("a", na);
    mc::body();
    checkBrd(alg, nb, A, true);
}
MC_HARNESS(brd_families)
{
    int hi = mc::thorough() ? 8 : 6;
    int m = mc::range("m", 0, hi), n = mc::range("n", 0, hi);
    int alg = mc::choose("alg", 4);
    int nb = (alg == 1 || alg == 3) ? mc::range("nb", 1, std::min(std::min(m, n) + 1, 4)) : 1;
    mc::require(!(alg >= 2 && nb > 2));
    int fam = mc::choose("fam", FAM_COUNT);
    mc::body();
    checkBrd(alg, nb, family<T>(fam, m, n, 31), alg < 2);
}
MC_HARNESS(brd_default)
{
    int s = mc::pick("shape", {0, 1, 2, 3, 4, 5, 6});
    int M[] = {33, 40, 33, 32, 65, 20, 66}, N[] = {33, 34, 40, 33, 66, 64, 10};
    int fam = mc::pick("fam", {FAM_GENERIC, FAM_ZEROCOL, FAM_GRADED_ROWS});
    int alg = mc::pick("alg", {1, 4});
    int nb = alg == 1 ? mc::pick("nb", {8, 31}) : 32;
    mc::body();
    checkBrd(alg, nb, family<T>(fam, M[s], N[s], 32), s == 2 || s == 1);
}

// every order beyond the exhaustively enumerated ones, as square, tall and wide shapes: a step size or threshold anywhere has its
// boundary here
static std::pair<int, int> sweepShape(int lo, int hi)
{
    int n = mc::range("order", lo, hi), o = mc::choose("shape", 3), h = (n + 1) / 2 + 1;
    return o == 0 ? std::pair<int, int>{n, n} : o == 1 ? std::pair<int, int>{n, h} : std::pair<int, int>{h, n};
}
MC_HARNESS(brd_sweep)
{
    auto [m, n] = sweepShape(7, mc::thorough() ? 68 : 40);
    int alg = mc::choose("alg", 2);
    mc::body();
    checkBrd(alg, 8, family<T>(FAM_GENERIC, m, n, 41), false);
}

// ---- Hessenberg-triangular --------------------------------------------------------------------------
static void checkGG(int alg, int nb, int ilo, int ihi, RM A0, RM B0, bool wantq, bool wantz, bool ident)
{
    int n = A0.m;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) {
            if (j < ilo || i >= ihi) A0(i, j) = 0;
            B0(i, j) = 0;
        }
    LD q = std::numeric_limits<LD>::quiet_NaN();
    RM Q0 = RM::eye(n), Z0 = RM::eye(n);
    if (!ident)
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) Q0(i, j) = gen<T>(i, j, 41), Z0(i, j) = gen<T>(i, j, 42);
    auto run = [&](bool wq, bool wz, const RM& Qi, const RM& Zi, RM& Ao, RM& Bo, RM& Qo, RM& Zo) {
        Mat A(n, n), B(n, n), Q(n, n), Z(n, n);
        A.set(A0);
        B.fill([&](int i, int j) -> cx { return i <= j ? B0(i, j) : cx(q, q); });
        Q.set(Qi);
        Z.set(Zi);
        auto a = A.view(), b = B.view(), qq = Q.view(), z = Z.view();
        int info;
        if (alg == 0) info = tl::gghrd(wq, wz, (size_t)ilo, (size_t)ihi, a, b, qq, z);
        else if (alg == 1) {
            tl::Gghd3Opts o;
            o.nb = nb;
            info = tl::gghd3(wq, wz, (size_t)ilo, (size_t)ihi, a, b, qq, z, o);
        }
        else info = tl::gghd3(wq, wz, (size_t)ilo, (size_t)ihi, a, b, qq, z);
        MC_CHECK(info == 0, "info", "returned %d", info);
        A.guards("A"); B.guards("B"); Q.guards("Q"); Z.guards("Z");
        if (!wq) Q.constant("Q");
        if (!wz) Z.constant("Z");
        Ao = A.get(); Bo = B.get(); Qo = Q.get(); Zo = Z.get();
    };
    RM A1, B1, Q1, Z1;
    run(true, true, RM::eye(n), RM::eye(n), A1, B1, Q1, Z1);
    LD tol = 40 * (LD)(n + 2) * EPS;
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) {
            MC_CHECK(B1(i, j) == cx(0), "triangular", "B(%d,%d) is not zero", i, j);
            if (i > j + 1) MC_CHECK(A1(i, j) == cx(0), "hessenberg", "A(%d,%d) is not zero", i, j);
            if (j < ilo || i >= ihi) MC_CHECK(A1(i, j) == cx(0), "outside-range", "A(%d,%d) outside the active range is not zero", i, j);
        }
    small(orthCols(Q1), tol, "orthogonality", "Q");
    small(orthCols(Z1), tol, "orthogonality", "Z");
    small(nrmF(Q1 * A1 * H(Z1) - A0), tol * nrmF(A0), "equivalence", "Q H Z^H - A");
    small(nrmF(Q1 * B1 * H(Z1) - B0), tol * nrmF(B0), "equivalence", "Q T Z^H - B");
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            bool act = i > ilo && i < ihi && j > ilo && j < ihi;
            if (!act) {
                MC_CHECK(Q1(i, j) == cx(i == j ? 1 : 0), "outside-range", "Q(%d,%d) outside the active block is not that of the identity", i, j);
                MC_CHECK(Z1(i, j) == cx(i == j ? 1 : 0), "outside-range", "Z(%d,%d) outside the active block is not that of the identity", i, j);
            }
        }
    mixRM(A1);
    if (wantq && wantz && ident) return;
    RM A2, B2, Q2, Z2;
    run(wantq, wantz, Q0, Z0, A2, B2, Q2, Z2);
    small(nrmF(A2 - A1), tol * nrmF(A0), "flags-agree", "A");
    small(nrmF(B2 - B1), tol * nrmF(B0), "flags-agree", "B");
    if (wantq) small(nrmF(Q2 - Q0 * Q1), tol * nrmF(Q0), "accumulate", "Q0*Q");
    if (wantz) small(nrmF(Z2 - Z0 * Z1), tol * nrmF(Z0), "accumulate", "Z0*Z");
}
MC_HARNESS(gg_all_small)
{
    int n = mc::range("n", 2, 3);
    int alg = mc::choose("alg", 2);
    int nb = 1;
    RM A(n, n), B(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) A(i, j) = (n == 3 && !(i >= 1 && j <= 1)) ? gint<T>(i, j, 5) : pickScalar<T>("a", 3);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= j; ++i) B(i, j) = pickScalar<T>("b", n == 3 ? (mc::thorough() ? 3 : 2) : 3);
    mc::body();
    checkGG(alg, nb, 0, n, A, B, true, true, true);
}
MC_HARNESS(gg_families)
{
    int n = mc::range("n", 1, mc::thorough() ? 8 : 6);
    int ilo = mc::range("ilo", 0, n - 1), ihi = mc::range("ihi", ilo + 1, n);
    int alg = mc::choose("alg", 2);
    int nb = alg ? mc::range("nb", 1, 4) : 1;
    int fa = mc::choose("famA", FAM_COUNT);
    int fb = mc::pick("famB", {FAM_GENERIC, FAM_ZEROCOL, FAM_ZEROROW, FAM_EYE, FAM_ZERO});
    int w = (ihi - ilo == n) ? mc::choose("want", 4) : fa % 4;
    bool id = (ihi - ilo == n) ? mc::flag("ident") : (fa & 1);
    mc::require(mc::thorough() || (fa < 5 || fb == FAM_GENERIC));
    mc::body();
    checkGG(alg, nb, ilo, ihi, family<T>(fa, n, n, 33), family<T>(fb, n, n, 34), w & 1, w & 2, id);
}
MC_HARNESS(gg_sweep)
{
    int n = mc::range("n", 7, mc::thorough() ? 68 : 40);
    int alg = mc::choose("alg", 2);
    mc::body();
    checkGG(alg, 8, n % 3, n - n % 2, family<T>(FAM_GENERIC, n, n, 45), family<T>(FAM_GENERIC, n, n, 46), true, true, true);
}
MC_HARNESS(gg_default)
{
    int n = mc::pick("n", {33, 34, 35, 40, 66, 70});
    int ilo = mc::pick("ilo", {0, 2}), cut = mc::pick("cut", {0, 3});
    int alg = mc::pick("alg", {1, 2});
    int nb = alg == 1 ? mc::pick("nb", {5, 16}) : 32;
    mc::require(mc::thorough() || n <= 40 || (ilo && alg == 2));
    mc::body();
    checkGG(alg, nb, ilo, n - cut, family<T>(FAM_GENERIC, n, n, 35), family<T>(FAM_GENERIC, n, n, 36), true, true, true);
}
MC_MAIN
