// C09: Cholesky factorizations, solves, inverses, triangular self-products.
#include "blasref.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
using tl::Uplo;

// runs f and returns its info; an exception "[info] ..." is the documented report when checks are enabled
template <class F>
static int report(bool mayThrow, F f)
{
    try {
        return f();
    }
    catch (std::exception& e) {
        int info = 0;
        if (!mayThrow || sscanf(e.what(), "[%d]", &info) != 1) throw;
        return info;
    }
}
enum { V_BLOCKED, V_RL, V_REC, V_L2, V_FRONT_B, V_FRONT_RL, V_COUNT };
static int chol(int variant, Uplo u, Mat& A, int nb, bool ec)
{
    auto a = A.view();
    tl::BlockedCholeskyOpts bo;
    bo.nb = nb;
    bo.ec.internal = ec;
    tl::PotrfOpts po;
    po.nb = nb;
    po.ec.internal = ec;
    switch (variant) {
        case V_BLOCKED: return report(ec, [&] { return tl::potrf_blocked(u, a, bo); });
        case V_RL: return report(ec, [&] { return tl::potrf_rl(u, a, bo); });
        case V_REC: return report(ec, [&] { return tl::potrf2(u, a, tl::EcOpts(bo.ec)); });
        case V_L2: return report(true, [&] { return tl::potf2(u, a); });
        case V_FRONT_B: po.variant = tl::PotrfVariant::Blocked; break;
        case V_FRONT_RL: po.variant = tl::PotrfVariant::RightLooking; break;
    }
    return report(ec, [&] { return tl::potrf(u, a, po); });
}
static bool usesNb(int v) { return v == V_BLOCKED || v == V_RL || v == V_FRONT_B || v == V_FRONT_RL; }

static void setHerm(Mat& A, Uplo u, const RM& H)
{
    fillTri(A, u, tl::Diag::NonUnit, CPLX, [&](int i, int j) { return H(i, j); });
}
static RM triOf(const Mat& A, Uplo u) { return triFrom(A.get(), u, tl::Diag::NonUnit); }
static void checkFactor(const Mat& A, Uplo u, const RM& H0, const char* key)
{
    int n = A.n;
    A.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "footprint", "A");
    RM F = triOf(A, u);
    RM P = u == Uplo::Upper ? H(F) * F : F * H(F), B = u == Uplo::Upper ? H(Abs(F)) * Abs(F) : Abs(F) * H(Abs(F));
    for (int i = 0; i < n; ++i) {
        MC_CHECK(F(i, i).im == 0 && F(i, i).re > 0, "diagonal", "diagonal of the factor at %d is (%Lg,%Lg)", i, F(i, i).re, F(i, i).im);
        for (int j = 0; j < n; ++j) cmpElt(P(i, j), H0(i, j), 8 * (n + 2) * EPS * (B(i, j).re + 0), key, "A", i, j);
    }
    mixRM(F);
}
// exact Schur complement pivots of a Hermitian matrix given with small dyadic entries: returns the order of the first
// non-positive pivot; `sure` tells whether it is robust against rounding
static int firstBad(RM A, bool& sure, LD tol)
{
    int n = A.n;
    RM A0 = A;
    sure = true;
    for (int k = 0; k < n; ++k) {
        LD p = A(k, k).re;
        LD scale = fabsl(A0(k, k).re);
        for (int i = 0; i < k; ++i) scale = std::max(scale, fabsl(A0(i, i).re));
        for (auto& x : A0.a) scale = std::max(scale, ab(x));
        if (fabsl(p) <= tol * scale && k > 0) { sure = false; return k + 1; }
        if (p <= 0) return k + 1;
        for (int i = k + 1; i < n; ++i)
            for (int j = k + 1; j < n; ++j) A(i, j) -= A(i, k) * A(k, j) / A(k, k);
        for (int i = k + 1; i < n; ++i) A(i, i).im = 0;
    }
    return 0;
}
MC_HARNESS(potrf_small)
{
    int n = mc::range("n", 0, 3);
    RM A(n, n);
    static const int dg[] = {2, 1, 0, -1, 4};
    for (int i = 0; i < n; ++i) A(i, i) = dg[mc::choose("d", n == 3 && !mc::thorough() ? 4 : 5)];
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j) {
            A(i, j) = pickScalar<T>("o", n == 3 ? 4 : 6);
            A(j, i) = cj(A(i, j));
        }
    Uplo u = pickUplo();
    int variant = mc::choose("variant", V_COUNT);
    int nb = usesNb(variant) ? mc::pickv("nb", n == 3 ? std::vector<int>{1, 2, 4} : std::vector<int>{1, 2}) : 1;
    mc::body();
    bool ec = mc::choose("errorCheck", 2) == 0;
    bool sure;
    int bad = firstBad(A, sure, 200 * EPS);
    Mat M(n, n);
    setHerm(M, u, A);
    int info = chol(variant, u, M, nb, ec);
    mc::mix(info);
    M.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "footprint", "A");
    if (sure) MC_CHECK(info == bad, "info", "reported %d, first leading minor that is not positive definite has order %d", info, bad);
    else MC_CHECK(info == 0 || info >= bad, "info", "reported %d but minors below order %d are positive definite", info, bad);
    if (info == 0 && bad == 0) checkFactor(M, u, A, "A=LL^H");
}
enum { PD_GENERIC, PD_GRADED, PD_GRADED2, PD_EYE, PD_ONES, PD_HUGE, PD_TINY, PD_ARROW, PD_COUNT };
static RM pd(int kind, int n, int salt)
{
    RM A(n, n);
    LD huge = (LD)std::numeric_limits<R>::max() / 4096 / (n + 1), tiny = (LD)std::numeric_limits<R>::min() * 4096 * 4096;
    auto s = [&](int i) {
        switch (kind) {
            case PD_GRADED: return powl(2.0L, -(LD)(i % 12));
            case PD_GRADED2: return powl(2.0L, (LD)(i % 12));
            default: return 1.0L;
        }
    };
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) {
            cx v = i == j ? cx(1 + (LD)n * 0.75L) : gen<T>(i, j, salt);
            if (kind == PD_EYE) v = i == j;
            if (kind == PD_ONES) v = i == j ? 2 : 1;
            if (kind == PD_ARROW) v = i == j ? cx(n + 1) : j == 0 ? gen<T>(i, j, salt) : cx(0);
            v = v * cx(s(i) * s(j));
            if (kind == PD_HUGE) v = v * cx(huge);
            if (kind == PD_TINY) v = v * cx(tiny);
            v = up(mk<T>(v));
            A(i, j) = v;
            A(j, i) = cj(v);
        }
    return A;
}
MC_HARNESS(potrf_families)
{
    int n = mc::range("n", 1, mc::thorough() ? 16 : 9);
    Uplo u = pickUplo();
    int variant = mc::choose("variant", V_COUNT);
    int nb = usesNb(variant) ? mc::range("nb", 1, n + 1) : 1;
    int kind = mc::choose("kind", PD_COUNT);
    mc::body();
    RM A = pd(kind, n, 3);
    Mat M(n, n);
    setHerm(M, u, A);
    int info = chol(variant, u, M, nb, true);
    MC_CHECK(info == 0, "info", "positive definite matrix reported as %d", info);
    checkFactor(M, u, A, "A=LL^H");
}
MC_HARNESS(potrf_large)
{
    int n = mc::pick("n", {31, 32, 33, 64, 65, 70});
    Uplo u = pickUplo();
    int variant = mc::choose("variant", V_COUNT);
    int nb = usesNb(variant) ? mc::pick("nb", {32, 5}) : 1;
    int kind = mc::pick("kind", {(int)PD_GENERIC, (int)PD_GRADED});
    int bad = mc::pick("bad", {0, 1, 32, 33, -1});
    mc::body();
    RM A = pd(kind, n, 3);
    if (bad < 0) bad = n;
    if (bad > n) bad = n;
    if (bad) A(bad - 1, bad - 1) = -1;
    Mat M(n, n);
    setHerm(M, u, A);
    int info = chol(variant, u, M, nb, true);
    MC_CHECK(info == bad, "info", "reported %d expected %d", info, bad);
    if (!bad) checkFactor(M, u, A, "A=LL^H");
}
// every order: a step size or threshold anywhere has its boundary here
MC_HARNESS(potrf_sweep)
{
    int n = mc::range("n", 8, 72);
    Uplo u = pickUplo();
    int variant = mc::choose("variant", V_COUNT);
    int bad = mc::flag("bad") ? n - n / 5 : 0;
    mc::body();
    RM A = pd(PD_GENERIC, n, 13);
    if (bad) A(bad - 1, bad - 1) = -1;
    Mat M(n, n);
    setHerm(M, u, A);
    int info = chol(variant, u, M, usesNb(variant) ? 32 : 1, true);
    MC_CHECK(info == bad, "info", "reported %d expected %d", info, bad);
    if (!bad) checkFactor(M, u, A, "A=LL^H");
}
MC_HARNESS(potrf_fail_positions)
{
    int n = mc::range("n", 1, mc::thorough() ? 14 : 9);
    Uplo u = pickUplo();
    int variant = mc::choose("variant", V_COUNT);
    int nb = usesNb(variant) ? mc::range("nb", 1, n + 1) : 1;
    int bad = mc::range("bad", 1, n);
    int how = mc::choose("how", 3);
    bool ec = mc::choose("errorCheck", 2) == 0;
    mc::body();
    RM A = pd(PD_GENERIC, n, 5);
    // make the pivot of step bad clearly negative / exactly zero leading to a later failure must not be hidden
    if (how == 0) A(bad - 1, bad - 1) = -1;
    else if (how == 1) A(bad - 1, bad - 1) = 0;
    else {
        // barely indefinite: replace a_kk by s - 1/8 where s is the part explained by the previous columns
        bool sure;
        RM B = sub(A, 0, bad, 0, bad), X;
        RM C = sub(A, 0, bad - 1, 0, bad - 1), r = sub(A, 0, bad - 1, bad - 1, bad);
        LD s = 0;
        if (bad > 1 && refSolve(C, r, X)) s = (H(r) * X)(0, 0).re;
        A(bad - 1, bad - 1) = up(mk<T>(cx(s - 0.125L)));
        (void)sure;
    }
    Mat M(n, n);
    setHerm(M, u, A);
    int info = chol(variant, u, M, nb, ec);
    MC_CHECK(info == bad, "info", "reported %d expected %d", info, bad);
    M.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "footprint", "A");
}
// ---- solve and inverse -------------------------------------------------------------------------------------
MC_HARNESS(potrs_potri)
{
    int n = mc::range("n", 0, mc::thorough() ? 12 : 8);
    Uplo u = pickUplo();
    int kind = mc::choose("kind", PD_COUNT);
    int nrhs = mc::range("nrhs", 0, 3);
    mc::body();
    RM A = pd(kind, n, 7);
    Mat M(n, n);
    setHerm(M, u, A);
    if (nrhs == 0) {
        auto m = M.view();
        if (kind == PD_HUGE || kind == PD_TINY) return;
        tl::potri(u, m);
        M.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "footprint", "A");
        RM X = symFrom(M.get(), u, true);
        for (int i = 0; i < n; ++i) MC_CHECK(M.get()(i, i).im == 0, "real-diag", "imaginary part on the diagonal");
        RM ref;
        refSolve(A, RM::eye(n), ref);
        // inverse of a scaled well conditioned matrix: compare after undoing the diagonal scaling
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) cmpElt(X(i, j), ref(i, j), 400 * (n + 1) * EPS * sqrtl(ref(i, i).re * ref(j, j).re), "inverse", "potri", i, j);
        mixRM(X);
        return;
    }
    int info = chol(V_REC, u, M, 1, true);
    MC_CHECK(info == 0, "info", "potrf %d", info);
    M.snap();
    Mat B(n, nrhs);
    B.fill([&](int i, int j) { return gen<T>(i, j, 9); });
    RM B0 = B.get();
    auto m = M.view();
    auto b = B.view();
    const auto& mc_ = m;
    info = tl::potrs(u, mc_, b);
    MC_CHECK(info == 0, "info", "potrs %d", info);
    M.constant("A");
    B.guards("B");
    RM X = B.get();
    if (kind == PD_HUGE && false) return;
    RM F = triOf(M, u), G = u == Uplo::Upper ? H(Abs(F)) * Abs(F) : Abs(F) * H(Abs(F));
    RM Rr = A * X - B0, S = G * Abs(X);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < nrhs; ++j) cmpElt(Rr(i, j), 0, 16 * (n + 2) * EPS * S(i, j).re + (kind == PD_HUGE ? EPS * ab(B0(i, j)) * 64 : 0), "AX=B", "residual", i, j);
    mixRM(X);
}
// ---- triangular self-products ---------------------------------------------------------------------------------
MC_HARNESS(self_products)
{
    int which = mc::choose("routine", 4);  // lauum L, lauum U, mult_llh, mult_uhu
    int n = mc::pickv("n", mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 40} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 17});
    int fam = mc::choose("family", FAM_COUNT);
    mc::require(fam != FAM_HUGE && fam != FAM_TINY);
    int nx = which >= 2 ? mc::range("nx", 1, std::min(n, 9) + 1) : 1;
    mc::body();
    Uplo u = (which == 0 || which == 2) ? Uplo::Lower : Uplo::Upper;
    RM F = family<T>(fam, n, n, 11);
    Mat M(n, n);
    fillTri(M, u, tl::Diag::NonUnit, false, [&](int i, int j) { return F(i, j); });
    F = triFrom(F, u, tl::Diag::NonUnit);
    auto m = M.view();
    int info = 0;
    if (which <= 1) info = tl::lauum_recursive(u, m);
    else if (which == 2) tl::mult_llh(m, tl::mult_llh_Opts{(size_t)nx});
    else tl::mult_uhu(m, tl::mult_uhu_Opts{(size_t)nx});
    MC_CHECK(info == 0, "info", "info %d", info);
    bool hf = which == 0 || which == 3;  // F^H F else F F^H
    RM ref = hf ? H(F) * F : F * H(F), B = hf ? H(Abs(F)) * Abs(F) : Abs(F) * H(Abs(F));
    M.unchangedExcept([&](int i, int j) { return inTri(u, i, j); }, "footprint", "C");
    RM G = M.get();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (inTri(u, i, j)) cmpElt(G(i, j), ref(i, j), 8 * (n + 2) * EPS * B(i, j).re, "product", "C", i, j);
    mixRM(triOf(M, u));
}
// ---- tridiagonal -------------------------------------------------------------------------------------------------
template <class DV>
static void pttrfOne()
{
    // every matrix over the alphabet at tiny orders, then every order up to 40 with one failing position
    int lim = mc::thorough() ? 5 : 4, n = mc::range("n", 1, 40);
    static const int dg[] = {2, 1, 4, 0, -1};
    std::vector<int> d(n);
    RM e(n - 1, 1);
    if (n <= lim) {
        for (auto& x : d) x = dg[mc::choose("d", 5)];
        for (auto& x : e.a) x = pickScalar<T>("e", n <= 3 ? 6 : 4);
    }
    else {
        for (int i = 0; i < n; ++i) d[i] = 4 + i % 3;
        for (int i = 0; i < n - 1; ++i) e.a[i] = gint<T>(i, 1, 5);
        for (auto& x : e.a) while (ab1(x) > 2) x = cx(x.re / 2, x.im / 2);
        int b = mc::choose("failing", 3);
        if (b) d[b == 1 ? n / 2 : n - 1] = -1;
    }
    int inc = mc::range("inc", 1, 2);
    bool ec = mc::choose("errorCheck", 2) == 0;
    mc::body();
    RM A(n, n);
    for (int i = 0; i < n; ++i) {
        A(i, i) = d[i];
        if (i + 1 < n) { A(i + 1, i) = e.a[i]; A(i, i + 1) = cj(e.a[i]); }
    }
    bool sure;
    int bad = firstBad(A, sure, 100 * EPS);
    DV D(n, inc);
    Vec Ev(n - 1, inc);
    D.fill([&](int i) { return cx(d[i]); });
    Ev.set(e);
    auto dv = D.fview();
    auto ev = Ev.fview();
    tl::EcOpts o;
    o.ec.internal = ec;
    int info = report(ec, [&] { return tl::pttrf(dv, ev, o); });
    D.guards("D");
    Ev.guards("E");
    mc::mix(info);
    if (sure) MC_CHECK(info == bad, "info", "reported %d expected %d", info, bad);
    else MC_CHECK(info == 0 || info >= bad, "info", "reported %d expected >= %d", info, bad);
    if (info || bad) return;
    RM L = RM::eye(n), Dm(n, n);
    for (int i = 0; i < n; ++i) {
        Dm(i, i) = up(D[i]);
        if (i + 1 < n) L(i + 1, i) = up(Ev[i]);
    }
    RM P = L * Dm * H(L), B = Abs(L) * Abs(Dm) * H(Abs(L));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) cmpElt(P(i, j), A(i, j), 16 * EPS * B(i, j).re, "A=LDL^H", "A", i, j);
    mixRM(P);
}
MC_HARNESS(pttrf_real_diag) { pttrfOne<VecR>(); }
MC_HARNESS(pttrf_same_type)
{
    if constexpr (CPLX) pttrfOne<Vec>();
    else throw mc::Prune{};
}
// ---- banded -----------------------------------------------------------------------------------------------------------
static void pbtrfOne(Uplo u, int n, int kd, int nb, int kind)
{
    RM A = pd(kind, n, 3);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (std::abs(i - j) > kd) A(i, j) = 0;
            else if (i == j && kind == PD_ONES) A(i, j) = n + 1;  // truncation to a band must not lose definiteness
    auto inBand = [&](int i, int j) { return inTri(u, i, j) && std::abs(i - j) <= kd; };
    Mat M(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (inTri(u, i, j)) M(i, j) = mk<T>(A(i, j));
    M.snap();
    auto m = M.view();
    tl::BlockedBandedCholeskyOpts o;
    o.nb = nb;
    tl::pbtrf_with_workspace(u, m, (size_t)kd, o);
    M.unchangedExcept(inBand, "footprint", "A");
    RM F = triOf(M, u);
    RM P = u == Uplo::Upper ? H(F) * F : F * H(F), B = u == Uplo::Upper ? H(Abs(F)) * Abs(F) : Abs(F) * H(Abs(F));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) cmpElt(P(i, j), A(i, j), 8 * (n + 2) * EPS * B(i, j).re, "band", "A", i, j);
    mixRM(F);
}
MC_HARNESS(pbtrf)
{
    Uplo u = pickUplo();
    int n = mc::range("n", 1, mc::thorough() ? 13 : 9);
    int kd = mc::range("kd", 0, n - 1);
    int nb = mc::pickv("nb", [&] { std::vector<int> v; for (int i = 1; i <= n + 1; ++i) v.push_back(i); v.push_back(32); return v; }());
    int kind = mc::pick("kind", {(int)PD_GENERIC, (int)PD_GRADED, (int)PD_ONES, (int)PD_EYE});
    mc::body();
    pbtrfOne(u, n, kd, nb, kind);
}
// wide bands and many blocks
MC_HARNESS(pbtrf_sweep)
{
    Uplo u = pickUplo();
    int n = mc::range("n", 10, 48);
    int kd = mc::pick("kd", {1, 3, 8, 9, 15, 16, 17, 31, 32, 33});
    int nb = mc::pick("nb", {4, 8, 16, 32});
    mc::require(kd < n && (mc::thorough() || (n + kd + nb / 4) % 2 == 0));
    mc::body();
    pbtrfOne(u, n, kd, nb, PD_GENERIC);
}
MC_MAIN
