// C15: generalized Schur decomposition (lahqz, multishift_qz) and Hessenberg-triangular reduction.
#include "hessfam.hpp"
#include "pencil.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/multishift_qz.hpp>

typedef std::complex<R> CR;
struct Opt { int variant; int nmin, ns, nw; };  // variant: 0 lahqz, 1 multishift_qz with options, 2 multishift_qz default options
struct Out { RM S, P, Q, Z; std::vector<cx> al, be; };

static int runOne(const RM& A0, const RM& B0, int ilo, int ihi, const Opt& o, bool ws, bool wq, bool wz, const RM& Q0, const RM& Z0, Out& r)
{
    int n = A0.m;
    Mat A(n, n), B(n, n), Q(Q0.m, Q0.n), Z(Z0.m, Z0.n);
    A.set(A0); B.set(B0); Q.set(Q0); Z.set(Z0);
    GV<CR> al(n);
    Vec be(n);
    al.fill([](int) { return cx(777, -777); });
    be.fill([](int) { return cx(777); });
    auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view();
    auto av = al.fview();
    auto bv = be.fview();
    int info;
    if (o.variant == 0) info = tl::lahqz(ws, wq, wz, (size_t)ilo, (size_t)ihi, a, b, av, bv, q, z);
    else {
        tl::FrancisOpts op;
        if (o.variant == 1) {
            op.nmin = o.nmin;
            size_t ns = o.ns, nw = o.nw;
            op.nshift_recommender = [ns](size_t, size_t) { return ns; };
            op.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
        }
        info = tl::multishift_qz(ws, wq, wz, (size_t)ilo, (size_t)ihi, a, b, av, bv, q, z, op);
    }
    A.guards("A"); B.guards("B"); Q.guards("Q"); Z.guards("Z"); al.guards("alpha"); be.guards("beta");
    if (!wq) Q.constant("Q");
    if (!wz) Z.constant("Z");
    bool scratch = o.variant == 1 ? n >= o.nmin : o.variant == 2 && n >= 75;
    r.S = A.get(); r.P = B.get(); r.Q = Q.get(); r.Z = Z.get();
    r.al.clear(); r.be.clear();
    for (int i = 0; i < n; ++i) {
        r.al.push_back(up(al[i])); r.be.push_back(up(be[i]));
        if (i < ilo || i >= ihi) MC_CHECK(r.al[i] == cx(777, -777) && r.be[i] == cx(777), "eig-range", "alpha/beta[%d] outside [%d,%d) written", i, ilo, ihi);
    }
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) {
            if (!scratch && ws) {
                if (i > j + 1) MC_CHECK(r.S(i, j) == cx(0), "hessenberg", "A(%d,%d)=(%Lg,%Lg)", i, j, r.S(i, j).re, r.S(i, j).im);
                MC_CHECK(r.P(i, j) == cx(0), "triangular", "B(%d,%d)=(%Lg,%Lg)", i, j, r.P(i, j).re, r.P(i, j).im);
            }
            if (scratch && i == j + 1 && ws && false) MC_CHECK(r.P(i, j) == cx(0), "triangular", "B(%d,%d)", i, j);
            if (i > j + 1) r.S(i, j) = 0;
            r.P(i, j) = 0;
        }
    return info;
}
static cx det(RM M)
{
    int n = M.m;
    cx d = 1;
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k; i < n; ++i) if (ab(M(i, k)) > ab(M(p, k))) p = i;
        if (ab(M(p, k)) == 0) return 0;
        if (p != k) { for (int j = 0; j < n; ++j) std::swap(M(p, j), M(k, j)); d = cx(-1) * d; }
        d = d * M(k, k);
        for (int i = k + 1; i < n; ++i) {
            cx f = M(i, k) / M(k, k);
            for (int j = k; j < n; ++j) M(i, j) -= f * M(k, j);
        }
    }
    return d;
}
/// eigenvalue list against det(x A - y B): backward-stable comparison valid for multiple eigenvalues
static void spectrum(const RM& A, const RM& B, const std::vector<cx>& al, const std::vector<cx>& be, LD tol, const char* what)
{
    int n = A.m;
    if (n == 0 || n > 8) return;
    LD nA = nrmF(A), nB = nrmF(B);
    if (nA == 0) nA = 1;
    if (nB == 0) nB = 1;
    std::vector<cx> a, b;
    for (int i = 0; i < n; ++i) {
        MC_CHECK(fin(al[i]) && fin(be[i]), "eigenvalues", "%s: alpha/beta[%d] not finite", what, i);
        cx x = cx(al[i].re / nA, al[i].im / nA), y = cx(be[i].re / nB, be[i].im / nB);
        LD h = hypotl(ab(x), ab(y));
        if (h < tol) return;  // (nearly) singular pencil: eigenvalues are arbitrary
        a.push_back(x / h); b.push_back(y / h);
    }
    RM An = cx(1 / nA) * A, Bn = cx(1 / nB) * B;
    std::vector<cx> u, v;
    for (int k = 0; k <= n; ++k) {
        LD t = 0.3L + k * 1.1L;
        cx x = cx(cosl(t)), y = cx(sinl(t) * cosl(2.0L * k), sinl(t) * sinl(2.0L * k)), p = 1;
        u.push_back(det(x * An - y * Bn));
        for (int i = 0; i < n; ++i) p = p * (x * a[i] - y * b[i]);
        v.push_back(p);
    }
    cx num = 0;
    LD den = 0;
    for (int k = 0; k <= n; ++k) num += u[k] * cj(v[k]), den += ab(v[k]) * ab(v[k]);
    cx c = den > 0 ? num / den : cx(0);
    LD e = 0;
    for (int k = 0; k <= n; ++k) e = std::max(e, ab(u[k] - c * v[k]));
    small(e, tol, "eigenvalues", what);
}
/// huge A combined with huge (or strongly graded) B: intermediate products overflow, outside the claim
static bool overflowing(int fam, int bf) { return fam == 23 && (bf == 6 || bf == 10 || bf == 11); }
static void checkQZ(const RM& A0, const RM& B0, int ilo, int ihi, const Opt& o, int full)
{
    int n = A0.m;
    LD nA = nrmF(A0), nB = nrmF(B0), tol = 80 * (LD)(n + 2) * EPS;
    bool aed = o.variant == 1 ? n >= o.nmin : o.variant == 2 && n >= 75;
    Out r;
    int info = runOne(A0, B0, ilo, ihi, o, true, true, true, RM::eye(n), RM::eye(n), r);
    MC_CHECK(info == 0, "info", "returned %d", info);
    small(orthCols(r.Q), tol, "orthogonality", "Q");
    small(orthCols(r.Z), tol, "orthogonality", "Z");
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i)
            if ((i < ilo || i >= ihi || j < ilo || j >= ihi)) MC_CHECK(r.Q(i, j) == cx(i == j ? 1 : 0) && r.Z(i, j) == cx(i == j ? 1 : 0), "range", "Q or Z(%d,%d) outside the active block changed", i, j);
    small(nrmF(r.Q * r.S * H(r.Z) - A0), tol * nA, "equivalence-A", "Q S Z^H - A");
    small(nrmF(r.Q * r.P * H(r.Z) - B0), tol * nB, "equivalence-B", "Q T Z^H - B");
    for (int i = 0; i + 1 < n; ++i)
        if (i < ilo || i + 1 >= ihi) MC_CHECK(r.S(i + 1, i) == A0(i + 1, i), "range", "subdiagonal %d outside the active block changed", i);
    for (int i = ilo; i < ihi;) {
        bool two = i + 1 < ihi && r.S(i + 1, i) != cx(0);
        if (CPLX) MC_CHECK(!two, "triangular", "subdiagonal %d is non-zero", i);
        if (!two) {
            MC_CHECK(r.al[i] == r.S(i, i) && r.be[i] == r.P(i, i), "eig-diagonal", "alpha,beta[%d]=(%Lg,%Lg),(%Lg,%Lg) but diagonals are (%Lg,%Lg),(%Lg,%Lg)", i, r.al[i].re, r.al[i].im, r.be[i].re, r.be[i].im, r.S(i, i).re, r.S(i, i).im, r.P(i, i).re, r.P(i, i).im);
            if (i > ilo && !aed) MC_CHECK(r.P(i, i).im == 0 && r.P(i, i).re >= 0, "B-diagonal", "B(%d,%d)=(%Lg,%Lg) is not real and non-negative", i, i, r.P(i, i).re, r.P(i, i).im);
            ++i;
            continue;
        }
        if (i + 2 < ihi) MC_CHECK(r.S(i + 2, i + 1) == cx(0), "quasi-triangular", "consecutive non-zero subdiagonals at %d", i);
        MC_CHECK(r.P(i, i + 1) == cx(0) && r.P(i, i).re >= fabsl(r.P(i + 1, i + 1).re), "B-block", "B block at %d is [%Lg %Lg; 0 %Lg]", i, r.P(i, i).re, r.P(i, i + 1).re, r.P(i + 1, i + 1).re);
        MC_CHECK((aed || r.al[i].im != 0) && r.be[i].im == 0 && r.be[i + 1].im == 0, "eig-block", "2x2 block at %d with real eigenvalues", i);
        RM A2(2, 2), B2(2, 2);
        for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) A2(p, q) = r.S(i + p, i + q), B2(p, q) = r.P(i + p, i + q);
        checkCharpoly(A2, B2, r.al[i], r.be[i].re, r.al[i + 1], r.be[i + 1].re, 200 * EPS, "eig-block");
        i += 2;
    }
    auto all = [&](std::vector<cx> w, const RM& M) {
        for (int i = 0; i < n; ++i)
            if (i < ilo || i >= ihi) w[i] = M(i, i);
        return w;
    };
    spectrum(A0, B0, all(r.al, A0), all(r.be, B0), tol, "full Schur form");
    for (auto& x : r.al) mc::mixd((double)x.re);
    if (!full) return;
    for (int k = 0; k < 7; ++k) {
        bool ws = k & 1, wq = k & 2, wz = k & 4;
        if (full == 1 && k != 0 && k != 3) continue;
        Out q;
        info = runOne(A0, B0, ilo, ihi, o, ws, wq, wz, wq ? RM::eye(n) : RM(0, 0), wz ? RM::eye(n) : RM(0, 0), q);
        MC_CHECK(info == 0, "info", "returned %d (want_s=%d want_q=%d want_z=%d)", info, ws, wq, wz);
        spectrum(A0, B0, all(q.al, A0), all(q.be, B0), tol, ws ? "partial vectors" : "eigenvalues only");
        if (ws) {
            small(nrmF(r.Q * q.S * H(r.Z) - A0), tol * nA, "equivalence-A", "S without vectors");
            small(nrmF(r.Q * q.P * H(r.Z) - B0), tol * nB, "equivalence-B", "T without vectors");
        }
        if (wq) small(orthCols(q.Q), tol, "orthogonality", "Q (partial request)");
        if (wz) small(orthCols(q.Z), tol, "orthogonality", "Z (partial request)");
    }
    if (full < 2) return;
    Out q;
    RM Q0(n, n), Z0(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) Q0(i, j) = gen<T>(i, j, 71), Z0(i, j) = gen<T>(i, j, 72);
    info = runOne(A0, B0, ilo, ihi, o, true, true, true, Q0, Z0, q);
    MC_CHECK(info == 0, "info", "returned %d (generic basis)", info);
    small(nrmF(q.Q - Q0 * r.Q), tol * nrmF(Q0), "accumulate", "Q0*Q");
    small(nrmF(q.Z - Z0 * r.Z), tol * nrmF(Z0), "accumulate", "Z0*Z");
}
enum { BF = 12 };
static RM bmat(int fam, int n)
{
    RM B(n, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= j; ++i) {
            cx g = gen<T>(i, j, 91), v = g;
            cx d = g + cx(i == j ? (LD)(j % 2 ? -3 : 3) : 0.0L);
            switch (fam) {
                case 0: v = d; break;
                case 1: v = i == j ? 1 : 0; break;
                case 2: v = i == j && i == n / 2 ? cx(0) : d; break;
                case 3: v = i == j && i % 2 == 0 ? cx(0) : d; break;
                case 4: v = 0; break;
                case 5: v = i == j && i % 3 == 1 ? cx(EPS * 4) : d; break;
                case 6: v = d * cx(ldexpl(1, -4 * (i % 6))); break;
                case 7: v = i == j ? (CPLX ? cx(0, i % 2 ? 1 : -2) : cx(-1 - i)) : g; break;
                case 8: v = i == j ? cx(0) : g; break;
                case 9: v = g; break;
                case 10: v = d * cx(ldexpl(1, sizeof(R) == 4 ? 40 : 300)); break;
                default: v = d * cx(ldexpl(1, sizeof(R) == 4 ? -40 : -300)); break;
            }
            B(i, j) = up(mk<T>(v));
        }
    return B;
}
MC_HARNESS(lahqz_all)
{
    int n = mc::range("n", 0, mc::thorough() ? 4 : 4);
    int na = n <= 1 ? 8 : n == 2 ? (mc::thorough() ? 7 : 6) : n == 3 ? (mc::thorough() ? 4 : 3) : 2;
    int nb = n <= 1 ? 8 : n == 2 ? 6 : n == 3 ? 2 : 2;
    RM A(n, n), B(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            if (i == j + 1 && n == 4 && !mc::thorough()) A(i, j) = mc::choose("sub", 2) ? cx(-1) : cx(1);
            else if (n == 4 && i < j && !mc::thorough()) A(i, j) = gint<T>(i, j, 5);
            else if (n == 4 && j > i + 1) A(i, j) = gint<T>(i, j, 5);
            else if (i <= j + 1) A(i, j) = hv(mc::choose("a", na));
        }
    for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j) B(i, j) = n == 4 && i < j ? gint<T>(i, j, 6) : hv(mc::choose("b", nb));
    mc::body();
    checkQZ(A, B, 0, n, Opt{0, 15, 2, 2}, n <= 2 ? 1 : 0);
}
static cx gradedPick(int k, cx g)
{
    switch (k) {
        case 0: return cx(0);
        case 1: return g;
        case 2: return g * cx(ldexpl(1, sizeof(R) == 4 ? -11 : -25));
        case 3: return g * cx(ldexpl(1, sizeof(R) == 4 ? -23 : -52));
        default: return g * cx(ldexpl(1, sizeof(R) == 4 ? 12 : 27));
    }
}
// entries of very different size: 0, 1, sqrt(eps), eps, 1/sqrt(eps)
MC_HARNESS(lahqz_graded)
{
    int n = mc::range("n", 2, 3);
    int na = n == 2 ? (mc::thorough() ? 5 : 4) : mc::thorough() ? 4 : 3, nb = n == 2 ? 4 : mc::thorough() ? 4 : 3;
    RM A(n, n), B(n, n);
    auto g = [](int i, int j, int s) { cx x = gint<T>(i, j, s); return x == cx(0) ? cx(1) : x; };
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (i <= j + 1) A(i, j) = n == 3 && j > i ? g(i, j, 5) : gradedPick(mc::choose("a", na), g(i, j, 5));
    for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j) B(i, j) = n == 3 && j > i ? g(i, j, 6) : gradedPick(mc::choose("b", nb), g(i, j, 6));
    mc::body();
    checkQZ(A, B, 0, n, Opt{0, 15, 2, 2}, n == 2 ? 1 : 0);
}
/// every pattern of zeros on the diagonal of B and the subdiagonal of A
MC_HARNESS(zero_patterns)
{
    int n = mc::range("n", 1, mc::thorough() ? 6 : 5);
    int zb = mc::choose("zeroB", 1 << n), za = mc::choose("zeroA", 1 << std::max(0, n - 1));
    int f = mc::pick("fam", {0, 13, 24, 25});
    int tiny = mc::choose("tiny", 2);
    int g = mc::pick("bfam", {0, 1, 9});
    mc::body();
    RM A = hess(f, n), B = bmat(g, n);
    for (int i = 0; i < n; ++i) if (zb >> i & 1) B(i, i) = tiny ? cx((LD)(R)(EPS * EPS)) : cx(0);
    for (int i = 0; i + 1 < n; ++i) if (za >> i & 1) A(i + 1, i) = tiny ? cx((LD)(R)(EPS * EPS)) : cx(0);
    checkQZ(A, B, 0, n, Opt{0, 15, 2, 2}, n <= 4 ? 2 : 1);
}
MC_HARNESS(lahqz_families)
{
    int n = mc::pick("n", {2, 3, 4, 5, 6, 7, 9, 12, 16});
    int fam = mc::choose("fam", HF);
    int bf = mc::choose("bfam", BF);
    int k = mc::choose("range", 4);
    mc::body();
    if (overflowing(fam, bf)) throw mc::Prune{};
    if (!mc::thorough() && n >= 9 && (fam + bf + k) % 2) throw mc::Prune{};
    int ilo = (k & 1) ? std::min(2, n / 3) : 0, ihi = (k & 2) ? n - std::min(2, n / 3) : n;
    RM A = hess(fam, n), B = bmat(bf, n);
    isolate(A, ilo, ihi);
    checkQZ(A, B, ilo, ihi, Opt{0, 15, 2, 2}, n <= 9 ? 2 : 1);
}
MC_HARNESS(lahqz_ranges)
{
    int n = mc::range("n", 1, mc::thorough() ? 7 : 5);
    int ilo = mc::range("ilo", 0, n), ihi = mc::range("ihi", ilo, n);
    int fam = mc::pick("fam", {0, 7, 13, 16, 20, 22});
    int bf = mc::pick("bfam", {0, 2, 3, 7, 9});
    mc::body();
    RM A = hess(fam, n), B = bmat(bf, n);
    isolate(A, ilo, ihi);
    checkQZ(A, B, ilo, ihi, Opt{0, 15, 2, 2}, 2);
}
MC_HARNESS(multishift_families)
{
    int n = mc::pick("n", {15, 16, 17, 20, 24, 33});
    int fam = mc::choose("fam", HF);
    int bf = mc::choose("bfam", BF);
    int nmin = mc::pick("nmin", {15, 20});
    int ns = mc::pick("ns", {2, 4, 6});
    int nw = mc::pick("nw", {2, 3, 4, 7});
    int k = mc::choose("range", mc::thorough() ? 4 : 2);
    mc::body();
    if (overflowing(fam, bf)) throw mc::Prune{};
    if (!mc::thorough() && (fam + 5 * bf + 3 * (nmin == 20) + ns + 2 * nw + k) % 6) throw mc::Prune{};
    if (k == 1 && n > 17) k = 3;
    int ilo = (k & 1) ? 2 : 0, ihi = (k & 2) ? n - 3 : n;
    RM A = hess(fam, n), B = bmat(bf, n);
    isolate(A, ilo, ihi);
    checkQZ(A, B, ilo, ihi, Opt{1, nmin, ns, nw}, n <= 17 ? 1 : 0);
}
/// deflation windows that are themselves reduced by the multishift algorithm, long chains of bulges
MC_HARNESS(multishift_window)
{
    int n = mc::pick("n", {48, 51, 57});
    int fam = mc::choose("fam", HF);
    int bf = mc::choose("bfam", BF);
    int ns = mc::pick("ns", {4, 12, 16});
    int nw = mc::pick("nw", {15, 18});
    mc::body();
    if (overflowing(fam, bf)) throw mc::Prune{};
    if ((fam + 5 * bf + n + ns / 4 + nw) % (mc::thorough() ? 5 : 31)) throw mc::Prune{};
    checkQZ(hess(fam, n), bmat(bf, n), 0, n, Opt{1, 15, ns, nw}, 0);
}
MC_HARNESS(multishift_large)
{
    int n = mc::pick("n", {75, 80, 100});
    int fam = mc::choose("fam", HF);
    int bf = mc::choose("bfam", BF);
    mc::body();
    if (overflowing(fam, bf)) throw mc::Prune{};
    if ((fam + bf + n) % (mc::thorough() ? 3 : 24)) throw mc::Prune{};
    checkQZ(hess(fam, n), bmat(bf, n), 0, n, Opt{2, 75, 10, 10}, 0);
}
/// Hessenberg-triangular reduction of a full A and upper triangular B
MC_HARNESS(gghrd_all)
{
    int n = mc::range("n", 1, mc::thorough() ? 8 : 6);
    int ilo = mc::range("ilo", 0, n - 1), ihi = mc::range("ihi", ilo + 1, n);
    int fam = mc::choose("fam", FAM_COUNT);
    int bf = mc::choose("bfam", BF);
    int w = mc::choose("want", 4);
    mc::body();
    bool wq = w & 1, wz = w & 2;
    RM A0 = family<T>(fam, n, n, 80), B0 = bmat(bf, n);
    isolate(A0, ilo, ihi);
    Mat A(n, n), B(n, n), Q(n, n), Z(n, n);
    A.set(A0); B.set(B0);
    for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i) B(i, j) = mk<T>(cx(NAN));
    RM Q0 = RM::eye(n), Z0 = RM::eye(n);
    if (n % 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Q0(i, j) = gen<T>(i, j, 71), Z0(i, j) = gen<T>(i, j, 72);
    Q.set(Q0); Z.set(Z0);
    auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view();
    tl::gghrd(wq, wz, (size_t)ilo, (size_t)ihi, a, b, q, z);
    A.guards("A"); B.guards("B"); Q.guards("Q"); Z.guards("Z");
    if (!wq) Q.constant("Q");
    if (!wz) Z.constant("Z");
    RM S = A.get(), P = B.get();
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) {
            if (i > j + 1) MC_CHECK(S(i, j) == cx(0), "gghrd-hessenberg", "A(%d,%d)=(%Lg,%Lg)", i, j, S(i, j).re, S(i, j).im);
            MC_CHECK(P(i, j) == cx(0), "gghrd-triangular", "B(%d,%d)=(%Lg,%Lg)", i, j, P(i, j).re, P(i, j).im);
        }
    LD tol = 60 * (LD)(n + 2) * EPS;
    if (wq && wz && n % 2 == 0) {
        RM U = Q.get(), V = Z.get();
        small(orthCols(U), tol, "gghrd-orthogonality", "Q");
        small(orthCols(V), tol, "gghrd-orthogonality", "Z");
        small(nrmF(U * S * H(V) - A0), tol * nrmF(A0), "gghrd-A", "Q H Z^H - A");
        small(nrmF(U * P * H(V) - B0), tol * nrmF(B0), "gghrd-B", "Q T Z^H - B");
    }
    else if (n % 2) {
        // generic bases: compare with the transformations accumulated from the identity
        Mat A2(n, n), B2(n, n), Q2(n, n), Z2(n, n);
        A2.set(A0); B2.set(B0); Q2.set(RM::eye(n)); Z2.set(RM::eye(n));
        auto a2 = A2.view(), b2 = B2.view(), q2 = Q2.view(), z2 = Z2.view();
        tl::gghrd(true, true, (size_t)ilo, (size_t)ihi, a2, b2, q2, z2);
        RM U = Q2.get(), V = Z2.get();
        small(orthCols(U), tol, "gghrd-orthogonality", "Q");
        small(nrmF(U * S * H(V) - A0), tol * nrmF(A0), "gghrd-A", "Q H Z^H - A");
        small(nrmF(U * P * H(V) - B0), tol * nrmF(B0), "gghrd-B", "Q T Z^H - B");
        if (wq) small(nrmF(Q.get() - Q0 * U), tol * nrmF(Q0), "gghrd-accumulate", "Q0*Q");
        if (wz) small(nrmF(Z.get() - Z0 * V), tol * nrmF(Z0), "gghrd-accumulate", "Z0*Z");
    }
}
MC_MAIN
