// C13: symmetric tridiagonal eigensolver (steqr), 2x2 kernels, sorting, merging.
#include "refl.hpp"
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/lamrg.hpp>
#include <tlapack/lapack/lasrt.hpp>
#include <algorithm>

static RM tri(const RM& d, const RM& e)
{
    int n = d.m;
    RM A(n, n);
    for (int i = 0; i < n; ++i) {
        A(i, i) = d.a[i];
        if (i + 1 < n) A(i + 1, i) = A(i, i + 1) = e.a[i];
    }
    return A;
}
static void checkSteqr(const RM& d0, const RM& e0, int full)
{
    int n = d0.m;
    LD sc = 0, tol = 40 * (LD)(n + 2) * EPS;
    for (auto& x : d0.a) sc = std::max(sc, ab(x));
    for (auto& x : e0.a) sc = std::max(sc, ab(x));
    auto run = [&](bool wz, const RM& Z0, RM& w, RM& Z1) {
        VecR d(n, 2), e(n ? n - 1 : 0, 1);
        d.set(d0);
        e.set(e0);
        Mat Z(Z0.m, Z0.n);
        Z.set(Z0);
        auto dv = d.fview(), ev = e.fview();
        auto z = Z.view();
        int info = tl::steqr(wz, dv, ev, z);
        MC_CHECK(info == 0, "info", "steqr returned %d", info);
        d.guards("d"); e.guards("e"); Z.guards("Z");
        if (!wz) Z.constant("Z");
        w = d.get(); Z1 = Z.get();
        for (int i = 0; i < n; ++i) {
            MC_CHECK(std::isfinite(w.a[i].re), "finite", "eigenvalue %d is %Lg", i, w.a[i].re);
            if (i) MC_CHECK(w.a[i - 1].re <= w.a[i].re, "sorted", "eigenvalue %d (%Lg) exceeds eigenvalue %d (%Lg)", i - 1, w.a[i - 1].re, i, w.a[i].re);
        }
    };
    RM w, Z;
    run(true, RM::eye(n), w, Z);
    RM A = tri(d0, e0), D(n, n);
    for (int i = 0; i < n; ++i) D(i, i) = w.a[i];
    small(orthCols(Z), tol, "orthogonality", "Z");
    small(nrmF(Z * D * H(Z) - A), tol * sc, "reconstruction", "Z D Z^H - A");
    mixRM(w);
    if (!full) return;
    RM w2, Z2;
    run(false, RM(0, 0), w2, Z2);
    for (int i = 0; i < n; ++i) cmpElt(w2.a[i], w.a[i], tol * sc, "vectors-agree", "w", i, 0);
    if (full < 2) return;
    RM Z0(n + 1, n);
    for (int i = 0; i <= n; ++i)
        for (int j = 0; j < n; ++j) Z0(i, j) = gen<T>(i, j, 51);
    run(true, Z0, w2, Z2);
    for (int i = 0; i < n; ++i) MC_CHECK(w2.a[i] == w.a[i], "basis-independent", "eigenvalue %d depends on the basis", i);
    small(nrmF(Z2 - Z0 * Z), tol * nrmF(Z0), "accumulate", "Z0*Q");
}
static LD ev(int k)
{
    switch (k) {
        case 0: return 0;
        case 1: return 1;
        case 2: return -1;
        case 3: return 2;
        case 4: return (LD)(R)(EPS * 2);
        case 5: return (LD)(R)sqrtl(EPS);
        case 6: return -0.5L;
        default: return (LD)(R)(EPS * EPS);
    }
}
MC_HARNESS(tridiagonal_all)
{
    int n = mc::range("n", 0, mc::thorough() ? 6 : 5);
    static const int aq[] = {1, 8, 8, 6, 4, 3, 2}, at[] = {1, 8, 8, 8, 6, 4, 3};
    int na = mc::thorough() ? at[n] : aq[n];
    if (!mc::thorough() && CPLX && n == 5) na = 2;
    RM d(n, 1), e(n ? n - 1 : 0, 1);
    for (int i = 0; i < n; ++i) {
        d.a[i] = ev(mc::choose("d", na));
        if (i + 1 < n) e.a[i] = ev(mc::choose("e", na));
    }
    mc::body();
    checkSteqr(d, e, n <= 3 ? 2 : 1);
}
MC_HARNESS(tridiagonal_families)
{
    int n = mc::pick("n", {1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 33});
    int fam = mc::choose("fam", 14);
    int scl = mc::choose("scale", 3);
    bool rev = mc::flag("reverse");
    mc::body();
    LD mx = (LD)std::numeric_limits<R>::max(), mn = (LD)std::numeric_limits<R>::min();
    LD f = scl == 0 ? 1 : scl == 1 ? sqrtl(mx) / (16 * n) : sqrtl(mn) / EPS * 64 * n;
    RM d(n, 1), e(n - 1, 1);
    for (int i = 0; i < n; ++i) {
        LD dd, ee;
        switch (fam) {
            case 0: dd = gen1(i, 0, 61), ee = gen1(i, 1, 61); break;
            case 1: dd = 1, ee = 1; break;
            case 2: dd = 2, ee = -1; break;
            case 3: dd = 1, ee = EPS * 8; break;
            case 4: dd = powl(2, -3 * (i % 12)), ee = powl(2, -3 * (i % 12) - 1); break;
            case 5: dd = powl(2, -3 * ((n - 1 - i) % 12)), ee = powl(2, -3 * ((n - 1 - i) % 12)); break;
            case 6: dd = 0, ee = 1; break;
            case 7: dd = fabsl((LD)i - n / 2), ee = 1; break;  // Wilkinson
            case 8: dd = 0, ee = 1 + (i % 3); break;
            case 9: dd = (i & 1) ? -1 : 1, ee = (i % 3 == 0) ? 0 : gen1(i, 4, 61); break;
            case 10: dd = (i & 1) ? EPS : 1, ee = 1; break;
            case 11: dd = 1 + (i % 2), ee = (i & 1) ? EPS * EPS : 1; break;
            case 12: dd = n - i, ee = EPS; break;
            default: dd = 1 - EPS * (i % 3), ee = EPS * gen1(i, 5, 61); break;
        }
        int p = rev ? n - 1 - i : i;
        d.a[p] = (LD)(R)(dd * f);
        if (i + 1 < n) e.a[rev ? n - 2 - i : i] = (LD)(R)(ee * f);
    }
    checkSteqr(d, e, n <= 12 ? 2 : 1);
}
// every order: a step size, an iteration count or a threshold anywhere has its boundary here
MC_HARNESS(tridiagonal_sweep)
{
    int n = mc::range("n", 7, mc::thorough() ? 90 : 64);
    int fam = mc::choose("fam", 3);
    mc::body();
    RM d(n, 1), e(n - 1, 1);
    for (int i = 0; i < n; ++i) {
        d.a[i] = (LD)(R)(fam == 0 ? gen1(i, 0, 67) : fam == 1 ? (LD)2 : fabsl((LD)i - n / 2));
        if (i + 1 < n) e.a[i] = (LD)(R)(fam == 0 ? gen1(i, 1, 67) : fam == 1 ? (LD)-1 : (LD)1);
    }
    checkSteqr(d, e, n <= 24 ? 2 : 1);
}
#ifdef MC_REAL
// ---- 2x2 symmetric kernels over a sign/exponent lattice ------------------------------------------
static LD lat(const char* nm)
{
    int mn = std::numeric_limits<R>::min_exponent, mx = std::numeric_limits<R>::max_exponent;
    int md = std::numeric_limits<R>::digits;
    std::vector<LD> v{0, 1, 1.5L, ldexpl(1, md / 2), ldexpl(1, -md / 2), 1 + EPS, ldexpl(1, md + 1), ldexpl(1, -md - 1), ldexpl(1.25L, mx - 4), ldexpl(1.75L, mn + md + 4)};
    if (mc::thorough()) for (LD x : {2.0L, 3.0L, ldexpl(1, md), ldexpl(1.25L, mx / 2 + 2), ldexpl(1.25L, mn / 2 - 2), ldexpl(1.0L, mx - 6)}) v.push_back(x);
    LD x = v[mc::choose(nm, (int)v.size())];
    return x == 0 ? x : mc::flag("neg") ? -x : x;
}
MC_HARNESS(lae2_laev2_lattice)
{
    LD a = lat("a"), b = lat("b"), c = lat("c");
    mc::body();
    R s1, s2, t1, t2, cs, sn;
    tl::lae2((R)a, (R)b, (R)c, s1, s2);
    tl::laev2((R)a, (R)b, (R)c, t1, t2, cs, sn);
    // exact eigenvalues in 80-bit arithmetic, scaled
    LD sc = std::max({fabsl(a), fabsl(b), fabsl(c)});
    if (sc == 0) sc = 1;
    LD A = a / sc, B = b / sc, C = c / sc;
    LD h = hypotl((A - C) / 2, B), m = (A + C) / 2, e1 = m >= 0 ? m + h : m - h, e2 = m >= 0 ? m - h : m + h;
    LD tol = 10 * EPS;
    cmpElt(cx((LD)s1 / sc), cx(e1), tol * std::max(fabsl(e1), fabsl(e2)), "lae2", "rt1", 0, 0);
    cmpElt(cx((LD)s2 / sc), cx(e2), tol * fabsl(e1), "lae2", "rt2", 0, 0);
    MC_CHECK(fabsl(s1) >= fabsl(s2) * (1 - 8 * EPS), "lae2-order", "|%Lg| < |%Lg|", (LD)s1, (LD)s2);
    MC_CHECK(s1 == t1 && s2 == t2, "agree", "lae2 and laev2 differ");
    cmpElt(cx((LD)cs * cs + (LD)sn * sn), cx(1), tol, "laev2-unit", "cs^2+sn^2", 0, 0);
    // [cs sn; -sn cs] [A B; B C] [cs -sn; sn cs] = diag
    LD p = A * cs + B * sn, q = B * cs + C * sn;
    cmpElt(cx(p), cx(e1 * cs), tol * fabsl(e1) + 0, "laev2-vector", "A v - s1 v", 0, 0);
    cmpElt(cx(q), cx(e1 * sn), tol * fabsl(e1) + 0, "laev2-vector", "A v - s1 v", 1, 0);
    mc::mixd(s1); mc::mixd(sn);
}
// ---- sorting ---------------------------------------------------------------------------------------
static void checkSort(const std::vector<R>& v, char id)
{
    int n = v.size();
    VecR d(n, 1);
    for (int i = 0; i < n; ++i) d[i] = v[i];
    d.snap();
    auto dv = d.fview();
    int info = tl::lasrt(id, (size_t)n, dv);
    MC_CHECK(info == 0, "info", "lasrt returned %d", info);
    d.guards("d");
    std::vector<R> w = v;
    std::sort(w.begin(), w.end());
    if (id == 'D' || id == 'd') std::reverse(w.begin(), w.end());
    for (int i = 0; i < n; ++i) MC_CHECK(d[i] == w[i], "sorted", "lasrt: position %d holds %Lg, expected %Lg", i, (LD)d[i], (LD)w[i]);
    mc::mix(n);
}
MC_HARNESS(lasrt_small)
{
    int n = mc::range("n", 0, mc::thorough() ? 8 : 6);
    char id = "IDid"[mc::choose("id", 4)];
    int na = n <= 5 ? 4 : 3;
    std::vector<R> v(n);
    for (auto& x : v) x = mc::choose("v", na) - 1;
    mc::body();
    checkSort(v, id);
}
MC_HARNESS(lasrt_long)
{
    // every run structure x lengths around and beyond the insertion-sort cut-off
    int n = mc::range("n", 19, mc::thorough() ? 70 : 46);
    char id = "ID"[mc::choose("id", 2)];
    int p = mc::choose("pattern", 12);
    int k = mc::range("pos", 0, n - 1);
    mc::body();
    std::vector<R> v(n);
    for (int i = 0; i < n; ++i) {
        R x;
        switch (p) {
            case 0: x = i; break;
            case 1: x = -i; break;
            case 2: x = 0; break;
            case 3: x = i == k; break;
            case 4: x = -(i == k); break;
            case 5: x = (i < k); break;
            case 6: x = (i >= k); break;
            case 7: x = (i + k) % n; break;
            case 8: x = (i * 7 + k) % 5; break;
            case 9: x = std::abs(i - k); break;
            case 10: x = -std::abs(i - k); break;
            default: x = (R)gen1(i, k, 3); break;
        }
        v[i] = x;
    }
    checkSort(v, id);
}
MC_HARNESS(lasrt_blocks)
{
    // all binary patterns of 7 blocks (two values plus a distinct pivot), length > 20
    int b = mc::range("bits", 0, 2186);
    int w = mc::pick("w", {3, 4, 5});
    char id = "ID"[mc::choose("id", 2)];
    mc::body();
    std::vector<R> v;
    for (int i = 0; i < 7; ++i, b /= 3)
        for (int j = 0; j < w; ++j) v.push_back(b % 3);
    checkSort(v, id);
}
MC_HARNESS(lasrt_badid)
{
    int id = mc::range("id", 1, 127);
    mc::body();
    if (strchr("iIdD", id)) return;
    std::vector<R> v{3, 1, 2}, w = v;
    int info = tl::lasrt((char)id, (size_t)3, v);
    MC_CHECK(info < 0 && v == w, "badid", "invalid id returned %d", info);
}
// ---- merge permutation -------------------------------------------------------------------------------
static std::vector<R> sortedList(const char* nm, int n, int na)
{
    std::vector<R> v(n);
    int lo = 0;
    for (int i = 0; i < n; ++i) {
        lo = lo + mc::choose(nm, na - lo);
        v[i] = lo;
    }
    return v;
}
MC_HARNESS(lamrg_all)
{
    int N = mc::thorough() ? 6 : 4, na = mc::thorough() ? 5 : 4;
    int n1 = mc::range("n1", 0, N), n2 = mc::range("n2", 0, N);
    auto a1 = sortedList("a", n1, na), a2 = sortedList("b", n2, na);
    int s1 = mc::flag("d1") ? -1 : 1, s2 = mc::flag("d2") ? -1 : 1;
    mc::body();
    if (s1 < 0) std::reverse(a1.begin(), a1.end());
    if (s2 < 0) std::reverse(a2.begin(), a2.end());
    std::vector<R> a = a1;
    a.insert(a.end(), a2.begin(), a2.end());
    std::vector<R> keep = a;
    std::vector<size_t> idx(n1 + n2 + 2, 777);
    tl::lamrg((size_t)n1, (size_t)n2, a, s1, s2, idx);
    MC_CHECK(a == keep, "input-modified", "lamrg changed its input");
    std::vector<char> seen(n1 + n2, 0);
    for (int i = 0; i < n1 + n2; ++i) {
        MC_CHECK(idx[i] < (size_t)(n1 + n2) && !seen[idx[i]], "permutation", "entry %d = %zu is not a permutation entry", i, idx[i]);
        seen[idx[i]] = 1;
        if (i) MC_CHECK(a[idx[i - 1]] <= a[idx[i]], "sorted", "merged list decreases at %d", i);
    }
    MC_CHECK(idx[n1 + n2] == 777, "guard", "lamrg wrote past its output");
    mc::mix(n1);
}
#endif
MC_MAIN
