// C25: copying, initialising, transposing, scaling and rotation sequences act as defined.
#include <tlapack/blas/scal.hpp>
#include "blasref.hpp"
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/larnv.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/transpose.hpp>

typedef GM<T, LAY == tl::Layout::ColMajor ? tl::Layout::RowMajor : tl::Layout::ColMajor> MatO;
static const LD RMAX = (LD)std::numeric_limits<R>::max();
static const LD SMIN = (LD)std::numeric_limits<R>::min();
static const LD DEN = (LD)std::numeric_limits<R>::denorm_min();

static bool exact(const T& got, cx want) { cx g = up(got); return g.re == want.re && g.im == want.im; }

enum { GE, UP, LO, UH, LH, SU, SL };
static tl::Uplo ul(int k)
{
    using tl::Uplo;
    static const Uplo u[] = {Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower};
    return u[k];
}
static bool in(int k, int i, int j)
{
    switch (k) {
        case GE: return true;
        case UP: return i <= j;
        case LO: return i >= j;
        case UH: return i <= j + 1;
        case LH: return j <= i + 1;
        case SU: return i < j;
        default: return i > j;
    }
}

/// every small shape, then long strips and large blocks: a step size of 2..128 anywhere in a loop has a tail here
static std::pair<int, int> shape(int lo = 0)
{
    if (!mc::flag("large")) { int hi = mc::thorough() ? 9 : 6; int m = mc::range("m", lo, hi); return {m, mc::range("n", lo, hi)}; }
    auto one = [](const char* k) { return mc::thorough() ? mc::pick<int>(k, {1, 2, 3, 8, 11, 16, 17, 31, 33, 48, 65, 67, 100, 129, 131, 258}) : mc::pick<int>(k, {1, 3, 8, 17, 33, 67, 131}); };
    int m = one("m"); return {m, one("n")};
}
template <class MB>
static void doLacpy(int u, int m, int n, int em, int en)
{
    Mat A(m, n);
    MB B(m + em, n + en);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (in(u, i, j)) A(i, j) = mk<T>(gen<T>(i, j, 1));  // the rest stays NaN
    A.snap();
    for (int i = 0; i < m + em; ++i)
        for (int j = 0; j < n + en; ++j) B(i, j) = mk<T>(gen<T>(i, j, 2));
    B.snap();
    auto a = A.view();
    auto b = B.view();
    mc::body();
    { tl::lacpy(ul(u), a, b); }
    A.constant("A");
    B.unchangedExcept([&](int i, int j) { return i < m && j < n && in(u, i, j); }, "footprint", "B");
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (in(u, i, j) && !bitEq(B(i, j), A(i, j))) mc::fail("lacpy", "B(%d,%d) is not A(%d,%d)", i, j, i, j);
}
MC_HARNESS(lacpy)
{
    int u = mc::choose("uplo", 3);
    auto [m, n] = shape();
    int em = mc::range("em", 0, m + n > 18 ? 1 : 2), en = mc::range("en", 0, m + n > 18 ? 1 : 2);
    if (mc::flag("other")) doLacpy<MatO>(u, m, n, em, en);
    else doLacpy<Mat>(u, m, n, em, en);
}
/// all shapes near the diagonal, square up to two rows or columns more
static std::pair<int, int> nearSquare()
{
    int m = mc::thorough() ? mc::range("m", 7, 140) : mc::pick("m", {7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 34, 35, 36, 40, 47, 48, 49, 63, 64, 65, 66, 80, 96, 97, 128, 129});
    return {m, m + mc::range("d", -2, 2)};
}
MC_HARNESS(lacpy_square)
{
    int u = mc::choose("uplo", 3);
    auto [m, n] = nearSquare();
    if (mc::flag("other")) doLacpy<MatO>(u, m, n, 1, 0);
    else doLacpy<Mat>(u, m, n, 0, 1);
}
static void doLaset(int u, int m, int n, cx al, cx be);
MC_HARNESS(laset_square)
{
    int u = mc::choose("uplo", 3);
    auto [m, n] = nearSquare();
    doLaset(u, m, n, cx(2), cx(-3));
}
MC_HARNESS(laset)
{
    int u = mc::choose("uplo", 3);
    auto [m, n] = shape();
    cx al = pickScalar<T>("alpha", 4), be = pickScalar<T>("beta", 4);
    doLaset(u, m, n, al, be);
}
static void doLaset(int u, int m, int n, cx al, cx be)
{
    Mat A(m, n);
    auto a = A.view();
    mc::body();
    { tl::laset(ul(u), mk<T>(al), mk<T>(be), a); }
    A.unchangedExcept([&](int i, int j) { return in(u, i, j); }, "footprint", "A");
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (in(u, i, j) && !exact(A(i, j), i == j ? be : al)) mc::fail("laset", "A(%d,%d)", i, j);
}
template <class MB>
static void doTranspose(bool cj_, int m, int n, int nx)
{
    Mat A(m, n);
    MB B(n, m);
    A.fill([&](int i, int j) { return gen<T>(i, j, 3); });
    auto a = A.view();
    auto b = B.view();
    mc::body();
    {
        if (nx == 0) {
            if (cj_) tl::conjtranspose(a, b);
            else tl::transpose(a, b);
        }
        else {
            tl::TransposeOpts o;
            o.nx = nx;
            if (cj_) tl::conjtranspose(a, b, o);
            else tl::transpose(a, b, o);
        }
    }
    A.constant("A");
    B.guards("B");
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            cx w = up(A(i, j));
            if (!exact(B(j, i), cj_ ? cj(w) : w)) mc::fail("transpose", "B(%d,%d)", j, i);
        }
}
MC_HARNESS(transpose)
{
    bool c = mc::flag("conj");
    int m = mc::range("m", 0, mc::thorough() ? 12 : 9), n = mc::range("n", 0, mc::thorough() ? 12 : 9), nx = mc::range("nx", 1, 6);
    if (nx == 1) nx = 0;
    if (mc::flag("other")) doTranspose<MatO>(c, m, n, nx);
    else doTranspose<Mat>(c, m, n, nx);
}
MC_HARNESS(transpose_default)
{
    bool c = mc::flag("conj");
    int m = mc::pick("m", {1, 2, 15, 16, 17, 18, 19, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 70, 128, 131}), n = mc::pick("n", {1, 2, 15, 16, 17, 18, 19, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 70, 128, 131});
    if (mc::flag("other")) doTranspose<MatO>(c, m, n, 0);
    else doTranspose<Mat>(c, m, n, 0);
}
MC_HARNESS(conjugate)
{
    int n = mc::range("n", 0, mc::thorough() ? 300 : 70), inc = mc::range("inc", 1, 3);
    bool back = mc::flag("back");
    Vec x(n, inc, back);
    x.fill([&](int i) { return gen<T>(i, 0, 4); });
    RM w = x.get();
    mc::body();
    {
        if (back) { auto v = x.bview(); tl::conjugate(v); }
        else { auto v = x.fview(); tl::conjugate(v); }
    }
    x.guards("x");
    for (int i = 0; i < n; ++i)
        if (!exact(x[i], cj(w.a[i]))) mc::fail("conjugate", "x[%d]", i);
}

// ---- random initialisation ---------------------------------------------------------------------------
template <int idist>
static void drawN(long seed0, Vec& x, bool back)
{
    long seed = seed0;
    mc::body();
    if (back) { auto v = x.bview(); tl::larnv<idist>(seed, v); }
    else { auto v = x.fview(); tl::larnv<idist>(seed, v); }
    x.guards("x");
    if (seed != seed0 + 1) mc::fail("larnv-seed", "seed %ld became %ld", seed0, seed);
}
/// support of the documented distribution for every seed, length, stride and direction, and its first two moments on a long vector
MC_HARNESS(larnv)
{
    int dist = mc::range("dist", 1, CPLX ? 5 : 3);
    int big = mc::flag("big");
    int n = big ? 4096 : mc::pick<int>("n", {0, 1, 2, 3, 7, 33}), inc = big ? 1 : mc::range("inc", 1, 2);
    bool back = big ? false : mc::flag("back");
    long seed = mc::choose("seed", big ? 16 : mc::thorough() ? 2000 : 200);
    Vec x(n, inc, back);
    if (dist == 1) drawN<1>(seed, x, back);
    if (dist == 2) drawN<2>(seed, x, back);
    if (dist == 3) drawN<3>(seed, x, back);
    if constexpr (CPLX) {
        if (dist == 4) drawN<4>(seed, x, back);
        if (dist == 5) drawN<5>(seed, x, back);
    }
    LD s1 = 0, s2 = 0;
    cx mean(0);
    for (int i = 0; i < n; ++i) {
        cx v = up(x[i]);
        LD r = ab(v);
        bool ok = dist == 1 ? v.re >= 0 && v.re <= 1 && v.im >= 0 && v.im <= 1
                : dist == 2 ? fabsl(v.re) <= 1 && fabsl(v.im) <= 1
                : dist == 3 ? r < 12
                : dist == 4 ? r <= 1 + 4 * EPS
                            : fabsl(r - 1) <= 4 * EPS;
        mc::E().checks++;
        if (!ok) mc::fail("larnv-support", "dist %d seed %ld: x[%d] = (%Lg,%Lg)", dist, seed, i, v.re, v.im);
        if (!CPLX && v.im != 0) mc::fail("larnv-support", "imaginary part");
        mean = mean + v;
        s1 += v.re * v.re, s2 += v.im * v.im;
    }
    if (big) {
        // six standard deviations of the sample moments
        LD mu = dist == 1 ? 0.5L : 0, v2 = dist == 1 || dist == 2 ? 1.0L / 3 : dist == 3 ? 1 : dist == 4 ? 0.25L : 0.5L, t = 6 / sqrtl((LD)n), k = dist == 3 ? 1.5L : 1;
        mc::E().checks++;
        if (fabsl(mean.re / n - mu) > t * k || (CPLX && fabsl(mean.im / n - mu) > t * k)) mc::fail("larnv-mean", "dist %d seed %ld: mean (%Lg,%Lg)", dist, seed, mean.re / n, mean.im / n);
        if (fabsl(s1 / n - v2) > t * k || (CPLX && fabsl(s2 / n - v2) > t * k)) mc::fail("larnv-moment", "dist %d seed %ld: second moments (%Lg,%Lg)", dist, seed, s1 / n, s2 / n);
    }
}

// ---- scaling by a ratio ----------------------------------------------------------------------------
static int ratioCount() { return 13; }
static LD ratioVal(int k)
{
    const LD sm = (LD)tl::safe_min<R>(), bg = (LD)tl::safe_max<R>();
    const LD v[] = {1, 3, -0.7L, sm, bg, sm / 8, RMAX, DEN * 5, -bg * 1.5L > -RMAX ? -bg * 1.5L : -RMAX, sqrtl(sm) * 1.3L, -sqrtl(bg) * 1.1L, 1 + EPS, sm * 3};
    return (LD)(R)v[k];
}
/// x*a/b within a few roundings, unless the result overflows; underflow may lose DEN-sized parts
static void cmpRatio(cx got, cx x, LD a, LD b, const char* what, int i, int j)
{
    for (int p = 0; p < 2; ++p) {
        LD g = p ? got.im : got.re, v = p ? x.im : x.re;
        LD w = v * (a / b);  // long double: exponent range is wide enough for float and double ratios
        LD tol = 8 * EPS * fabsl(w) + 4 * DEN;
        mc::E().checks++;
        if (fabsl(w) + tol > RMAX) {
            // result out of range: infinity of the right sign, or a value at the threshold
            if (!(std::isinf((double)(R)g) && ((g > 0) == (w > 0))) && !(fabsl(g - w) <= tol)) mc::fail(what, "(%d,%d): got %Lg expected overflow %Lg (a=%Lg b=%Lg x=%Lg)", i, j, g, w, a, b, v);
        }
        else if (!(fabsl(g - w) <= tol)) mc::fail(what, "(%d,%d): got %Lg expected %Lg (x=%Lg a=%Lg b=%Lg)", i, j, g, w, v, a, b);
    }
}
static LD entry(int k)
{
    const LD v[] = {1, -0.3L, SMIN * 4, RMAX / 8, sqrtl(SMIN) * 3, 0, DEN * 3, -sqrtl(RMAX) / 5};
    return (LD)(R)v[k % 8];
}
MC_HARNESS(lascl_regions)
{
    int u = mc::choose("uplo", 7);
    auto [m, n] = shape();
    int r = mc::choose("ratio", 4);
    static const LD as[] = {3, 1, -5, 0}, bs[] = {7, -2, 0.25L, 3};
    LD a = as[r], b = bs[r];
    Mat A(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) A(i, j) = mk<T>(gen<T>(i, j, 5));
    A.snap();
    RM S = A.get();
    auto v = A.view();
    int rc = -1;
    mc::body();
    { rc = tl::lascl(ul(u), (R)b, (R)a, v); }
    if (rc != 0) mc::fail("rc", "lascl returned %d", rc);
    A.unchangedExcept([&](int i, int j) { return in(u, i, j); }, "footprint", "A");
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (in(u, i, j)) cmpRatio(up(A(i, j)), S(i, j), a, b, "lascl", i, j);
}
MC_HARNESS(lascl_band)
{
    bool large = mc::flag("large");
    int m, n, kl, ku;
    if (large) {
        m = mc::pick<int>("m", {9, 17, 34, 70}), n = mc::pick<int>("n", {9, 17, 34, 70});
        kl = mc::pick<int>("kl", {0, 1, 4, 9, 20, 70}), ku = mc::pick<int>("ku", {0, 1, 4, 9, 20, 70});
        if (kl >= m || ku >= n) return;
    }
    else m = mc::range("m", 1, mc::thorough() ? 7 : 5), n = mc::range("n", 1, mc::thorough() ? 7 : 5), kl = mc::range("kl", 0, m - 1), ku = mc::range("ku", 0, n - 1);
    int r = mc::choose("ratio", 3);
    const LD as[] = {3, RMAX / 2, (LD)tl::safe_min<R>()}, bs[] = {7, (LD)tl::safe_min<R>(), RMAX / 4};
    LD a = (LD)(R)as[r], b = (LD)(R)bs[r];
    if (r) {
        int sg = mc::choose("signs", 4);
        if (sg & 1) a = -a;
        if (sg & 2) b = -b;
    }
    Mat A(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) A(i, j) = mk<T>(r == 1 ? cx(DEN * (3 + i + 2 * j)) : r == 2 ? cx(RMAX / (3 + i + 2 * j)) : gen<T>(i, j, 5));
    A.snap();
    RM S = A.get();
    auto v = A.view();
    int rc = -1;
    mc::body();
    { rc = tl::lascl(tl::BandAccess(kl, ku), (R)b, (R)a, v); }
    if (rc != 0) mc::fail("rc", "lascl returned %d", rc);
    auto w = [&](int i, int j) { return i - j <= kl && j - i <= ku; };
    A.unchangedExcept(w, "footprint", "A");
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (w(i, j)) cmpRatio(up(A(i, j)), S(i, j), a, b, "lascl-band", i, j);
}
MC_HARNESS(lascl_ratio)
{
    int u = mc::choose("uplo", 7), ka = mc::choose("a", ratioCount() + 1), kb = mc::choose("b", ratioCount());
    LD a = ka == ratioCount() ? 0 : ratioVal(ka), b = ratioVal(kb);
    Mat A(3, 3);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) A(i, j) = mk<T>(cx(entry(i * 3 + j), CPLX ? entry(i * 3 + j + 3) : 0));
    A.snap();
    RM S = A.get();
    auto v = A.view();
    mc::body();
    { tl::lascl(ul(u), (R)b, (R)a, v); }
    A.unchangedExcept([&](int i, int j) { return in(u, i, j); }, "footprint", "A");
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if (in(u, i, j)) cmpRatio(up(A(i, j)), S(i, j), a, b, "lascl-ratio", i, j);
}
MC_HARNESS(rscl_real)
{
    int n = mc::pick<int>("n", {0, 1, 2, 3, 4, 5, 6, 7, 8, 19, 35, 67}), inc = mc::range("inc", 1, 2), ka = mc::choose("a", ratioCount());
    bool back = mc::flag("back");
    LD a = ratioVal(ka);
    Vec x(n, inc, back);
    x.fill([&](int i) { return cx(entry(i), CPLX ? entry(i + 5) : 0); });
    RM w = x.get();
    mc::body();
    {
        if (back) { auto v = x.bview(); tl::rscl((R)a, v); }
        else { auto v = x.fview(); tl::rscl((R)a, v); }
    }
    x.guards("x");
    for (int i = 0; i < n; ++i) cmpRatio(up(x[i]), w.a[i], 1, a, "rscl", i, 0);
}
#ifndef MC_REAL
MC_HARNESS(rscl_complex)
{
    int kr = mc::choose("re", ratioCount() + 1), ki = mc::choose("im", ratioCount() + 1);
    LD ar = kr == ratioCount() ? 0 : ratioVal(kr), ai = ki == ratioCount() ? 0 : ratioVal(ki);
    if (ar == 0 && ai == 0) throw mc::Prune{};
    int xr = mc::choose("xr", 8), xi = mc::choose("xi", 8);
    cx x(entry(xr), entry(xi));
    Vec v(1, 1);
    v.fill([&](int) { return x; });
    x = up(v[0]);
    T al(ar, ai);
    mc::body();
    { auto f = v.fview(); tl::rscl(al, f); }
    v.guards("x");
    cx g = up(v[0]), w = x / cx(ar, ai);
    LD s = std::max(fabsl(w.re), fabsl(w.im)), tol = 16 * EPS * s + 8 * DEN + 4 * DEN / ab(cx(ar, ai));  // DEN: subnormal entries carry few digits
    mc::E().checks++;
    if (s * 4 > RMAX) return;  // component at the overflow threshold: nothing promised
    LD d = std::max(fabsl(g.re - w.re), fabsl(g.im - w.im));
    if (!(d <= tol)) mc::fail("rscl-complex", "(%Lg,%Lg)/(%Lg,%Lg): got (%Lg,%Lg) expected (%Lg,%Lg)", x.re, x.im, ar, ai, g.re, g.im, w.re, w.im);
}
#endif

// ---- rotation sequences ----------------------------------------------------------------------------
static void rots(RM& c, RM& s, int k, int l, int kind, int salt)
{
    c = RM(k, l);
    s = RM(k, l);
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < l; ++j) {
            cx z = gen<T>(i, j, salt);
            LD t = 3.1L * gen1(i, j, salt + 50);
            int kd = kind == 3 ? (int)(hash3(i, j, salt) % 3) : kind;
            cx C = cosl(t), S = (sinl(t) / ab(z)) * z;
            if (kd == 1) { C = 1; S = 0; }
            if (kd == 2) { C = 0; S = z / cx(ab(z)); }
            c(i, j) = up((R)C.re);
            s(i, j) = up(mk<T>(S));
        }
}
static void refRot(RM& A, bool left, int i, cx c, cx s)
{
    for (int q = 0; q < (left ? A.n : A.m); ++q) {
        cx& a = left ? A(i, q) : A(q, i);
        cx& b = left ? A(i + 1, q) : A(q, i + 1);
        cx ss = left ? s : cj(s);
        cx t = c * a + ss * b;
        b = c * b - cj(ss) * a;
        a = t;
    }
}
static void rotCase(bool three, bool left, bool fwd, int m, int n, int l, int kind)
{
    int k = left ? m - 1 : n - 1;
    RM c, s;
    rots(c, s, k, l, kind, 7);
    Mat A(m, n);
    A.fill([&](int i, int j) { return gen<T>(i, j, 6); });
    RM W = A.get();
    for (int j = 0; j < l; ++j)
        for (int p = 0; p < k; ++p) {
            int i = fwd ? k - 1 - p : p;
            refRot(W, left, i, c(i, j), s(i, j));
        }
    auto a = A.view();
    tl::Side sd = left ? tl::Side::Left : tl::Side::Right;
    tl::Direction dr = fwd ? tl::Direction::Forward : tl::Direction::Backward;
    if (three) {
        MatR Cm(k, l);
        Mat Sm(k, l);
        Cm.set(c);
        Sm.set(s);
        auto cv = Cm.view();
        auto sv = Sm.view();
        mc::body();
    { tl::rot_sequence3(sd, dr, cv, sv, a); }
        Cm.constant("C");
        Sm.constant("S");
    }
    else {
        VecR cv(k, 1);
        Vec sv(k, 2);
        cv.set(c);
        sv.set(s);
        auto c1 = cv.fview();
        auto s1 = sv.fview();
        mc::body();
    { tl::rot_sequence(sd, dr, c1, s1, a); }
        cv.constant("c");
        sv.constant("s");
    }
    A.guards("A");
    LD tol = 8 * EPS * (k * l + 2) * sqrtl((LD)std::max(k + 1, 1));
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) cmpElt(up(A(i, j)), W(i, j), tol, "rotseq", three ? "rot_sequence3" : "rot_sequence", i, j);
    mixRM(A.get());
}
MC_HARNESS(rot_sequence)
{
    bool left = mc::flag("left"), fwd = mc::flag("fwd");
    int q = mc::range("len", 1, mc::thorough() ? 16 : 11), o = mc::range("other", 0, 5), kind = mc::choose("kind", 4);
    rotCase(false, left, fwd, left ? q : o, left ? o : q, 1, kind);
}
MC_HARNESS(rot_sequence3)
{
    bool left = mc::flag("left"), fwd = mc::flag("fwd");
    int q = mc::range("len", 1, mc::thorough() ? 14 : 10), o = mc::range("other", 0, 3), l = mc::range("l", 0, mc::thorough() ? 12 : 8), kind = mc::choose("kind", 4);
    rotCase(true, left, fwd, left ? q : o, left ? o : q, l, kind);
}
MC_HARNESS(rot_sequence3_block)
{
    // the other dimension crosses the fixed block size 256
    bool left = mc::flag("left"), fwd = mc::flag("fwd");
    int q = mc::pick("len", {2, 3, 4, 5, 6, 7, 8}), o = mc::pick("other", {255, 256, 257, 258, 511, 512, 513, 600}), l = mc::range("l", 1, 5);
    rotCase(true, left, fwd, left ? q : o, left ? o : q, l, 0);
}
MC_HARNESS(rot_sequence3_long)
{
    bool left = mc::flag("left"), fwd = mc::flag("fwd");
    int q = mc::pick("len", {20, 33, 40}), o = mc::pick("other", {1, 5}), l = mc::range("l", 1, mc::thorough() ? 40 : 20);
    rotCase(true, left, fwd, left ? q : o, left ? o : q, l, 3);
}
MC_MAIN
