// C18: matrix and vector norms equal their definition for every structure.
#include "blasref.hpp"
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/asum.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>

static const LD RMAX = (LD)std::numeric_limits<R>::max();
static const LD DEN = (LD)std::numeric_limits<R>::denorm_min();
static const LD SMIN = (LD)std::numeric_limits<R>::min();

enum { MAXN, ONE, INF, FRO };
static tl::Norm nt(int k) { return k == MAXN ? tl::Norm::Max : k == ONE ? tl::Norm::One : k == INF ? tl::Norm::Inf : tl::Norm::Fro; }
/// definition, on the expanded matrix
static LD ref(int k, const RM& A)
{
    LD r = 0;
    if (k == MAXN) for (auto& x : A.a) r = std::max(r, ab(x));
    else if (k == FRO) return nrmF(A);
    else
        for (int p = 0; p < (k == ONE ? A.n : A.m); ++p) {
            LD s = 0;
            for (int q = 0; q < (k == ONE ? A.m : A.n); ++q) s += ab(k == ONE ? A(q, p) : A(p, q));
            r = std::max(r, s);
        }
    return r;
}
static void cmp(R got_, LD want, int cnt, const char* what, int k)
{
    static const char* nm[] = {"max", "one", "inf", "fro"};
    LD got = (LD)got_;
    mc::mixd((double)got_);
    LD tol = (cnt + 6) * EPS * want + (cnt + 1) * DEN;
    mc::E().checks++;
    if (want + tol > RMAX && (std::isinf((double)got_) || fabsl(got - want) <= 2 * tol)) return;  // at the overflow threshold
    if (!(fabsl(got - want) <= tol)) mc::fail(what, "%s norm: got %Lg, definition %Lg", nm[k], got, want);
}
/// expanded matrices of each structure from stored values S (poison marks what must not be read)
static void checkAll(const RM& S)
{
    using namespace tl;
    int m = S.m, n = S.n;
    {
        Mat A(m, n);
        A.set(S);
        auto v = A.view();
        for (int k = 0; k < 4; ++k) cmp(lange(nt(k), v), ref(k, S), m * n, "lange", k);
        VecR w(m);
        auto wv = w.fview();
        cmp(infnorm_colmajor_work(v, wv), ref(INF, S), m * n, "infnorm", INF);
        w.guards("work");
        cmp(infnorm_colmajor(v), ref(INF, S), m * n, "infnorm-alloc", INF);
        A.constant("A");
    }
    for (int up = 0; up < 2; ++up) {
        auto uplo = up ? Uplo::Upper : Uplo::Lower;
        for (int unit = 0; unit < 2; ++unit) {
            Mat A(m, n);
            RM E(m, n);
            for (int i = 0; i < m; ++i)
                for (int j = 0; j < n; ++j) {
                    bool in = up ? i <= j : i >= j;
                    if (i == j && unit) { E(i, j) = 1; continue; }
                    if (!in) continue;
                    E(i, j) = S(i, j);
                    A(i, j) = mk<T>(S(i, j));
                }
            A.snap();
            auto v = A.view();
            auto d = unit ? Diag::Unit : Diag::NonUnit;
            for (int k = 0; k < 4; ++k) cmp(lantr(nt(k), uplo, d, v), ref(k, E), m * n, "lantr", k);
            VecR w(m);
            auto wv = w.fview();
            cmp(infnorm_triangular_colmajor_work(uplo, d, v, wv), ref(INF, E), m * n, "infnorm-tri", INF);
            w.guards("work");
            cmp(infnorm_triangular_colmajor(uplo, d, v), ref(INF, E), m * n, "infnorm-tri-alloc", INF);
            A.constant("A");
        }
        if (m != n) continue;
        for (int he = 0; he < 2; ++he) {
            Mat A(n, n);
            RM E(n, n);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) {
                    bool in = up ? i <= j : i >= j;
                    cx s = in ? S(i, j) : S(j, i);
                    if (he && !in) s = cj(s);
                    if (he && i == j) s = cx(s.re);
                    E(i, j) = s;
                    if (!in) continue;
                    A(i, j) = mk<T>(S(i, j));
                    if (he && i == j && CPLX) A(i, j) = Sc<T>::mk(S(i, j).re, std::numeric_limits<LD>::quiet_NaN());
                }
            A.snap();
            auto v = A.view();
            for (int k = 0; k < 4; ++k) {
                if (he) cmp(lanhe(nt(k), uplo, v), ref(k, E), n * n, "lanhe", k);
                else cmp(lansy(nt(k), uplo, v), ref(k, E), n * n, "lansy", k);
            }
            VecR w(n);
            auto wv = w.fview();
            if (he) {
                cmp(infnorm_hermitian_colmajor_work(uplo, v, wv), ref(INF, E), n * n, "infnorm-he", INF);
                cmp(infnorm_hermitian_colmajor(uplo, v), ref(INF, E), n * n, "infnorm-he-alloc", INF);
            }
            else {
                cmp(infnorm_symmetric_colmajor_work(uplo, v, wv), ref(INF, E), n * n, "infnorm-sy", INF);
                cmp(infnorm_symmetric_colmajor(uplo, v), ref(INF, E), n * n, "infnorm-sy-alloc", INF);
            }
            w.guards("work");
            A.constant("A");
        }
    }
}
static cx val(int k)
{
    switch (k) {
        case 0: return 0;
        case 1: return CPLX ? cx(3, -4) : cx(-3);
        case 2: return CPLX ? cx(0, 0.5L) : cx(0.5L);
        case 3: return ldexpl(1, std::numeric_limits<R>::max_exponent - 4);
        case 4: return cx(CPLX ? 0 : DEN * 5, CPLX ? -DEN * 5 : 0);
        case 5: return ldexpl(1, std::numeric_limits<R>::max_exponent / 2 + 3);
        case 6: return ldexpl(-1, std::numeric_limits<R>::min_exponent / 2 - 3);
        case 7: return cx(SMIN, CPLX ? -SMIN : 0);
        case 8: return cx(ldexpl(-1, std::numeric_limits<R>::max_exponent / 2 - std::numeric_limits<R>::digits / 2));
        default: return cx(ldexpl(1, (std::numeric_limits<R>::min_exponent - 1) / 2));
    }
}
/// every matrix over an alphabet with all magnitudes
MC_HARNESS(norms_small)
{
    bool th = mc::thorough();
    int m = mc::range("m", 0, 3), n = mc::range("n", 0, 3);
    int c = m * n;
    int na = c <= 3 ? 10 : c <= 4 ? (th ? 10 : 7) : c <= 6 ? (th ? 5 : 4) : (th ? 4 : 2);
    RM S(m, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) S(i, j) = val(mc::choose("v", na));
    mc::body();
    checkAll(S);
}
/// one large entry walks through every position of every shape; everything else small
MC_HARNESS(norms_position)
{
    int hi = mc::thorough() ? 9 : 6;
    int m = mc::range("m", 1, hi), n = mc::range("n", 1, hi);
    int p = mc::choose("pos", m * n);
    int kind = mc::choose("kind", 4);
    mc::body();
    RM S(m, n);
    LD base = kind == 1 ? ldexpl(1, std::numeric_limits<R>::min_exponent / 2 - 3) : kind == 2 ? ldexpl(1, std::numeric_limits<R>::max_exponent / 2 + 2) : 1;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) S(i, j) = up(mk<T>(cx(base) * gint<T>(i, j, 7)));
    S.a[p] = up(mk<T>(cx(base * (kind == 3 ? 1 << 12 : 64)) * (CPLX ? cx(3, 4) : cx(-5))));
    checkAll(S);
}
MC_HARNESS(norms_families)
{
    int m = mc::thorough() ? mc::pick<int>("m", {0, 1, 2, 3, 5, 8, 17, 40}) : mc::pick<int>("m", {0, 1, 2, 5, 8, 17});
    int n = mc::thorough() ? mc::pick<int>("n", {0, 1, 2, 3, 5, 8, 17, 40}) : mc::pick<int>("n", {0, 1, 2, 5, 8, 17});
    int f = mc::choose("fam", FAM_COUNT);
    int se = mc::choose("scale", 3);
    mc::body();
    RM S = family<T>(f, m, n, 31);
    LD s = se == 0 ? 1 : se == 1 ? ldexpl(1, std::numeric_limits<R>::max_exponent - 8) : ldexpl(1, std::numeric_limits<R>::min_exponent + 4);
    if (f == FAM_HUGE || f == FAM_TINY || f == FAM_INT || f == FAM_RANK1) s = 1;
    for (auto& x : S.a) x = up(mk<T>(cx(s) * x));
    checkAll(S);
}
/// one large entry at every position of long strips and large blocks: every tail of every blocked loop
MC_HARNESS(norms_strips)
{
    bool th = mc::thorough();
    int L = th ? mc::pick<int>("long", {7, 10, 13, 16, 17, 19, 31, 33, 34, 35, 63, 65, 67, 130}) : mc::pick<int>("long", {7, 11, 17, 33, 35, 67});
    int S_ = mc::pick<int>("short", {1, 2, 3, 5});
    bool tall = mc::flag("tall");
    int m = tall ? L : S_, n = tall ? S_ : L;
    int p = mc::choose("pos", m * n);
    mc::body();
    RM S(m, n);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < m; ++i) S(i, j) = gint<T>(i, j, 7);
    S.a[p] = up(mk<T>(cx(1024) * (CPLX ? cx(3, 4) : cx(-5))));
    checkAll(S);
}
MC_HARNESS(vectors_long)
{
    using namespace tl;
    int n = mc::range("n", 5, mc::thorough() ? 140 : 70);
    int inc = mc::pick<int>("inc", {1, 3});
    bool back = mc::flag("back");
    int sc_ = mc::choose("scale", 3);
    int p = mc::choose("pos", n);
    mc::body();
    LD s = sc_ == 0 ? 1 : sc_ == 1 ? ldexpl(1, std::numeric_limits<R>::max_exponent - 24) : ldexpl(1, std::numeric_limits<R>::min_exponent + 8);
    RM x(n, 1);
    for (int i = 0; i < n; ++i) x.a[i] = up(mk<T>(cx(s) * gint<T>(i, 0, 7)));
    x.a[p] = up(mk<T>(cx(s * 1024) * (CPLX ? cx(3, 4) : cx(-5))));
    Vec X(n, inc, back);
    X.set(x);
    LD want = nrmF(x), s1 = 0;
    for (auto& v : x.a) s1 += ab1(v);
    auto run = [&](auto v) {
        cmp(nrm2(v), want, n, "nrm2", FRO);
        cmp(asum(v), s1, n, "asum", ONE);
        R sc(1), ss(0);
        lassq(slice(v, std::pair<size_t, size_t>(0, p)), sc, ss);
        lassq(slice(v, std::pair<size_t, size_t>(p, n)), sc, ss);
        LD g = (LD)sc * sqrtl((LD)ss);
        if (!(fabsl(g - want) <= (2 * n + 8) * EPS * want + (n + 1) * DEN)) mc::fail("lassq", "scale %Lg sumsq %Lg: got %Lg, definition %Lg", (LD)sc, (LD)ss, g, want);
    };
    if (back) run(X.bview());
    else run(X.fview());
    X.constant("x");
}
/// vector norms and the accumulation of sums of squares over every split of a vector
MC_HARNESS(vectors)
{
    using namespace tl;
    bool th = mc::thorough();
    int n = mc::range("n", 0, th ? 5 : 4);
    int inc = mc::pick<int>("inc", {1, 3});
    RM x(n, 1);
    int na = n <= 3 ? 10 : n == 4 ? (th ? 10 : 7) : 6;
    for (int i = 0; i < n; ++i) x.a[i] = val(mc::choose("v", na));
    int cut = n > 0 ? mc::choose("cut", n + 1) : 0;
    bool back = mc::flag("back");
    mc::body();
    Vec X(n, inc, back);
    X.set(x);
    LD want = nrmF(x), s1 = 0;
    for (auto& v : x.a) s1 += ab1(v);
    auto run = [&](auto v) {
        cmp(nrm2(v), want, n, "nrm2", FRO);
        cmp(asum(v), s1, n, "asum", ONE);
        R sc(1), ss(0);
        lassq(slice(v, std::pair<size_t, size_t>(0, cut)), sc, ss);
        lassq(slice(v, std::pair<size_t, size_t>(cut, n)), sc, ss);
        LD g = (LD)sc * sqrtl((LD)ss);
        mc::E().checks++;
        LD tol = (2 * n + 8) * EPS * want + (n + 1) * DEN;
        if (!(fabsl(g - want) <= tol)) mc::fail("lassq", "scale %Lg sumsq %Lg: got %Lg, definition %Lg", (LD)sc, (LD)ss, g, want);
    };
    if (back) run(X.bview());
    else run(X.fview());
    X.constant("x");
}
MC_MAIN
