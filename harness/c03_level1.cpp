// C03: vector kernels for any length, stride, direction.
#include "blasref.hpp"
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/rotmg.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/rscl.hpp>

/// every length, so that every remainder of every unrolling factor up to the bound occurs
static std::vector<int> lens()
{
    std::vector<int> r;
    for (int i = 0; i <= (mc::thorough() ? 300 : 68); ++i) r.push_back(i);
    for (int i : {100, 127, 129, 131, 257, 258})
        if (!mc::thorough()) r.push_back(i);
    return r;
}
template <class V, class F>
static void withView(V& x, F f)
{
    if (x.back) { auto v = x.bview(); f(v); }
    else { auto v = x.fview(); f(v); }
}
struct Lay { int n, incx, incy; bool bx, by; int extra; };
static Lay pickLay(bool two, bool longer = false)
{
    Lay l;
    l.n = mc::pickv("n", lens());
    l.incx = mc::pick("incx", {1, 2, 3});
    l.bx = mc::flag("backx");
    l.incy = two ? mc::pick("incy", {1, 2}) : 1;
    l.by = two ? mc::flag("backy") : false;
    l.extra = longer ? mc::pick("extra", {0, 2}) : 0;
    return l;
}
template <class V>
static void fillV(V& v, int salt) { v.fill([&](int i) { return gen<T>(i, 3, salt); }); }
static cx alph(int k) { return k == 0 ? gen<T>(7, 7, 5) : k == 1 ? cx(1) : k == 2 ? cx(0) : k == 3 ? cx(-1) : cx(0, CPLX ? 1 : 0); }

MC_HARNESS(axpy)
{
    Lay l = pickLay(true, true);
    int ka = mc::choose("alpha", 4), kr = mc::choose("realAlpha", CPLX ? 2 : 1);
    mc::body();
    Vec x(l.n, l.incx, l.bx), y(l.n + l.extra, l.incy, l.by);
    fillV(x, 1); fillV(y, 2);
    cx al = alph(ka);
    if (kr) al.im = 0;
    RM X = x.get(), Y = y.get();
    withView(x, [&](auto& xv) { withView(y, [&](auto& yv) { if (kr) tl::axpy((R)al.re, xv, yv); else tl::axpy(mk<T>(al), xv, yv); }); });
    for (int i = 0; i < y.n; ++i) cmpElt(up(y[i]), i < l.n ? Y(i, 0) + al * X(i, 0) : Y(i, 0), i < l.n ? 8 * EPS * (ab1(Y(i, 0)) + ab1(al * X(i, 0))) : 0, "axpy", "y", i, 0);
    mixRM(y.get());
    x.constant("x");
    y.unchangedExcept([&](int i) { return i < l.n; }, "axpy", "y");
}
MC_HARNESS(copy)
{
    Lay l = pickLay(true, true);
    mc::body();
    Vec x(l.n, l.incx, l.bx), y(l.n + l.extra, l.incy, l.by);
    fillV(x, 1);
    withView(x, [&](auto& xv) { withView(y, [&](auto& yv) { tl::copy(xv, yv); }); });
    for (int i = 0; i < l.n; ++i) MC_CHECK(bitEq(y[i], x[i]), "copy", "y[%d] != x[%d]", i, i);
    x.constant("x");
    y.unchangedExcept([&](int i) { return i < l.n; }, "copy", "y");
    mixRM(x.get());
}
MC_HARNESS(swap)
{
    Lay l = pickLay(true);
    mc::body();
    Vec x(l.n, l.incx, l.bx), y(l.n, l.incy, l.by);
    fillV(x, 1); fillV(y, 2);
    RM X = x.get(), Y = y.get();
    withView(x, [&](auto& xv) { withView(y, [&](auto& yv) { tl::swap(xv, yv); }); });
    for (int i = 0; i < l.n; ++i) {
        cmpElt(up(x[i]), Y(i, 0), 0, "swap", "x", i, 0);
        cmpElt(up(y[i]), X(i, 0), 0, "swap", "y", i, 0);
    }
    x.guards("x"); y.guards("y");
    mixRM(x.get());
}
MC_HARNESS(dots)
{
    Lay l = pickLay(true);
    mc::body();
    Vec x(l.n, l.incx, l.bx), y(l.n, l.incy, l.by);
    fillV(x, 1); fillV(y, 2);
    cx dc, du;
    LD sc = 0;
    for (int i = 0; i < l.n; ++i) { dc += cj(up(x[i])) * up(y[i]); du += up(x[i]) * up(y[i]); sc += ab1(up(x[i])) * ab1(up(y[i])); }
    withView(x, [&](auto& xv) { withView(y, [&](auto& yv) {
        cmpElt(up(tl::dot(xv, yv)), dc, 4 * (l.n + 2) * EPS * sc, "dot", "dot", 0, 0);
        cmpElt(up(tl::dotu(xv, yv)), du, 4 * (l.n + 2) * EPS * sc, "dotu", "dotu", 0, 0);
    }); });
    if constexpr (CPLX) {  // mixed real/complex operands
        VecR r(l.n, l.incy, l.by);
        r.fill([](int i) { return cx(gen<T>(i, 3, 9).re); });
        cx m1, m2; LD s2 = 0;
        for (int i = 0; i < l.n; ++i) { m1 += cj(up(x[i])) * up(r[i]); m2 += up(r[i]) * up(x[i]); s2 += ab1(up(x[i])) * ab1(up(r[i])); }
        withView(x, [&](auto& xv) { withView(r, [&](auto& rv) {
            cmpElt(up(tl::dot(xv, rv)), m1, 4 * (l.n + 2) * EPS * s2, "dot", "dot(c,r)", 0, 0);
            cmpElt(up(tl::dot(rv, xv)), m2, 4 * (l.n + 2) * EPS * s2, "dot", "dot(r,c)", 0, 0);
            cmpElt(up(tl::dotu(rv, xv)), m2, 4 * (l.n + 2) * EPS * s2, "dotu", "dotu(r,c)", 0, 0);
        }); });
    }
    x.constant("x"); y.constant("y");
    mc::mixd((double)dc.re);
}
MC_HARNESS(one_vector)
{
    int which = mc::choose("routine", 5);  // asum nrm2 scal conjugate rscl
    Lay l = pickLay(false);
    int ka = which == 2 || which == 4 ? mc::choose("alpha", CPLX ? 5 : 4) : 0, kr = (which == 2 || which == 4) ? mc::choose("realAlpha", CPLX ? 2 : 1) : 0;
    cx al = alph(ka);
    if (kr) al.im = 0;
    mc::require(which != 4 || ab1(al) > 0);
    mc::body();
    Vec x(l.n, l.incx, l.bx);
    fillV(x, 1);
    RM X = x.get();
    LD s1 = 0, s2 = 0;
    for (auto& v : X.a) { s1 += ab1(v); s2 += v.re * v.re + v.im * v.im; }
    withView(x, [&](auto& xv) {
        if (which == 0) { cmpElt(cx(tl::asum(xv)), cx(s1), 4 * (l.n + 2) * EPS * s1, "asum", "asum", 0, 0); x.constant("x"); }
        if (which == 1) { cmpElt(cx(tl::nrm2(xv)), cx(sqrtl(s2)), 4 * (l.n + 4) * EPS * sqrtl(s2), "nrm2", "nrm2", 0, 0); x.constant("x"); }
        if (which == 2) { if (kr) tl::scal((R)al.re, xv); else tl::scal(mk<T>(al), xv); }
        if (which == 3) tl::conjugate(xv);
        if (which == 4) { if (kr) tl::rscl((R)al.re, xv); else tl::rscl(mk<T>(al), xv); }
    });
    for (int i = 0; i < l.n; ++i) {
        if (which == 2) cmpElt(up(x[i]), al * X(i, 0), 4 * EPS * ab1(al) * ab1(X(i, 0)), "scal", "x", i, 0);
        if (which == 3) cmpElt(up(x[i]), cj(X(i, 0)), 0, "conjugate", "x", i, 0);
        if (which == 4) cmpElt(up(x[i]), X(i, 0) / al, 10 * EPS * ab1(X(i, 0)) / ab(al), "rscl", "x", i, 0);
    }
    x.guards("x");
    mixRM(x.get());
}
MC_HARNESS(rot)
{
    Lay l = pickLay(true);
    int kc = mc::choose("cs", 6), kr = mc::choose("realS", CPLX ? 2 : 1);
    mc::body();
    Vec x(l.n, l.incx, l.bx), y(l.n, l.incy, l.by);
    fillV(x, 1); fillV(y, 2);
    RM X = x.get(), Y = y.get();
    R c; cx s;
    const LD cs[][3] = {{0.6L, 0.8L, 0}, {1, 0, 0}, {0, 1, 0}, {0.6L, 0, 0.8L}, {1, 0.5L, 0.25L}, {0, 0, 0}};
    c = (R)cs[kc][0];
    s = cx(cs[kc][1], CPLX && !kr ? cs[kc][2] : 0);
    if (!CPLX || kr) s = cx(s.re + cs[kc][2]);
    s = up(mk<T>(s));
    withView(x, [&](auto& xv) { withView(y, [&](auto& yv) { if (kr) tl::rot(xv, yv, c, (R)s.re); else tl::rot(xv, yv, c, mk<T>(s)); }); });
    for (int i = 0; i < l.n; ++i) {
        LD b = 6 * EPS * (ab1(X(i, 0)) + ab1(Y(i, 0)));
        cmpElt(up(x[i]), cx((LD)c) * X(i, 0) + s * Y(i, 0), b, "rot", "x", i, 0);
        cmpElt(up(y[i]), cx((LD)c) * Y(i, 0) - cj(s) * X(i, 0), b, "rot", "y", i, 0);
    }
    x.guards("x"); y.guards("y");
    mixRM(x.get());
}
// every vector over a value alphabet (ties, signs, zeros, huge) of length <= N : index of the first maximum
static cx iv(int k)
{
    LD big = (LD)std::numeric_limits<R>::max();
    LD inf = std::numeric_limits<LD>::infinity(), nan = std::numeric_limits<LD>::quiet_NaN();
    if (!CPLX) { const LD v[] = {0, 1, -1, 2, -2, -0.0L, 0.5L, -big, big, -inf, nan}; return cx(v[k]); }
    const cx v[] = {cx(0), cx(1), cx(0, -1), cx(1, 1), cx(-2, 0), cx(0, 2), cx(0.75L, 0.75L), cx(big, -big), cx(-big / 2, big), cx(1, -inf), cx(2, nan)};
    return v[k];
}
MC_HARNESS(iamax)
{
    int inc = mc::pick("inc", {1, 2});
    bool back = mc::flag("back");
    int nc = mc::choose("variant", 3);  // default / nan-check / no nan-check
    int n = mc::range("n", 0, mc::thorough() ? 5 : 4);
    std::vector<cx> v(n);
    int first[2] = {-1, -1};  // first infinity, first NaN
    for (int i = 0; i < n; ++i) {
        int k = mc::choose("x", 11);
        if (k >= 9 && first[k - 9] < 0) first[k - 9] = i;
        v[i] = iv(k);
    }
    mc::require(nc != 2 || first[1] < 0);  // without the NaN check the result is only defined for comparable entries
    mc::body();
    Vec x(n, inc, back);
    x.fill([&](int i) { return v[i]; });
    int exp = 0;
    LD best = -1;
    for (int i = 0; i < n; ++i)
        if (ab1(up(x[i])) > best) { best = ab1(up(x[i])); exp = i; }
    if (first[0] >= 0) exp = first[0];
    if (first[1] >= 0) exp = first[1];
    size_t got = 0;
    withView(x, [&](auto& xv) {
        if (nc == 0) got = tl::iamax(xv);
        else {
            tl::EcOpts ec;
            ec.ec.nan = nc == 1;
            got = tl::iamax(xv, tl::IamaxOpts([](const T& a) -> R { return tl::abs1(a); }, ec));
        }
    });
    MC_CHECK((long)got == exp, "iamax", "iamax returned %ld, first maximum is at %d", (long)got, exp);
    mc::mix(got);
    x.constant("x");
}
// with the modulus as measure
MC_HARNESS(iamax_modulus)
{
    int n = mc::range("n", 1, 4);
    std::vector<cx> v(n);
    for (auto& e : v) { int k = mc::choose("x", 6); const cx t[] = {cx(0), cx(3), cx(0, CPLX ? -3 : 0), cx(3, CPLX ? 4 : 0), cx(-5), cx(CPLX ? 4 : 5, CPLX ? -3 : 0)}; e = t[k]; }
    mc::body();
    Vec x(n);
    x.fill([&](int i) { return v[i]; });
    int exp = 0;
    LD best = -1;
    for (int i = 0; i < n; ++i)
        if (ab(up(x[i])) > best) { best = ab(up(x[i])); exp = i; }
    auto xv = x.fview();
    size_t got = tl::iamax(xv, tl::IamaxOpts([](const T& a) -> R { return tl::abs(a); }));
    MC_CHECK((long)got == exp, "iamax", "iamax(|.|) returned %ld, expected %d", (long)got, exp);
    mc::mix(got);
}
#ifdef MC_REAL
MC_HARNESS(rotm)
{
    int flag = mc::range("flag", -2, 1);
    Lay l = pickLay(true);
    mc::body();
    Vec x(l.n, l.incx, l.bx), y(l.n, l.incy, l.by);
    fillV(x, 1); fillV(y, 2);
    RM X = x.get(), Y = y.get();
    T h[4];
    for (int i = 0; i < 4; ++i) h[i] = (T)gen<T>(i, 1, 77).re;
    LD H[4] = {(LD)h[0], (LD)h[1], (LD)h[2], (LD)h[3]};
    if (flag == 0) H[0] = H[3] = 1;
    if (flag == 1) { H[1] = -1; H[2] = 1; }
    if (flag == -2) { H[0] = H[3] = 1; H[1] = H[2] = 0; }
    withView(x, [&](auto& xv) { withView(y, [&](auto& yv) {
        if (flag == -2) tl::rotm<-2>(xv, yv, h);
        if (flag == -1) tl::rotm<-1>(xv, yv, h);
        if (flag == 0) tl::rotm<0>(xv, yv, h);
        if (flag == 1) tl::rotm<1>(xv, yv, h);
    }); });
    for (int i = 0; i < l.n; ++i) {
        LD b = 4 * EPS * (ab1(X(i, 0)) + ab1(Y(i, 0)));
        cmpElt(up(x[i]), cx(H[0]) * X(i, 0) + cx(H[2]) * Y(i, 0), b, "rotm", "x", i, 0);
        cmpElt(up(y[i]), cx(H[1]) * X(i, 0) + cx(H[3]) * Y(i, 0), b, "rotm", "y", i, 0);
    }
    x.guards("x"); y.guards("y");
    mixRM(x.get());
}
// all (d1,d2,a,b) over an exponent x sign lattice: H eliminates b and preserves the weighted inner product
MC_HARNESS(rotmg)
{
    std::vector<int> ex = mc::thorough() ? std::vector<int>{-80, -60, -50, -40, -30, -25, -24, -23, -13, -12, -11, -1, 0, 1, 11, 12, 13, 23, 24, 25, 30, 40, 50, 60, 80} : std::vector<int>{-60, -40, -25, -24, -13, -1, 0, 1, 12, 24, 26, 40, 60};
    std::vector<int> sm = mc::thorough() ? std::vector<int>{-26, -13, -1, 0, 1, 12, 24} : std::vector<int>{-13, 0, 1, 13};
    if (sizeof(T) == 4) { ex = mc::thorough() ? std::vector<int>{-52, -26, -25, -24, -23, -12, -1, 0, 1, 12, 23, 24, 25, 26, 52} : std::vector<int>{-52, -26, -24, -12, 0, 1, 23, 25, 52}; sm = {-6, 0, 1, 6}; }
    T d1 = std::ldexp(T(1.25), mc::pickv("ed1", ex)), d2 = std::ldexp(T(1.5), mc::pickv("ed2", ex));
    T a = std::ldexp(T(1.125), mc::pickv("ea", sm)), b = std::ldexp(T(1.75), mc::pickv("eb", sm));
    int sg = mc::choose("signs", 8), zero = mc::choose("zero", 4);
    if (sg & 1) d2 = -d2;
    if (sg & 2) a = -a;
    if (sg & 4) b = -b;
    if (zero == 1) d2 = 0;
    if (zero == 2) a = 0;
    if (zero == 3) b = 0;
    mc::body();
    T D1 = d1, D2 = d2, A = a, h[4] = {nanOf<T>(), nanOf<T>(), nanOf<T>(), nanOf<T>()};
    int flag = tl::rotmg(D1, D2, A, b, h);
    MC_CHECK(flag >= -2 && flag <= 1, "rotmg-flag", "flag %d", flag);
    LD H[4] = {(LD)h[0], (LD)h[1], (LD)h[2], (LD)h[3]};
    if (flag == 0) H[0] = H[3] = 1;
    if (flag == 1) { H[1] = -1; H[2] = 1; }
    if (flag == -2) { H[0] = H[3] = 1; H[1] = H[2] = 0; }
    mc::mix(flag + 10);
    mc::mixd((double)H[1]);
    LD q1 = (LD)d1 * a * a, q2 = (LD)d2 * b * b;
    if (q1 + q2 < 0 || (d2 < 0 && fabsl(q1) <= fabsl(q2) && b != 0)) {
        // no real rotation exists: everything is zeroed
        MC_CHECK(flag == -1 && D1 == 0 && D2 == 0 && A == 0 && H[0] == 0 && H[1] == 0 && H[2] == 0 && H[3] == 0, "rotmg-degenerate", "degenerate case not zeroed (flag %d)", flag);
        return;
    }
    if (d2 * b == 0) {
        MC_CHECK(flag == -2, "rotmg-flag", "flag %d for d2*b == 0", flag);
        MC_CHECK(D1 == d1 && D2 == d2 && A == a, "rotmg-identity", "identity case changed its arguments");
        return;
    }
    LD t = 60 * EPS;
    // conditioning of u = 1 + q2/q1 for negative d2
    if (d2 < 0) t *= (fabsl(q1) + fabsl(q2)) / fabsl(q1 + q2);
    // the weights are rescaled into the documented window of the modified Givens transformation
    MC_CHECK((D1 == 0 || (fabsl((LD)D1) >= ldexpl(1, -24) && fabsl((LD)D1) <= ldexpl(1, 24))) && (D2 == 0 || (fabsl((LD)D2) >= ldexpl(1, -24) && fabsl((LD)D2) <= ldexpl(1, 24))), "rotmg-window", "d1=%Lg d2=%Lg not rescaled", (LD)D1, (LD)D2);
    LD r2 = H[1] * a + H[3] * b, s2 = fabsl(H[1] * a) + fabsl(H[3] * b);
    small(fabsl(r2), t * s2, "rotmg-annihilate", "h21*a+h22*b");
    LD r1 = H[0] * a + H[2] * b, s1 = fabsl(H[0] * a) + fabsl(H[2] * b);
    small(fabsl(r1 - (LD)A), t * s1, "rotmg-z", "h11*a+h12*b - z");
    // H^T diag(D1,D2) H = diag(d1,d2)
    LD m11 = D1 * H[0] * H[0] + D2 * H[1] * H[1], m22 = D1 * H[2] * H[2] + D2 * H[3] * H[3], m12 = D1 * H[0] * H[2] + D2 * H[1] * H[3];
    small(fabsl(m11 - d1), t * (fabsl(D1 * H[0] * H[0]) + fabsl(D2 * H[1] * H[1])), "rotmg-d1", "(H'DH)11 - d1");
    small(fabsl(m22 - d2), t * (fabsl(D1 * H[2] * H[2]) + fabsl(D2 * H[3] * H[3])), "rotmg-d2", "(H'DH)22 - d2");
    small(fabsl(m12), t * (fabsl(D1 * H[0] * H[2]) + fabsl(D2 * H[1] * H[3])), "rotmg-offdiag", "(H'DH)12");
}
#endif
MC_MAIN
