// C23: pointer-based legacy / C / CBLAS / Fortran interfaces against the definition of each operation.
// Operands are small integers (every product is exact in every precision), so results are compared exactly.
// Constant inputs live in read-only pages during the call; everything outside an operand is NaN and must stay as it was.
#include "c23_mem.hpp"
#include <tlapack/legacy_api/blas.hpp>
#include "c23_api.hpp"
namespace lg = tlapack::legacy;
using tl::Diag;
using tl::Op;
using tl::Side;
using tl::Uplo;
typedef lg::idx_t uidx;

// ---- legacy templates as a table --------------------------------------------------------------------
#define V_(p) (*(const T*)(p))
#define L_(c) ((tl::Layout)(c))
#define O_(c) ((tl::Op)(c))
#define U_(c) ((tl::Uplo)(c))
#define D_(c) ((tl::Diag)(c))
#define S_(c) ((tl::Side)(c))
typedef const T* CT;
typedef T* PT;
static Api mkLegacy()
{
    Api a;
    memset(&a, 0, sizeof a);
    a.name = "legacy";
    a.isSigned = false;
    a.asum = [](I_ n, CP x, I_ ix) { return (double)lg::asum<T>(n, (CT)x, ix); };
    a.nrm2 = [](I_ n, CP x, I_ ix) { return (double)lg::nrm2<T>(n, (CT)x, ix); };
    a.iamax = [](I_ n, CP x, I_ ix) { return (size_t)lg::iamax<T>(n, (CT)x, ix); };
    a.dot = [](I_ n, CP x, I_ ix, CP y, I_ iy, P_ o) { *(PT)o = lg::dot<T, T>(n, (CT)x, ix, (CT)y, iy); };
    a.dotu = [](I_ n, CP x, I_ ix, CP y, I_ iy, P_ o) { *(PT)o = lg::dotu<T, T>(n, (CT)x, ix, (CT)y, iy); };
    a.axpy = [](I_ n, CP al, CP x, I_ ix, P_ y, I_ iy) { lg::axpy<T, T>(n, V_(al), (CT)x, ix, (PT)y, iy); };
    a.copy = [](I_ n, CP x, I_ ix, P_ y, I_ iy) { lg::copy<T, T>(n, (CT)x, ix, (PT)y, iy); };
    a.swap = [](I_ n, P_ x, I_ ix, P_ y, I_ iy) { lg::swap<T, T>(n, (PT)x, ix, (PT)y, iy); };
    a.scal = [](I_ n, CP al, P_ x, I_ ix) { lg::scal<T, T>(n, V_(al), (PT)x, ix); };
    a.rot = [](I_ n, P_ x, I_ ix, P_ y, I_ iy, double c, CP s) { lg::rot<T, T>(n, (PT)x, ix, (PT)y, iy, (R)c, V_(s)); };
    a.rotg = [](P_ x, P_ y, P_ c, P_ s) { lg::rotg<T>((PT)x, (PT)y, (R*)c, (PT)s); };
#ifdef MC_REAL
    a.rotm = [](I_ n, P_ x, I_ ix, P_ y, I_ iy, CP pr) { lg::rotm<T, T>(n, (PT)x, ix, (PT)y, iy, (CT)pr); };
    a.rotmg = [](P_ d1, P_ d2, P_ x, CP b, P_ pr) { lg::rotmg<T>((PT)d1, (PT)d2, (PT)x, V_(b), (PT)pr); };
#endif
    a.gemv = [](int l, int o, I_ m, I_ n, CP al, CP A, I_ lda, CP x, I_ ix, CP be, P_ y, I_ iy) { lg::gemv<T, T, T>(L_(l), O_(o), m, n, V_(al), (CT)A, lda, (CT)x, ix, V_(be), (PT)y, iy); };
    a.ger = [](int l, I_ m, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda) { lg::ger<T, T, T>(L_(l), m, n, V_(al), (CT)x, ix, (CT)y, iy, (PT)A, lda); };
    a.geru = [](int l, I_ m, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda) { lg::geru<T, T, T>(L_(l), m, n, V_(al), (CT)x, ix, (CT)y, iy, (PT)A, lda); };
    a.hemv = [](int l, int u, I_ n, CP al, CP A, I_ lda, CP x, I_ ix, CP be, P_ y, I_ iy) { lg::hemv<T, T, T>(L_(l), U_(u), n, V_(al), (CT)A, lda, (CT)x, ix, V_(be), (PT)y, iy); };
    a.symv = [](int l, int u, I_ n, CP al, CP A, I_ lda, CP x, I_ ix, CP be, P_ y, I_ iy) { lg::symv<T, T, T>(L_(l), U_(u), n, V_(al), (CT)A, lda, (CT)x, ix, V_(be), (PT)y, iy); };
    a.her = [](int l, int u, I_ n, double al, CP x, I_ ix, P_ A, I_ lda) { lg::her<T, T>(L_(l), U_(u), n, (R)al, (CT)x, ix, (PT)A, lda); };
    a.her2 = [](int l, int u, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda) { lg::her2<T, T, T>(L_(l), U_(u), n, V_(al), (CT)x, ix, (CT)y, iy, (PT)A, lda); };
    a.syr = [](int l, int u, I_ n, CP al, CP x, I_ ix, P_ A, I_ lda) { lg::syr<T, T>(L_(l), U_(u), n, V_(al), (CT)x, ix, (PT)A, lda); };
    a.syr2 = [](int l, int u, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda) { lg::syr2<T, T, T>(L_(l), U_(u), n, V_(al), (CT)x, ix, (CT)y, iy, (PT)A, lda); };
    a.trmv = [](int l, int u, int o, int d, I_ n, CP A, I_ lda, P_ x, I_ ix) { lg::trmv<T, T>(L_(l), U_(u), O_(o), D_(d), n, (CT)A, lda, (PT)x, ix); };
    a.trsv = [](int l, int u, int o, int d, I_ n, CP A, I_ lda, P_ x, I_ ix) { lg::trsv<T, T>(L_(l), U_(u), O_(o), D_(d), n, (CT)A, lda, (PT)x, ix); };
    a.gemm = [](int l, int oa, int ob, I_ m, I_ n, I_ k, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc) { lg::gemm<T, T, T>(L_(l), O_(oa), O_(ob), m, n, k, V_(al), (CT)A, lda, (CT)B, ldb, V_(be), (PT)C, ldc); };
    a.symm = [](int l, int s, int u, I_ m, I_ n, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc) { lg::symm<T, T, T>(L_(l), S_(s), U_(u), m, n, V_(al), (CT)A, lda, (CT)B, ldb, V_(be), (PT)C, ldc); };
    a.hemm = [](int l, int s, int u, I_ m, I_ n, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc) { lg::hemm<T, T, T>(L_(l), S_(s), U_(u), m, n, V_(al), (CT)A, lda, (CT)B, ldb, V_(be), (PT)C, ldc); };
    a.herk = [](int l, int u, int o, I_ n, I_ k, double al, CP A, I_ lda, double be, P_ C, I_ ldc) { lg::herk<T, T>(L_(l), U_(u), O_(o), n, k, (R)al, (CT)A, lda, (R)be, (PT)C, ldc); };
    a.her2k = [](int l, int u, int o, I_ n, I_ k, CP al, CP A, I_ lda, CP B, I_ ldb, double be, P_ C, I_ ldc) { lg::her2k<T, T, T>(L_(l), U_(u), O_(o), n, k, V_(al), (CT)A, lda, (CT)B, ldb, (R)be, (PT)C, ldc); };
    a.syrk = [](int l, int u, int o, I_ n, I_ k, CP al, CP A, I_ lda, CP be, P_ C, I_ ldc) { lg::syrk<T, T>(L_(l), U_(u), O_(o), n, k, V_(al), (CT)A, lda, V_(be), (PT)C, ldc); };
    a.syr2k = [](int l, int u, int o, I_ n, I_ k, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc) { lg::syr2k<T, T, T>(L_(l), U_(u), O_(o), n, k, V_(al), (CT)A, lda, (CT)B, ldb, V_(be), (PT)C, ldc); };
    a.trmm = [](int l, int s, int u, int o, int d, I_ m, I_ n, CP al, CP A, I_ lda, P_ B, I_ ldb) { lg::trmm<T, T>(L_(l), S_(s), U_(u), O_(o), D_(d), m, n, V_(al), (CT)A, lda, (PT)B, ldb); };
    a.trsm = [](int l, int s, int u, int o, int d, I_ m, I_ n, CP al, CP A, I_ lda, P_ B, I_ ldb) { lg::trsm<T, T>(L_(l), S_(s), U_(u), O_(o), D_(d), m, n, V_(al), (CT)A, lda, (PT)B, ldb); };
    return a;
}
static const Api LEGACY = mkLegacy();
static const Api& pickApi()
{
    static const Api* tab[3] = {&LEGACY,
#if MC_TYPE == 's'
                                &api_c_s, &api_cblas_s
#elif MC_TYPE == 'd'
                                &api_c_d, &api_cblas_d
#elif MC_TYPE == 'c'
                                &api_c_c, &api_cblas_c
#else
                                &api_c_z, &api_cblas_z
#endif
    };
    return *tab[mc::choose("api(0=legacy,1=C,2=CBLAS)", 3)];
}

// ================= level 1 =================
MC_HARNESS(level1)
{
    const Api& A = pickApi();
    int n = mc::range("n", 0, N() + 2), ix = pickInc("incx"), iy = pickInc("incy");
    int which = mc::choose("op(dot,dotu,axpy,copy,swap,rot,rotm)", 7);
    cx al = (which == 2) ? pickSc("alpha") : cx(1);
    int flag = which == 6 ? mc::pick("flag", {-2, -1, 0, 1}) : 0;
    bool realS = which == 5 && CPLX ? mc::flag("real-s") : false;
    mc::require(which != 6 || !CPLX);
    mc::body();
    start();
    bool xro = which <= 3, yro = which <= 1;
    PV x(n, ix, xro), y(n, iy, yro);
    if (which == 2 && zero(al)) x.poison(); else x.fill([](int i) { return gi(i, 0, 1); });
    if (which == 3) y.poison(); else y.fill([](int i) { return gi(i, 0, 2); });
    RM X = x.get(), Y = y.get();
    T a = mk<T>(al), out = nanOf<T>();
    cx s = CPLX ? cx(2, -1) : cx(3);
    if (realS) s = cx(3);
    T sT = mk<T>(s);
    T par[5];
    {
        ReadOnly ro;
        switch (which) {
            case 0: A.dot(n, x.ptr(), ix, y.ptr(), iy, &out); break;
            case 1: A.dotu(n, x.ptr(), ix, y.ptr(), iy, &out); break;
            case 2: A.axpy(n, &a, x.ptr(), ix, y.ptr(), iy); break;
            case 3: A.copy(n, x.ptr(), ix, y.ptr(), iy); break;
            case 4: A.swap(n, x.ptr(), ix, y.ptr(), iy); break;
            case 5:
                if (realS && A.rotr) A.rotr(n, x.ptr(), ix, y.ptr(), iy, 2, 3);
                else A.rot(n, x.ptr(), ix, y.ptr(), iy, 2, &sT);
                break;
            case 6:
                par[0] = mk<T>(cx(flag));
                for (int k = 1; k < 5; ++k) par[k] = mk<T>(cx(k == 1 ? 2 : k == 2 ? -3 : k == 3 ? 4 : 3));
                A.rotm(n, x.ptr(), ix, y.ptr(), iy, par);
                break;
        }
    }
    if (which <= 1) {
        cx r;
        for (int i = 0; i < n; ++i) r += (which == 0 ? cj(X(i, 0)) : X(i, 0)) * Y(i, 0);
        cmpElt(up(out), r, 0, "wrong-result", "dot", 0, 0);
        x.same("x"); y.same("y");
        return;
    }
    RM ex = X, ey = Y;
    LD h11 = 2, h21 = -3, h12 = 4, h22 = 3;
    if (flag == 0) h11 = h22 = 1;
    if (flag == 1) h12 = 1, h21 = -1;
    if (flag == -2) h11 = h22 = 1, h12 = h21 = 0;
    for (int i = 0; i < n; ++i) switch (which) {
            case 2: if (!zero(al)) ey(i, 0) = Y(i, 0) + al * X(i, 0); break;
            case 3: ey(i, 0) = X(i, 0); break;
            case 4: ex(i, 0) = Y(i, 0); ey(i, 0) = X(i, 0); break;
            case 5: ex(i, 0) = cx(2) * X(i, 0) + s * Y(i, 0); ey(i, 0) = cx(2) * Y(i, 0) - cj(s) * X(i, 0); break;
            case 6: ex(i, 0) = cx(h11) * X(i, 0) + cx(h12) * Y(i, 0); ey(i, 0) = cx(h21) * X(i, 0) + cx(h22) * Y(i, 0); break;
        }
    if (xro) x.same("x"); else x.expect(ex, "x");
    y.expect(ey, "y");
}
MC_HARNESS(level1_one)
{
    const Api& A = pickApi();
    int n = mc::range("n", 0, N() + 2), ix = mc::pick("incx", {1, 2, 3});
    int which = mc::choose("op(asum,nrm2,iamax,scal)", 4);
    cx al = which == 3 ? pickSc("alpha") : cx(1);
    int peak = which == 2 && n > 0 ? mc::choose("peak", n) : 0;
    int peak2 = which == 2 && n > 0 ? mc::choose("second-peak", n) : 0;
    mc::body();
    start();
    PV x(n, ix, which < 3);
    x.fill([&](int i) { return which == 2 && (i == peak || i == peak2) ? cx(-9) : gi(i, 0, 3); });
    RM X = x.get();
    T a = mk<T>(al);
    double r = 0;
    size_t id = 0;
    {
        ReadOnly ro;
        if (which == 0) r = A.asum(n, x.ptr(), ix);
        else if (which == 1) r = A.nrm2(n, x.ptr(), ix);
        else if (which == 2) id = A.iamax(n, x.ptr(), ix);
        else A.scal(n, &a, x.ptr(), ix);
    }
    LD s = 0, q = 0;
    for (int i = 0; i < n; ++i) s += ab1(X(i, 0)), q += X(i, 0).re * X(i, 0).re + X(i, 0).im * X(i, 0).im;
    if (which == 0) cmpElt(cx(r), cx(s), 0, "wrong-result", "asum", 0, 0);
    if (which == 1) cmpElt(cx(r), cx(sqrtl(q)), 8 * EPS * sqrtl(q), "wrong-result", "nrm2", 0, 0);
    if (which == 2) MC_CHECK((n == 0 ? id == 0 : (int)id == std::min(peak, peak2)), "wrong-result", "iamax returned %zu, first largest is at %d", id, std::min(peak, peak2));
    if (which == 3) x.expect(al * X, "x");
    else x.same("x");
}
MC_HARNESS(rotations)
{
    const Api& A = pickApi();
    bool mg = mc::flag("rotmg");
    mc::require(!mg || !CPLX);
    int i = mc::choose("a", 6), j = mc::choose("b", 6), k = mg ? mc::choose("d", 4) : 0;
    mc::body();
    const LD al[6] = {0, 1, -3, 0.5L, 1000, -0.001L};
    const LD dl[4] = {1, 0.25L, 3, 5000};
    if (!mg) {
        T a = mk<T>(cx(al[i], CPLX ? al[j] : 0)), b = mk<T>(cx(al[j], CPLX ? -2 * al[i] : 0)), a0 = a, b0 = b, s = nanOf<T>(), a2 = a, b2 = b, s2;
        R c = std::numeric_limits<R>::quiet_NaN(), c2;
        A.rotg(&a, &b, &c, &s);
        tl::rotg(a2, b2, c2, s2);
        MC_CHECK(bitEq(a, a2) && bitEq(b, b2) && bitEq(c, c2) && bitEq(s, s2), "wrong-result", "rotg differs from the template for a=(%Lg,%Lg) b=(%Lg,%Lg)", up(a0).re, up(a0).im, up(b0).re, up(b0).im);
        cx z = up(T(c)) * up(b0) - cj(up(s)) * up(a0);
        small(ab(z), 8 * EPS * (ab(up(a0)) + ab(up(b0))), "not-annihilated", "rotg");
    }
    else {
#ifdef MC_REAL
        T d1 = dl[k], d2 = dl[(k + j) % 4], a = al[i], b = al[j], par[5], h[4];
        T e1 = d1, e2 = d2, a2 = a;
        for (auto& v : par) v = nanOf<T>();
        A.rotmg(&d1, &d2, &a, &b, par);
        int f = tl::rotmg(e1, e2, a2, (const T&)b, h);
        bool ok = bitEq(d1, e1) && bitEq(d2, e2) && bitEq(a, a2) && par[0] == T(f);
        for (int q = 0; q < 4; ++q) ok = ok && bitEq(par[q + 1], h[q]);
        MC_CHECK(ok, "wrong-result", "rotmg differs from the template (a index %d, b index %d, d index %d)", i, j, k);
#endif
    }
}

// ================= level 2 =================
MC_HARNESS(gemv)
{
    const Api& A = pickApi();
    char l = pickLay(), o = pickTr();
    int m = mc::range("m", 0, N()), n = mc::range("n", 0, N()), pad = pickPad("padA"), ix = pickInc("incx"), iy = pickInc("incy");
    cx al = pickSc("alpha"), be = pickSc("beta");
    mc::body();
    start();
    int lx = o == 'N' ? n : m, ly = o == 'N' ? m : n;
    PM a(l, m, n, pad, true);
    PV x(lx, ix, true), y(ly, iy, false);
    bool za = zero(al), zb = zero(be);
    a.fill([&](int, int) { return !za; }, [](int i, int j) { return gi(i, j, 1); });
    if (za) x.poison(); else x.fill([](int i) { return gi(i, 0, 2); });
    if (zb) y.poison(); else y.fill([](int i) { return gi(i, 0, 3); });
    RM ref = m == 0 || n == 0 ? y.get() : plus(al, za ? RM(ly, 1) : op(a.get(), o) * x.get(), be, y.get());
    if (m == 0 || n == 0) ref = y.get();
    T aT = mk<T>(al), bT = mk<T>(be);
    {
        ReadOnly ro;
        A.gemv(l, o, m, n, &aT, a.ptr(), a.ld, x.ptr(), ix, &bT, y.ptr(), iy);
    }
    a.same("A"); x.same("x");
    if (m == 0 || n == 0) y.same("y (quick return)");
    else y.expect(ref, "y");
}
MC_HARNESS(ger)
{
    const Api& A = pickApi();
    char l = pickLay();
    bool u = mc::flag("unconjugated");
    int m = mc::range("m", 0, N()), n = mc::range("n", 0, N()), pad = pickPad("padA"), ix = pickInc("incx"), iy = pickInc("incy");
    cx al = pickSc("alpha");
    mc::body();
    start();
    PM a(l, m, n, pad, false);
    PV x(m, ix, true), y(n, iy, true);
    bool za = zero(al);
    a.fill(ALLW, [](int i, int j) { return gi(i, j, 1); });
    if (za) x.poison(), y.poison();
    else x.fill([](int i) { return gi(i, 0, 2); }), y.fill([](int i) { return gi(i, 0, 3); });
    RM ref = plus(al, za ? RM(m, n) : x.get() * (u ? Tr(y.get()) : H(y.get())), cx(1), a.get());
    T aT = mk<T>(al);
    {
        ReadOnly ro;
        (u ? A.geru : A.ger)(l, m, n, &aT, x.ptr(), ix, y.ptr(), iy, a.ptr(), a.ld);
    }
    x.same("x"); y.same("y");
    a.expect(ref, ALLW, "A");
}
MC_HARNESS(symv_hemv)
{
    const Api& A = pickApi();
    char l = pickLay(), u = pickUp();
    bool h = mc::flag("hermitian");
    int n = mc::range("n", 0, N() + 1), pad = pickPad("padA"), ix = pickInc("incx"), iy = pickInc("incy");
    cx al = pickSc("alpha"), be = pickSc("beta");
    mc::body();
    start();
    PM a(l, n, n, pad, true);
    PV x(n, ix, true), y(n, iy, false);
    bool za = zero(al), zb = zero(be);
    LD nan = std::numeric_limits<LD>::quiet_NaN();
    a.fill([&](int i, int j) { return !za && inT(u, i, j); }, [&](int i, int j) { cx v = gi(i, j, 1); if (h && i == j) v.im = nan; return v; });
    if (za) x.poison(); else x.fill([](int i) { return gi(i, 0, 2); });
    if (zb) y.poison(); else y.fill([](int i) { return gi(i, 0, 3); });
    RM ref = plus(al, za ? RM(n, 1) : symFrom(a.get(), (Uplo)u, h) * x.get(), be, y.get());
    T aT = mk<T>(al), bT = mk<T>(be);
    {
        ReadOnly ro;
        (h ? A.hemv : A.symv)(l, u, n, &aT, a.ptr(), a.ld, x.ptr(), ix, &bT, y.ptr(), iy);
    }
    a.same("A"); x.same("x");
    y.expect(ref, "y");
}
MC_HARNESS(rank_updates)
{
    const Api& A = pickApi();
    char l = pickLay(), u = pickUp();
    int which = mc::choose("op(her,her2,syr,syr2)", 4);
    int n = mc::range("n", 0, N() + 1), pad = pickPad("padA"), ix = pickInc("incx"), iy = which & 1 ? pickInc("incy") : 1;
    cx al = which == 0 ? cx(pickRe("alpha")) : pickSc("alpha");
    mc::require(which != 2 || A.syr);
    mc::body();
    start();
    bool h = which < 2, two = which & 1, za = zero(al);
    PM a(l, n, n, pad, false);
    PV x(n, ix, true), y(n, iy, true);
    a.fill([&](int i, int j) { return inT(u, i, j); }, [&](int i, int j) { cx v = gi(i, j, 1); if (h && i == j) v.im = 0; return v; });
    if (za) x.poison(), y.poison();
    else x.fill([](int i) { return gi(i, 0, 2); }), y.fill([](int i) { return gi(i, 0, 3); });
    RM ref = a.get();
    if (!za) {
        RM X = x.get(), Y = y.get();
        RM P = which == 0 ? al * (X * H(X)) : which == 1 ? al * (X * H(Y)) + cj(al) * (Y * H(X)) : which == 2 ? al * (X * Tr(X)) : al * (X * Tr(Y)) + al * (Y * Tr(X));
        ref = ref + P;
    }
    T aT = mk<T>(al);
    {
        ReadOnly ro;
        if (which == 0) A.her(l, u, n, (double)al.re, x.ptr(), ix, a.ptr(), a.ld);
        else if (which == 1) A.her2(l, u, n, &aT, x.ptr(), ix, y.ptr(), iy, a.ptr(), a.ld);
        else if (which == 2) A.syr(l, u, n, &aT, x.ptr(), ix, a.ptr(), a.ld);
        else A.syr2(l, u, n, &aT, x.ptr(), ix, y.ptr(), iy, a.ptr(), a.ld);
    }
    x.same("x");
    if (two) y.same("y");
    a.expect(ref, [&](int i, int j) { return inT(u, i, j); }, "A");
}
MC_HARNESS(trmv_trsv)
{
    const Api& A = pickApi();
    char l = pickLay(), u = pickUp(), o = pickTr(), d = pickDg();
    bool solve = mc::flag("solve");
    int n = mc::range("n", 0, N() + 1), pad = pickPad("padA"), ix = pickInc("incx");
    mc::body();
    start();
    PM a(l, n, n, pad, true);
    PV x(n, ix, false);
    // powers of two on the diagonal: the solution is an exact dyadic vector
    a.fill([&](int i, int j) { return inT(u, i, j) && !(i == j && d == 'U'); },
           [&](int i, int j) { return i == j ? (i % 2 ? cx(-2) : CPLX ? cx(0, 1) : cx(1)) : gi(i, j, 1); });
    RM M = op(tri(a.get(), u, d), o);
    RM sol(n, 1);
    for (int i = 0; i < n; ++i) sol(i, 0) = gi(i, 0, 2);
    RM ini = solve ? M * sol : sol, ref = solve ? sol : M * sol;
    x.fill([&](int i) { return ini(i, 0); });
    {
        ReadOnly ro;
        (solve ? A.trsv : A.trmv)(l, u, o, d, n, a.ptr(), a.ld, x.ptr(), ix);
    }
    a.same("A");
    x.expect(ref, "x");
}

// ================= level 3 =================
MC_HARNESS(gemm)
{
    const Api& A = pickApi();
    char l = pickLay(), oa = mc::pick("transA", {'N', 'T', 'C'}), ob = mc::pick("transB", {'N', 'T', 'C'});
    int m = mc::range("m", 0, N()), n = mc::range("n", 0, N()), k = mc::range("k", 0, N()), pads = mc::choose("pads", mc::thorough() ? 8 : 4);
    cx al = pickSc("alpha"), be = pickSc("beta");
    mc::body();
    start();
    if (!mc::thorough()) pads = pads == 0 ? 0 : 1 << (pads - 1);
    bool za = zero(al), zb = zero(be);
    PM a(l, oa == 'N' ? m : k, oa == 'N' ? k : m, pads & 1 ? 2 : 0, true), b(l, ob == 'N' ? k : n, ob == 'N' ? n : k, pads & 2 ? 1 : 0, true), c(l, m, n, pads & 4 ? 2 : 0, false);
    a.fill([&](int, int) { return !za; }, [](int i, int j) { return gi(i, j, 1); });
    b.fill([&](int, int) { return !za; }, [](int i, int j) { return gi(i, j, 2); });
    c.fill([&](int, int) { return !zb; }, [](int i, int j) { return gi(i, j, 3); });
    RM ref = plus(al, za ? RM(m, n) : op(a.get(), oa) * op(b.get(), ob), be, c.get());
    T aT = mk<T>(al), bT = mk<T>(be);
    {
        ReadOnly ro;
        A.gemm(l, oa, ob, m, n, k, &aT, a.ptr(), a.ld, b.ptr(), b.ld, &bT, c.ptr(), c.ld);
    }
    a.same("A"); b.same("B");
    c.expect(ref, ALLW, "C");
}
MC_HARNESS(symm_hemm)
{
    const Api& A = pickApi();
    char l = pickLay(), s = pickSd(), u = pickUp();
    bool h = mc::flag("hermitian");
    int m = mc::range("m", 0, N()), n = mc::range("n", 0, N()), pads = mc::choose("pads", mc::thorough() ? 8 : 4);
    cx al = pickSc("alpha"), be = pickSc("beta");
    mc::body();
    start();
    if (!mc::thorough()) pads = pads == 0 ? 0 : 1 << (pads - 1);
    bool za = zero(al), zb = zero(be);
    int q = s == 'L' ? m : n;
    LD nan = std::numeric_limits<LD>::quiet_NaN();
    PM a(l, q, q, pads & 1 ? 2 : 0, true), b(l, m, n, pads & 2 ? 1 : 0, true), c(l, m, n, pads & 4 ? 2 : 0, false);
    a.fill([&](int i, int j) { return !za && inT(u, i, j); }, [&](int i, int j) { cx v = gi(i, j, 1); if (h && i == j) v.im = nan; return v; });
    b.fill([&](int, int) { return !za; }, [](int i, int j) { return gi(i, j, 2); });
    c.fill([&](int, int) { return !zb; }, [](int i, int j) { return gi(i, j, 3); });
    RM S = za ? RM(q, q) : symFrom(a.get(), (Uplo)u, h);
    RM ref = plus(al, za ? RM(m, n) : s == 'L' ? S * b.get() : b.get() * S, be, c.get());
    T aT = mk<T>(al), bT = mk<T>(be);
    {
        ReadOnly ro;
        (h ? A.hemm : A.symm)(l, s, u, m, n, &aT, a.ptr(), a.ld, b.ptr(), b.ld, &bT, c.ptr(), c.ld);
    }
    a.same("A"); b.same("B");
    c.expect(ref, ALLW, "C");
}
MC_HARNESS(rank_k)
{
    const Api& A = pickApi();
    char l = pickLay(), u = pickUp(), o = pickTr();
    int which = mc::choose("op(herk,her2k,syrk,syr2k)", 4);
    bool h = which < 2, two = which & 1;
    mc::require(!CPLX || (h ? o != 'T' : o != 'C'));
    int n = mc::range("n", 0, N()), k = mc::range("k", 0, N()), pads = mc::choose("pads", mc::thorough() ? 8 : 4);
    cx al = which == 0 ? cx(pickRe("alpha")) : pickSc("alpha"), be = h ? cx(pickRe("beta")) : pickSc("beta");
    mc::body();
    start();
    if (!mc::thorough()) pads = pads == 0 ? 0 : 1 << (pads - 1);
    bool za = zero(al), zb = zero(be);
    int ar = o == 'N' ? n : k, ac = o == 'N' ? k : n;
    PM a(l, ar, ac, pads & 1 ? 2 : 0, true), b(l, ar, ac, pads & 2 ? 1 : 0, true), c(l, n, n, pads & 4 ? 2 : 0, false);
    a.fill([&](int, int) { return !za; }, [](int i, int j) { return gi(i, j, 1); });
    b.fill([&](int, int) { return !za; }, [](int i, int j) { return gi(i, j, 2); });
    c.fill([&](int i, int j) { return !zb && inT(u, i, j); }, [&](int i, int j) { cx v = gi(i, j, 3); if (h && i == j) v.im = 0; return v; });
    RM P(n, n);
    if (!za) {
        RM X = o == 'N' ? a.get() : h ? H(a.get()) : Tr(a.get()), Y = o == 'N' ? b.get() : h ? H(b.get()) : Tr(b.get());
        if (which == 0) P = al * (X * H(X));
        if (which == 1) P = al * (X * H(Y)) + cj(al) * (Y * H(X));
        if (which == 2) P = al * (X * Tr(X));
        if (which == 3) P = al * (X * Tr(Y)) + al * (Y * Tr(X));
    }
    RM ref = scaled(be, c.get()) + P;
    T aT = mk<T>(al), bT = mk<T>(be);
    {
        ReadOnly ro;
        if (which == 0) A.herk(l, u, o, n, k, (double)al.re, a.ptr(), a.ld, (double)be.re, c.ptr(), c.ld);
        else if (which == 1) A.her2k(l, u, o, n, k, &aT, a.ptr(), a.ld, b.ptr(), b.ld, (double)be.re, c.ptr(), c.ld);
        else if (which == 2) A.syrk(l, u, o, n, k, &aT, a.ptr(), a.ld, &bT, c.ptr(), c.ld);
        else A.syr2k(l, u, o, n, k, &aT, a.ptr(), a.ld, b.ptr(), b.ld, &bT, c.ptr(), c.ld);
    }
    a.same("A");
    if (two) b.same("B");
    c.expect(ref, [&](int i, int j) { return inT(u, i, j); }, "C");
}
MC_HARNESS(trmm_trsm)
{
    const Api& A = pickApi();
    char l = pickLay(), s = pickSd(), u = pickUp(), o = pickTr(), d = pickDg();
    bool solve = mc::flag("solve");
    int m = mc::range("m", 0, N()), n = mc::range("n", 0, N()), pads = mc::choose("pads", 4);
    cx al = pickSc("alpha");
    mc::body();
    start();
    bool za = zero(al);
    int q = s == 'L' ? m : n;
    PM a(l, q, q, pads & 1 ? 2 : 0, true), b(l, m, n, pads & 2 ? 2 : 0, false);
    a.fill([&](int i, int j) { return !za && inT(u, i, j) && !(i == j && d == 'U'); },
           [&](int i, int j) { return i == j ? (i % 2 ? cx(-2) : CPLX ? cx(0, 1) : cx(1)) : gi(i, j, 1); });
    RM S(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) S(i, j) = gi(i, j, 2);
    RM M = za ? RM(q, q) : op(tri(a.get(), u, d), o);
    RM P = s == 'L' ? M * S : S * M;
    RM ini = solve ? P : S, ref = za ? RM(m, n) : solve ? al * S : al * P;
    b.fill([&](int, int) { return !za; }, [&](int i, int j) { return ini(i, j); });
    T aT = mk<T>(al);
    {
        ReadOnly ro;
        (solve ? A.trsm : A.trmm)(l, s, u, o, d, m, n, &aT, a.ptr(), a.ld, b.ptr(), b.ld);
    }
    a.same("A");
    b.expect(ref, ALLW, "B");
}

// ================= invalid arguments are rejected, nothing is touched =================
/// every routine with one argument replaced by an invalid value: must throw and leave all memory as it was
MC_HARNESS(rejects)
{
    const Api& A = pickApi();
    int which = mc::choose("routine", 28);
    char l = pickLay();
    int arg = mc::choose("bad-argument", 9);
    int sz = mc::choose("size", 2) * 2;  // empty operands too
    mc::require(sz == 2 || arg < 6);
    // which arguments each routine has: L layout, S side, U uplo, O op, P second op, D diag, m n k sizes, a b c leading dimensions, x y increments, p positive increment only, H no Trans if complex, Y no ConjTrans if complex
    static const char* sig[28] = {"xpn", "xpn", "xpn", "xyn", "xyn", "xyn", "xyn", "xyn", "xpn", "xyn", "xyFn", "LOaxymn", "Laxymn", "Laxymn", "LUaxyn", "LUaxyn", "LUaxn", "LUaxyn", "LUaxn", "LUaxyn", "LUODaxn", "LUODaxn", "LOPabcmnk", "LSUabcmn", "LSUabcmn", "LUOHacnk", "LUOHabcnk", "LUOYacnk"};
    static const char* kinds[9] = {"L", "S", "U", "OPHY", "D", "F", "abc", "xyp", "mnk"};
    std::vector<char> cand;
    for (const char* c = sig[which]; *c; ++c)
        if (strchr(kinds[arg], *c)) cand.push_back(*c);
    mc::require(!cand.empty());
    char bad = cand[mc::choose("which-argument", (int)cand.size())];
    mc::require(bad != 'm' && bad != 'n' && bad != 'k' ? true : A.isSigned);
    mc::require(!(bad == 'p') || true);
    int variant = (bad == 'x' && strchr(sig[which], 'p')) ? mc::choose("increment(0 or negative)", 2) : (bad == 'F') ? mc::choose("flag(below or above)", 2) : 0;
    mc::require(!((bad == 'H' || bad == 'Y') && !CPLX));
    mc::require(!(which == 10 && !A.rotm) && !(which == 18 && !A.syr));
    mc::require(!(which == 9 && false));
    mc::body();
    start();
    int m = sz, n = sz, k = sz;
    PM a('C', 3, 3, 0, false), b('C', 3, 3, 0, false), c('C', 3, 3, 0, false);
    PV x(5, 1, false), y(5, 1, false);
    auto f = [](int i, int j) { return gi(i, j, 1); };
    a.fill(ALLW, f); b.fill(ALLW, f); c.fill(ALLW, f);
    x.fill([](int i) { return gi(i, 0, 2); }); y.fill([](int i) { return gi(i, 0, 3); });
    long lda = 3, ldb = 3, ldc = 3, ix = 1, iy = 1, lm = m, ln = n, lk = k;
    int L = l, S = 'L', U = 'U', O = 'N', P = 'N', D = 'N';
    LD fl = 0;
    switch (bad) {
        case 'L': L = 7; break;
        case 'S': S = 7; break;
        case 'U': U = 7; break;
        case 'O': O = 7; break;
        case 'P': P = 7; break;
        case 'D': D = 7; break;
        case 'H': O = 'T'; break;
        case 'Y': O = 'C'; break;
        case 'F': fl = variant ? 2 : -3; break;
        case 'a': lda = 1; break;
        case 'b': ldb = 1; break;
        case 'c': ldc = 1; break;
        case 'x': ix = variant ? -1 : 0; break;
        case 'y': iy = 0; break;
        case 'p': ix = -2; break;
        case 'm': lm = -1; break;
        case 'n': ln = -1; break;
        case 'k': lk = -1; break;
    }
    T al = mk<T>(cx(1)), be = mk<T>(cx(2)), out, par[5];
    par[0] = mk<T>(cx(fl));
    for (int q = 1; q < 5; ++q) par[q] = mk<T>(cx(q));
    bool threw = false;
    try {
        switch (which) {
            case 0: A.asum(ln, x.ptr(), ix); break;
            case 1: A.nrm2(ln, x.ptr(), ix); break;
            case 2: A.iamax(ln, x.ptr(), ix); break;
            case 3: A.dot(ln, x.ptr(), ix, y.ptr(), iy, &out); break;
            case 4: A.dotu(ln, x.ptr(), ix, y.ptr(), iy, &out); break;
            case 5: A.axpy(ln, &al, x.ptr(), ix, y.ptr(), iy); break;
            case 6: A.copy(ln, x.ptr(), ix, y.ptr(), iy); break;
            case 7: A.swap(ln, x.ptr(), ix, y.ptr(), iy); break;
            case 8: A.scal(ln, &be, x.ptr(), ix); break;
            case 9: A.rot(ln, x.ptr(), ix, y.ptr(), iy, 2, &be); break;
            case 10: A.rotm(ln, x.ptr(), ix, y.ptr(), iy, par); break;
            case 11: A.gemv(L, O, lm, ln, &al, a.ptr(), lda, x.ptr(), ix, &be, y.ptr(), iy); break;
            case 12: A.ger(L, lm, ln, &al, x.ptr(), ix, y.ptr(), iy, a.ptr(), lda); break;
            case 13: A.geru(L, lm, ln, &al, x.ptr(), ix, y.ptr(), iy, a.ptr(), lda); break;
            case 14: A.hemv(L, U, ln, &al, a.ptr(), lda, x.ptr(), ix, &be, y.ptr(), iy); break;
            case 15: A.symv(L, U, ln, &al, a.ptr(), lda, x.ptr(), ix, &be, y.ptr(), iy); break;
            case 16: A.her(L, U, ln, 2, x.ptr(), ix, a.ptr(), lda); break;
            case 17: A.her2(L, U, ln, &al, x.ptr(), ix, y.ptr(), iy, a.ptr(), lda); break;
            case 18: A.syr(L, U, ln, &al, x.ptr(), ix, a.ptr(), lda); break;
            case 19: A.syr2(L, U, ln, &al, x.ptr(), ix, y.ptr(), iy, a.ptr(), lda); break;
            case 20: A.trmv(L, U, O, D, ln, a.ptr(), lda, x.ptr(), ix); break;
            case 21: A.trsv(L, U, O, D, ln, a.ptr(), lda, x.ptr(), ix); break;
            case 22: A.gemm(L, O, P, lm, ln, lk, &al, a.ptr(), lda, b.ptr(), ldb, &be, c.ptr(), ldc); break;
            case 23: A.symm(L, S, U, lm, ln, &al, a.ptr(), lda, b.ptr(), ldb, &be, c.ptr(), ldc); break;
            case 24: A.hemm(L, S, U, lm, ln, &al, a.ptr(), lda, b.ptr(), ldb, &be, c.ptr(), ldc); break;
            case 25: A.herk(L, U, O, ln, lk, 1, a.ptr(), lda, 2, c.ptr(), ldc); break;
            case 26: A.her2k(L, U, O, ln, lk, &al, a.ptr(), lda, b.ptr(), ldb, 2, c.ptr(), ldc); break;
            case 27: A.syrk(L, U, O, ln, lk, &al, a.ptr(), lda, &be, c.ptr(), ldc); break;
        }
    }
    catch (const std::exception&) {
        threw = true;
    }
    a.same("A"); b.same("B"); c.same("C"); x.same("x"); y.same("y");
    // a negative length of a vector operation may be treated as an empty vector; everything else must throw
    if (which <= 10 && bad == 'n') return;
    MC_CHECK(threw, "accepted", "invalid argument '%c' of routine #%d (%s) was accepted", bad, which, A.name);
}
MC_HARNESS(rejects3)
{
    const Api& A = pickApi();
    int which = mc::choose("op(syr2k,trmm,trsm)", 3);
    char l = pickLay();
    static const char* sig[3] = {"LUOYabcnk", "LSUODabmn", "LSUODabmn"};
    char bad = sig[which][mc::choose("bad", (int)strlen(sig[which]))];
    int sz = mc::choose("size", 2) * 2;
    mc::require(sz == 2 || strchr("LSUODY", bad));
    mc::require(!(bad == 'Y' && !CPLX));
    mc::require(strchr("mnk", bad) ? A.isSigned : true);
    mc::body();
    start();
    PM a('C', 3, 3, 0, false), b('C', 3, 3, 0, false), c('C', 3, 3, 0, false);
    auto f = [](int i, int j) { return gi(i, j, 1); };
    a.fill(ALLW, f); b.fill(ALLW, f); c.fill(ALLW, f);
    long lda = bad == 'a' ? 1 : 3, ldb = bad == 'b' ? 1 : 3, ldc = bad == 'c' ? 1 : 3, m = bad == 'm' ? -1 : sz, n = bad == 'n' ? -1 : sz, k = bad == 'k' ? -1 : sz;
    int L = bad == 'L' ? 7 : l, S = bad == 'S' ? 7 : 'L', U = bad == 'U' ? 7 : 'U', O = bad == 'O' ? 7 : bad == 'Y' ? 'C' : 'N', D = bad == 'D' ? 7 : 'N';
    T al = mk<T>(cx(1)), be = mk<T>(cx(2));
    bool threw = false;
    try {
        if (which == 0) A.syr2k(L, U, O, n, k, &al, a.ptr(), lda, b.ptr(), ldb, &be, c.ptr(), ldc);
        else (which == 1 ? A.trmm : A.trsm)(L, S, U, O, D, m, n, &al, a.ptr(), lda, b.ptr(), ldb);
    }
    catch (const std::exception&) {
        threw = true;
    }
    a.same("A"); b.same("B"); c.same("C");
    MC_CHECK(threw, "accepted", "invalid argument '%c' of op %d (%s) was accepted", bad, which, A.name);
}
#ifdef MC_FORTRAN
    #include "c23_fortran.hpp"
#endif
MC_MAIN
