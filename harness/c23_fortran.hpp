// Fortran module (src/tlapack.f90): xAXPY, SNRM2, SSYMM through bind(C) drivers that call the module like a Fortran program.
extern "C" {
void fdrv_axpy_s(size_t, float, float*, int64_t, float*, int64_t);
void fdrv_axpy_d(size_t, double, double*, int64_t, double*, int64_t);
void fdrv_axpy_c(size_t, void*, void*, int64_t, void*, int64_t);
void fdrv_axpy_z(size_t, void*, void*, int64_t, void*, int64_t);
float fdrv_snrm2(size_t, float*, int64_t);
void fdrv_ssymm(char, char, char, size_t, size_t, float, float*, size_t, float*, size_t, float, float*, size_t);
}
MC_HARNESS(fortran_axpy)
{
    int n = mc::range("n", 0, N() + 2), ix = pickInc("incx"), iy = pickInc("incy");
    cx al = pickSc("alpha");
    mc::body();
    start();
    PV x(n, ix, true), y(n, iy, false);
    if (zero(al)) x.poison(); else x.fill([](int i) { return gi(i, 0, 1); });
    y.fill([](int i) { return gi(i, 0, 2); });
    RM X = x.get(), Y = y.get();
    T a = mk<T>(al);
    {
        ReadOnly ro;
#if MC_TYPE == 's'
        fdrv_axpy_s(n, a, x.ptr(), ix, y.ptr(), iy);
#elif MC_TYPE == 'd'
        fdrv_axpy_d(n, a, x.ptr(), ix, y.ptr(), iy);
#elif MC_TYPE == 'c'
        fdrv_axpy_c(n, &a, x.ptr(), ix, y.ptr(), iy);
#else
        fdrv_axpy_z(n, &a, x.ptr(), ix, y.ptr(), iy);
#endif
    }
    for (int i = 0; i < n; ++i)
        if (!zero(al)) Y(i, 0) = Y(i, 0) + al * X(i, 0);
    y.expect(Y, "y");
    x.same("x");
}
#if MC_TYPE == 's'
MC_HARNESS(fortran_snrm2)
{
    int n = mc::range("n", 0, N() + 2), ix = mc::pick("incx", {1, 2, 3});
    mc::body();
    start();
    PV x(n, ix, true);
    x.fill([](int i) { return cx(i == 0 ? 3 : i == 1 ? -4 : i == 2 ? 12 : i == 3 ? 84 : 0); });
    LD ref = n == 0 ? 0 : n == 1 ? 3 : n == 2 ? 5 : n == 3 ? 13 : 85;
    float g;
    {
        ReadOnly ro;
        g = fdrv_snrm2(n, x.ptr(), ix);
    }
    MC_CHECK(fabsl(g - ref) <= 4 * EPS * ref, "wrong-result", "snrm2 %g instead of %Lg", g, ref);
    x.same("x");
}
MC_HARNESS(fortran_ssymm)
{
    char l = pickLay(), s = pickSd(), u = pickUp();
    int m = mc::range("m", 0, N()), n = mc::range("n", 0, N()), pa = pickPad("pada"), pc = pickPad("padc");
    cx al = pickSc("alpha"), be = pickSc("beta");
    mc::body();
    start();
    int q = s == 'L' ? m : n;
    PM a(l, q, q, pa, true), b(l, m, n, pa, true), c(l, m, n, pc, false);
    a.fill([&](int i, int j) { return inT(u, i, j); }, [](int i, int j) { return gi(i, j, 1); });
    b.fill(ALLW, [](int i, int j) { return gi(i, j, 2); });
    c.fill([&](int, int) { return !zero(be); }, [](int i, int j) { return gi(i, j, 3); });
    RM A(q, q), B = b.get(), C = c.get();
    for (int i = 0; i < q; ++i)
        for (int j = 0; j < q; ++j) A(i, j) = up(inT(u, i, j) ? a.p[a.off(i, j)] : a.p[a.off(j, i)]);
    {
        ReadOnly ro;
        fdrv_ssymm(l, s, u, m, n, (float)al.re, a.ptr(), a.ld, b.ptr(), b.ld, (float)be.re, c.ptr(), c.ld);
    }
    c.expect(plus(al, s == 'L' ? A * B : B * A, be, C), ALLW, "C");
    a.same("A"); b.same("B");
}
#endif
