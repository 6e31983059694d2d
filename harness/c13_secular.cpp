// C13: secular equation solvers laed4, laed5, laed6.
#include "mat.hpp"
#include <tlapack/base/constants.hpp>
#include <tlapack/lapack/laed4.hpp>
#include <tlapack/lapack/laed5.hpp>
#include <tlapack/lapack/laed6.hpp>

/// root i of 1 + rho*sum z_j^2/(d_j - x), as offset from origin pole o (80-bit bisection)
static LD refRoot(const std::vector<R>& d, const std::vector<R>& z, LD rho, int i, int& o)
{
    int n = d.size();
    auto f = [&](int org, LD t) {
        LD s = 1;
        for (int j = 0; j < n; ++j) s += rho * (LD)z[j] * z[j] / (((LD)d[j] - d[org]) - t);
        return s;
    };
    LD lo, hi;
    if (i == n - 1) {
        LD zz = 0;
        for (auto x : z) zz += (LD)x * x;
        o = i, lo = 0, hi = rho * zz * (1 + 1e-15L) ;
    }
    else {
        LD g = (LD)d[i + 1] - d[i];
        if (f(i, g / 2) > 0) o = i, lo = 0, hi = g / 2;
        else o = i + 1, lo = -g / 2, hi = 0;
    }
    for (int it = 0; it < 400; ++it) {
        LD m = (lo + hi) / 2;
        if (m == lo || m == hi) break;
        if (f(o, m) > 0) hi = m; else lo = m;
    }
    return (lo + hi) / 2;
}
static void checkLaed4(const std::vector<R>& d, const std::vector<R>& z, R rho)
{
    int n = d.size();
    LD prev = -INFINITY;
    for (int i = 0; i < n; ++i) {
        std::vector<R> dd = d, zz = z, delta(n, nanOf<R>());
        R lam = nanOf<R>();
        int info = tl::laed4((size_t)n, (size_t)i, dd, zz, delta, rho, lam);
        // documented failure code: only tolerated for the last root when the two last poles nearly coincide
        // and both carry a negligible weight (fixed-weight iteration runs out of its 30 steps)
        if (info == 1 && n > 3 && i == n - 1 && (LD)d[i] - d[i - 1] <= 1e-7L * rho && fabsl(z[i]) <= 1e-7L && fabsl(z[i - 1]) <= 1e-7L) {
            MC_CHECK((LD)lam >= d[i] && (LD)lam <= ((LD)d[i] + rho) * (1 + 8 * n * EPS), "interlace", "unconverged root outside its interval");
            continue;
        }
        MC_CHECK(info == 0, "info", "laed4 root %d returned %d", i, info);
        MC_CHECK(dd == d && zz == z, "input-modified", "laed4 changed d or z");
        MC_CHECK(std::isfinite(lam), "finite", "root %d is %Lg", i, (LD)lam);
        LD top = i + 1 < n ? (LD)d[i + 1] : (LD)d[i] + (LD)rho * (1 + 8 * n * EPS);
        MC_CHECK((LD)lam >= d[i] && (LD)lam <= top + 4 * EPS * fabsl(top), "interlace", "root %d = %.17Lg outside [%.17Lg,%.17Lg]", i, (LD)lam, (LD)d[i], top);
        MC_CHECK((LD)lam >= prev, "interlace", "root %d smaller than previous", i);
        prev = lam;
        int o;
        LD t = refRoot(d, z, rho, i, o);
        LD ref = (LD)d[o] + t, nrm = std::max(fabsl(d[0]), fabsl(d[n - 1])) + rho;
        cmpElt(cx(lam), cx(ref), 30 * n * EPS * nrm, "root", "lambda", i, 0);
        if (n == 1) { MC_CHECK(delta[0] == 1, "delta1", "delta for n=1"); continue; }
        if (n == 2) {
            // delta holds the normalised eigenvector
            LD a = delta[0], b = delta[1];
            cmpElt(cx(a * a + b * b), cx(1), 20 * EPS, "vector-norm", "delta", i, 0);
            // (D + rho z z^T) v = lam v
            LD s = (LD)z[0] * a + (LD)z[1] * b;
            cmpElt(cx(d[0] * a + rho * z[0] * s), cx(ref * a), 60 * EPS * nrm, "vector", "row", 0, i);
            cmpElt(cx(d[1] * b + rho * z[1] * s), cx(ref * b), 60 * EPS * nrm, "vector", "row", 1, i);
            continue;
        }
        // delta[j] = d[j]-lambda to high relative accuracy: secular residual within the backward-stable bound
        LD w = 1 / (LD)rho, aw = w, dw = 0;
        for (int j = 0; j < n; ++j) {
            MC_CHECK(delta[j] != 0, "delta-zero", "delta[%d] is zero for root %d", j, i);
            MC_CHECK((j <= i) == (delta[j] < 0), "delta-sign", "delta[%d]=%Lg for root %d", j, (LD)delta[j], i);
            LD q = (LD)z[j] / delta[j];
            w += z[j] * q;
            aw += fabsl(z[j] * q);
            dw += q * q;
            LD ex = ((LD)d[j] - d[o]) - t;
            cmpElt(cx(delta[j]), cx(ex), 30 * n * EPS * nrm, "delta", "delta", j, i);
        }
        LD tau = -(LD)delta[o];
        small(fabsl(w), 40 * n * EPS * (aw + fabsl(tau) * dw), "secular", "secular equation");
        mc::mixd(lam);
    }
}
static R gapv(int k)
{
    switch (k) {
        case 0: return 1;
        case 1: return (R)0.001L;
        case 2: return (R)(EPS * 64);
        case 3: return 40;
        default: return (R)sqrtl(EPS);
    }
}
static R wv(int k)
{
    switch (k) {
        case 0: return 1;
        case 1: return (R)(1 / 64.L);
        case 2: return (R)(EPS * 64);
        case 3: return -1;
        default: return (R)sqrtl(EPS);
    }
}
static const LD RHO[] = {1, 0.001L, 64, 1e-5L};
MC_HARNESS(secular_all)
{
    int n = mc::range("n", 1, mc::thorough() ? 6 : 5);
    static const int gq[] = {0, 5, 5, 5, 4, 3, 2}, gt[] = {0, 5, 5, 5, 5, 4, 3};
    int na = (mc::thorough() ? gt : gq)[n];
    int o = mc::choose("origin", n <= 3 ? 3 : 1);
    std::vector<R> d(n), z(n);
    R base = o == 0 ? R(0) : o == 1 ? R(-1) : R(10);
    for (int i = 0; i < n; ++i) {
        if (i) base = base + gapv(mc::choose("gap", na));
        d[i] = base;
        z[i] = wv(mc::choose("z", na));
    }
    int r = mc::choose("rho", n <= 4 ? 4 : 3);
    mc::body();
    for (int i = 1; i < n; ++i) if (!(d[i] > d[i - 1])) throw mc::Prune{};
    LD s = 0;
    for (auto x : z) s += (LD)x * x;
    s = sqrtl(s);
    for (auto& x : z) x = (R)(x / s);
    checkLaed4(d, z, (R)RHO[r]);
}
MC_HARNESS(secular_families)
{
    int n = mc::pick("n", {3, 4, 5, 6, 8, 10, 16, 25});
    int fd = mc::choose("poles", 6), fz = mc::choose("weights", 5), r = mc::choose("rho", 4);
    mc::body();
    std::vector<R> d(n), z(n);
    LD b = 0, s = 0;
    for (int i = 0; i < n; ++i) {
        d[i] = (R)b;
        b += fd == 0 ? 1 : fd == 1 ? 0.01L : fd == 2 ? (i & 1 ? 1 : 1e-3L) : fd == 3 ? powl(2, i % 12) : fd == 4 ? powl(2, -(i % 10)) : fabsl(gen1(i, 0, 3));
        LD w = fz == 0 ? 1 : fz == 1 ? gen1(i, 1, 4) : fz == 2 ? powl(2, -(i % 15)) : fz == 3 ? (i & 1 ? 1 : 1e-4L) : powl(2, (i % 15));
        z[i] = (R)w;
        s += (LD)z[i] * z[i];
    }
    for (auto& x : z) x = (R)(x / sqrtl(s));
    checkLaed4(d, z, (R)RHO[r]);
}
MC_HARNESS(laed6_all)
{
    // poles around 0, all signs of f(0), both origins
    static const LD PV[] = {1, 0.01L, 50, 1e-6L};
    int na = mc::thorough() ? 4 : 3;
    bool org = mc::flag("orgati");
    int kn = mc::range("kniter", 1, 2);
    LD p = PV[mc::choose("left", na)], q = PV[mc::choose("right", na)], g = PV[mc::choose("gap", na)];
    R z0 = (R)PV[mc::choose("z0", na)], z1 = (R)PV[mc::choose("z1", na)], z2 = (R)PV[mc::choose("z2", na)];
    static const LD RH[] = {1, 0.1L, 30, 0, -0.5L};
    R rho = (R)RH[mc::choose("rho", 5)];
    int sc = mc::choose("scale", 4);
    mc::body();
    // f does not change when poles and weights are scaled together: the two rescaled regimes, and a large one
    {
        int me = std::numeric_limits<R>::min_exponent;
        LD s = sc == 0 ? 1 : ldexpl(1, sc == 1 ? me * 9 / 20 : sc == 2 ? me * 3 / 4 : -me / 3);
        p *= s; q *= s; g *= s; z0 *= (R)s; z1 *= (R)s; z2 *= (R)s;
    }
    std::vector<R> d(3), z{z0, z1, z2};
    if (org) d[1] = (R)-p, d[2] = (R)q, d[0] = (R)(-p - g);
    else d[0] = (R)-p, d[1] = (R)q, d[2] = (R)(q + g);
    auto f = [&](LD x) { LD s = rho; for (int j = 0; j < 3; ++j) s += (LD)z[j] / ((LD)d[j] - x); return s; };
    R fin = (R)f(0), tau = nanOf<R>();
    auto d1 = d; auto z1v = z;
    int info = tl::laed6((size_t)kn, org, rho, d1, z1v, fin, tau);
    MC_CHECK(info == 0, "info", "laed6 returned %d", info);
    MC_CHECK(d1 == d && z1v == z, "input-modified", "laed6 changed d or z");
    LD lo = org ? d[1] : d[0], hi = org ? d[2] : d[1];
    MC_CHECK((LD)tau >= lo && (LD)tau <= hi, "bracket", "tau=%Lg outside (%Lg,%Lg)", (LD)tau, lo, hi);
    if (fin == 0) { MC_CHECK(fabsl(tau) <= EPS * std::min(fabsl(lo), fabsl(hi)), "root", "tau=%Lg but f(0)=0", (LD)tau); return; }
    // an iterate that lands exactly on a pole ends the iteration; the caller's bracket handles it
    for (int j = 0; j < 3; ++j) if (tau == d[j]) { mc::note(1); return; }
    // reference root of finit + (f(x)-f(0)), bisection
    auto gfun = [&](LD x) { LD s = fin; for (int j = 0; j < 3; ++j) s += x * ((LD)z[j] / (d[j] * ((LD)d[j] - x))); return s; };
    LD a = fin < 0 ? 0 : lo, b = fin < 0 ? hi : 0;
    for (int it = 0; it < 300; ++it) { LD m = (a + b) / 2; if (m == a || m == b) break; if (gfun(m) > 0) b = m; else a = m; }
    LD t = (a + b) / 2;
    // either the root itself to rounding, or a point whose residual is within the evaluation error of f
    LD err = fabsl(fin), df = 0;
    for (int j = 0; j < 3; ++j) { LD u = (LD)d[j] - tau; err += fabsl(tau * (LD)z[j] / (u * d[j])); df += z[j] / (u * u); }
    if (fabsl(tau - t) > 32 * EPS * fabsl(t) + 2 * (LD)std::numeric_limits<R>::denorm_min()) small(fabsl(gfun(tau)), 64 * EPS * (err + fabsl(tau) * df), "root", "f(tau)");
    mc::mixd(tau);
}
MC_MAIN
