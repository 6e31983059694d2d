// C19: kernels that are safe against spurious overflow/underflow, over the exponent lattice of the type.
#include "refl.hpp"
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lapy3.hpp>
#include <tlapack/lapack/ladiv.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/lascl.hpp>
typedef std::numeric_limits<R> NL;
static const int EMIN = NL::min_exponent - NL::digits, EMAX = NL::max_exponent - 1, PD = NL::digits;
static const LD DMIN = NL::denorm_min(), BIG = NL::max();
/// every exponent of the type; `step` thins the middle but keeps everything near the ends and near the square roots
static std::vector<int> exps(int step)
{
    std::vector<int> v;
    for (int e = EMIN; e <= EMAX; ++e) {
        bool edge = false;
        for (int q : {EMIN, NL::min_exponent - 1, NL::min_exponent - 1 + PD, (NL::min_exponent - 1) / 2, (NL::min_exponent - PD) / 2, 0, EMAX / 2, (EMAX - PD) / 2, (EMAX + PD) / 2, EMAX - PD, EMAX})
            edge |= abs(e - q) <= 2;
        if (edge || (e - EMIN) % step == 0) v.push_back(e);
    }
    return v;
}
/// about two dozen exponents around everything that matters
static const std::vector<int>& coarse()
{
    static std::vector<int> v;
    if (v.empty()) {
        int m = NL::min_exponent - 1;
        for (int e : {EMIN, EMIN + 1, EMIN + PD / 2, m - 1, m, m + 1, m + PD, m + PD + 1, (m - PD) / 2, m / 2 - 1, m / 2, (m + PD) / 2 + 1, -PD - 1, -PD / 2, -1, 0, 1, PD, (EMAX - PD) / 2 - 1, (EMAX - PD) / 2 + 2, EMAX / 2, EMAX / 2 + 1, EMAX - PD, EMAX - 3, EMAX - 1, EMAX})
            v.push_back(e);
    }
    return v;
}
static LD mant(int k)
{
    switch (k) {
        case 0: return 1;
        case 1: return 1 + EPS;
        case 2: return 2 - EPS;
        case 3: return 1.5L + 5 * EPS;
        default: return 1.25L;
    }
}
static LD val(int e, int k) { return (LD)(R)ldexpl(mant(k), e); }
static bool isBig(LD x) { return !(x <= BIG * (1 - 16 * EPS)); }
static void rel(LD got, LD want, LD tol, const char* key, const char* what, LD a, LD b, LD c = 0, LD d = 0)
{
    mc::E().checks++;
    if (!(fabsl(got - want) <= tol * fabsl(want) + 2 * DMIN)) mc::fail(key, "%s(%La, %La, %La, %La) = %La instead of %La", what, a, b, c, d, got, want);
}
static LD hyp(LD x, LD y) { return sqrtl(x * x + y * y); }

MC_HARNESS(constants)
{
    mc::body();
    // the documented definitions of the scaling constants
    LD u = tl::uroundoff<R>(), p = tl::ulp<R>();
    MC_CHECK(p == ldexpl(1, 1 - PD), "ulp", "ulp is %La", p);
    MC_CHECK(u == p / 2 && tl::digits<R>() == PD, "uroundoff", "unit roundoff is %La", u);
    R sm = tl::safe_min<R>(), sM = tl::safe_max<R>();
    MC_CHECK((LD)sm == ldexpl(1, NL::min_exponent - 1) && std::isfinite(1 / sm) && (LD)sM * (LD)sm == 1, "safe_min", "safe_min %La safe_max %La", (LD)sm, (LD)sM);
    LD b = tl::blue_min<R>(), B = tl::blue_max<R>(), s = tl::blue_scalingMin<R>(), S = tl::blue_scalingMax<R>();
    MC_CHECK(b == ldexpl(1, (int)ceill((NL::min_exponent - 1) / 2.0L)), "blue_min", "%La", b);
    MC_CHECK(B == ldexpl(1, (int)floorl((NL::max_exponent - PD + 1) / 2.0L)), "blue_max", "%La", B);
    MC_CHECK(s == ldexpl(1, -(int)floorl((NL::min_exponent - PD) / 2.0L)), "blue_scalingMin", "%La", s);
    MC_CHECK(S == ldexpl(1, -(int)ceill((NL::max_exponent + PD - 1) / 2.0L)), "blue_scalingMax", "%La", S);
}
static int STEP() { return PD == 24 ? 1 : mc::thorough() ? 3 : 12; }

MC_HARNESS(hypot2)
{
    auto ex = exps(STEP());
    int a = mc::choose("exponent of x", (int)ex.size() + 1), s = mc::choose("signs", 4);
    mc::body();
    uint64_t st = 0;
    for (int b = 0; b <= (int)ex.size(); ++b)
        for (int k = 0; k < 16; ++k) {
            if (s && k % 5) continue;
            LD x = a ? val(ex[a - 1], k & 3) : 0, y = b ? val(ex[b - 1], k >> 2) : 0;
            if (s & 1) x = -x;
            if (s & 2) y = -y;
            LD h = hyp(x, y), g = tl::lapy2((R)x, (R)y);
            ++st;
            if (isBig(h)) continue;
            rel(g, h, 3 * EPS, "lapy2", "lapy2", x, y);
            if (x == 0 || y == 0) MC_CHECK(g == fabsl(x + y), "lapy2-exact", "lapy2(%La,%La) = %La", x, y, g);
        }
    mc::addStates(st, st);
}
MC_HARNESS(hypot3)
{
    auto& ex = coarse();
    int n = (int)ex.size() + 1, a = mc::choose("exponent of x", n), b = mc::choose("exponent of y", n), s = mc::choose("signs", 2);
    mc::body();
    uint64_t st = 0;
    for (int c = 0; c < n; ++c)
        for (int k = 0; k < 27; ++k) {
            LD x = a ? val(ex[a - 1], k % 3 + 1) : 0, y = b ? val(ex[b - 1], k / 3 % 3 + 1) : 0, z = c ? val(ex[c - 1], k / 9 + 1) : 0;
            if (s) { x = -x; if (k & 1) z = -z; }
            LD h = sqrtl(x * x + y * y + z * z), g = tl::lapy3((R)x, (R)y, (R)z);
            ++st;
            if (isBig(h)) continue;
            rel(g, h, 6 * EPS, "lapy3", "lapy3", x, y, z);
        }
    mc::addStates(st, st);
}
/// vectors of length up to 4 (complex entries take two lattice values each)
MC_HARNESS(norm2)
{
    auto& ex = coarse();
    int n = mc::range("n", 0, 4), N = (int)ex.size() + 1;
    LD v[4] = {0, 0, 0, 0};
    std::vector<int> e;
    for (int i = 0; i < n; ++i) {
        // the last entries of longer vectors take a subset, the first is complete
        if (n == 4 && i >= 2 && !mc::thorough()) { int q = mc::choose("e", 6); e.push_back(q ? 1 + (q * (N - 1)) / 6 : 0); }
        else e.push_back(mc::choose("e", N));
    }
    mc::body();
    uint64_t st = 0;
    for (int k = 0; k < 4; ++k) {
        for (int i = 0; i < n; ++i) v[i] = e[i] ? val(ex[e[i] - 1], (k + i) & 3) * ((k + i) % 3 == 1 ? -1 : 1) : 0;
        LD q = 0;
        for (int i = 0; i < n; ++i) q += v[i] * v[i];
        LD h = sqrtl(q);
        ++st;
        if (isBig(h)) continue;
        // real vector
        {
            std::vector<R> x(v, v + n);
            tl::LegacyVector<R, size_t> xv(n, x.data());
            LD g = tl::nrm2(xv);
            rel(g, h, (n + 6) * EPS, "nrm2", "nrm2", v[0], v[1], v[2], v[3]);
            R sc = 1, sq = 0;
            tl::lassq(xv, sc, sq);
            rel((LD)sc * sqrtl((LD)sq), h, (n + 6) * EPS, "lassq", "lassq", v[0], v[1], v[2], v[3]);
            MC_CHECK(std::isfinite(sc) && std::isfinite(sq), "lassq-finite", "lassq: scale %La sumsq %La", (LD)sc, (LD)sq);
        }
#ifndef MC_REAL
        if (n % 2 == 0) {
            std::vector<T> x;
            for (int i = 0; i + 1 < n; i += 2) x.push_back(T((R)v[i], (R)v[i + 1]));
            tl::LegacyVector<T, size_t> xv(n / 2, x.data());
            LD g = tl::nrm2(xv);
            rel(g, h, (n + 6) * EPS, "nrm2-complex", "nrm2", v[0], v[1], v[2], v[3]);
        }
#endif
    }
    mc::addStates(st, st);
}
MC_HARNESS(lassq_update)
{
    // scale^2 sumsq + sum x_i^2 for every starting representation
    auto& ex = coarse();
    int N = (int)ex.size() + 1, a = mc::choose("scale", N), b = mc::choose("sumsq", N), n = mc::range("n", 0, 2);
    int c = n > 0 ? mc::choose("x0", N) : 0, d = n > 1 ? mc::choose("x1", mc::thorough() ? N : 7) : 0;
    if (!mc::thorough() && d) d = 1 + (d - 1) * (N - 1) / 6;
    mc::require(d < N);
    mc::body();
    for (int k = 0; k < 2; ++k) {
        LD s = a ? val(ex[a - 1], 3 - k) : 0, q = b ? val(ex[b - 1], k + 1) : 0, x0 = c ? val(ex[c - 1], 1 + 2 * k) : 0, x1 = d ? val(ex[d - 1], k) : 0;
        LD t0 = s * s * q, tot = t0 + x0 * x0 + x1 * x1, h = sqrtl(tot);
        // the norms must be representable
        if (isBig(h) || (h != 0 && h < DMIN * 4) || (t0 != 0 && (isBig(s * sqrtl(q)) || s * sqrtl(q) < (LD)NL::min()))) continue;
        std::vector<R> x{(R)x0, (R)x1};
        tl::LegacyVector<R, size_t> xv(n, x.data());
        R sc = (R)s, sq = (R)q;
        tl::lassq(xv, sc, sq);
        rel((LD)sc * sqrtl((LD)sq), h, 10 * EPS, "lassq-update", "lassq(scale,sumsq,x0,x1)", s, q, x0, x1);
        MC_CHECK(std::isfinite(sc) && std::isfinite(sq), "lassq-finite", "lassq(%La,%La,%La,%La): scale %La sumsq %La", s, q, x0, x1, (LD)sc, (LD)sq);
    }
}
MC_HARNESS(division)
{
    auto& ex = coarse();
    int N = (int)ex.size() + 1, c = mc::choose("exponent of re(y)", N), d = mc::choose("exponent of im(y)", N), s = mc::choose("signs", 4);
    mc::require(c || d);
    mc::body();
    uint64_t st = 0;
    for (int a = 0; a < N; ++a)
        for (int b = 0; b < N; ++b)
            for (int k = 0; k < 3; ++k) {
                LD A = a ? val(ex[a - 1], k) : 0, B = b ? val(ex[b - 1], 2 * k & 3) : 0, C = c ? val(ex[c - 1], 3 - k) : 0, D = d ? val(ex[d - 1], (k + 1) & 3) : 0;
                if (s & 1) B = -B;
                if (s & 2) D = -D;
                // exact quotient, scaled by powers of two so that the 80-bit evaluation is safe
                LD den = C * C + D * D;
                cx z((A * C + B * D) / den, (B * C - A * D) / den);
                ++st;
                LD m = hyp(z.re, z.im);
                if (isBig(m)) continue;
                R p, q;
                tl::ladiv((R)A, (R)B, (R)C, (R)D, p, q);
                LD er = hyp((LD)p - z.re, (LD)q - z.im);
                mc::E().checks++;
                if (!(er <= 12 * EPS * m + 4 * DMIN)) mc::fail("ladiv", "(%La + %La i)/(%La + %La i) = (%La, %La) instead of (%La, %La)", A, B, C, D, (LD)p, (LD)q, z.re, z.im);
#ifndef MC_REAL
                T w = tl::ladiv(T((R)A, (R)B), T((R)C, (R)D));
                if (!(w.real() == p && w.imag() == q)) mc::fail("ladiv-complex", "complex interface differs");
#endif
            }
    mc::addStates(st, st);
}
#ifdef MC_REAL
MC_HARNESS(rotation)
{
    auto ex = exps(STEP());
    int ia = mc::choose("exponent of a", (int)ex.size() + 1), s = mc::choose("signs", 4);
    mc::body();
    uint64_t st = 0;
    for (int ib = 0; ib <= (int)ex.size(); ++ib)
        for (int k = 0; k < 16; ++k) {
            if (k % 3 && (s == 1 || s == 2)) continue;
            LD a = ia ? val(ex[ia - 1], k & 3) : 0, b = ib ? val(ex[ib - 1], k >> 2) : 0;
            if (s & 1) a = -a;
            if (s & 2) b = -b;
            LD h = hyp(a, b), sg = fabsl(a) > fabsl(b) ? (a < 0 ? -1 : 1) : (b < 0 ? -1 : 1), r = sg * h;
            R A = (R)a, B = (R)b, c = NAN, sn = NAN;
            tl::rotg(A, B, c, sn);
            R c2, s2, r2;
            tl::lartg((R)a, (R)b, c2, s2, r2);
            MC_CHECK(c2 == c && s2 == sn && r2 == A, "lartg", "lartg(%La,%La) differs from rotg", a, b);
            ++st;
            if (b == 0) { MC_CHECK(c == 1 && sn == 0 && (LD)A == a && B == 0, "rotg-zero", "rotg(%La,0): c=%La s=%La r=%La z=%La", a, (LD)c, (LD)sn, (LD)A, (LD)B); continue; }
            if (a == 0) { MC_CHECK(c == 0 && sn == 1 && (LD)A == b && B == 1, "rotg-zero", "rotg(0,%La): c=%La s=%La r=%La z=%La", b, (LD)c, (LD)sn, (LD)A, (LD)B); continue; }
            rel(c, a / r, 6 * EPS, "rotg-c", "c of rotg", a, b);
            rel(sn, b / r, 6 * EPS, "rotg-s", "s of rotg", a, b);
            if (!isBig(h)) rel(A, r, 6 * EPS, "rotg-r", "r of rotg", a, b);
            LD z = fabsl(a) > fabsl(b) ? (LD)sn : c != 0 ? 1 / (LD)c : 1;
            if (!isBig(fabsl(z))) rel(B, z, 2 * EPS, "rotg-z", "z of rotg", a, b);
        }
    mc::addStates(st, st);
}
#else
MC_HARNESS(rotation)
{
    auto& ex = coarse();
    int N = (int)ex.size() + 1, i = mc::choose("re a", N), j = mc::choose("im a", N), s = mc::choose("signs", 4);
    mc::body();
    uint64_t st = 0;
    for (int k = 0; k < N; ++k)
        for (int l = 0; l < N; ++l)
            for (int m = 0; m < 3; ++m) {
                cx a(i ? val(ex[i - 1], m) : 0, j ? val(ex[j - 1], (m + 2) & 3) : 0), b(k ? val(ex[k - 1], 3 - m) : 0, l ? val(ex[l - 1], m + 1) : 0);
                if (s & 1) a.im = -a.im;
                if (s & 2) b.re = -b.re;
                LD na = hyp(a.re, a.im), nb = hyp(b.re, b.im), h = hyp(na, nb);
                T A((R)a.re, (R)a.im), B((R)b.re, (R)b.im), sn(NAN, NAN);
                R c = NAN;
                tl::rotg(A, B, c, sn);
                ++st;
                cx gs = up(sn), gr = up(A);
                if (nb == 0) { MC_CHECK(c == 1 && gs == cx(0) && gr == a, "rotg-zero", "rotg(a,0): c=%La", (LD)c); continue; }
                cx ws, wr;
                LD wc;
                if (na == 0) { wc = 0; ws = cx(b.re / nb, -b.im / nb); wr = cx(nb); }
                else {
                    wc = na / h;
                    cx ph(a.re / na, a.im / na);
                    ws = cx(b.re / h, -b.im / h) * ph;
                    wr = ph * cx(h);
                }
                if (na == 0 && c != 0) mc::fail("rotg-zero", "rotg(0,b): c = %La", (LD)c);
                rel(c, wc, 10 * EPS, "rotg-c", "c of rotg", a.re, a.im, b.re, b.im);
                LD es = hyp(gs.re - ws.re, gs.im - ws.im), er = hyp(gr.re - wr.re, gr.im - wr.im);
                mc::E().checks += 2;
                if (!(es <= 12 * EPS * hyp(ws.re, ws.im) + 4 * DMIN)) mc::fail("rotg-s", "rotg((%La,%La),(%La,%La)): s=(%La,%La) instead of (%La,%La)", a.re, a.im, b.re, b.im, gs.re, gs.im, ws.re, ws.im);
                if (!isBig(h) && !(er <= 12 * EPS * h + 4 * DMIN)) mc::fail("rotg-r", "rotg((%La,%La),(%La,%La)): r=(%La,%La) instead of (%La,%La)", a.re, a.im, b.re, b.im, gr.re, gr.im, wr.re, wr.im);
            }
    mc::addStates(st, st);
}
#endif
MC_HARNESS(reflector)
{
    // larfg on [alpha; x] with entries anywhere on the lattice
    auto& ex = coarse();
    int N = (int)ex.size() + 1, a = mc::choose("re alpha", N), b = CPLX ? mc::choose("im alpha", N) : mc::choose("x1", N), s = mc::choose("signs", 2);
    mc::body();
    uint64_t st = 0;
    for (int c = 0; c < N; ++c)
        for (int d = 0; d < (CPLX ? N : 1); ++d)
            for (int k = 0; k < 2; ++k) {
                LD A = a ? val(ex[a - 1], k) : 0, B = b ? val(ex[b - 1], 3 - k) : 0, C = c ? val(ex[c - 1], 2 * k) : 0, D = d ? val(ex[d - 1], k + 1) : 0;
                if (s) { A = -A; D = -D; }
                cx al = CPLX ? cx(A, B) : cx(A);
                std::vector<cx> x0;
                if (CPLX) x0 = {cx(C, D)};
                else x0 = {cx(B), cx(C)};
                LD q = ab(al) * ab(al);
                for (auto& t : x0) q += ab(t) * ab(t);
                LD h = sqrtl(q);
                ++st;
                if (!(h <= BIG / 2)) continue;  // alpha - beta must be representable
                std::vector<T> x;
                for (auto& t : x0) x.push_back(mk<T>(t));
                tl::LegacyVector<T, size_t> xv(x.size(), x.data());
                T alpha = mk<T>(al), tau = nanOf<T>();
                tl::larfg(tl::StoreV::Columnwise, alpha, xv, tau);
                bool zero = al.im == 0;
                for (auto& t : x0) zero &= t == cx(0);
                cx be = up(alpha), ta = up(tau);
                if (zero) { MC_CHECK(ta == cx(0) && be == al, "larfg-zero", "tau = (%La,%La)", ta.re, ta.im); continue; }
                LD wb = al.re < 0 ? h : -h;
                rel(be.re, wb, 8 * EPS, "larfg-beta", "beta of larfg", A, B, C, D);
                MC_CHECK(be.im == 0, "larfg-beta", "beta is not real");
                cx wt((wb - al.re) / wb, -al.im / wb);
                LD et = hyp(ta.re - wt.re, ta.im - wt.im);
                mc::E().checks++;
                if (!(et <= 12 * EPS)) mc::fail("larfg-tau", "larfg(%La,%La,%La,%La): tau=(%La,%La) instead of (%La,%La)", A, B, C, D, ta.re, ta.im, wt.re, wt.im);
                cx dl(al.re - wb, al.im);
                LD dd = dl.re * dl.re + dl.im * dl.im;
                for (size_t i = 0; i < x.size(); ++i) {
                    cx y = x0[i] * cx(dl.re / dd, -dl.im / dd), g = up(x[i]);
                    LD e = hyp(g.re - y.re, g.im - y.im);
                    mc::E().checks++;
                    if (!(e <= 20 * EPS * hyp(y.re, y.im) + 4 * DMIN)) mc::fail("larfg-y", "larfg(%La,%La,%La,%La): y[%ld]=(%La,%La) instead of (%La,%La)", A, B, C, D, (long)i, g.re, g.im, y.re, y.im);
                }
            }
    mc::addStates(st, st);
}
MC_HARNESS(reciprocal)
{
    // x / alpha through rscl, for every pair on the lattice
    auto& ex = coarse();
    int N = (int)ex.size() + 1, a = mc::choose("re alpha", N), b = CPLX ? mc::choose("im alpha", N) : 0, s = mc::choose("signs", CPLX ? 4 : 2);
    mc::require(a || b);
    mc::body();
    uint64_t st = 0;
    for (int c = 0; c < N; ++c)
        for (int d = 0; d < (CPLX ? N : 1); ++d)
            for (int k = 0; k < 2; ++k) {
                LD A = a ? val(ex[a - 1], k) : 0, B = b ? val(ex[b - 1], 3 - k) : 0, C = c ? val(ex[c - 1], 2 * k) : 0, D = d ? val(ex[d - 1], k + 1) : 0;
                if (s & 1) { A = -A; D = -D; }
                if (s & 2) { B = -B; C = -C; }
                LD den = A * A + B * B;
                cx z((C * A + D * B) / den, (D * A - C * B) / den);
                LD m = hyp(z.re, z.im);
                ++st;
                if (isBig(m)) continue;
                std::vector<T> x{mk<T>(cx(C, D))};
                tl::LegacyVector<T, size_t> xv(1, x.data());
                tl::rscl(mk<T>(cx(A, B)), xv);
                cx g = up(x[0]);
                LD e = hyp(g.re - z.re, g.im - z.im);
                mc::E().checks++;
                // scaling by a factor no smaller than 1/|alpha| may round in the subnormal range first
                LD na = sqrtl(den), slack = 4 * DMIN * std::max((LD)1, std::min((LD)tl::safe_max<R>(), 2 / na));
                if (!(e <= 20 * EPS * m + slack)) mc::fail("rscl", "(%La,%La)/(%La,%La) = (%La,%La) instead of (%La,%La)", C, D, A, B, g.re, g.im, z.re, z.im);
            }
    mc::addStates(st, st);
}
MC_HARNESS(matrix_scaling)
{
    // a_ij * (num / den) through lascl
    auto& ex = coarse();
    int N = (int)ex.size(), a = mc::choose("den", N), b = mc::choose("num", N + 1), s = mc::choose("signs", 4), band = mc::choose("dense/band", 2);
    mc::body();
    uint64_t st = 0;
    for (int c = 0; c <= N; ++c)
        for (int k = 0; k < 6; ++k) {
            LD den = val(ex[a], k & 3), num = b ? val(ex[b - 1], (k + 1) & 3) : 0, x = c ? val(ex[c - 1], 3 - (k & 3)) : 0;
            if (s & 1) num = -num;
            if (s & 2) den = -den;
            LD z = x * (num / den);
            ++st;
            if (isBig(fabsl(z))) continue;
            T v = mk<T>(CPLX ? cx(x, -x) : cx(x));
            tl::LegacyMatrix<T, size_t> A(1, 1, &v, 1);
            int rc = band ? tl::lascl(tl::BandAccess(0, 0), (R)den, (R)num, A) : tl::lascl(tl::Uplo::General, (R)den, (R)num, A);
            if (rc != 0) mc::fail("lascl", "returned %d", rc);
            rel(up(v).re, z, 4 * EPS, "lascl", "lascl (den, num, x)", den, num, x);
            if (CPLX) rel(up(v).im, -z, 4 * EPS, "lascl", "lascl (den, num, x), imaginary part", den, num, x);
        }
    mc::addStates(st, st);
}
MC_MAIN
