// C23 (LAPACK part): each pointer-based legacy routine against the matrix-view routine on views built independently
// from the documented storage (column major, leading dimension, |inc|, length), operand by operand, whole buffers.
#include "c23_mem.hpp"
#include <tlapack/legacy_api/blas.hpp>
#include <tlapack/legacy_api/lapack.hpp>
namespace lg = tlapack::legacy;
using tl::Direction;
using tl::Layout;
using tl::Norm;
using tl::StoreV;
typedef tl::LegacyMatrix<T, std::size_t, Layout::ColMajor> MV;
static R EPSR = std::numeric_limits<R>::epsilon();

/// the operand's buffer copied; view(...) is the documented meaning of (pointer, sizes, ld)
struct Copy {
    std::vector<T> d;
    explicit Copy(const Mem& m) : d(m.p, m.p + m.n) {}
    MV mat(int m, int n, int ld) { return MV((size_t)m, (size_t)n, d.data() + GUARD, (size_t)ld); }
};
static MV view(const PM& a, Copy& c) { return c.mat(a.m, a.n2, a.ld); }
/// vector view as a dense vector gathered from (pointer, inc)
static std::vector<T> gather(const PV& v)
{
    std::vector<T> r(v.len);
    for (int i = 0; i < v.len; ++i) r[i] = v.p[v.off(i)];
    return r;
}
static void near(const Mem& got, const std::vector<T>& ref, const char* what)
{
    LD big = 0;
    for (auto& x : ref) {
        LD a = (LD)std::abs(x);
        if (a == a && a > big) big = a;
    }
    for (size_t k = 0; k < got.n; ++k) {
        mc::E().checks++;
        if (bitEq(got.p[k], ref[k])) continue;
        LD d = (LD)std::abs(got.p[k] - ref[k]);
        if (!(d <= 1e3L * EPSR * big)) mc::fail("differs", "%s: entry at offset %ld differs from the matrix-view routine (%Lg)", what, (long)k - GUARD, d);
    }
    for (size_t k = 0; k < got.n; ++k) mc::mixd((double)std::abs(got.p[k]));
}
static void nearS(LD g, LD r, const char* what)
{
    mc::mixd((double)g);
    MC_CHECK(fabsl(g - r) <= 1e3L * EPSR * fabsl(r), "differs", "%s: %Lg instead of %Lg", what, g, r);
}
static cx ge(int i, int j, int s) { return gen<T>(i, j, s); }
static int MAXN() { return mc::thorough() ? 6 : 4; }
template <class F>
static auto withUp(char u, F f)
{
    return u == 'U' ? f(Uplo::Upper) : u == 'L' ? f(Uplo::Lower) : f(Uplo::General);
}

MC_HARNESS(moves)
{
    int which = mc::choose("op(lacpy,lacpyM,laset,lasetM)", 4), m = mc::range("m", 0, MAXN()), n = mc::range("n", 0, MAXN()), pa = mc::pick("lda-m", {0, 2}), pb = mc::pick("ldb-m", {0, 1});
    char u = mc::pick("uplo", {'U', 'L', 'G'});
    mc::body();
    start();
    PM a('C', m, n, pa, which < 2), b('C', m, n, pb, false);
    a.fill([&](int i, int j) { return inT(u, i, j); }, [](int i, int j) { return ge(i, j, 1); });
    b.fill(ALLW, [](int i, int j) { return ge(i, j, 2); });
    lg::MatrixType mt = u == 'U' ? lg::MatrixType::Upper : u == 'L' ? lg::MatrixType::Lower : lg::MatrixType::General;
    T al = mk<T>(cx(3)), be = mk<T>(cx(-5));
    RM A = a.get(), B = b.get();
    {
        ReadOnly ro;
        if (which == 0) lg::lacpy((Uplo)u, m, n, a.ptr(), a.ld, b.ptr(), b.ld);
        if (which == 1) lg::lacpy(mt, m, n, a.ptr(), a.ld, b.ptr(), b.ld);
        if (which == 2) lg::laset((Uplo)u, m, n, al, be, b.ptr(), b.ld);
        if (which == 3) lg::laset(mt, m, n, al, be, b.ptr(), b.ld);
    }
    if (which >= 2)
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j) A(i, j) = i == j ? cx(-5) : cx(3);
    b.expect(A, [&](int i, int j) { return inT(u, i, j); }, "lacpy/laset");
    a.same("A");
}
MC_HARNESS(randvec)
{
    int n = mc::range("n", 0, MAXN() + 2), dist = mc::range("idist", 1, CPLX ? 5 : 3);
    size_t seed = (size_t)mc::pick("seed", {0, 1, 1302, -1});
    mc::body();
    start();
    PV x(n, 1, false);
    x.poison();
    size_t s1 = seed, s2 = seed;
    std::vector<T> ref(x.n, nanOf<T>());
    lg::larnv((size_t)dist, &s1, (size_t)n, x.ptr());
    tl::LegacyVector<T> v((size_t)n, ref.data() + GUARD);
    if (dist == 1) tl::larnv<1>(s2, v);
    if (dist == 2) tl::larnv<2>(s2, v);
    if (dist == 3) tl::larnv<3>(s2, v);
#ifndef MC_REAL
    if (dist == 4) tl::larnv<4>(s2, v);
    if (dist == 5) tl::larnv<5>(s2, v);
#endif
    near(x, ref, "larnv");
    MC_CHECK(s1 == s2, "seed", "seed differs from the matrix-view routine");
    for (int i = 0; i < n; ++i) MC_CHECK(x.ptr()[i] == x.ptr()[i], "unset", "entry %d not set", i);
}
MC_HARNESS(norms)
{
    int which = mc::choose("op(lange,lansy,lanhe,lantr)", 4), m = mc::range("m", 0, MAXN()), n = which == 0 || which == 3 ? mc::range("n", 0, MAXN()) : m, pa = mc::pick("lda-m", {0, 2});
    Norm nt = mc::pickv("norm", std::vector<Norm>{Norm::Max, Norm::One, Norm::Inf, Norm::Fro});
    char u = which ? pickUp() : 'G', d = which == 3 ? pickDg() : 'N';
    mc::require(!(d == 'U' && m != n));
    mc::body();
    start();
    PM a('C', m, n, pa, true);
    a.fill([&](int i, int j) { return inT(u, i, j) && !(d == 'U' && i == j); }, [](int i, int j) { return ge(i, j, 1); });
    LD got;
    {
        ReadOnly ro;
        got = which == 0   ? (LD)lg::lange(nt, m, n, a.ptr(), a.ld)
              : which == 1 ? (LD)lg::lansy(nt, (Uplo)u, m, a.ptr(), a.ld)
              : which == 2 ? (LD)lg::lanhe(nt, (Uplo)u, m, a.ptr(), a.ld)
                           : (LD)lg::lantr(nt, (Uplo)u, (Diag)d, m, n, a.ptr(), a.ld);
    }
    // definition
    RM S(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            bool in = inT(u, i, j);
            if (which == 0 || in) S(i, j) = (d == 'U' && i == j) ? cx(1) : up(a.p[a.off(i, j)]);
            else if (which == 1) S(i, j) = up(a.p[a.off(j, i)]);
            else if (which == 2) S(i, j) = cj(up(a.p[a.off(j, i)]));
            if (which == 2 && i == j) S(i, j).im = 0;
        }
    LD ref = 0, fr = 0;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            LD v = ab(S(i, j));
            fr += v * v;
            if (nt == Norm::Max && v > ref) ref = v;
        }
    if (nt == Norm::Fro) ref = sqrtl(fr);
    if (nt == Norm::One)
        for (int j = 0; j < n; ++j) {
            LD s = 0;
            for (int i = 0; i < m; ++i) s += ab(S(i, j));
            if (s > ref) ref = s;
        }
    if (nt == Norm::Inf)
        for (int i = 0; i < m; ++i) {
            LD s = 0;
            for (int j = 0; j < n; ++j) s += ab(S(i, j));
            if (s > ref) ref = s;
        }
    nearS(got, ref, "norm");
    a.same("A");
}
MC_HARNESS(scale)
{
    lg::MatrixType mt = mc::pickv("type", std::vector<lg::MatrixType>{lg::MatrixType::General, lg::MatrixType::Lower, lg::MatrixType::Upper, lg::MatrixType::Hessenberg, lg::MatrixType::LowerBand, lg::MatrixType::UpperBand, lg::MatrixType::Band});
    bool sym = mt == lg::MatrixType::LowerBand || mt == lg::MatrixType::UpperBand, band = sym || mt == lg::MatrixType::Band;
    int m = mc::range("m", 0, MAXN()), n = sym ? m : mc::range("n", 0, MAXN());
    int kl = band ? mc::range("kl", 0, std::max(m - 1, 0)) : 0, ku = mt == lg::MatrixType::Band ? mc::range("ku", 0, std::max(n - 1, 0)) : sym ? kl : 0;
    int pa = mc::pick("pad", {0, 2});
    int rows = mt == lg::MatrixType::LowerBand || mt == lg::MatrixType::UpperBand ? kl + 1 : band ? 2 * kl + ku + 1 : m;
    mc::body();
    start();
    PM a('C', rows, n, pa, false);
    R b = 4, al = 8;
    // storage rows holding A(i,j)
    auto at = [&](int i, int j) {
        switch (mt) {
            case lg::MatrixType::LowerBand: return i - j;
            case lg::MatrixType::UpperBand: return ku + i - j;
            case lg::MatrixType::Band: return kl + ku + i - j;
            default: return i;
        }
    };
    auto inA = [&](int i, int j) {
        switch (mt) {
            case lg::MatrixType::Lower: return i >= j;
            case lg::MatrixType::Upper: return i <= j;
            case lg::MatrixType::Hessenberg: return i <= j + 1;
            case lg::MatrixType::LowerBand: return i >= j && i <= j + kl;
            case lg::MatrixType::UpperBand: return i <= j && j <= i + ku;
            case lg::MatrixType::Band: return i <= j + kl && j <= i + ku;
            default: return true;
        }
    };
    std::vector<char> part((size_t)rows * n, 0);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
            if (inA(i, j)) part[at(i, j) + (size_t)j * rows] = 1;
    auto w = [&](int i, int j) { return part[i + (size_t)j * rows] != 0; };
    a.fill(w, [](int i, int j) { return ge(i, j, 1); });
    RM A = a.get();
    int info = lg::lascl(mt, (size_t)kl, (size_t)ku, b, al, (size_t)m, (size_t)n, a.ptr(), (size_t)a.ld);
    MC_CHECK(info == 0, "info", "info %d", info);
    for (int i = 0; i < rows; ++i)
        for (int j = 0; j < n; ++j) A(i, j) = cx(2) * A(i, j);
    a.expect(A, w, "lascl");
}
MC_HARNESS(sumsq)
{
    int n = mc::range("n", 0, MAXN()), ix = pickInc("incx"), k = mc::choose("start", 3);
    mc::body();
    start();
    PV x(n, ix, true);
    x.fill([](int i) { return ge(i, 0, 1); });
    R scl = k == 0 ? 1 : k == 1 ? 2 : R(0.5), ssq = k == 0 ? 0 : 3;
    LD ref = (LD)scl * scl * ssq;
    for (int i = 0; i < n; ++i) ref += ab(up(x.p[x.off(i)])) * ab(up(x.p[x.off(i)]));
    {
        ReadOnly ro;
        lg::lassq(n, x.ptr(), ix, scl, ssq);
    }
    nearS((LD)scl * scl * ssq, ref, "lassq");
}
MC_HARNESS(house)
{
    int n = mc::range("n", 0, MAXN() + 1), ix = pickInc("incx");
    bool ptr = mc::flag("pointer-overload");
    int fam = mc::choose("x(generic,zero,one)", 3);
    mc::body();
    start();
    int l = n > 0 ? n - 1 : 0;
    PV x(l, ix, false);
    x.fill([&](int i) { return fam == 0 || (fam == 2 && i == l - 1) ? ge(i, 0, 1) : cx(0); });
    T alpha = mk<T>(ge(0, 1, 2)), tau = nanOf<T>();
    std::vector<T> X = gather(x);
    T al2 = alpha, tau2 = nanOf<T>();
    if (ptr) lg::larfg((size_t)n, &alpha, x.ptr(), ix, &tau);
    else lg::larfg((size_t)n, alpha, x.ptr(), ix, tau);
    if (n == 0) {
        x.same("x");
        MC_CHECK(bitEq(alpha, al2), "empty", "alpha changed for n = 0");
        MC_CHECK(tau == T(0), "empty", "tau not zero for n = 0");
        return;
    }
    tl::LegacyVector<T> xv((size_t)l, X.data());
    tl::larfg(tl::COLUMNWISE_STORAGE, al2, xv, tau2);
    RM ref(l, 1);
    for (int i = 0; i < l; ++i) ref(i, 0) = up(X[i]);
    x.expect(ref, "larfg x", 1e2L * EPSR);
    MC_CHECK(std::abs(alpha - al2) <= 100 * EPSR * std::abs(al2) && std::abs(tau - tau2) <= 100 * EPSR, "differs", "alpha or tau differ");
}
MC_HARNESS(apply1)
{
    char s = pickSd();
    int m = mc::range("m", 0, MAXN()), n = mc::range("n", 0, MAXN()), ix = pickInc("incv"), pc = mc::pick("ldc-m", {0, 2});
    mc::body();
    start();
    int l = s == 'L' ? m : n;
    PV v(l, ix, true);
    // v(0) is the unit entry and not referenced
    v.fill([](int i) { return i ? ge(i, 0, 1) : cx(NAN, NAN); });
    PM c('C', m, n, pc, false);
    c.fill(ALLW, [](int i, int j) { return ge(i, j, 2); });
    T tau = mk<T>(ge(2, 3, 5));
    RM C = c.get(), V(l, 1);
    for (int i = 0; i < l; ++i) V(i, 0) = i ? up(v.p[v.off(i)]) : cx(1);
    RM Hm = RM::eye(l) - up(tau) * (V * H(V));
    {
        ReadOnly ro;
        lg::larf((Side)s, (size_t)m, (size_t)n, v.ptr(), ix, tau, c.ptr(), (size_t)c.ld);
    }
    RM ref = s == 'L' ? Hm * C : C * Hm;
    Copy cc(c);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) cc.d[c.off(i, j)] = mk<T>(ref(i, j));
    for (size_t k = 0; k < c.n; ++k) {
        bool in = false;
        for (int i = 0; i < m && !in; ++i)
            for (int j = 0; j < n; ++j)
                if (c.off(i, j) == k) in = true;
        if (!in && !bitEq(c.p[k], c.before[k])) mc::fail("outside-write", "memory outside C changed at %ld", (long)k - GUARD);
    }
    near(c, cc.d, "larf");
    v.same("v");
}
MC_HARNESS(block)
{
    // larft then larfb against the matrix-view calls
    char s = pickSd(), t = CPLX ? mc::pick("trans", {'N', 'C'}) : mc::pick("trans", {'N', 'T', 'C'});
    Direction dir = mc::pickv("direction", std::vector<Direction>{Direction::Forward, Direction::Backward});
    StoreV st = mc::pickv("storev", std::vector<StoreV>{StoreV::Columnwise, StoreV::Rowwise});
    int m = mc::range("m", 1, MAXN()), n = mc::range("n", 1, MAXN()), q = s == 'L' ? m : n, k = mc::range("k", 1, std::min(q, 3)), pd = mc::pick("pads", {0, 1});
    mc::body();
    start();
    bool col = st == StoreV::Columnwise;
    PM v('C', col ? q : k, col ? k : q, pd, true), tm('C', k, k, 2 * pd, false), c('C', m, n, 3 * pd, false);
    PV tau(k, 1, true);
    v.fill(ALLW, [](int i, int j) { return ge(i, j, 1); });
    // larfb skips the unit triangle; leave garbage numbers there as after a factorization
    tau.fill([](int i) { return ge(i, 1, 4); });
    tm.snap();
    c.fill(ALLW, [](int i, int j) { return ge(i, j, 2); });
    Copy vc(v), tc(tm), cc(c), tv(tau);
    int i1, i2;
    {
        ReadOnly ro;
        i1 = lg::larft(dir, st, (size_t)q, (size_t)k, v.ptr(), (size_t)v.ld, tau.ptr(), tm.ptr(), (size_t)tm.ld);
    }
    MV V = view(v, vc), TT = view(tm, tc), C = view(c, cc);
    tl::LegacyVector<T> tauv((size_t)k, tv.d.data() + GUARD);
    tl::larft(dir, st, V, tauv, TT);
    MC_CHECK(i1 == 0, "info", "larft info %d", i1);
    near(tm, tc.d, "larft T");
    // T goes to a constant operand
    PM t2('C', k, k, pd, true);
    bool fw = dir == Direction::Forward;
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j)
            if (fw ? i <= j : i >= j) t2.p[t2.off(i, j)] = tm.p[tm.off(i, j)];
    t2.snap();
    {
        ReadOnly ro;
        i2 = lg::larfb((Side)s, (Op)t, dir, st, (size_t)m, (size_t)n, (size_t)k, v.ptr(), (size_t)v.ld, t2.ptr(), (size_t)t2.ld, c.ptr(), (size_t)c.ld);
    }
    tl::larfb((Side)s, (Op)t, dir, st, V, TT, C);
    MC_CHECK(i2 == 0, "info", "larfb info %d", i2);
    near(c, cc.d, "larfb C");
    v.same("V"); t2.same("T"); tau.same("tau");
}
MC_HARNESS(qr)
{
    int m = mc::range("m", 0, MAXN() + 1), n = mc::range("n", 0, MAXN()), pa = mc::pick("lda-m", {0, 2});
    mc::body();
    start();
    PM a('C', m, n, pa, false);
    a.fill(ALLW, [](int i, int j) { return ge(i, j, 1); });
    PV tau(std::min(m, n), 1, false);
    tau.snap();
    Copy ac(a), tc(tau);
    int info = lg::geqr2((size_t)m, (size_t)n, a.ptr(), (size_t)a.ld, tau.ptr());
    MC_CHECK(info == 0, "info", "geqr2 info %d", info);
    if (m && n) {
        MV A = view(a, ac);
        tl::LegacyVector<T> tv((size_t)std::min(m, n), tc.d.data() + GUARD);
        tl::geqr2(A, tv);
    }
    near(a, ac.d, "geqr2 A");
    near(tau, tc.d, "geqr2 tau");
}
/// the reflectors of a QR factorization as a user would have them
static void reflectors(PM& a, PV& tau)
{
    a.fill(ALLW, [](int i, int j) { return ge(i, j, 3); });
    tau.snap();
    if (a.m == 0 || a.n2 == 0) return;
    Copy ac(a), tc(tau);
    MV A = view(a, ac);
    tl::LegacyVector<T> tv((size_t)tau.len, tc.d.data() + GUARD);
    tl::geqr2(A, tv);
    for (size_t k = 0; k < a.n; ++k) a.p[k] = ac.d[k];
    for (size_t k = 0; k < tau.n; ++k) tau.p[k] = tc.d[k];
    a.snap();
    tau.snap();
}
/// Q = H_1 ... H_k from factor form
static RM formQ(const PM& a, const PV& tau, int m, int k)
{
    RM Q = RM::eye(m);
    for (int j = k - 1; j >= 0; --j) {
        RM v(m, 1);
        for (int i = j; i < m; ++i) v(i, 0) = i == j ? cx(1) : up(a.p[a.off(i, j)]);
        Q = Q - up(tau.p[tau.off(j)]) * (v * (H(v) * Q));
    }
    return Q;
}
MC_HARNESS(formQ2)
{
    int m = mc::range("m", 0, MAXN() + 1), n = mc::range("n", 0, m), k = mc::range("k", 0, n), pa = mc::pick("lda-m", {0, 2});
    mc::body();
    start();
    PM a('C', m, n, pa, false);
    PV tau(k, 1, true);
    PM f('C', m, k, 0, false);
    reflectors(f, tau);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) a.p[a.off(i, j)] = j < k ? f.p[f.off(i, j)] : mk<T>(ge(i, j, 7));
    a.snap();
    RM Q = formQ(f, tau, m, k);
    int info;
    {
        ReadOnly ro;
        info = lg::ung2r((size_t)m, (size_t)n, (size_t)k, a.ptr(), (size_t)a.ld, (const T*)tau.ptr());
    }
    MC_CHECK(info == 0, "info", "ung2r info %d", info);
    Copy ac(a);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) ac.d[a.off(i, j)] = mk<T>(Q(i, j));
    near(a, ac.d, "ung2r");
    for (size_t q = 0; q < a.n; ++q) {
        bool in = (long)q >= GUARD && n > 0 && (long)q < GUARD + (long)a.ld * n && (int)((q - GUARD) % a.ld) < m;
        if (!in && !bitEq(a.p[q], a.before[q])) mc::fail("outside-write", "memory outside A changed");
    }
    tau.same("tau");
}
MC_HARNESS(applyQ)
{
    int blocked = mc::choose("op(unm2r,unmqr)", 2);
    char s = pickSd(), t = CPLX ? mc::pick("trans", {'N', 'C'}) : mc::pick("trans", {'N', 'T', 'C'});
    int m = mc::range("m", 0, MAXN()), n = mc::range("n", 0, MAXN()), q = s == 'L' ? m : n, k = mc::range("k", 0, q), pa = mc::pick("lda-q", {0, 2}), pc = mc::pick("ldc-m", {0, 1});
    mc::body();
    start();
    PM a('C', q, k, pa, true), c('C', m, n, pc, false);
    PV tau(k, 1, true);
    reflectors(a, tau);
    c.fill(ALLW, [](int i, int j) { return ge(i, j, 5); });
    RM Q = formQ(a, tau, q, k), C = c.get();
    if (t != 'N') Q = H(Q);
    int info;
    {
        // A is documented as restored: only unmqr declares it const
        std::unique_ptr<ReadOnly> ro(new ReadOnly);
        if (blocked) info = lg::unmqr((Side)s, (Op)t, (size_t)m, (size_t)n, (size_t)k, (const T*)a.ptr(), (size_t)a.ld, (const T*)tau.ptr(), c.ptr(), (size_t)c.ld);
        else {
            info = lg::unm2r((Side)s, (Op)t, (size_t)m, (size_t)n, (size_t)k, a.ptr(), (size_t)a.ld, (const T*)tau.ptr(), c.ptr(), (size_t)c.ld);
        }
    }
    MC_CHECK(info == 0, "info", "info %d", info);
    RM ref = s == 'L' ? Q * C : C * Q;
    Copy cc(c);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) cc.d[c.off(i, j)] = mk<T>(ref(i, j));
    for (size_t o = 0; o < c.n; ++o) {
        bool in = (long)o >= GUARD && n > 0 && m > 0 && (long)o < GUARD + (long)c.ld * n && (int)((o - GUARD) % c.ld) < m;
        if (!in && !bitEq(c.p[o], c.before[o])) mc::fail("outside-write", "memory outside C changed");
    }
    near(c, cc.d, "C");
    a.same("A"); tau.same("tau");
}
/// numerical failures are reported as "[info] text" when error checks are on
template <class F>
static int code(F f)
{
    try {
        return f();
    }
    catch (const std::exception& e) {
        return e.what()[0] == '[' ? atoi(e.what() + 1) : -999;
    }
}
MC_HARNESS(chol)
{
    int solve = mc::choose("op(potrf,potrs)", 2);
    char u = pickUp();
    int n = mc::range("n", 0, MAXN() + 1), r = solve ? mc::range("nrhs", 0, 2) : 0, pa = mc::pick("lda-n", {0, 2}), bad = solve ? 0 : mc::range("fails-at", 0, n);
    mc::body();
    start();
    PM a('C', n, n, pa, solve == 1), b('C', n, r, pa, false);
    a.fill([&](int i, int j) { return inT(u, i, j); }, [&](int i, int j) { return i == j ? (bad == i + 1 ? cx(-1) : cx(8 + i)) : ge(i, j, 3); });
    b.fill(ALLW, [](int i, int j) { return ge(i, j, 2); });
    Copy ac(a), bc(b);
    MV A = view(a, ac), B = view(b, bc);
    int info, inf2 = 0;
    if (!solve) {
        info = code([&] { return lg::potrf((Uplo)u, (size_t)n, a.ptr(), (size_t)a.ld); });
        inf2 = code([&] { return tl::potrf_blocked((Uplo)u, A); });
    }
    else {
        {
            ReadOnly ro;
            info = lg::potrs((Uplo)u, (size_t)n, (size_t)r, (const T*)a.ptr(), (size_t)a.ld, b.ptr(), (size_t)b.ld);
        }
        inf2 = tl::potrs((Uplo)u, A, B);
        a.same("A");
    }
    MC_CHECK(info == inf2 && info == bad, "info", "info %d (matrix view %d, expected %d)", info, inf2, bad);
    if (!bad) near(a, ac.d, "A");
    near(b, bc.d, "B");
}
MC_HARNESS(rejects)
{
    // an invalid option or size must be reported by an exception and leave every operand untouched
    int which = mc::choose("op(lacpy,laset,lange,lanhe,lansy,lantr,larf,larfb,larft,lascl,potrf,potrs,unm2r,unmqr,geqr2,ung2r)", 16);
    static const char* sig[16] = {"U", "U", "N", "NU", "NU", "NUD", "S0c", "SOPV", "PVkat", "M12ABCQ", "U", "U", "SOka c", "SO", "a", "nka"};
    char bad = sig[which][mc::choose("bad", (int)strlen(sig[which]))];
    mc::require(bad != ' ');
    mc::body();
    start();
    PM a('C', 3, 3, 0, false), b('C', 3, 3, 0, false), c('C', 3, 3, 0, false);
    auto f = [](int i, int j) { return i == j ? cx(9) : ge(i, j, 1); };
    a.fill(ALLW, f); b.fill(ALLW, f); c.fill(ALLW, f);
    size_t m = 3, n = 3, k = bad == 'k' ? (which == 8 ? 0 : 4) : 2, lda = bad == 'a' ? 2 : 3, ldc = bad == 'c' ? 2 : 3, ldt = bad == 't' ? 1 : 3;
    if (bad == 'n' && which == 15) n = 4;
    Uplo U = bad == 'U' ? (Uplo)7 : Uplo::Upper;
    Norm NN = bad == 'N' ? (Norm)7 : Norm::One;
    Diag D = bad == 'D' ? (Diag)7 : Diag::NonUnit;
    Side S = bad == 'S' ? (Side)7 : Side::Left;
    Op O = bad == 'O' ? (Op)7 : Op::NoTrans;
    Direction P = bad == 'P' ? (Direction)7 : Direction::Forward;
    StoreV V = bad == 'V' ? (StoreV)7 : StoreV::Columnwise;
    T one = mk<T>(cx(1));
    R r1 = 1, r2 = 2;
    bool threw = false;
    try {
        switch (which) {
            case 0: lg::lacpy(U, m, n, a.ptr(), lda, b.ptr(), ldc); break;
            case 1: lg::laset(U, m, n, one, one, a.ptr(), lda); break;
            case 2: lg::lange(NN, m, n, a.ptr(), lda); break;
            case 3: lg::lanhe(NN, U, n, a.ptr(), lda); break;
            case 4: lg::lansy(NN, U, n, a.ptr(), lda); break;
            case 5: lg::lantr(NN, U, D, m, n, a.ptr(), lda); break;
            case 6: lg::larf(S, m, n, b.ptr(), (long)(bad == '0' ? 0 : 1), one, c.ptr(), ldc); break;
            case 7: lg::larfb(S, O, P, V, m, n, k, (const T*)a.ptr(), lda, (const T*)b.ptr(), ldt, c.ptr(), ldc); break;
            case 8: lg::larft(P, V, n, k, (const T*)a.ptr(), lda, (const T*)b.ptr(), c.ptr(), ldt); break;
            case 9: {
                lg::MatrixType M = bad == 'M' ? (lg::MatrixType)7 : bad == 'A' || bad == '1' ? lg::MatrixType::LowerBand : bad == 'B' || bad == '2' ? lg::MatrixType::UpperBand : bad == 'C' ? lg::MatrixType::Band : lg::MatrixType::General;
                size_t kl = bad == '1' ? 3 : 1, ku = bad == '2' ? 3 : bad == '1' ? 3 : 1;
                if (bad == 'Q') lg::lascl(M, kl, ku, r1, r2, m, n, a.ptr(), (size_t)2);
                else lg::lascl(M, kl, ku, r1, r2, m, n, a.ptr(), (size_t)(bad == 'A' || bad == 'B' ? 1 : bad == 'C' ? 3 : 4 * 3));
                break;
            }
            case 10: lg::potrf(U, n, a.ptr(), lda); break;
            case 11: lg::potrs(U, n, n, (const T*)a.ptr(), lda, b.ptr(), ldc); break;
            case 12: lg::unm2r(S, O, m, n, k, a.ptr(), lda, (const T*)b.ptr(), c.ptr(), ldc); break;
            case 13: lg::unmqr(S, O, m, n, k, (const T*)a.ptr(), lda, (const T*)b.ptr(), c.ptr(), ldc); break;
            case 14: lg::geqr2(m, n, a.ptr(), lda, b.ptr()); break;
            case 15: lg::ung2r(m, n, k, a.ptr(), lda, (const T*)b.ptr()); break;
        }
    }
    catch (const std::exception&) {
        threw = true;
    }
    a.same("A"); b.same("B"); c.same("C");
    MC_CHECK(threw, "accepted", "invalid argument '%c' of routine #%d was accepted", bad, which);
}
MC_MAIN
