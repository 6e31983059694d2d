// C07: elementary and block reflectors, generation and application of Q.
#include "refl.hpp"
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmrq.hpp>
using tl::Direction; using tl::StoreV; using tl::Side; using tl::Op;
static Direction pickDir() { return mc::pick("direction", {Direction::Forward, Direction::Backward}); }
static StoreV pickStore() { return mc::pick("store", {StoreV::Columnwise, StoreV::Rowwise}); }
static Op pickTrans()
{
    if (CPLX) return mc::pick("trans", {Op::NoTrans, Op::ConjTrans});
    return mc::pick("trans", {Op::NoTrans, Op::ConjTrans, Op::Trans});
}

// ---- generation of one reflector -------------------------------------------------------------------
static void checkReflector(const RM& v0, const RM& y, cx tau, bool fwd, bool colw)
{
    int n = v0.m, p = fwd ? 0 : n - 1;
    LD nv = nrmF(v0);
    cx beta = y.a[p], alpha = v0.a[p];
    MC_CHECK(fin(beta) && fin(tau), "finite", "non-finite beta or tau");
    MC_CHECK(beta.im == 0, "beta-real", "beta has an imaginary part");
    bool restZero = true;
    for (int i = 0; i < n; ++i)
        if (i != p && v0.a[i] != cx(0)) restZero = false;
    if (restZero && alpha.im == 0) {
        MC_CHECK(tau == cx(0) && beta == alpha, "identity", "H is not the identity for a vector that is already reduced");
        return;
    }
    LD tol = 30 * (n + 2) * EPS;
    MC_CHECK(tau.re >= 1 - tol && tau.re <= 2 + tol && ab(tau - cx(1)) <= 1 + tol, "tau-range", "tau=(%Lg,%Lg)", tau.re, tau.im);
    small(fabsl(fabsl(beta.re) - nv), tol * nv, "beta-norm", "|beta| vs ||v||");
    RM w(n, 1);
    for (int i = 0; i < n; ++i) w.a[i] = i == p ? cx(1) : colw ? y.a[i] : cj(y.a[i]);
    RM Hm = RM::eye(n);
    applyH(Hm, w, tau);
    small(orthCols(Hm), tol, "unitary", "H");
    RM s(n, 1);  // scaled input, so that tiny/huge vectors can be compared
    for (int i = 0; i < n; ++i) s.a[i] = cx(v0.a[i].re / nv, v0.a[i].im / nv);
    RM r = colw ? H(Hm) * s : Tr(Tr(s) * Hm);
    for (int i = 0; i < n; ++i) r.a[i] -= i == p ? cx(beta.re / nv) : cx(0);
    small(nrmF(r), tol, "annihilate", "H^H v - beta e");
    mixRM(y);
}
MC_HARNESS(larfg_all)
{
    bool fwd = mc::flag("forward"), colw = mc::flag("columnwise");
    int n = mc::range("n", 1, mc::thorough() ? 4 : 3);
    int form = mc::choose("form", 2);
    int inc = mc::range("inc", 1, 2);
    int scale = mc::choose("scale", 3);
    RM v0(n, 1);
    for (auto& x : v0.a) x = pickScalar<T>("v", n == 4 ? 5 : 6);
    mc::body();
    LD sc = scale == 0 ? 1 : scale == 1 ? (LD)std::numeric_limits<R>::min() * 0.25L : (LD)std::numeric_limits<R>::max() / 32;
    for (auto& x : v0.a) x = up(mk<T>(cx(sc) * x));
    if (form == 0) {
        Vec v(n, inc, false);
        v.set(v0);
        T tau = nanOf<T>();
        auto vv = v.fview();
        tl::larfg(fwd ? Direction::Forward : Direction::Backward, colw ? StoreV::Columnwise : StoreV::Rowwise, vv, tau);
        v.guards("v");
        checkReflector(v0, v.get(), up(tau), fwd, colw);
    }
    else {
        mc::require(fwd);
        Vec x(n - 1, inc, true);
        x.set(sub(v0, 1, n, 0, 1));
        T alpha = mk<T>(v0.a[0]), tau = nanOf<T>();
        auto xv = x.bview();
        tl::larfg(colw ? StoreV::Columnwise : StoreV::Rowwise, alpha, xv, tau);
        x.guards("x");
        RM y(n, 1), xr = x.get();
        y.a[0] = up(alpha);
        for (int i = 1; i < n; ++i) y.a[i] = xr.a[i - 1];
        checkReflector(v0, y, up(tau), true, colw);
    }
}
MC_HARNESS(larfg_graded)
{
    bool fwd = mc::flag("forward"), colw = mc::flag("columnwise");
    int n = mc::range("n", 1, 8);
    int g = mc::choose("grade", 6);
    int z = mc::range("zeroFrom", 1, n);
    mc::body();
    static const int ge[] = {0, 3, -3, 17, -17, -40};
    RM v0(n, 1);
    for (int i = 0; i < n; ++i) {
        int ex = ge[g] * (i - n / 2), lim = sizeof(R) == 4 ? 60 : 500;
        cx x = cx(powl(2.0L, ex > lim ? lim : ex < -lim ? -lim : ex));
        int q = fwd ? i : n - 1 - i;
        v0.a[i] = q < z ? up(mk<T>(x * gen<T>(i, g, 3))) : cx(0);
        if (g == 1 && q == 0) v0.a[i].im = 0;
    }
    Vec v(n, 1, false);
    v.set(v0);
    T tau;
    auto vv = v.fview();
    tl::larfg(fwd ? Direction::Forward : Direction::Backward, colw ? StoreV::Columnwise : StoreV::Rowwise, vv, tau);
    v.guards("v");
    checkReflector(v0, v.get(), up(tau), fwd, colw);
}

// ---- application of one reflector ------------------------------------------------------------------
static void cmpMat(const RM& got, const RM& ref, LD scale, const char* what)
{
    for (int i = 0; i < ref.m; ++i)
        for (int j = 0; j < ref.n; ++j) cmpElt(got(i, j), ref(i, j), scale, "value", what, i, j);
    mixRM(got);
}
static cx pickTau(int kind) { return kind == 0 ? cx(0) : kind == 1 ? cx(2) : gen<T>(9, 9, 77) + cx(1); }
MC_HARNESS(larf_all)
{
    Side side = pickSide();
    Direction dir = pickDir();
    StoreV sv = pickStore();
    int m = mc::range("m", 0, mc::thorough() ? 5 : 4), n = mc::range("n", 0, mc::thorough() ? 5 : 4);
    int tk = mc::choose("tau", 3);
    int form = mc::choose("form", 3);  // 0: whole C; 1: C0/C1 split; 2: split, rows/cols not adjacent
    mc::require(form == 0 || dir == Direction::Forward);
    int inc = mc::range("inc", 1, 2);
    int vz = mc::choose("vzero", 2);
    mc::body();
    bool left = side == Side::Left, colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    int N = left ? m : n;
    T tau = mk<T>(pickTau(tk));
    if (form == 0 && N == 0) return;
    RM w(N, 1), C0 = family<T>(FAM_GENERIC, m, n, 2);
    int p = fwd ? 0 : N - 1;
    for (int i = 0; i < N; ++i) w.a[i] = i == p ? cx(1) : vz ? cx(0) : gen<T>(i, 1, 8);
    Mat C(m, n);
    C.set(C0);
    LD sc = 200 * (N + 2) * EPS;
    RM Hm = RM::eye(N);
    if (N) applyH(Hm, w, up(tau));
    RM ref = left ? Hm * C0 : C0 * Hm;
    if (form == 0) {
        Vec v(N, inc, false);
        v.fill([&](int i) { return i == p ? cx(NAN, NAN) : colw ? w.a[i] : cj(w.a[i]); });
        v.snap();
        auto vv = v.fview();
        auto cc = C.view();
        tl::larf(side, dir, sv, vv, tau, cc);
        v.constant("v");
        C.guards("C");
        cmpMat(C.get(), ref, sc, "larf");
    }
    else {
        if (N == 0) return;
        Vec x(N - 1, inc, false);
        x.fill([&](int i) { return colw ? w.a[i + 1] : cj(w.a[i + 1]); });
        int k = left ? n : m;
        Vec c0(k, form == 2 ? 3 : 1, form == 2);
        Mat c1(left ? m - 1 : m, left ? n : n - 1);
        c0.fill([&](int i) { return left ? C0(0, i) : C0(i, 0); });
        c1.fill([&](int i, int j) { return left ? C0(i + 1, j) : C0(i, j + 1); });
        auto xv = x.fview();
        auto mv = c1.view();
        if (form == 2) {
            auto v0 = c0.bview();
            tl::larf(side, sv, xv, tau, v0, mv);
        }
        else {
            auto v0 = c0.fview();
            tl::larf(side, sv, xv, tau, v0, mv);
        }
        x.constant("x");
        c0.guards("C0");
        c1.guards("C1");
        RM got(m, n), g0 = c0.get(), g1 = c1.get();
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j) got(i, j) = left ? (i == 0 ? g0.a[j] : g1(i - 1, j)) : (j == 0 ? g0.a[i] : g1(i, j - 1));
        cmpMat(got, ref, sc, "larf split");
    }
}

// ---- reflector sets ---------------------------------------------------------------------------------
struct Set {
    int k, N;
    bool fwd, colw;
    RM V;  // stored form, NaN where unreferenced
    std::vector<cx> tau;
    RM Hm;
};
static cx NANCX() { return cx(NAN, NAN); }
static Set mkSet(int k, int N, bool fwd, bool colw, int zmask, int salt)
{
    Set s{k, N, fwd, colw, colw ? RM(N, k) : RM(k, N), {}, RM()};
    RM Vr = s.V;
    for (int i = 0; i < k; ++i) {
        int p = fwd ? i : N - k + i;
        for (int r = 0; r < N; ++r) {
            bool ref = fwd ? r > p : r < p;
            cx g = gen<T>(r, i, salt);
            if (!(zmask >> i & 1)) g = up(mk<T>(cx(0.7L) * g));
            (colw ? s.V(r, i) : s.V(i, r)) = ref ? g : NANCX();
            (colw ? Vr(r, i) : Vr(i, r)) = ref ? g : cx(0);
        }
        s.tau.push_back((zmask >> i & 1) ? cx(0) : up(mk<T>(gen<T>(i, 77, salt) + cx(1))));
    }
    s.Hm = hprod(Vr, s.tau, k, N, fwd, colw);
    return s;
}
static LD growth(const Set& s) { return 1 + nrmF(s.Hm) * powl(3.0L, s.k > 6 ? 6 : s.k); }

MC_HARNESS(block_reflector)
{
    Side side = pickSide();
    Op trans = pickTrans();
    Direction dir = pickDir();
    StoreV sv = pickStore();
    int hi = mc::thorough() ? 5 : 4;
    int m = mc::range("m", 0, hi), n = mc::range("n", 0, hi);
    bool left = side == Side::Left, colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    int N = left ? m : n;
    int k = mc::range("k", 0, std::min(N, 3 + (mc::thorough() ? 1 : 0)));
    int zmask = mc::choose("zerotau", 1 << std::min(k, 3));
    mc::body();
    Set s = mkSet(k, N, fwd, colw, zmask, 6);
    Mat V(s.V.m, s.V.n), Tm(k, k), C(m, n);
    V.set(s.V);
    Vec tau(k);
    for (int i = 0; i < k; ++i) tau[i] = mk<T>(s.tau[i]);
    tau.snap();
    auto v = V.view();
    auto t = Tm.view();
    auto c = C.view();
    auto tv = tau.fview();
    tl::larft(dir, sv, v, tv, t);
    V.constant("V");
    tau.constant("tau");
    Tm.unchangedExcept([&](int i, int j) { return fwd ? i <= j : i >= j; }, "footprint", "T");
    if (N) {
        RM Vf(N, k), TT = triFrom(Tm.get(), fwd ? tl::Uplo::Upper : tl::Uplo::Lower, tl::Diag::NonUnit);
        for (int i = 0; i < k; ++i)
            for (int r = 0; r < N; ++r) {
                int p = fwd ? i : N - k + i;
                cx x = colw ? s.V(r, i) : cj(s.V(i, r));
                Vf(r, i) = r == p ? cx(1) : (fwd ? r > p : r < p) ? x : cx(0);
            }
        small(nrmF(RM::eye(N) - Vf * TT * H(Vf) - s.Hm), 300 * (N + 1) * EPS * growth(s), "T-factor", "larft");
    }
    RM C0 = family<T>(FAM_GENERIC, m, n, 4);
    C.set(C0);
    Tm.snap();
    if (k == 0 && false) return;
    tl::larfb(side, trans, dir, sv, v, t, c);
    V.constant("V");
    Tm.constant("T");
    C.guards("C");
    RM op = trans == Op::NoTrans ? s.Hm : H(s.Hm);
    cmpMat(C.get(), left ? op * C0 : C0 * op, 300 * (N + 1) * EPS * growth(s), "larfb");
}

static int applyQ(int variant, int nb, Side side, Op trans, Direction dir, StoreV sv, View& v, Vec::fview_t& t, View& c)
{
    bool colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    const auto& vc = v;
    const auto& tc = t;
    tl::HouseholderQMulOpts o;
    o.nb = nb;
    switch (variant) {
        case 0: return tl::unmq_level2(side, trans, dir, sv, vc, tc, c);
        case 1: return tl::unmq(side, trans, dir, sv, vc, tc, c, tl::UnmqOpts{(size_t)nb});
        case 2:
            o.variant = tl::HouseholderQMulVariant::Level2;
            return tl::householder_q_mul(side, trans, dir, sv, vc, tc, c, o);
        case 3:
            o.variant = tl::HouseholderQMulVariant::Blocked;
            return tl::householder_q_mul(side, trans, dir, sv, vc, tc, c, o);
        case 4:
            if (colw && fwd) return tl::unm2r(side, trans, vc, tc, c);
            if (colw) return tl::unm2l(side, trans, vc, tc, c);
            if (fwd) return tl::unml2(side, trans, vc, tc, c);
            return tl::unmr2(side, trans, vc, tc, c);
        default:
            if (colw && fwd) return tl::unmqr(side, trans, vc, tc, c, tl::UnmqrOpts{(size_t)nb});
            if (colw) return tl::unmql(side, trans, vc, tc, c, tl::UnmqlOpts{(size_t)nb});
            if (fwd) return tl::unmlq(side, trans, vc, tc, c, tl::UnmlqOpts{(size_t)nb});
            return tl::unmrq(side, trans, vc, tc, c, tl::UnmrqOpts{(size_t)nb});
    }
}
static void doApply(int variant, int nb, Side side, Op trans, Direction dir, StoreV sv, int m, int n, int k, int zmask)
{
    bool left = side == Side::Left, colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    int N = left ? m : n;
    Set s = mkSet(k, N, fwd, colw, zmask, 6);
    Mat V(s.V.m, s.V.n), C(m, n);
    V.set(s.V);
    Vec tau(k);
    for (int i = 0; i < k; ++i) tau[i] = mk<T>(s.tau[i]);
    tau.snap();
    RM C0 = family<T>(FAM_GENERIC, m, n, 4);
    C.set(C0);
    auto v = V.view();
    auto c = C.view();
    auto tv = tau.fview();
    int info = applyQ(variant, nb, side, trans, dir, sv, v, tv, c);
    MC_CHECK(info == 0, "info", "returned %d", info);
    V.constant("V");
    tau.constant("tau");
    C.guards("C");
    // rowwise storage: Q is the conjugate transpose of the product (the LQ/RQ convention)
    RM Q = colw ? s.Hm : H(s.Hm);
    RM op = trans == Op::NoTrans ? Q : H(Q);
    cmpMat(C.get(), left ? op * C0 : C0 * op, 300 * (N + 1) * EPS * growth(s), "apply Q");
}
MC_HARNESS(apply_q)
{
    Side side = pickSide();
    Op trans = pickTrans();
    Direction dir = pickDir();
    StoreV sv = pickStore();
    int hi = mc::thorough() ? 6 : 5;
    int m = mc::range("m", 0, hi), n = mc::range("n", 0, hi);
    int N = side == Side::Left ? m : n;
    int k = mc::range("k", 0, N);
    int variant = mc::choose("variant", 6);
    int nb = (variant & 1) ? mc::range("nb", 1, std::min(4, std::max(1, k)) + 1) : 1;
    mc::body();
    doApply(variant, nb, side, trans, dir, sv, m, n, k, 0);
}
MC_HARNESS(apply_q_large)
{
    Side side = pickSide();
    Op trans = pickTrans();
    Direction dir = pickDir();
    StoreV sv = pickStore();
    static const int fixed[][4] = {{33, 5, 33, 32}, {40, 3, 35, 32}, {70, 2, 66, 32}, {20, 9, 17, 5}, {20, 20, 20, 7}};
    // the fixed shapes, then every order 7..: a step size or threshold anywhere has its boundary here
    int s = mc::choose("size", mc::thorough() ? 70 : 48);
    int variant = mc::pick("variant", {0, 1, 5});
    mc::body();
    int sz[4] = {s + 2, s % 2 ? 3 : s + 2, s + 2 - s % 3, 8};
    if (s < 5) for (int i = 0; i < 4; ++i) sz[i] = fixed[s][i];
    else if (!mc::thorough() && (s + variant) % 3) throw mc::Prune{};
    int N = sz[0], o = sz[1];
    Set st = mkSet(1, 1, true, true, 0, 1);
    (void)st;
    // use unitary reflectors here: long products of arbitrary ones would grow
    bool left = side == Side::Left, colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    int m = left ? N : o, n = left ? o : N, k = sz[2];
    RM V = colw ? RM(N, k) : RM(k, N), Vr = V;
    std::vector<cx> tau;
    for (int i = 0; i < k; ++i) {
        int p = fwd ? i : N - k + i;
        LD nn = 1;
        for (int r = 0; r < N; ++r) {
            bool ref = fwd ? r > p : r < p;
            cx g = gen<T>(r, i, 9);
            if (ref) nn += g.re * g.re + g.im * g.im;
            (colw ? V(r, i) : V(i, r)) = ref ? g : NANCX();
            (colw ? Vr(r, i) : Vr(i, r)) = ref ? g : cx(0);
        }
        // |1 - tau v^H v| = 1  with a complex phase
        LD th = 0.3L * (i % 7);
        cx ph = CPLX ? cx(-cosl(th), sinl(th)) : cx(-1);
        cx t = (cx(1) - ph);
        tau.push_back(up(mk<T>(cx(t.re / nn, t.im / nn))));
    }
    RM Hm = hprod(Vr, tau, k, N, fwd, colw);
    Mat Vm(V.m, V.n), C(m, n);
    Vm.set(V);
    Vec tv(k);
    for (int i = 0; i < k; ++i) tv[i] = mk<T>(tau[i]);
    RM C0 = family<T>(FAM_GENERIC, m, n, 4);
    C.set(C0);
    auto v = Vm.view();
    auto c = C.view();
    auto t = tv.fview();
    applyQ(variant, sz[3], side, trans, dir, sv, v, t, c);
    Vm.constant("V");
    C.guards("C");
    RM Q = colw ? Hm : H(Hm);
    RM op = trans == Op::NoTrans ? Q : H(Q);
    RM D = C.get() - (left ? op * C0 : C0 * op);
    small(nrmF(D), 100 * N * EPS * nrmF(C0), "value", "apply Q (large)");
}

static int genQ(int variant, int nb, Direction dir, StoreV sv, View& a, Vec::fview_t& t)
{
    bool colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    const auto& tc = t;
    tl::GenHouseholderQOpts o;
    o.nb = nb;
    switch (variant) {
        case 0: return tl::ungq_level2(dir, sv, a, tc);
        case 1: return tl::ungq(dir, sv, a, tc, tl::UngqOpts{(size_t)nb});
        case 2:
            o.variant = tl::GenHouseholderQVariant::Level2;
            return tl::gen_householder_q(dir, sv, a, tc, o);
        case 3:
            o.variant = tl::GenHouseholderQVariant::Blocked;
            return tl::gen_householder_q(dir, sv, a, tc, o);
        case 4:
            if (colw && fwd) return tl::ung2r(a, tc);
            if (colw) return tl::ung2l(a, tc);
            if (fwd) return tl::ungl2(a, tc);
            return tl::ungr2(a, tc);
        default:
            if (colw && fwd) return tl::ungqr(a, tc, tl::UngqrOpts{(size_t)nb});
            if (colw) return tl::ungql(a, tc, tl::UngqlOpts{(size_t)nb});
            if (fwd) return tl::unglq(a, tc, tl::UnglqOpts{(size_t)nb});
            return tl::ungrq(a, tc, tl::UngrqOpts{(size_t)nb});
    }
}
static void doGen(int variant, int nb, Direction dir, StoreV sv, int N, int p, int k, int zmask)
{
    bool colw = sv == StoreV::Columnwise, fwd = dir == Direction::Forward;
    Set s = mkSet(k, N, fwd, colw, zmask, 5);
    int m = colw ? N : p, n = colw ? p : N;
    Mat A(m, n);
    for (int i = 0; i < s.V.m; ++i)
        for (int j = 0; j < s.V.n; ++j) A(colw || fwd ? i : m - k + i, colw && !fwd ? n - k + j : j) = mk<T>(s.V(i, j));
    A.snap();
    Vec tau(k);
    for (int i = 0; i < k; ++i) tau[i] = mk<T>(s.tau[i]);
    tau.snap();
    auto a = A.view();
    auto tv = tau.fview();
    int info = genQ(variant, nb, dir, sv, a, tv);
    MC_CHECK(info == 0, "info", "returned %d", info);
    A.guards("A");
    tau.constant("tau");
    RM Q = colw ? s.Hm : H(s.Hm);
    RM ref = colw ? sub(Q, 0, N, fwd ? 0 : N - p, fwd ? p : N) : sub(Q, fwd ? 0 : N - p, fwd ? p : N, 0, N);
    cmpMat(A.get(), ref, 300 * (N + 1) * EPS * growth(s), "generated Q");
}
MC_HARNESS(generate_q)
{
    Direction dir = pickDir();
    StoreV sv = pickStore();
    int N = mc::range("N", 0, mc::thorough() ? 7 : 6);
    int p = mc::range("p", 0, N);
    int k = mc::range("k", 0, p);
    int variant = mc::choose("variant", 6);
    int nb = (variant & 1) ? mc::range("nb", 1, std::min(5, std::max(1, k)) + 1) : 1;
    int zmask = mc::pick("zerotau", {0, 2});
    mc::body();
    doGen(variant, nb, dir, sv, N, p, k, zmask);
}
MC_MAIN
