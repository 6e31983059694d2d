// C20, part b: reductions, LDL, inversion, norms, eigenvectors and the multishift QR family.
#include "c20_work.hpp"
#include "hessfam.hpp"
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/trevc3.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
using tl::Op;
using tl::Side;
using tl::Uplo;
typedef std::complex<R> CR;

MC_HARNESS(hess)
{
    int alg = mc::choose("alg(gehd2,gehrd,hessenberg2,hessenbergB,gehrd_default)", 5);
    int n = mc::pick("n", {0, 1, 2, 3, 4, 5, 6, 7});
    int nb = alg == 1 || alg == 3 ? mc::pick("nb", {1, 2, 3}) : 2, nx = alg == 1 || alg == 3 ? mc::pick("nx", {0, 1, 2, 4}) : 0;
    int ilo = mc::range("ilo", 0, n), ihi = mc::range("ihi", ilo, n);
    mc::body();
    mc::require(n == 0 || ilo < n);  // documented: 0 <= ilo <= ihi, ilo < n
    RM A0 = gm(n, n, 51);
    isolate(A0, ilo, ihi);
    tl::HessenbergOpts o;
    o.nb = nb;
    o.nx_switch = nx;
    o.variant = alg == 2 ? tl::HessenbergVariant::Level2 : tl::HessenbergVariant::Blocked;
    const tl::GehrdOpts& g = o;
    tl::GehrdOpts dflt;
    size_t lo = ilo, hi = ihi;
    auto body = [&](auto&& call, Outs& out) {
        Mat A = matOf(A0);
        Vec tau(n ? n - 1 : 0);
        auto a = A.view();
        auto t = tau.fview();
        out.num(call(a, t));
        out.mat(A, "A");
        tau.guards("tau");
        for (int i = ilo; i + 1 < ihi; ++i) out.one(tau[i]);
    };
    Mat A = matOf(A0);
    Vec tau(n ? n - 1 : 0);
    auto a = A.view();
    auto t = tau.fview();
    tl::WorkInfo w = alg == 0 ? tl::gehd2_worksize<T>(lo, hi, a, t) : alg == 1 ? tl::gehrd_worksize<T>(lo, hi, a, t, g) : alg == 4 ? tl::gehrd_worksize<T>(lo, hi, a, t, dflt) : tl::hessenberg_worksize<T>(lo, hi, a, t, o);
    ws<T>("hessenberg", w,
          [&](auto& wk, Outs& out) { body([&](auto& a, auto& t) { return alg == 0 ? tl::gehd2_work(lo, hi, a, t, wk) : alg == 1 ? tl::gehrd_work(lo, hi, a, t, wk, g) : alg == 4 ? tl::gehrd_work(lo, hi, a, t, wk, dflt) : tl::hessenberg_work(lo, hi, a, t, wk, o); }, out); },
          [&](Outs& out) { body([&](auto& a, auto& t) { return alg == 0 ? tl::gehd2(lo, hi, a, t) : alg == 1 ? tl::gehrd(lo, hi, a, t, g) : alg == 4 ? tl::gehrd(lo, hi, a, t, dflt) : tl::hessenberg(lo, hi, a, t, o); }, out); });
}
MC_HARNESS(hess_large)
{
    int n = mc::pick("n", {33, 40, 70, 131}), ilo = mc::pick("ilo", {0, 1}), d = mc::pick("n-ihi", {0, 1}), nx = mc::pick("nx", {0, 128});
    mc::body();
    RM A0 = gm(n, n, 52);
    size_t lo = ilo, hi = n - d;
    isolate(A0, ilo, n - d);
    tl::GehrdOpts g;
    g.nx_switch = nx;
    auto body = [&](auto&& call, Outs& out) {
        Mat A = matOf(A0);
        Vec tau(n - 1);
        auto a = A.view();
        auto t = tau.fview();
        out.num(call(a, t));
        out.mat(A, "A");
        tau.guards("tau");
        for (int i = ilo; i + 1 < n - d; ++i) out.one(tau[i]);
    };
    Mat A = matOf(A0);
    Vec tau(n - 1);
    auto a = A.view();
    auto t = tau.fview();
    ws<T>("gehrd", tl::gehrd_worksize<T>(lo, hi, a, t, g), [&](auto& wk, Outs& out) { body([&](auto& a, auto& t) { return tl::gehrd_work(lo, hi, a, t, wk, g); }, out); },
          [&](Outs& out) { body([&](auto& a, auto& t) { return tl::gehrd(lo, hi, a, t, g); }, out); });
}
MC_HARNESS(hess_q)
{
    int n = mc::range("n", 0, HI() + 2), ilo = mc::range("ilo", 0, n), ihi = mc::range("ihi", ilo, n);
    int mode = mc::choose("unghr/unmhr", 2);
    Side s = mode ? pickSide() : Side::Left;
    Op t = mode ? pickT() : Op::NoTrans;
    int c = mode ? mc::range("other", 0, HI()) : n;
    mc::body();
    size_t lo = ilo, hi = ihi;
    Mat A0(n, n);
    A0.set(gm(n, n, 53));
    Vec tau(n ? n - 1 : 0);
    tau.fill([](int i) { return gen<T>(i, 5, 54); });
    auto tv = tau.fview();
    auto a0 = A0.view();
    if (!mode) {
        auto body = [&](auto&& call, Outs& out) {
            Mat A = A0;
            auto a = A.view();
            out.num(call(a));
            out.mat(A, "A");
            tau.constant("tau");
        };
        ws<T>("unghr", tl::unghr_worksize<T>(lo, hi, a0, tv), [&](auto& wk, Outs& o) { body([&](auto& a) { return tl::unghr_work(lo, hi, a, tv, wk); }, o); },
              [&](Outs& o) { body([&](auto& a) { return tl::unghr(lo, hi, a, tv); }, o); });
        return;
    }
    Mat C0(s == Side::Left ? n : c, s == Side::Left ? c : n);
    C0.set(gm(C0.m, C0.n, 55));
    auto c0 = C0.view();
    auto body = [&](auto&& call, Outs& out) {
        Mat A = A0, C = C0;
        auto a = A.view(), c = C.view();
        out.num(call(a, c));
        out.mat(C, "C");
        tau.constant("tau");
        A.constant("A");
    };
    ws<T>("unmhr", tl::unmhr_worksize<T>(s, t, lo, hi, a0, tv, c0), [&](auto& wk, Outs& o) { body([&](auto& a, auto& c) { return tl::unmhr_work(s, t, lo, hi, a, tv, c, wk); }, o); },
          [&](Outs& o) { body([&](auto& a, auto& c) { return tl::unmhr(s, t, lo, hi, a, tv, c); }, o); });
}
MC_HARNESS(bidiag)
{
    int alg = mc::choose("alg(gebd2,gebrd,bidiag2,bidiagB)", 4), m = mc::range("m", 0, HI() + 3), n = mc::range("n", 0, HI() + 3);
    int nb = (alg & 1) ? mc::pick("nb", {1, 2, 3, 5, 32}) : 1;
    mc::body();
    RM A0 = gm(m, n, 61);
    int k = std::min(m, n);
    tl::BidiagOpts o;
    o.nb = nb;
    o.variant = alg == 2 ? tl::BidiagVariant::Level2 : tl::BidiagVariant::Blocked;
    const tl::GebrdOpts& g = o;
    auto body = [&](auto&& call, Outs& out) {
        Mat A = matOf(A0);
        Vec q(k), p(k);
        auto a = A.view();
        auto tq = q.fview(), tp = p.fview();
        out.num(call(a, tq, tp));
        out.mat(A, "A");
        out.vec(q, "tauq");
        p.guards("taup");
        for (int i = 0; i < std::min(m, n - 1); ++i) out.one(p[i]);
    };
    Mat A = matOf(A0);
    Vec q(k), p(k);
    auto a = A.view();
    auto tq = q.fview(), tp = p.fview();
    tl::WorkInfo w = alg == 0 ? tl::gebd2_worksize<T>(a, tq, tp) : alg == 1 ? tl::gebrd_worksize<T>(a, tq, tp, g) : tl::bidiag_worksize<T>(a, tq, tp, o);
    ws<T>("bidiag", w, [&](auto& wk, Outs& out) { body([&](auto& a, auto& q, auto& p) { return alg == 0 ? tl::gebd2_work(a, q, p, wk) : alg == 1 ? tl::gebrd_work(a, q, p, wk, g) : tl::bidiag_work(a, q, p, wk, o); }, out); },
          [&](Outs& out) { body([&](auto& a, auto& q, auto& p) { return alg == 0 ? tl::gebd2(a, q, p) : alg == 1 ? tl::gebrd(a, q, p, g) : tl::bidiag(a, q, p, o); }, out); });
}
MC_HARNESS(bidiag_q)
{
    int p = mc::choose("ungbr_q/p", 2), n = mc::range("order", 0, HI() + 2), k = mc::range("k", 0, HI() + 3), nb = mc::pick("nb", {1, 2, 3, 32});
    // rectangular part of Q (P^H): fewer columns (rows) than the order
    int w = (k <= n && !(p && k == n)) ? mc::range("cols", std::min(k, n), n) : n;
    mc::body();
    Mat A0(p ? w : n, p ? n : w);
    A0.set(gm(A0.m, A0.n, 62));
    bool full = p ? n > k : n >= k;
    Vec tau(full ? std::min(k, n) : std::max(n - 1, 0));
    tau.fill([](int i) { return gen<T>(i, 5, 63); });
    auto t = tau.fview();
    auto a0 = A0.view();
    tl::UngbrOpts o;
    o.nb = nb;
    auto body = [&](auto&& call, Outs& out) {
        Mat A = A0;
        auto a = A.view();
        out.num(call(a));
        out.mat(A, "A");
        tau.constant("tau");
    };
    size_t kk = k;
    ws<T>("ungbr", p ? tl::ungbr_p_worksize<T>(kk, a0, t, o) : tl::ungbr_q_worksize<T>(kk, a0, t, o), [&](auto& wk, Outs& out) { body([&](auto& a) { return p ? tl::ungbr_p_work(kk, a, t, wk, o) : tl::ungbr_q_work(kk, a, t, wk, o); }, out); },
          [&](Outs& out) { body([&](auto& a) { return p ? tl::ungbr_p(kk, a, t, o) : tl::ungbr_q(kk, a, t, o); }, out); });
}
MC_HARNESS(ldl)
{
    int alg = mc::choose("hetrf_blocked/hetrf", 2), n = mc::range("n", 0, HI() + 4), nb = mc::pick("nb", {2, 3, 4, 32});
    Uplo u = pickUplo();
    bool herm = !CPLX || mc::flag("hermitian");
    int fam = mc::choose("diagonal(zero,generic)", 2);
    mc::body();
    RM A0 = gm(n, n, 64);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) {
            A0(i, j) = herm ? cj(A0(j, i)) : A0(j, i);
            if (i == j) A0(i, i) = fam ? (herm ? cx(A0(i, i).re) : A0(i, i)) : cx(0);
        }
    tl::HetrfOpts o;
    o.nb = nb;
    o.invariant = herm ? Op::ConjTrans : Op::Trans;
    auto body = [&](auto&& call, Outs& out) {
        Mat A(n, n);
        fillTri(A, u, tl::Diag::NonUnit, false, [&](int i, int j) { return A0(i, j); });
        std::vector<int> ip(n, -9);
        auto a = A.view();
        out.num(call(a, ip));
        out.mat(A, "A");
        for (int x : ip) out.num(x);
    };
    Mat A(n, n);
    auto a = A.view();
    tl::WorkInfo w = tl::hetrf_blocked_worksize<T>(a, o);
    ws<T>("hetrf", w, [&](auto& wk, Outs& out) { body([&](auto& a, auto& ip) { return alg ? tl::hetrf_work(u, a, ip, wk, o) : tl::hetrf_blocked_work(u, a, ip, wk, o); }, out); },
          [&](Outs& out) { body([&](auto& a, auto& ip) { return alg ? tl::hetrf(u, a, ip, o) : tl::hetrf_blocked(u, a, ip, o); }, out); });
}
MC_HARNESS(inverse)
{
    int alg = mc::choose("getri_uxli,getri(UXLI),getri(UILI)", 3), n = mc::range("n", 0, HI() + 3), z = mc::range("zero pivot at", 0, n);
    mc::body();
    // UILI refuses to compute in place with one matrix in this version
    RM A0 = gm(n, n, 65);
    for (int i = 0; i < n; ++i) A0(i, i) = A0(i, i) + cx(n + 1);
    if (z < n) A0(z, z) = 0;
    tl::GetriOpts o;
    o.variant = alg == 2 ? tl::GetriVariant::UILI : tl::GetriVariant::UXLI;
    std::vector<size_t> piv(n);
    for (int i = 0; i < n; ++i) piv[i] = i + (i * 7 + 3) % (n - i);
    auto body = [&](auto&& call, Outs& out) {
        Mat A = matOf(A0);
        auto a = A.view();
        out.num(call(a));
        out.mat(A, "A");
    };
    Mat A = matOf(A0);
    auto a = A.view();
    if (alg == 2) throw mc::Prune{};
    ws<T>("getri", alg ? tl::getri_worksize<T>(a, piv, o) : tl::getri_uxli_worksize<T>(a), [&](auto& wk, Outs& out) { body([&](auto& a) { return alg ? tl::getri_work(a, piv, wk, o) : tl::getri_uxli_work(a, wk); }, out); },
          [&](Outs& out) { body([&](auto& a) { return alg ? tl::getri(a, piv, o) : tl::getri_uxli(a); }, out); });
}
MC_HARNESS(norms)
{
    int kind = mc::choose("kind(ge,he,sy,tr)", 4), m = mc::range("m", 0, HI() + 2), n = kind == 0 || kind == 3 ? mc::range("n", 0, HI() + 2) : m;
    Uplo u = kind ? pickUplo() : Uplo::Upper;
    tl::Diag d = kind == 3 ? pickDiag() : tl::Diag::NonUnit;
    mc::body();
    RM A0 = gm(m, n, 66);
    Mat A = matOf(A0);
    auto a = A.view();
    tl::WorkInfo w = kind == 0 ? tl::infnorm_colmajor_worksize<R>(a) : kind == 1 ? tl::infnorm_hermitian_colmajor_worksize<R>(u, a) : kind == 2 ? tl::infnorm_symmetric_colmajor_worksize<R>(u, a) : tl::infnorm_triangular_colmajor_worksize<R>(u, d, a);
    ws<R>("infnorm", w, [&](auto& wk, Outs& out) { out.num(kind == 0 ? tl::infnorm_colmajor_work(a, wk) : kind == 1 ? tl::infnorm_hermitian_colmajor_work(u, a, wk) : kind == 2 ? tl::infnorm_symmetric_colmajor_work(u, a, wk) : tl::infnorm_triangular_colmajor_work(u, d, a, wk)); },
          [&](Outs& out) { out.num(kind == 0 ? tl::infnorm_colmajor(a) : kind == 1 ? tl::infnorm_hermitian_colmajor(u, a) : kind == 2 ? tl::infnorm_symmetric_colmajor(u, a) : tl::infnorm_triangular_colmajor(u, d, a)); });
}
#if MC_WL == 2
static void evec(bool blk, int n, int fam, int side, int mode, const tl::Trevc3Opts& o, uint32_t sel0)
{
    RM A0 = gm(n, n, 67);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) A0(i, j) = 0;
    for (int i = 0; i < n; ++i) A0(i, i) = cx(i + 1);
    if (!CPLX && fam)  // standardised 2x2 blocks
        for (int i = fam - 1; i + 1 < n; i += 3) {
            A0(i + 1, i + 1) = A0(i, i);
            A0(i, i + 1) = 2;
            A0(i + 1, i) = -1;
        }
    tl::Side s = side == 0 ? Side::Right : side == 1 ? Side::Left : Side::Both;
    tl::HowMny how = mode == 0 ? tl::HowMny::All : mode == 1 ? tl::HowMny::Back : tl::HowMny::Select;
    std::vector<int> sel(n);
    for (int i = 0; i < n; ++i) sel[i] = (sel0 >> (i % 8)) & 1;
    Mat At(n, n);
    At.set(A0);
    auto t = At.view();
    int rdirty = 0;
    auto body = [&](auto&& call, Outs& out) {
        Mat Vl(n, n), Vr(n, n);
        Vl.set(gm(n, n, 68));
        Vr.set(gm(n, n, 69));
        auto l = Vl.view(), r = Vr.view();
        std::vector<int> ss = sel;
        out.num(call(ss, l, r));
        out.mat(Vl, "Vl");
        out.mat(Vr, "Vr");
        for (int x : ss) out.num(x);
        At.constant("T");
    };
    Mat Vl(n, n), Vr(n, n);
    auto l = Vl.view(), r = Vr.view();
    std::vector<int> s1 = sel;
    tl::WorkInfo w = blk ? tl::trevc3_worksize(s, how, s1, t, l, r, o) : tl::WorkInfo(3 * n);
    auto runIt = [&](auto& wk, Outs& out, int dirty) {
        body([&](auto& ss, auto& l, auto& r) {
            VecR rw(n);
            rw.fill([&](int) { return dirty % 3 == 0 ? cx(0) : dirty % 3 == 1 ? cx(NAN) : cx(std::numeric_limits<R>::max()); });
            auto rv = rw.fview();
            int i = blk ? tl::trevc3_work(s, how, ss, t, l, r, rv, wk, o) : tl::trevc(s, how, ss, t, l, r, rv, wk);
            rw.guards("rwork");
            return i;
        }, out);
    };
    ws<T>(blk ? "trevc3" : "trevc", w, [&](auto& wk, Outs& out) { runIt(wk, out, rdirty++); },
          [&](Outs& out) {
              if (blk) body([&](auto& ss, auto& l, auto& r) { return tl::trevc3(s, how, ss, t, l, r, o); }, out);
              else {
                  Vec wk(3 * n);
                  wk.fill([](int) { return cx(1); });
                  auto v = wk.fview();
                  runIt(v, out, 0);
              }
          });
}
MC_HARNESS(eigenvectors)
{
    int blk = mc::choose("trevc/trevc3", 2), n = mc::range("n", 0, HI() + 2), side = mc::choose("side", 3), mode = mc::choose("how", 3);
    int fam = CPLX ? 0 : mc::choose("blocks", 4);
    tl::Trevc3Opts o;
    if (blk) {
        o.block_size = mc::pick("nb", {1, 2, 3, 8});
        o.block_size_solve = mc::pick("nbs", {1, 2, 3, 8});
    }
    uint32_t sel = mode == 2 && n ? (uint32_t)mc::choose("select", 1 << n) : 0;
    mc::body();
    mc::require(!blk || o.block_size > 1);
    evec(blk, n, fam, side, mode, o, sel);
}
MC_HARNESS(eigenvectors_large)
{
    int n = mc::pick("n", {33, 70}), side = mc::choose("side", 3), mode = mc::choose("how", 3), fam = CPLX ? 0 : mc::choose("blocks", 2), nb = mc::pick("nb", {0, 5, 32});
    tl::Trevc3Opts o;
    if (nb) o.block_size = nb, o.block_size_solve = nb + 1;
    mc::body();
    evec(true, n, fam, side, mode, o, 0x6d);
}
#endif
MC_HARNESS(multishift)
{
    int alg = mc::choose("multishift_qr/qr_iteration(multi)/qr_iteration(double)", 3);
    int n = mc::pick("n", {0, 1, 2, 9, 14, 15, 16, 20, 27, 33}), fam = mc::pick("fam", {0, 7, 13, 14, 18, 20, 25, 26, 28}), nmin = mc::pick("nmin", {15, 20}), ns = mc::pick("ns", {0, 2, 3, 4, 6, 12, 64}), nw = mc::pick("nw", {1, 2, 3, 4, 7, 20, 64});
    int k = mc::choose("range", 4), want = mc::choose("want(t,z)", 4);
    mc::body();
    if (!mc::thorough() && (fam + nw + ns + k + want + nmin / 5) % 11) throw mc::Prune{};
    if (n < 15 && (ns != 4 || nw != 4)) throw mc::Prune{};
    int ilo = (k & 1) && n > 5 ? 2 : 0, ihi = (k & 2) && n > 5 ? n - 3 : n;
    size_t lo = ilo, hi = ihi;
    RM A0 = hess(fam, n);
    isolate(A0, ilo, ihi);
    auto opts = [&](tl::QRIterationOpts& op) {
        op.nmin = nmin;
        size_t a = ns, b = nw;
        op.nshift_recommender = [a](size_t, size_t) { return a; };
        op.deflation_window_recommender = [b](size_t, size_t) { return b; };
        op.variant = alg == 2 ? tl::QRIterationVariant::DoubleShift : tl::QRIterationVariant::MultiShift;
    };
    bool wt = want & 1, wz = want & 2;
    auto body = [&](auto&& call, Outs& out) {
        Mat A(n, n), Z(wz ? n : 0, wz ? n : 0);
        A.set(A0);
        Z.set(RM::eye(wz ? n : 0));
        GV<CR> w(n);
        w.fill([](int) { return cx(777, -777); });
        auto a = A.view(), z = Z.view();
        auto wv = w.fview();
        tl::QRIterationOpts op;
        opts(op);
        out.num(call(a, wv, z, op));
        A.guards("A");
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (i <= j + 1 && wt) out.one(A(i, j));
        out.mat(Z, "Z");
        out.vec(w, "w");
        out.num(op.n_aed);
        out.num(op.n_sweep);
        out.num(op.n_shifts_total);
    };
    Mat A(n, n), Z(n, n);
    GV<CR> w(n);
    auto a = A.view(), z = Z.view();
    auto wv = w.fview();
    tl::QRIterationOpts op;
    opts(op);
    tl::WorkInfo wi = alg == 0 ? tl::multishift_qr_worksize<T>(wt, wz, lo, hi, a, wv, z, op) : tl::qr_iteration_worksize<T>(wt, wz, lo, hi, a, wv, z, op);
    ws<T>("multishift_qr", wi, [&](auto& wk, Outs& out) { body([&](auto& a, auto& w, auto& z, auto& op) { return alg ? tl::qr_iteration_work(wt, wz, lo, hi, a, w, z, wk, op) : tl::multishift_qr_work(wt, wz, lo, hi, a, w, z, wk, op); }, out); },
          [&](Outs& out) { body([&](auto& a, auto& w, auto& z, auto& op) { return alg ? tl::qr_iteration(wt, wz, lo, hi, a, w, z, op) : tl::multishift_qr(wt, wz, lo, hi, a, w, z, op); }, out); });
}
MC_HARNESS(aed_sweep)
{
    int alg = mc::choose("aed/sweep", 2), n = mc::pick("n", {12, 13, 16, 20, 27, 60, 75}), fam = mc::pick("fam", {0, 13, 14, 18, 20, 25, 26, 28});
    int p = mc::pick("window/shifts", {1, 2, 3, 4, 5, 6, 10, 20});
    int nmin = alg ? 75 : mc::pick("nmin", {15, 18, 75});
    int k = mc::choose("range", 4), want = mc::choose("want(t,z)", 4);
    mc::body();
    if (!mc::thorough() && n > 30 && (fam + p + k + want) % 4) throw mc::Prune{};
    int ilo = (k & 1) ? 2 : 0, ihi = (k & 2) ? n - 3 : n;
    size_t lo = ilo, hi = ihi;
    RM A0 = hess(fam, n);
    isolate(A0, ilo, ihi);
    bool wt = want & 1, wz = want & 2;
    mc::require(alg == 0 || (p % 2 == 0 && p <= n));
    tl::FrancisOpts fo;
    fo.nmin = nmin;
    auto body = [&](auto&& call, Outs& out) {
        Mat A(n, n), Z(n, n);
        A.set(A0);
        Z.set(RM::eye(n));
        GV<CR> w(alg ? p : n);
        w.fill([](int i) { return cx((i / 2) + 1, (i & 1) ? -1 : 1); });
        auto a = A.view(), z = Z.view();
        auto wv = w.fview();
        call(a, wv, z, out);
        A.guards("A");
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (i <= j + 1) out.one(A(i, j));
        if (wz) out.mat(Z, "Z");
        else Z.constant("Z");
        out.vec(w, "w");
    };
    Mat A(n, n), Z(n, n);
    GV<CR> w(alg ? p : n);
    auto a = A.view(), z = Z.view();
    auto wv = w.fview();
    size_t nw = p, ns = 0, nd = 0;
    tl::WorkInfo wi = alg ? tl::multishift_QR_sweep_worksize<T>(wt, wz, lo, hi, a, wv, z) : tl::aggressive_early_deflation_worksize<T>(wt, wz, lo, hi, nw, a, wv, z, ns, nd, fo);
    ws<T>(alg ? "multishift_QR_sweep" : "aggressive_early_deflation", wi,
          [&](auto& wk, Outs& out) {
              body([&](auto& a, auto& w, auto& z, Outs& out) {
                  size_t ns = 0, nd = 0;
                  tl::FrancisOpts f = fo;
                  if (alg) tl::multishift_QR_sweep_work(wt, wz, lo, hi, a, w, z, wk);
                  else tl::aggressive_early_deflation_work(wt, wz, lo, hi, nw, a, w, z, ns, nd, wk, f);
                  out.num(ns);
                  out.num(nd);
              }, out);
          },
          [&](Outs& out) {
              body([&](auto& a, auto& w, auto& z, Outs& out) {
                  size_t ns = 0, nd = 0;
                  tl::FrancisOpts f = fo;
                  if (alg) tl::multishift_QR_sweep(wt, wz, lo, hi, a, w, z);
                  else tl::aggressive_early_deflation(wt, wz, lo, hi, nw, a, w, z, ns, nd, f);
                  out.num(ns);
                  out.num(nd);
              }, out);
          });
}
MC_HARNESS(trmm_mixed)
{
    int m = mc::range("m", 0, HI() + 2), n = mc::range("n", 0, HI() + 1), nb = mc::pick("nb", {1, 2, 3, 32});
    tl::Diag d = pickDiag();
    mc::body();
    Mat A(m, m), B0(m, n);
    A.set(gm(m, m, 71));
    B0.set(gm(m, n, 72));
    auto a = A.view();
    tl::TrmmBlockedOpts o;
    o.nb = nb;
    auto body = [&](auto& wk, Outs& out) {
        Mat B = B0;
        auto b = B.view();
        tl::trmm_blocked_mixed(Side::Left, Uplo::Upper, Op::NoTrans, d, T(3), a, b, wk, o);
        out.mat(B, "B");
    };
    // the documented workspace: nb by n
    tl::WorkInfo w(std::min(nb, m), n);
    ws<T>("trmm_blocked_mixed", w, [&](auto& wk, Outs& out) { body(wk, out); },
          [&](Outs& out) {
              std::vector<T> s(nb * n + 1);
              tl::LegacyVector<T, size_t> v((size_t)nb * n, s.data());
              body(v, out);
          });
}
MC_MAIN
