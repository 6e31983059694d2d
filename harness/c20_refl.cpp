// C20 (part 1): workspace contract of reflector application/generation and of the QR family; WorkInfo arithmetic.
#include "c20_work.hpp"
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/unmq.hpp>
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/gelqt.hpp>
using tl::Direction;
using tl::Op;
using tl::Side;
using tl::StoreV;
static Direction pickDir() { return mc::pick("direction", {Direction::Forward, Direction::Backward}); }
static StoreV pickStore() { return mc::pick("store", {StoreV::Columnwise, StoreV::Rowwise}); }

// the arithmetic of workspace queries: the combined requirement must be able to hold its parts
static tl::WorkInfo pickInfo(const char* nm, int hi)
{
    int kind = mc::choose(nm, 2), a = mc::range("a", 0, hi), b = kind ? mc::range("b", 0, hi) : 1;
    return kind ? tl::WorkInfo(a, b) : tl::WorkInfo(a);
}
MC_HARNESS(arithmetic)
{
    int hi = mc::thorough() ? 4 : 3, len = mc::range("terms", 2, 3);
    std::vector<tl::WorkInfo> t;
    std::vector<int> op;
    t.push_back(pickInfo("first", hi));
    for (int i = 1; i < len; ++i) {
        op.push_back(mc::choose("op(max,sum,maxT,sumT)", 4));
        t.push_back(pickInfo("next", len == 3 ? std::min(hi, 3) : hi));
    }
    mc::body();
    tl::WorkInfo w = t[0];
    size_t need = t[0].size();
    for (int i = 1; i < len; ++i) {
        tl::WorkInfo x = op[i - 1] >= 2 ? t[i].transpose() : t[i];
        MC_CHECK(x.size() == t[i].size(), "transpose", "transpose changes the size");
        if (op[i - 1] % 2) { w += x; need += x.size(); }
        else { w.minMax(x); need = std::max(need, x.size()); }
        mc::mix(w.m * 100 + w.n);
        MC_CHECK(w.size() >= need, "under-reports", "combined query reports %ldx%ld for a requirement of %ld", (long)w.m, (long)w.n, (long)need);
    }
}
MC_HARNESS(larf)
{
    Side s = pickSide();
    Direction d = pickDir();
    StoreV st = pickStore();
    int m = mc::range("m", 0, HI() + 1), n = mc::range("n", 0, HI() + 1), form = mc::choose("form(v,split)", 2);
    mc::body();
    int l = s == Side::Left ? m : n;
    mc::require(form == 0 || l > 0);
    RM C0 = gm(m, n, 1);
    Vec v(l);
    v.fill([](int i) { return gen<T>(i, 0, 2); });
    T tau = mk<T>(gen<T>(1, 1, 3));
    auto body = [&](auto&& call, Outs& o) {
        Mat C = matOf(C0);
        auto c = C.view();
        auto vv = v.fview();
        call(vv, c);
        o.mat(C, "C");
        v.constant("v");
    };
    Mat C = matOf(C0);
    auto c = C.view();
    auto vv = v.fview();
    if (form == 0)
        ws<T>("larf", tl::larf_worksize<T>(s, d, st, vv, tau, c),
              [&](auto& w, Outs& o) { body([&](auto& x, auto& c) { tl::larf_work(s, d, st, x, tau, c, w); }, o); },
              [&](Outs& o) { body([&](auto& x, auto& c) { tl::larf(s, d, st, x, tau, c); }, o); });
    else {
        typedef std::pair<size_t, size_t> rg;
        if (s == Side::Left) {
            auto x = tl::slice(vv, rg{1, (size_t)l});
            auto c0 = tl::row(c, 0);
            auto c1 = tl::rows(c, rg{1, (size_t)m});
            ws<T>("larf(split)", tl::larf_worksize<T>(s, st, x, tau, c0, c1),
                  [&](auto& w, Outs& o) { body([&](auto& v, auto& c) { auto x = tl::slice(v, rg{1, (size_t)l}); auto c0 = tl::row(c, 0); auto c1 = tl::rows(c, rg{1, (size_t)m}); tl::larf_work(s, st, x, tau, c0, c1, w); }, o); },
                  [&](Outs& o) { body([&](auto& v, auto& c) { auto x = tl::slice(v, rg{1, (size_t)l}); auto c0 = tl::row(c, 0); auto c1 = tl::rows(c, rg{1, (size_t)m}); tl::larf(s, st, x, tau, c0, c1); }, o); });
        }
        else {
            auto x = tl::slice(vv, rg{1, (size_t)l});
            auto c0 = tl::col(c, 0);
            auto c1 = tl::cols(c, rg{1, (size_t)n});
            ws<T>("larf(split)", tl::larf_worksize<T>(s, st, x, tau, c0, c1),
                  [&](auto& w, Outs& o) { body([&](auto& v, auto& c) { auto x = tl::slice(v, rg{1, (size_t)l}); auto c0 = tl::col(c, 0); auto c1 = tl::cols(c, rg{1, (size_t)n}); tl::larf_work(s, st, x, tau, c0, c1, w); }, o); },
                  [&](Outs& o) { body([&](auto& v, auto& c) { auto x = tl::slice(v, rg{1, (size_t)l}); auto c0 = tl::col(c, 0); auto c1 = tl::cols(c, rg{1, (size_t)n}); tl::larf(s, st, x, tau, c0, c1); }, o); });
        }
    }
}
struct Refl {
    Mat V, Tm;
    Vec tau;
    Mat C0;
    Refl(Side s, StoreV st, int m, int n, int k) : V(st == StoreV::Columnwise ? (s == Side::Left ? m : n) : k, st == StoreV::Columnwise ? k : (s == Side::Left ? m : n)), Tm(k, k), tau(k), C0(m, n)
    {
        V.set(gm(V.m, V.n, 11));
        Tm.set(gm(k, k, 12));
        tau.fill([](int i) { return gen<T>(i, 5, 13); });
        C0.set(gm(m, n, 14));
    }
};
MC_HARNESS(apply)
{
    int alg = mc::choose("alg(larfb,unmq_level2,unmq,householder_q_mul2,householder_q_mul)", 5);
    Side s = pickSide();
    Op t = pickT();
    Direction d = pickDir();
    StoreV st = pickStore();
    int m = mc::range("m", 0, HI()), n = mc::range("n", 0, HI()), q = s == Side::Left ? m : n, k = mc::range("k", 0, q);
    int nb = alg == 2 || alg == 4 ? mc::pick("nb", {1, 2, 3, 32}) : 1;
    mc::require(alg != 0 || t != Op::Trans || !CPLX);
    mc::body();
    Refl r(s, st, m, n, k);
    auto v = r.V.view(), tm = r.Tm.view(), c = r.C0.view();
    auto tau = r.tau.fview();
    tl::HouseholderQMulOpts ho;
    ho.nb = nb;
    ho.variant = alg == 3 ? tl::HouseholderQMulVariant::Level2 : tl::HouseholderQMulVariant::Blocked;
    tl::UnmqOpts uo;
    uo.nb = nb;
    auto body = [&](auto&& call, Outs& o) {
        Mat C = r.C0;
        auto c = C.view();
        Mat Vc = r.V;
        auto v = Vc.view();
        o.num(call(v, c));
        o.mat(C, "C");
        Vc.constant("V");
    };
    tl::WorkInfo w = alg == 0   ? tl::larfb_worksize<T>(s, t, d, st, v, tm, c)
                     : alg == 1 ? tl::unmq_level2_worksize<T>(s, t, d, st, v, tau, c)
                     : alg == 2 ? tl::unmq_worksize<T>(s, t, d, st, v, tau, c, uo)
                                : tl::householder_q_mul_worksize<T>(s, t, d, st, v, tau, c, ho);
    ws<T>("apply", w,
          [&](auto& wk, Outs& o) {
              body([&](auto& v, auto& c) {
                  return alg == 0   ? tl::larfb_work(s, t, d, st, v, tm, c, wk)
                         : alg == 1 ? tl::unmq_level2_work(s, t, d, st, v, tau, c, wk)
                         : alg == 2 ? tl::unmq_work(s, t, d, st, v, tau, c, wk, uo)
                                    : tl::householder_q_mul_work(s, t, d, st, v, tau, c, wk, ho);
              }, o);
          },
          [&](Outs& o) {
              body([&](auto& v, auto& c) {
                  return alg == 0   ? tl::larfb(s, t, d, st, v, tm, c)
                         : alg == 1 ? tl::unmq_level2(s, t, d, st, v, tau, c)
                         : alg == 2 ? tl::unmq(s, t, d, st, v, tau, c, uo)
                                    : tl::householder_q_mul(s, t, d, st, v, tau, c, ho);
              }, o);
          });
}
MC_HARNESS(apply_named)
{
    // the queries of the direction/storage specific names, used with the routine they dispatch to
    int alg = mc::choose("alg(2r,2l,l2,r2,qr,ql,lq,rq)", 8), kind = alg & 3;
    Side s = pickSide();
    Op t = pickT();
    int m = mc::range("m", 0, HI()), n = mc::range("n", 0, HI()), q = s == Side::Left ? m : n, k = mc::range("k", 0, q);
    int nb = alg >= 4 ? mc::pick("nb", {1, 2, 3}) : 1;
    mc::body();
    StoreV st = kind < 2 ? StoreV::Columnwise : StoreV::Rowwise;
    Direction d = kind == 0 || kind == 2 ? Direction::Forward : Direction::Backward;
    Refl r(s, st, m, n, k);
    auto v = r.V.view(), c = r.C0.view();
    auto tau = r.tau.fview();
    tl::UnmqOpts uo;
    uo.nb = nb;
    tl::UnmqrOpts o1; tl::UnmqlOpts o2; tl::UnmlqOpts o3; tl::UnmrqOpts o4;
    o1.nb = o2.nb = o3.nb = o4.nb = nb;
    tl::WorkInfo w;
    switch (alg) {
        case 0: w = tl::unm2r_worksize<T>(s, t, v, tau, c); break;
        case 1: w = tl::unm2l_worksize<T>(s, t, v, tau, c); break;
        case 2: w = tl::unml2_worksize<T>(s, t, v, tau, c); break;
        case 3: w = tl::unmr2_worksize<T>(s, t, v, tau, c); break;
        case 4: w = tl::unmqr_worksize<T>(s, t, v, tau, c, o1); break;
        case 5: w = tl::unmql_worksize<T>(s, t, v, tau, c, o2); break;
        case 6: w = tl::unmlq_worksize<T>(s, t, v, tau, c, o3); break;
        default: w = tl::unmrq_worksize<T>(s, t, v, tau, c, o4); break;
    }
    auto body = [&](auto&& call, Outs& o) {
        Mat C = r.C0;
        auto c = C.view();
        o.num(call(c));
        o.mat(C, "C");
    };
    ws<T>("apply named", w,
          [&](auto& wk, Outs& o) { body([&](auto& c) { return alg < 4 ? tl::unmq_level2_work(s, t, d, st, v, tau, c, wk) : tl::unmq_work(s, t, d, st, v, tau, c, wk, uo); }, o); },
          [&](Outs& o) {
              body([&](auto& c) {
                  switch (alg) {
                      case 0: return tl::unm2r(s, t, v, tau, c);
                      case 1: return tl::unm2l(s, t, v, tau, c);
                      case 2: return tl::unml2(s, t, v, tau, c);
                      case 3: return tl::unmr2(s, t, v, tau, c);
                      case 4: return tl::unmqr(s, t, v, tau, c, o1);
                      case 5: return tl::unmql(s, t, v, tau, c, o2);
                      case 6: return tl::unmlq(s, t, v, tau, c, o3);
                      default: return tl::unmrq(s, t, v, tau, c, o4);
                  }
              }, o);
          });
}
MC_HARNESS(generate)
{
    int alg = mc::choose("alg(level2,ungq,ghq2,ghq,named2)", 5);
    Direction d = pickDir();
    StoreV st = pickStore();
    int N = mc::range("N", 0, HI() + 1), p = mc::range("p", 0, N), k = mc::range("k", 0, p);
    int nb = alg == 1 || alg == 3 ? mc::pick("nb", {1, 2, 3, 32}) : 1;
    mc::body();
    bool col = st == StoreV::Columnwise, fwd = d == Direction::Forward;
    Mat A0(col ? N : p, col ? p : N);
    A0.set(gm(A0.m, A0.n, 21));
    Vec tau(k);
    tau.fill([](int i) { return gen<T>(i, 5, 22); });
    auto a = A0.view();
    auto tv = tau.fview();
    tl::GenHouseholderQOpts go;
    go.nb = nb;
    go.variant = alg == 2 ? tl::GenHouseholderQVariant::Level2 : tl::GenHouseholderQVariant::Blocked;
    tl::UngqOpts uo;
    uo.nb = nb;
    tl::WorkInfo w = alg == 0   ? tl::ungq_level2_worksize<T>(d, st, a, tv)
                     : alg == 1 ? tl::ungq_worksize<T>(d, st, a, tv, uo)
                     : alg < 4  ? tl::gen_householder_q_worksize<T>(d, st, a, tv, go)
                     : col      ? (fwd ? tl::ung2r_worksize<T>(a, tv) : tl::ung2l_worksize<T>(a, tv))
                                : (fwd ? tl::ungl2_worksize<T>(a, tv) : tl::ungr2_worksize<T>(a, tv));
    auto body = [&](auto&& call, Outs& o) {
        Mat A = A0;
        auto a = A.view();
        o.num(call(a));
        o.mat(A, "A");
        tau.constant("tau");
    };
    ws<T>("generate", w,
          [&](auto& wk, Outs& o) {
              body([&](auto& a) {
                  return alg == 0   ? tl::ungq_level2_work(d, st, a, tv, wk)
                         : alg == 1 ? tl::ungq_work(d, st, a, tv, wk, uo)
                         : alg < 4  ? tl::gen_householder_q_work(d, st, a, tv, wk, go)
                         : col      ? (fwd ? tl::ung2r_work(a, tv, wk) : tl::ung2l_work(a, tv, wk))
                                    : (fwd ? tl::ungl2_work(a, tv, wk) : tl::ungr2_work(a, tv, wk));
              }, o);
          },
          [&](Outs& o) {
              body([&](auto& a) {
                  return alg == 0   ? tl::ungq_level2(d, st, a, tv)
                         : alg == 1 ? tl::ungq(d, st, a, tv, uo)
                         : alg < 4  ? tl::gen_householder_q(d, st, a, tv, go)
                         : col      ? (fwd ? tl::ung2r(a, tv) : tl::ung2l(a, tv))
                                    : (fwd ? tl::ungl2(a, tv) : tl::ungr2(a, tv));
              }, o);
          });
}
MC_HARNESS(factor)
{
    int side = mc::choose("kind(qr,lq,ql,rq)", 4), alg = mc::choose("alg(level2,blocked,dispatch2,dispatchB)", 4);
    int m = mc::range("m", 0, HI() + 1), n = mc::range("n", 0, HI() + 1), nb = (alg & 1) ? mc::pick("nb", {1, 2, 3, 32}) : 1;
    mc::body();
    RM A0 = gm(m, n, 31);
    int k = std::min(m, n);
    auto body = [&](auto&& call, Outs& o) {
        Mat A = matOf(A0);
        Vec tau(k);
        auto a = A.view();
        auto t = tau.fview();
        o.num(call(a, t));
        o.mat(A, "A");
        o.vec(tau, "tau");
    };
    Mat A = matOf(A0);
    Vec tau(k);
    auto a = A.view();
    auto t = tau.fview();
#define FAMILY(QR, ge2, gef, Opt, hh, HOpt, HVar)                                                                                     \
    {                                                                                                                                 \
        tl::Opt o1;                                                                                                                   \
        o1.nb = nb;                                                                                                                   \
        tl::HOpt o2;                                                                                                                  \
        o2.nb = nb;                                                                                                                   \
        o2.variant = alg == 2 ? tl::HVar::Level2 : tl::HVar::Blocked;                                                                 \
        tl::WorkInfo w = alg == 0 ? tl::ge2##_worksize<T>(a, t) : alg == 1 ? tl::gef##_worksize<T>(a, t, o1) : tl::hh##_worksize<T>(a, t, o2); \
        ws<T>(QR, w, [&](auto& wk, Outs& o) { body([&](auto& a, auto& t) { return alg == 0 ? tl::ge2##_work(a, t, wk) : alg == 1 ? tl::gef##_work(a, t, wk, o1) : tl::hh##_work(a, t, wk, o2); }, o); }, \
              [&](Outs& o) { body([&](auto& a, auto& t) { return alg == 0 ? tl::ge2(a, t) : alg == 1 ? tl::gef(a, t, o1) : tl::hh(a, t, o2); }, o); }); \
    }
    if (side == 0) FAMILY("qr", geqr2, geqrf, GeqrfOpts, householder_qr, HouseholderQROpts, HouseholderQRVariant)
    if (side == 1) FAMILY("lq", gelq2, gelqf, GelqfOpts, householder_lq, HouseholderLQOpts, HouseholderLQVariant)
    if (side == 2) FAMILY("ql", geql2, geqlf, GeqlfOpts, householder_ql, HouseholderQLOpts, HouseholderQLVariant)
    if (side == 3) FAMILY("rq", gerq2, gerqf, GerqfOpts, householder_rq, HouseholderRQOpts, HouseholderRQVariant)
}
MC_HARNESS(lqt)
{
    int m = mc::range("m", 1, HI() + 1), n = mc::range("n", m, HI() + 2), nb = mc::range("nb", 1, m);
    mc::body();
    RM A0 = gm(m, n, 41);
    auto body = [&](auto&& call, Outs& o) {
        Mat A = matOf(A0), TT(m, nb);
        TT.fill([](int, int) { return cx(0); });
        auto a = A.view(), t = TT.view();
        o.num(call(a, t));
        o.mat(A, "A");
        o.mat(TT, "T");
    };
    Mat A = matOf(A0), TT(m, nb);
    auto a = A.view(), t = TT.view();
    ws<T>("gelqt", tl::gelqt_worksize<T>(a, t), [&](auto& wk, Outs& o) { body([&](auto& a, auto& t) { return tl::gelqt_work(a, t, wk); }, o); },
          [&](Outs& o) { body([&](auto& a, auto& t) { return tl::gelqt(a, t); }, o); });
}
MC_MAIN
