// Routine alphabet of C24: each case builds its own data (size n, data set s), calls a routine and records every output.
// Generic in the scalar type; MC_G selects the group.
#pragma once
#include <functional>
#include "mc.hpp"
#ifdef MC_Y
#include "yscalar.hpp"
#include <tlapack/base/types.hpp>
namespace tlapack {
namespace traits {
    template <>
    struct real_type_traits<ys::Y, int> {
        using type = ys::Y;
        constexpr static bool is_real = true;
    };
    template <>
    struct complex_type_traits<ys::Y, int> {
        using type = std::complex<ys::Y>;
        constexpr static bool is_complex = false;
    };
}  // namespace traits
}  // namespace tlapack
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/base/utils.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/lapack/larnv.hpp>
#if MC_G == 1
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/rotmg.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#elif MC_G == 2
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/ul_mult.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/conjugate.hpp>
#elif MC_G == 3
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/householder_q_mul.hpp>
#elif MC_G == 4
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/ungtr.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/gesvd.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/base/constants.hpp>
#include <tlapack/lapack/laed5.hpp>
#include <tlapack/lapack/laed6.hpp>
#include <tlapack/lapack/laed4.hpp>
#include <tlapack/lapack/lamrg.hpp>
#include <tlapack/lapack/lasrt.hpp>
#elif MC_G == 5
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/gghd3.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/schur_move.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/generalized_schur_swap.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/trevc3.hpp>
#include <tlapack/lapack/lasy2.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
#include <tlapack/lapack/move_bulge.hpp>
#endif
#include <complex>
#include <vector>

namespace c24 {
#ifdef MC_Y
constexpr int LZ = 2;  // keeps the number of scheduling points small
#else
constexpr int LZ = 3;
#endif
namespace tl = tlapack;
using tl::Diag;
using tl::Direction;
using tl::Op;
using tl::Side;
using tl::StoreV;
using tl::Uplo;

inline double raw(float x) { return x; }
inline double raw(double x) { return x; }
#ifdef MC_Y
inline double raw(const ys::Y& x) { return x.v; }
#endif
struct Out {
    std::vector<double> d;
    void num(double x) { d.push_back(x); }
    template <class T>
    void one(const T& x)
    {
        if constexpr (tl::is_complex<T>) { d.push_back(raw(x.real())); d.push_back(raw(x.imag())); }
        else d.push_back(raw(x));
    }
    bool operator==(const Out& o) const { return d.size() == o.d.size() && (d.empty() || memcmp(d.data(), o.d.data(), d.size() * sizeof(double)) == 0); }
};
template <class T>
tl::real_type<T> re(const T& x)
{
    if constexpr (tl::is_complex<T>) return x.real();
    else return x;
}
template <class T>
tl::real_type<T> im(const T& x)
{
    if constexpr (tl::is_complex<T>) return x.imag();
    else return tl::real_type<T>(0);
}
template <class T>
T cj(const T& x)
{
    if constexpr (tl::is_complex<T>) return T(x.real(), -x.imag());
    else return x;
}
template <class T>
T val(int i, int j, int s)
{
    typedef tl::real_type<T> R;
    double a = ((i * 37 + j * 101 + s * 53 + i * j * 7 + 11) % 89) / 89.0 - 0.4, b = ((i * 59 + j * 43 + s * 29 + i * j * 5 + 3) % 83) / 83.0 - 0.5;
    if constexpr (tl::is_complex<T>) return T(R(a), R(b));
    else return T(a);
}
template <class T>
struct Mx {
    int m, n;
    std::vector<T> v;
    Mx(int m_, int n_, int s = -1) : m(m_), n(n_), v((size_t)m_ * n_, T(0))
    {
        if (s >= 0)
            for (int j = 0; j < n; ++j)
                for (int i = 0; i < m; ++i) at(i, j) = val<T>(i, j, s);
    }
    T& at(int i, int j) { return v[(size_t)j * m + i]; }
    tl::LegacyMatrix<T, size_t> view() { return tl::LegacyMatrix<T, size_t>(m, n, v.data(), m > 0 ? m : 1); }
    Mx& dom(double d) { for (int i = 0; i < m && i < n; ++i) at(i, i) = at(i, i) + T(tl::real_type<T>(d)); return *this; }
    Mx& herm(double d)
    {
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < i; ++j) at(j, i) = cj(at(i, j));
            at(i, i) = T(re(at(i, i)) + tl::real_type<T>(d));
        }
        return *this;
    }
    Mx& hess() { for (int j = 0; j < n; ++j) for (int i = j + 2; i < m; ++i) at(i, j) = T(0); return *this; }
    Mx& upper() { for (int j = 0; j < n; ++j) for (int i = j + 1; i < m; ++i) at(i, j) = T(0); return *this; }
    Mx& eye() { for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) at(i, j) = T(tl::real_type<T>(i == j)); return *this; }
    void out(Out& o) { for (auto& x : v) o.one(x); }
};
template <class T>
struct Vx {
    int n;
    std::vector<T> v;
    Vx(int n_, int s = -1) : n(n_), v((size_t)(n_ > 0 ? n_ : 0), T(0))
    {
        if (s >= 0)
            for (int i = 0; i < n; ++i) v[i] = val<T>(i, s % 3 + 1, s);
    }
    tl::LegacyVector<T, size_t> view() { return tl::LegacyVector<T, size_t>(n, v.data()); }
    void out(Out& o) { for (auto& x : v) o.one(x); }
};
struct Case {
    const char* name;
    std::function<void(int, int, Out&)> f;
};
#define CASE(NM, ...)                             \
    cs.push_back({NM, [](int n, int s, Out& o) {  \
                      size_t N = n;               \
                      (void)N;                    \
                      __VA_ARGS__                 \
                  }});

template <class T>
std::vector<Case> cases()
{
    typedef tl::real_type<T> R;
    typedef tl::complex_type<R> C;
    constexpr bool cplx = tl::is_complex<T>;
    const T one(R(1)), two(R(2));
    std::vector<Case> cs;
    CASE("larnv", { long seed = n * 7 + s; Vx<T> x(n + 1); auto v = x.view(); tl::larnv<1>(seed, v); x.out(o); tl::larnv<2>(seed, v); x.out(o); tl::larnv<3>(seed, v); x.out(o); o.num(seed); })
#if MC_G == 1
#define ABC Mx<T> A(n, n, s), B(n, n, s + 1), X(n, n, s + 2); auto a = A.view(), b = B.view(), c = X.view(); T al(R(2)), be(R(-1)); (void)al; (void)be; A.dom(2);
#define XYA Mx<T> A(n, n, s); Vx<T> x_(n, s + 1), y_(n, s + 2); auto a = A.view(); auto x = x_.view(), y = y_.view(); T al(R(2)), be(R(-1)); (void)al; (void)be; A.dom(2);
    CASE("gemm", ABC tl::gemm(Op::NoTrans, Op::ConjTrans, al, a, b, be, c); tl::gemm(Op::Trans, Op::NoTrans, al, a, b, be, c); X.out(o);)
    CASE("gemmtr", ABC tl::gemmtr(Uplo::Lower, Op::NoTrans, Op::Trans, al, a, b, be, c); X.out(o);)
    CASE("symm", ABC tl::symm(Side::Left, Uplo::Upper, al, a, b, be, c); tl::symm(Side::Right, Uplo::Lower, al, a, b, be, c); X.out(o);)
    CASE("hemm", ABC tl::hemm(Side::Left, Uplo::Lower, al, a, b, be, c); tl::hemm(Side::Right, Uplo::Upper, al, a, b, be, c); X.out(o);)
    CASE("syrk", ABC tl::syrk(Uplo::Upper, Op::NoTrans, al, a, be, c); tl::syrk(Uplo::Lower, Op::Trans, al, a, be, c); X.out(o);)
    CASE("herk", ABC tl::herk(Uplo::Upper, Op::NoTrans, R(2), a, R(1), c); tl::herk(Uplo::Lower, Op::ConjTrans, R(2), a, R(1), c); X.out(o);)
    CASE("syr2k", ABC tl::syr2k(Uplo::Upper, Op::NoTrans, al, a, b, be, c); tl::syr2k(Uplo::Lower, Op::Trans, al, a, b, be, c); X.out(o);)
    CASE("her2k", ABC tl::her2k(Uplo::Upper, Op::NoTrans, al, a, b, R(1), c); tl::her2k(Uplo::Lower, Op::ConjTrans, al, a, b, R(1), c); X.out(o);)
    CASE("trmm", ABC tl::trmm(Side::Left, Uplo::Upper, Op::ConjTrans, Diag::NonUnit, al, a, c); tl::trmm(Side::Right, Uplo::Lower, Op::NoTrans, Diag::Unit, al, a, c); X.out(o);)
    CASE("trsm", ABC tl::trsm(Side::Left, Uplo::Upper, Op::NoTrans, Diag::NonUnit, al, a, c); tl::trsm(Side::Right, Uplo::Lower, Op::ConjTrans, Diag::NonUnit, al, a, c); X.out(o);)
    CASE("gemv", XYA tl::gemv(Op::NoTrans, al, a, x, be, y); tl::gemv(Op::ConjTrans, al, a, x, be, y); y_.out(o);)
    CASE("hemv", XYA tl::hemv(Uplo::Upper, al, a, x, be, y); tl::hemv(Uplo::Lower, al, a, x, be, y); y_.out(o);)
    CASE("symv", XYA tl::symv(Uplo::Upper, al, a, x, be, y); tl::symv(Uplo::Lower, al, a, x, be, y); y_.out(o);)
    CASE("trmv", XYA tl::trmv(Uplo::Upper, Op::NoTrans, Diag::NonUnit, a, x); tl::trmv(Uplo::Lower, Op::ConjTrans, Diag::Unit, a, x); x_.out(o);)
    CASE("trsv", XYA tl::trsv(Uplo::Upper, Op::NoTrans, Diag::NonUnit, a, x); tl::trsv(Uplo::Lower, Op::ConjTrans, Diag::NonUnit, a, x); x_.out(o);)
    CASE("ger", XYA tl::ger(al, x, y, a); tl::geru(al, x, y, a); A.out(o);)
    CASE("her", XYA tl::her(Uplo::Upper, R(2), x, a); tl::her2(Uplo::Lower, al, x, y, a); A.out(o);)
    CASE("syr", XYA tl::syr(Uplo::Upper, al, x, a); tl::syr2(Uplo::Lower, al, x, y, a); A.out(o);)
    CASE("axpy scal swap copy", XYA tl::axpy(al, x, y); tl::scal(be, x); tl::swap(x, y); x_.out(o); y_.out(o); tl::copy(x, y); y_.out(o);)
    CASE("rot", XYA tl::rot(x, y, R(0.6), T(R(0.8))); x_.out(o); y_.out(o);)
    CASE("rotg", T a = val<T>(n, 1, s); T b = val<T>(n, 2, s); R c; T q; tl::rotg(a, b, c, q); o.one(a); o.one(c); o.one(q);)
    CASE("dot", XYA o.one(tl::dot(x, y)); o.one(tl::dotu(x, y));)
    CASE("nrm2 asum iamax", XYA o.one(tl::nrm2(x)); o.one(tl::asum(x)); o.num(tl::iamax(x));)
#ifndef MC_Y
    if constexpr (!cplx) {
        CASE("rotmg", T h[4] = {}; R d1(1.5), d2(0.7), x1(0.3); R y1(1.1); int f = tl::rotmg(d1, d2, x1, y1, h); o.num(f); o.one(d1); o.one(d2); o.one(x1); for (auto& q : h) o.one(q);)
    }
#endif
    if constexpr (!cplx) {
        CASE("rotm", XYA T h[4]; for (auto& q : h) q = T(R(0.5)); tl::rotm<-1>(x, y, h); x_.out(o); y_.out(o);)
    }
#elif MC_G == 2
#define SQ Mx<T> A(n, n, s); auto a = A.view();
#define PD Mx<T> A(n, n, s); A.herm(n + 2); auto a = A.view();
    CASE("getrf level0", SQ std::vector<size_t> p(n); o.num(tl::getrf(a, p, tl::GetrfOpts{tl::GetrfVariant::Level0})); A.out(o); for (auto q : p) o.num(q);)
    CASE("getrf recursive", SQ std::vector<size_t> p(n); o.num(tl::getrf(a, p, tl::GetrfOpts{tl::GetrfVariant::Recursive})); A.out(o); for (auto q : p) o.num(q);)
    CASE("getri", SQ A.dom(n + 1); std::vector<size_t> p(n); tl::getrf(a, p); o.num(tl::getri(a, p, tl::GetriOpts{tl::GetriVariant::UXLI})); A.out(o);)
    CASE("potrf", PD tl::PotrfOpts q; q.nb = 2; q.variant = tl::PotrfVariant::Blocked; o.num(tl::potrf(Uplo::Upper, a, q)); A.out(o);)
    CASE("potrf rl", PD tl::PotrfOpts q; q.nb = 2; q.variant = tl::PotrfVariant::RightLooking; o.num(tl::potrf(Uplo::Lower, a, q)); A.out(o);)
    CASE("potf2 potrs", PD o.num(tl::potf2(Uplo::Lower, a)); Mx<T> B(n, 2, s + 1); auto b = B.view(); tl::potrs(Uplo::Lower, a, b); A.out(o); B.out(o);)
    CASE("potrf2 potri", PD o.num(tl::potrf2(Uplo::Upper, a)); tl::potri(Uplo::Upper, a); A.out(o);)
    CASE("pttrf", Vx<R> d(n); Vx<T> e(n - 1, s); for (auto& x : d.v) x = R(3); auto dv = d.view(); auto ev = e.view(); o.num(tl::pttrf(dv, ev)); d.out(o); e.out(o);)
    CASE("pbtrf", PD tl::BlockedBandedCholeskyOpts q; q.nb = 2; for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (i > j + 2 || j > i + 2) A.at(i, j) = T(0); auto ab = A.view(); tl::pbtrf_with_workspace(Uplo::Lower, ab, size_t(n > 2 ? 2 : n - 1), q); A.out(o);)
    CASE("hetrf", SQ A.herm(0); std::vector<int> p(n); tl::HetrfOpts q; q.nb = 2; q.invariant = cplx ? Op::ConjTrans : Op::Trans; o.num(tl::hetrf(Uplo::Lower, a, p, q)); A.out(o); for (auto x : p) o.num(x);)
    CASE("sytrf", SQ std::vector<int> p(n); tl::HetrfOpts q; q.nb = 3; q.invariant = Op::Trans; o.num(tl::hetrf(Uplo::Upper, a, p, q)); A.out(o); for (auto x : p) o.num(x);)
    CASE("trtri lauum", SQ A.dom(2); o.num(tl::trtri_recursive(Uplo::Upper, Diag::NonUnit, a)); A.out(o); tl::lauum_recursive(Uplo::Lower, a); A.out(o);)
    CASE("lu_mult ul_mult", SQ tl::lu_mult(a, tl::LuMultOpts{2}); A.out(o); tl::ul_mult(a); A.out(o);)
    CASE("mult_llh uhu", SQ tl::mult_llh(a, tl::mult_llh_Opts{2}); tl::mult_uhu(a, tl::mult_uhu_Opts{2}); A.out(o);)
    CASE("rscl lascl", SQ Vx<T> x(n, s); auto v = x.view(); tl::rscl(T(R(3)), v); x.out(o); tl::lascl(tl::GENERAL, R(3), R(2), a); A.out(o);)
    CASE("lange", SQ for (auto q : {tl::Norm::Max, tl::Norm::One, tl::Norm::Inf, tl::Norm::Fro}) { o.one(tl::lange(q, a)); o.one(tl::lanhe(q, Uplo::Upper, a)); o.one(tl::lansy(q, Uplo::Lower, a)); o.one(tl::lantr(q, Uplo::Lower, Diag::Unit, a)); })
    CASE("infnorm", SQ o.one(tl::infnorm_colmajor(a)); o.one(tl::infnorm_hermitian_colmajor(Uplo::Upper, a)); o.one(tl::infnorm_symmetric_colmajor(Uplo::Lower, a)); o.one(tl::infnorm_triangular_colmajor(Uplo::Lower, Diag::NonUnit, a));)
    CASE("transpose conjugate", SQ Mx<T> B(n, n); auto b = B.view(); tl::transpose(a, b); B.out(o); tl::conjtranspose(a, b); B.out(o); tl::lacpy(Uplo::Upper, a, b); tl::laset(Uplo::Lower, T(R(1)), T(R(2)), b); B.out(o);)
    CASE("lassq", Vx<T> x(n, s); auto v = x.view(); R sc(1), sq(0); tl::lassq(v, sc, sq); o.one(sc); o.one(sq);)
#elif MC_G == 3
#define RC(M_, N_) Mx<T> A(M_, N_, s); Vx<T> t(n); auto a = A.view(); auto tv = t.view();
    CASE("geqr2 ung2r", RC(n + 1, n) o.num(tl::geqr2(a, tv)); A.out(o); t.out(o); tl::ung2r(a, tv); A.out(o);)
    CASE("geqrf ungqr", RC(n + 1, n) o.num(tl::geqrf(a, tv, tl::GeqrfOpts{2})); A.out(o); t.out(o); tl::UngqrOpts q; q.nb = 2; tl::ungqr(a, tv, q); A.out(o);)
    CASE("gelq2 ungl2", RC(n, n + 1) o.num(tl::gelq2(a, tv)); A.out(o); t.out(o); tl::ungl2(a, tv); A.out(o);)
    CASE("gelqf unglq", RC(n, n + 1) o.num(tl::gelqf(a, tv, tl::GelqfOpts{2})); A.out(o); t.out(o); tl::UnglqOpts q; q.nb = 2; tl::unglq(a, tv, q); A.out(o);)
    CASE("geqlf ungql", RC(n + 1, n) o.num(tl::geqlf(a, tv, tl::GeqlfOpts{2})); A.out(o); t.out(o); tl::UngqlOpts q; q.nb = 2; tl::ungql(a, tv, q); A.out(o);)
    CASE("gerqf ungrq", RC(n, n + 1) o.num(tl::gerqf(a, tv, tl::GerqfOpts{2})); A.out(o); t.out(o); tl::UngrqOpts q; q.nb = 2; tl::ungrq(a, tv, q); A.out(o);)
    CASE("geql2 gerq2", RC(n, n) o.num(tl::geql2(a, tv)); A.out(o); t.out(o); o.num(tl::gerq2(a, tv)); A.out(o); t.out(o);)
    CASE("geqrt3", Mx<T> A(n + 1, n, s), W(n, n); auto a = A.view(), w = W.view(); tl::geqrt3(a, w); A.out(o); W.out(o);)
    CASE("gelqt", Mx<T> A(n, n + 1, s), W(n, 2); auto a = A.view(), w = W.view(); o.num(tl::gelqt(a, w)); A.out(o);)
    CASE("unmqr", RC(n, n) tl::geqrf(a, tv); Mx<T> X(n, n + 1, s + 3); auto c = X.view(); tl::UnmqrOpts q; q.nb = 2; o.num(tl::unmqr(Side::Left, Op::NoTrans, a, tv, c, q)); X.out(o);)
    CASE("unmlq", RC(n, n) tl::gelqf(a, tv); Mx<T> X(n + 1, n, s + 3); auto c = X.view(); tl::UnmlqOpts q; q.nb = 2; o.num(tl::unmlq(Side::Right, Op::ConjTrans, a, tv, c, q)); X.out(o);)
    CASE("unmql", RC(n, n) tl::geqlf(a, tv); Mx<T> X(n, n + 1, s + 3); auto c = X.view(); tl::UnmqlOpts q; q.nb = 2; o.num(tl::unmql(Side::Left, Op::ConjTrans, a, tv, c, q)); X.out(o);)
    CASE("unmrq", RC(n, n) tl::gerqf(a, tv); Mx<T> X(n + 1, n, s + 3); auto c = X.view(); tl::UnmrqOpts q; q.nb = 2; o.num(tl::unmrq(Side::Right, Op::NoTrans, a, tv, c, q)); X.out(o);)
    CASE("unm2r unml2", RC(n, n) tl::geqr2(a, tv); Mx<T> X(n, n, s + 3); auto c = X.view(); tl::unm2r(Side::Right, Op::NoTrans, a, tv, c); X.out(o); tl::gelq2(a, tv); tl::unml2(Side::Left, Op::NoTrans, a, tv, c); X.out(o);)
    CASE("larft larfb", RC(n + 1, n) tl::geqr2(a, tv); Mx<T> W(n, n), X(n + 1, 2, s + 5); auto w = W.view(), c = X.view(); tl::larft(Direction::Forward, StoreV::Columnwise, a, tv, w); W.out(o); tl::larfb(Side::Left, Op::ConjTrans, Direction::Forward, StoreV::Columnwise, a, w, c); X.out(o);)
    CASE("larfg larf", Vx<T> x(n + 1, s); auto v = x.view(); T tau; tl::larfg(Direction::Forward, StoreV::Columnwise, v, tau); x.out(o); o.one(tau); Mx<T> X(n + 1, 2, s + 1); auto c = X.view(); tl::larf(Side::Left, Direction::Forward, StoreV::Columnwise, v, tau, c); X.out(o);)
    CASE("householder", RC(n, n) tl::HouseholderQROpts h; h.nb = 2; tl::householder_qr(a, tv, h); A.out(o); Mx<T> X(n, n, s + 2); auto c = X.view(); tl::HouseholderQMulOpts hm; hm.nb = 2; tl::householder_q_mul(Side::Left, Op::NoTrans, Direction::Forward, StoreV::Columnwise, a, tv, c, hm); X.out(o); tl::GenHouseholderQOpts hg; hg.nb = 2; tl::gen_householder_q(Direction::Forward, StoreV::Columnwise, a, tv, hg); A.out(o);)
#elif MC_G == 4
    CASE("gebd2", Mx<T> A(n + 1, n, s); Vx<T> q(n), p(n); auto a = A.view(); auto qv = q.view(), pv = p.view(); o.num(tl::gebd2(a, qv, pv)); A.out(o); q.out(o);)
    CASE("gebrd", Mx<T> A(n, n + 1, s); Vx<T> q(n), p(n); auto a = A.view(); auto qv = q.view(), pv = p.view(); tl::GebrdOpts g; g.nb = 2; o.num(tl::gebrd(a, qv, pv, g)); A.out(o); p.out(o);)
    CASE("ungbr", Mx<T> A(n, n, s), B(n, n, s); Vx<T> q(n), p(n); auto a = A.view(), b = B.view(); auto qv = q.view(), pv = p.view(); tl::gebd2(a, qv, pv); B = A; auto b2 = B.view(); tl::UngbrOpts u; u.nb = 2; tl::ungbr_q(N, a, qv, u); A.out(o); auto ps = tl::slice(pv, std::pair<size_t, size_t>(0, N - 1)); tl::ungbr_p(N, b2, ps, u); B.out(o);)
    CASE("gehd2 unghr", Mx<T> A(n, n, s); Vx<T> t(n - 1); auto a = A.view(); auto tv = t.view(); o.num(tl::gehd2(size_t(0), N, a, tv)); A.out(o); tl::unghr(size_t(0), N, a, tv); A.out(o);)
    CASE("gehrd unmhr", Mx<T> A(n, n, s), X(n, n, s + 1); Vx<T> t(n - 1); auto a = A.view(), c = X.view(); auto tv = t.view(); tl::GehrdOpts g; g.nb = 2; g.nx_switch = 1; o.num(tl::gehrd(size_t(0), N, a, tv, g)); A.out(o); tl::unmhr(Side::Left, Op::ConjTrans, size_t(0), N, a, tv, c); X.out(o);)
    CASE("hetd2 ungtr", Mx<T> A(n, n, s); A.herm(1); Vx<T> t(n - 1); auto a = A.view(); auto tv = t.view(); tl::hetd2(Uplo::Lower, a, tv); A.out(o); t.out(o); tl::ungtr(Uplo::Lower, a, tv); A.out(o);)
    CASE("gesvd", if (n > 3) n = 3; Mx<T> A(n, n, s), U(n, n), V(n, n); Vx<R> d(n); auto a = A.view(), u = U.view(), v = V.view(); auto dv = d.view(); o.num(tl::gesvd(true, true, a, dv, u, v)); d.out(o); U.out(o); V.out(o);)
    CASE("svd_qr", if (n > 4) n = 4; Mx<T> U(n, n), V(n, n); U.eye(); V.eye(); Vx<R> d(n, s), e(n - 1, s + 1); auto u = U.view(), v = V.view(); auto dv = d.view(), ev = e.view(); o.num(tl::svd_qr(Uplo::Upper, true, true, dv, ev, u, v)); d.out(o); U.out(o); V.out(o);)
    CASE("steqr", if (n > 4) n = 4; Mx<T> U(n, n); U.eye(); Vx<R> d(n, s), e(n - 1, s + 1); auto u = U.view(); auto dv = d.view(), ev = e.view(); o.num(tl::steqr(true, dv, ev, u)); d.out(o); U.out(o);)
    CASE("rot_sequence", Mx<T> A(n, n, s); auto a = A.view(); Vx<R> c(n - 1); Vx<T> q(n - 1); for (int i = 0; i < n - 1; ++i) c.v[i] = R(0.6), q.v[i] = T(R(0.8)); auto cv = c.view(); auto sv = q.view(); tl::rot_sequence(Side::Left, Direction::Forward, cv, sv, a); tl::rot_sequence(Side::Right, Direction::Backward, cv, sv, a); A.out(o);)
    CASE("rot_sequence3", Mx<T> A(n, n, s); auto a = A.view(); Mx<R> c(n - 1, 2); Mx<T> q(n - 1, 2); for (auto& x : c.v) x = R(0.6); for (auto& x : q.v) x = T(R(0.8)); auto cv = c.view(); auto sv = q.view(); tl::rot_sequence3(Side::Left, Direction::Forward, cv, sv, a); tl::rot_sequence3(Side::Right, Direction::Backward, cv, sv, a); A.out(o);)
#elif MC_G == 5
    CASE("gghrd", Mx<T> A(n, n, s), B(n, n, s + 1), Q(n, n), Z(n, n); B.dom(2).upper(); Q.eye(); Z.eye(); auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view(); o.num(tl::gghrd(true, true, size_t(0), N, a, b, q, z)); A.out(o); B.out(o); Q.out(o); Z.out(o);)
    CASE("gghd3", Mx<T> A(n, n, s), B(n, n, s + 1), Q(n, n), Z(n, n); B.dom(2).upper(); Q.eye(); Z.eye(); auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view(); tl::Gghd3Opts g; g.nb = 2; o.num(tl::gghd3(true, true, size_t(0), N, a, b, q, z, g)); A.out(o); B.out(o); Q.out(o); Z.out(o);)
    CASE("lahqr", if (n > 4) n = 4, N = 4; Mx<T> A(n, n, s), Z(n, n); A.hess(); Z.eye(); Vx<C> w(n); auto a = A.view(), z = Z.view(); auto wv = w.view(); o.num(tl::lahqr(true, true, size_t(0), N, a, wv, z)); A.out(o); Z.out(o); w.out(o);)
    CASE("qr_iteration", if (n > 4) n = 4, N = 4; Mx<T> A(n, n, s), Z(n, n); A.hess(); Z.eye(); Vx<C> w(n); auto a = A.view(), z = Z.view(); auto wv = w.view(); tl::QRIterationOpts q; q.variant = tl::QRIterationVariant::MultiShift; o.num(tl::qr_iteration(true, true, size_t(0), N, a, wv, z, q)); A.out(o); Z.out(o); w.out(o); o.num(q.n_sweep); o.num(q.n_aed);)
    CASE("lahqz", if (n > LZ) n = LZ, N = LZ; Mx<T> A(n, n, s), B(n, n, s + 1), Q(n, n), Z(n, n); A.hess(); B.dom(2).upper(); Q.eye(); Z.eye(); Vx<C> al(n); Vx<T> be(n); auto av = al.view(); auto bv = be.view(); auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view(); o.num(tl::lahqz(true, true, true, size_t(0), N, a, b, av, bv, q, z)); A.out(o); B.out(o); Q.out(o); Z.out(o); al.out(o); be.out(o);)
    CASE("schur_move", Mx<T> A(n, n, s), Q(n, n); A.upper(); for (int i = 0; i < n; ++i) A.at(i, i) = T(R(i + 1)); Q.eye(); auto a = A.view(), q = Q.view(); size_t f = 0, l = n - 1; o.num(tl::schur_move(true, a, q, f, l)); o.num(l); A.out(o); Q.out(o);)
    CASE("generalized_schur_move", Mx<T> A(n, n, s), B(n, n, s + 1), Q(n, n), Z(n, n); A.upper(); B.upper(); for (int i = 0; i < n; ++i) A.at(i, i) = T(R(i + 1)), B.at(i, i) = T(R(1)); Q.eye(); Z.eye(); auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view(); size_t f = n - 1, l = 0; o.num(tl::generalized_schur_move(true, true, a, b, q, z, f, l)); A.out(o); B.out(o); Q.out(o); Z.out(o);)
#ifndef MC_Y
    CASE("trevc3", Mx<T> A(n, n, s), L(n, n), X(n, n); A.upper(); for (int i = 0; i < n; ++i) A.at(i, i) = T(R(i + 1)); auto a = A.view(), l = L.view(), r = X.view(); std::vector<int> sel(n, 1); tl::Trevc3Opts q; q.block_size = 2; q.block_size_solve = 2; o.num(tl::trevc3(Side::Both, tl::HowMny::All, sel, a, l, r, q)); L.out(o); X.out(o);)
#endif
    CASE("hessenberg_rq", Mx<T> A(n, n, s); A.upper(); Vx<R> cl(n - 1), c(n - 1); Vx<T> sl(n - 1), q(n - 1); for (auto& x : cl.v) x = R(0.6); for (auto& x : sl.v) x = T(R(0.8)); auto a = A.view(); auto clv = cl.view(), cv = c.view(); auto slv = sl.view(), sv = q.view(); tl::hessenberg_rq(a, clv, slv, cv, sv); A.out(o); c.out(o); q.out(o);)
    if constexpr (!cplx) {
        CASE("lasy2", Mx<T> A(2, 2, s), B(2, 2, s + 1), F(2, 2, s + 2), X(2, 2); A.dom(3); auto a = A.view(), b = B.view(), f = F.view(), x = X.view(); R sc, xn; o.num(tl::lasy2(Op::NoTrans, Op::NoTrans, 1, a, b, f, sc, x, xn)); X.out(o); o.one(sc); o.one(xn);)
    }
#endif
    return cs;
}
}  // namespace c24
