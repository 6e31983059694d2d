// C29: routines give the defined result for every array library, view kind and scalar type they are instantiated with.
#include <cassert>
#ifdef MC_EIGEN
    #include <Eigen/Core>
    #include <tlapack/plugins/eigen.hpp>
    #ifdef MC_HALF
        #include <tlapack/plugins/eigen_half.hpp>
    #endif
    #ifdef MC_BF16
        #include <tlapack/plugins/eigen_bfloat16.hpp>
    #endif
#endif
#ifdef MC_QUAD
    #include <tlapack/plugins/gnuquad.hpp>
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/base/utils.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#if MC_G == 0
    #include <tlapack/lapack/gelqf.hpp>
    #include <tlapack/lapack/geqlf.hpp>
    #include <tlapack/lapack/geqrf.hpp>
    #include <tlapack/lapack/gerqf.hpp>
    #include <tlapack/lapack/ungq.hpp>
    #include <tlapack/lapack/unglq.hpp>
    #include <tlapack/lapack/ungql.hpp>
    #include <tlapack/lapack/ungqr.hpp>
    #include <tlapack/lapack/ungrq.hpp>
    #include <tlapack/lapack/unmlq.hpp>
    #include <tlapack/lapack/unmql.hpp>
    #include <tlapack/lapack/unmqr.hpp>
    #include <tlapack/lapack/unmrq.hpp>
#elif MC_G == 1
    #include <tlapack/lapack/getrf.hpp>
    #include <tlapack/lapack/getri.hpp>
    #include <tlapack/lapack/hetrf.hpp>
    #include <tlapack/lapack/lauum_recursive.hpp>
    #include <tlapack/lapack/potrf.hpp>
    #include <tlapack/lapack/potri.hpp>
    #include <tlapack/lapack/potrs.hpp>
    #include <tlapack/lapack/pttrf.hpp>
    #include <tlapack/lapack/trtri_recursive.hpp>
#elif MC_G == 2
    #include <tlapack/lapack/gehrd.hpp>
    #include <tlapack/lapack/hetd2.hpp>
    #include <tlapack/lapack/lahqr.hpp>
    #include <tlapack/lapack/multishift_qr.hpp>
    #include <tlapack/lapack/schur_move.hpp>
    #include <tlapack/lapack/steqr.hpp>
    #include <tlapack/lapack/trevc3.hpp>
    #include <tlapack/lapack/unghr.hpp>
    #include <tlapack/lapack/ungtr.hpp>
#elif MC_G == 3
    #include <tlapack/lapack/gesvd.hpp>
    #include <tlapack/lapack/gghrd.hpp>
    #include <tlapack/lapack/multishift_qz.hpp>
#elif MC_G == 4
    #include <tlapack/blas/gemm.hpp>
    #include <tlapack/blas/gemv.hpp>
    #include <tlapack/blas/ger.hpp>
    #include <tlapack/blas/hemm.hpp>
    #include <tlapack/blas/her2k.hpp>
    #include <tlapack/blas/herk.hpp>
    #include <tlapack/blas/nrm2.hpp>
    #include <tlapack/blas/symm.hpp>
    #include <tlapack/blas/trmm.hpp>
    #include <tlapack/blas/trsm.hpp>
    #include <tlapack/blas/trsv.hpp>
    #include <tlapack/lapack/lacpy.hpp>
    #include <tlapack/lapack/lange.hpp>
    #include <tlapack/lapack/lanhe.hpp>
    #include <tlapack/lapack/lantr.hpp>
    #include <tlapack/lapack/lascl.hpp>
    #include <tlapack/lapack/laset.hpp>
    #include <tlapack/lapack/transpose.hpp>
#endif
#include <cmath>
#include <complex>
#include <vector>
#include "mc.hpp"

namespace tl = tlapack;
typedef MC_T T;
typedef tl::real_type<T> R;
constexpr bool CPLX = tl::is_complex<T>;
#ifdef MC_QUAD
typedef __float128 W;
static W wsqrt(W x) { return sqrtq(x); }
#else
typedef long double W;
static W wsqrt(W x) { return sqrtl(x); }
#endif
static W wabs(W x) { return x < 0 ? -x : x; }
struct cw {
    W re, im;
    cw(W a = 0, W b = 0) : re(a), im(b) {}
};
static cw operator+(cw a, cw b) { return {a.re + b.re, a.im + b.im}; }
static cw operator-(cw a, cw b) { return {a.re - b.re, a.im - b.im}; }
static cw operator*(cw a, cw b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static cw cj(cw a) { return {a.re, -a.im}; }
static W mag(cw a) { return wsqrt(a.re * a.re + a.im * a.im); }
template <class X>
static cw up(const X& x)
{
    if constexpr (tl::is_complex<X>) return {W(x.real()), W(x.imag())};
    else return {W(x), 0};
}
template <class X>
static X dn(cw x)
{
    if constexpr (tl::is_complex<X>) return X(R(x.re), R(x.im));
    else return X(R(x.re));
}
struct WM {
    int m, n;
    std::vector<cw> a;
    WM(int m_ = 0, int n_ = 0) : m(m_), n(n_), a((size_t)m_ * n_) {}
    cw& operator()(int i, int j) { return a[i + (size_t)j * m]; }
    cw operator()(int i, int j) const { return a[i + (size_t)j * m]; }
};
static WM operator*(const WM& A, const WM& B)
{
    if (A.n != B.m) mc::fail("harness", "shape");
    WM C(A.m, B.n);
    for (int j = 0; j < B.n; ++j)
        for (int k = 0; k < A.n; ++k)
            for (int i = 0; i < A.m; ++i) C(i, j) = C(i, j) + A(i, k) * B(k, j);
    return C;
}
static WM operator-(const WM& A, const WM& B)
{
    WM C(A.m, A.n);
    for (size_t k = 0; k < C.a.size(); ++k) C.a[k] = A.a[k] - B.a[k];
    return C;
}
static WM H(const WM& A)
{
    WM C(A.n, A.m);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) C(j, i) = cj(A(i, j));
    return C;
}
static WM TR(const WM& A)
{
    WM C(A.n, A.m);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) C(j, i) = A(i, j);
    return C;
}
static WM eye(int n)
{
    WM C(n, n);
    for (int i = 0; i < n; ++i) C(i, i) = cw(1);
    return C;
}
static WM sub(const WM& A, int r0, int r1, int c0, int c1)
{
    WM C(r1 - r0, c1 - c0);
    for (int i = r0; i < r1; ++i)
        for (int j = c0; j < c1; ++j) C(i - r0, j - c0) = A(i, j);
    return C;
}
template <class F>
static WM mask(const WM& A, F f)
{
    WM C(A.m, A.n);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j)
            if (f(i, j)) C(i, j) = A(i, j);
    return C;
}
static WM triu(const WM& A) { return mask(A, [](int i, int j) { return i <= j; }); }
static WM tril(const WM& A) { return mask(A, [](int i, int j) { return i >= j; }); }
static W nrm(const WM& A)
{
    W s = 0;
    for (auto& x : A.a) s += x.re * x.re + x.im * x.im;
    return wsqrt(s);
}
static const W EPS = W(tl::ulp<R>());
static void smallr(W r, W bound, const char* key)
{
    mc::E().checks++;
    if (!(r <= bound)) mc::fail(key, "%.6Lg exceeds %.6Lg (unit roundoff %.3Lg)", (long double)r, (long double)bound, (long double)EPS);
}
static W tolF(int n, W scale) { return 12 * W(n + 3) * EPS * scale; }
static void ortho(const WM& Q, const char* key)  // columns orthonormal
{
    smallr(nrm(H(Q) * Q - eye(Q.n)), tolF(Q.m + Q.n, 1 + wsqrt(W(Q.n))), key);
}

// ---- containers --------------------------------------------------------------------------------------
typedef std::pair<long, long> PR;
template <class X, int K>
struct MatH;
template <class X>
struct MatH<X, 0> {
    int m, n;
    std::vector<X> b;
    tl::LegacyMatrix<X, size_t, tl::Layout::ColMajor> v;
    MatH(int m_, int n_) : m(m_), n(n_), b((size_t)(m_ + 2) * n_ + 1, X(R(9))), v(m_, n_, b.data(), m_ + 2) {}
};
template <class X>
struct MatH<X, 1> {
    int m, n;
    std::vector<X> b;
    tl::LegacyMatrix<X, int, tl::Layout::RowMajor> v;
    MatH(int m_, int n_) : m(m_), n(n_), b((size_t)(n_ + 1) * m_ + 1, X(R(9))), v(m_, n_, b.data(), n_ + 1) {}
};
template <class X, int K>
struct VecH;
template <class X>
struct VecH<X, 0> {
    std::vector<X> v;
    VecH(int n) : v(n) {}
};
template <class X>
struct VecH<X, 1> {
    std::vector<X> b;
    tl::LegacyVector<X, int, int> v;
    VecH(int n) : b(3 * n + 1, X(R(9))), v(n, b.data(), 3) {}
};
#ifdef MC_EIGEN
namespace eg = Eigen;
template <class X, bool Row>
using MD = eg::Matrix<X, eg::Dynamic, eg::Dynamic, Row ? eg::RowMajor : eg::ColMajor>;
template <class X, bool Row>
struct Own {
    int m, n;
    MD<X, Row> v;
    Own(int m_, int n_) : m(m_), n(n_), v(m_, n_) {}
};
template <class X> struct MatH<X, 2> : Own<X, false> { using Own<X, false>::Own; };
template <class X> struct MatH<X, 3> : Own<X, true> { using Own<X, true>::Own; };
template <class X, bool Row>
struct Blk {
    int m, n;
    MD<X, Row> big;
    static auto outer(MD<X, Row>& b) { if constexpr (Row) return tl::rows(b, PR(1, b.rows())); else return tl::cols(b, PR(1, b.cols())); }
    decltype(outer(std::declval<MD<X, Row>&>())) p;
    static auto inner(decltype(p)& q, long m, long n) { if constexpr (Row) return tl::slice(q, PR(0, m), PR(1, n + 1)); else return tl::slice(q, PR(1, m + 1), PR(0, n)); }
    decltype(inner(std::declval<decltype(p)&>(), 1L, 1L)) v;
    Blk(int m_, int n_) : m(m_), n(n_), big(MD<X, Row>::Constant(m_ + 2, n_ + 2, X(R(9)))), p(outer(big)), v(inner(p, m_, n_)) {}
    Blk(const Blk&) = delete;
};
template <class X> struct MatH<X, 4> : Blk<X, false> { using Blk<X, false>::Blk; };
template <class X> struct MatH<X, 5> : Blk<X, true> { using Blk<X, true>::Blk; };
template <class X>
struct MatH<X, 6> {
    int m, n;
    std::vector<X> b;
    eg::Map<MD<X, false>, eg::Unaligned, eg::OuterStride<>> v;
    MatH(int m_, int n_) : m(m_), n(n_), b((size_t)(m_ + 2) * n_ + 1, X(R(9))), v(b.data(), m_, n_, eg::OuterStride<>(m_ + 2)) {}
};
template <class X> struct VecH<X, 2> { eg::Matrix<X, eg::Dynamic, 1> v; VecH(int n) : v(n) {} };
template <class X> struct VecH<X, 3> { std::vector<X> v; VecH(int n) : v(n) {} };
template <class X>
struct VecH<X, 4> {  // part of a column
    MD<X, false> big;
    static auto mk(MD<X, false>& b, long n) { return tl::slice(b, PR(1, n + 1), 1); }
    decltype(mk(std::declval<MD<X, false>&>(), 1L)) v;
    VecH(int n) : big(MD<X, false>::Constant(n + 2, 3, X(R(9)))), v(mk(big, n)) {}
};
template <class X>
struct VecH<X, 5> {  // part of a column of a row-major matrix: strided
    MD<X, true> big;
    static auto mk(MD<X, true>& b, long n) { return tl::slice(b, PR(1, n + 1), 1); }
    decltype(mk(std::declval<MD<X, true>&>(), 1L)) v;
    VecH(int n) : big(MD<X, true>::Constant(n + 2, 3, X(R(9)))), v(mk(big, n)) {}
};
template <class X>
struct VecH<X, 6> {
    std::vector<X> b;
    eg::Map<eg::Matrix<X, eg::Dynamic, 1>, eg::Unaligned, eg::InnerStride<>> v;
    VecH(int n) : b(2 * n + 1, X(R(9))), v(b.data(), n, eg::InnerStride<>(2)) {}
};
#endif
constexpr int K = MC_K;
typedef MatH<T, K> Mat;
typedef VecH<T, K> Vec;
typedef VecH<R, K> VecR;
typedef VecH<std::complex<R>, K> VecC;

static void put(Mat& A, const WM& w) { for (int i = 0; i < w.m; ++i) for (int j = 0; j < w.n; ++j) A.v(i, j) = dn<T>(w(i, j)); }
static WM get(Mat& A)
{
    WM w(A.m, A.n);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) w(i, j) = up(T(A.v(i, j)));
    return w;
}
static int LARGE;
/// input families; every value is representable in the scalar type
static cw val(int fam, int i, int j, int salt)
{
    auto h = [&](int s) { return W((i * 7 + j * 5 + i * j * 3 + (i ^ j) * 2 + s * 3 + salt * 4) % 11 - 5); };
    cw v(h(0) / 4, CPLX ? h(1) / 4 : 0);
    if (fam == 0) return v;
    if (fam == 1) { W g = 1; for (int k = 0; k < (i + j) % 9; ++k) g /= 2; return v * cw(g); }
    if (fam == 2) return (i * 2 + j) % 3 == 0 ? cw(1) : (i + j + salt) % 4 == 1 ? cw(CPLX ? 0 : -1, CPLX ? 1 : 0) : cw(0);
    return cw(W(((i % 2) + 1) * ((j % 3) + 1)), CPLX ? W((i % 2) * (j % 2)) : 0);  // low rank
}
static WM gen(int fam, int m, int n, int salt = 0)
{
    WM w(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) w(i, j) = up(dn<T>(val(fam, i, j, salt)));
    return w;
}
/// all 2x2 matrices over an alphabet
static WM alpha2(int code)
{
    WM w(2, 2);
    for (int k = 0; k < 4; ++k, code /= 3) w(k & 1, k >> 1) = code % 3 == 0 ? cw(0) : code % 3 == 1 ? cw(1) : CPLX ? cw(W(-0.5), 1) : cw(W(-0.5));
    return w;
}
static WM input(int& m, int& n, bool square, bool large = false)
{
    if (large) { m = n = mc::pick<int>("m", {16, 20}); return gen(mc::choose("family", 4), m, n); }
    int kind = mc::choose("input", 3);
    if (kind == 0) { m = n = 2; return alpha2(mc::choose("entries", 81)); }
    if (kind == 1) { m = mc::range("m", 0, 5); n = square ? m : mc::range("n", 0, 5); }
    else { m = mc::pick<int>("m", {7, 12}); n = square ? m : mc::pick<int>("n", {6, 13}); }
    return gen(mc::choose("family", 4), m, n);
}

#if MC_G == 0
MC_HARNESS(orthogonal)
{
    int m, n, f = mc::choose("factorization", 4), nb = mc::pick<int>("nb", {1, 2, 32});
    WM A0 = input(m, n, false);
    if (!m || !n) return;
    int k = std::min(m, n), s = mc::choose("side", 2), t = mc::choose("trans", 2);
    Mat A(m, n);
    put(A, A0);
    Vec tau(k);
    mc::body();
    auto& a = A.v;
    int info = f == 0 ? tl::geqrf(a, tau.v, tl::GeqrfOpts{(size_t)nb}) : f == 1 ? tl::gelqf(a, tau.v, tl::GelqfOpts{(size_t)nb}) : f == 2 ? tl::geqlf(a, tau.v, tl::GeqlfOpts{(size_t)nb}) : tl::gerqf(a, tau.v, tl::GerqfOpts{(size_t)nb});
    if (info) mc::fail("info", "%d", info);
    WM F = get(A);
    bool byRow = f == 1 || f == 3;
    int q = byRow ? n : m;
    // explicit unitary factor (k vectors)
    Mat Q(byRow ? k : m, byRow ? n : k);
    int i0 = f == 3 ? m - k : 0, j0 = f == 2 ? n - k : 0;
    put(Q, sub(F, i0, i0 + Q.m, j0, j0 + Q.n));
    auto& qv = Q.v;
    if (f == 0) tl::ungqr(qv, tau.v, tl::UngqrOpts{(size_t)nb});
    else if (f == 1) tl::unglq(qv, tau.v, tl::UnglqOpts{(size_t)nb});
    else if (f == 2) tl::ungql(qv, tau.v, tl::UngqlOpts{(size_t)nb});
    else tl::ungrq(qv, tau.v, tl::UngrqOpts{(size_t)nb});
    WM Qw = get(Q);
    ortho(byRow ? H(Qw) : Qw, "orthonormal");
    WM P;
    if (f == 0) P = Qw * triu(sub(F, 0, k, 0, n));
    else if (f == 1) P = tril(sub(F, 0, m, 0, k)) * Qw;
    else if (f == 2) P = Qw * mask(sub(F, m - k, m, 0, n), [&](int i, int j) { return j <= n - k + i; });
    else P = mask(sub(F, 0, m, n - k, n), [&](int i, int j) { return i <= m - k + j; }) * Qw;
    smallr(nrm(P - A0), tolF(m + n, nrm(A0)), "product");
    // application to a matrix agrees with the explicit factor: op(Q) C restricted to the k columns
    int r = 3;
    WM C0 = s == 0 ? gen(0, q, r, 1) : gen(0, r, q, 1);
    Mat C(C0.m, C0.n);
    put(C, C0);
    Mat V(byRow ? k : m, byRow ? n : k);
    put(V, sub(F, i0, i0 + V.m, j0, j0 + V.n));
    auto& c = C.v;
    auto& v = V.v;
    tl::Op op = t ? tl::Op::ConjTrans : tl::Op::NoTrans;
    auto run = [&](auto side) {
        if (f == 0) tl::unmqr(side, op, v, tau.v, c, tl::UnmqrOpts{(size_t)nb});
        else if (f == 1) tl::unmlq(side, op, v, tau.v, c, tl::UnmlqOpts{(size_t)nb});
        else if (f == 2) tl::unmql(side, op, v, tau.v, c, tl::UnmqlOpts{(size_t)nb});
        else tl::unmrq(side, op, v, tau.v, c, tl::UnmrqOpts{(size_t)nb});
    };
    if (s == 0) run(tl::LEFT_SIDE);
    else run(tl::RIGHT_SIDE);
    WM G = get(C);
    smallr(wabs(nrm(G) - nrm(C0)), tolF(q, nrm(C0)), "apply-norm");
    // the k vectors: Q (m x k, columns) or its rows; op(Q) C or C op(Q) compared where Q's explicit part determines it
    bool QH = t;                 // operator is Q^H
    WM E = byRow ? H(Qw) : Qw;   // columns of the unitary matrix Q^H (byRow) or Q
    if (byRow) QH = !QH;         // then in terms of U = Q^H
    int o = f == 2 || f == 3 ? q - k : 0;
    WM rest = s == 0 ? (QH ? sub(G, o, o + k, 0, r) - H(E) * C0 : WM()) : (!QH ? sub(G, 0, r, o, o + k) - C0 * E : WM());
    smallr(nrm(rest), tolF(q, nrm(C0)), "apply");
    mc::mix(info);
}
#elif MC_G == 1
MC_HARNESS(lu)
{
    int m, n, var = mc::choose("variant", 2);
    WM A0 = input(m, n, false);
    Mat A(m, n);
    put(A, A0);
    int k = std::min(m, n);
    std::vector<size_t> piv(k);
    mc::body();
    int info = tl::getrf(A.v, piv, tl::GetrfOpts{var ? tl::GetrfVariant::Level0 : tl::GetrfVariant::Recursive});
    if (info < 0 || info > k) mc::fail("info", "%d", info);
    if (info == 0) {
        WM F = get(A), L = tril(sub(F, 0, m, 0, k)), PA = A0;
        for (int i = 0; i < k; ++i) L(i, i) = cw(1);
        for (int i = 0; i < k; ++i) {
            if ((int)piv[i] < i || (int)piv[i] >= m) mc::fail("pivot", "%d", (int)piv[i]);
            for (int j = 0; j < n; ++j) std::swap(PA(i, j), PA((int)piv[i], j));
        }
        WM U = triu(sub(F, 0, k, 0, n));
        smallr(nrm(L * U - PA), tolF(m + n, nrm(L) * nrm(U)), "product");
        if (m == n) {
            for (int w = 0; w < 2; ++w) {
                Mat B(n, n);
                put(B, F);
                int i2 = tl::getri(B.v, piv, tl::GetriOpts{w ? tl::GetriVariant::UILI : tl::GetriVariant::UXLI});
                if (i2) mc::fail("info", "getri %d", i2);
                WM X = get(B), XL(n, n);
                if (!(nrm(X) < W(1e15))) continue;
                smallr(nrm(A0 * X - eye(n)), tolF(n, nrm(A0) * nrm(X) * (1 + nrm(L) * nrm(U) * nrm(X))), "inverse");
            }
        }
    }
    mc::mix(info);
}
MC_HARNESS(cholesky)
{
    int m, n, u = mc::choose("uplo", 2), var = mc::choose("variant", 4), nb = mc::pick<int>("nb", {1, 2, 32});
    WM B0 = input(m, n, true), A0 = B0 * H(B0);
    for (int i = 0; i < n; ++i) A0(i, i).re += 2;
    for (auto& x : A0.a) x = up(dn<T>(x));
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A0(i, j) = cj(A0(j, i));
    Mat A(n, n);
    put(A, mask(A0, [&](int i, int j) { return u ? i >= j : i <= j; }));
    mc::body();
    tl::PotrfOpts o;
    o.nb = nb;
    static const tl::PotrfVariant vs[] = {tl::PotrfVariant::Blocked, tl::PotrfVariant::Recursive, tl::PotrfVariant::Level2, tl::PotrfVariant::RightLooking};
    o.variant = vs[var];
    tl::Uplo ul = u ? tl::Uplo::Lower : tl::Uplo::Upper;
    int info = tl::potrf(ul, A.v, o);
    if (info) mc::fail("info", "%d", info);
    WM F = get(A), L = u ? tril(F) : H(triu(F));
    smallr(nrm(L * H(L) - A0), tolF(n, nrm(A0)), "product");
    WM R0 = gen(0, n, 3, 2);
    Mat X(n, 3);
    put(X, R0);
    tl::potrs(ul, A.v, X.v);
    WM x = get(X);
    smallr(nrm(A0 * x - R0), tolF(2 * n, nrm(A0) * nrm(x)), "solve");
    Mat I_(n, n);
    put(I_, mask(A0, [&](int i, int j) { return u ? i >= j : i <= j; }));
    tl::potri(ul, I_.v);
    WM V = get(I_);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) (u ? V(j, i) : V(i, j)) = cj(u ? V(i, j) : V(j, i));
    smallr(nrm(A0 * V - eye(n)), tolF(2 * n, nrm(A0) * nrm(V) * (1 + nrm(A0) * nrm(V))), "inverse");
}
MC_HARNESS(ldl)
{
    int m, n, u = mc::choose("uplo", 2), nb = mc::pick<int>("nb", {2, 3, 32});
    WM B0 = input(m, n, true), A0(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) A0(i, j) = B0(i, j), A0(j, i) = cj(B0(i, j));
    for (int i = 0; i < n; ++i) A0(i, i).im = 0;
    Mat A(n, n);
    put(A, mask(A0, [&](int i, int j) { return u ? i >= j : i <= j; }));
    std::vector<int> ip(n);
    mc::body();
    tl::HetrfOpts o;
    o.nb = nb;
    o.invariant = CPLX ? tl::Op::ConjTrans : tl::Op::Trans;
    int info = tl::hetrf(u ? tl::Uplo::Lower : tl::Uplo::Upper, A.v, ip, o);
    if (info < 0) mc::fail("info", "%d", info);
    if (!n) return;
    WM F = get(A);
    // rebuild by applying the elementary factors
    WM D(n, n), Mx = eye(n);
    auto swapRC = [&](int a, int b) { if (a != b) for (int j = 0; j < n; ++j) std::swap(Mx(a, j), Mx(b, j)); };
    // A = P1 L1 P2 L2 ... D ...^H; Mx accumulates the product of factors
    std::vector<std::array<int, 2>> blocks;
    if (u) for (int k = 0; k < n;) { int s = ip[k] >= 0 ? 1 : 2; blocks.push_back({k, s}); k += s; }
    else for (int k = n - 1; k >= 0;) { int s = ip[k] >= 0 ? 1 : 2; blocks.push_back({k - s + 1, s}); k -= s; }
    for (size_t b = blocks.size(); b-- > 0;) {
        int k0 = blocks[b][0], s = blocks[b][1];
        // apply L_k from the left, then P_k
        WM L = eye(n);
        if (u) { for (int c = 0; c < s; ++c) for (int i = k0 + s; i < n; ++i) L(i, k0 + c) = F(i, k0 + c); }
        else for (int c = 0; c < s; ++c) for (int i = 0; i < k0; ++i) L(i, k0 + c) = F(i, k0 + c);
        Mx = L * Mx;
        for (int c = 0; c < s; ++c) D(k0 + c, k0 + c) = cw(F(k0 + c, k0 + c).re);
        if (s == 2) { if (u) D(k0 + 1, k0) = F(k0 + 1, k0), D(k0, k0 + 1) = cj(D(k0 + 1, k0)); else D(k0, k0 + 1) = F(k0, k0 + 1), D(k0 + 1, k0) = cj(D(k0, k0 + 1)); }
        int kk = u ? k0 + s - 1 : k0, pv = s == 1 ? ip[k0] : -ip[kk] - 1;
        if (pv < 0 || pv >= n) mc::fail("pivot", "%d", pv);
        swapRC(kk, pv);
    }
    WM P = Mx * D * H(Mx);
    smallr(nrm(P - A0), 40 * tolF(n, nrm(A0)) + tolF(n, nrm(Mx) * nrm(D) * nrm(Mx)), "product");
    mc::mix(info);
}
MC_HARNESS(triangular)
{
    int m, n, u = mc::choose("uplo", 2), d = mc::choose("diag", 2);
    WM B0 = input(m, n, true);
    for (int i = 0; i < n; ++i) B0(i, i).re += B0(i, i).re < 0 ? -3 : 3;
    for (auto& x : B0.a) x = up(dn<T>(x));
    Mat A(n, n), C(n, n);
    put(A, B0);
    put(C, B0);
    mc::body();
    tl::Uplo ul = u ? tl::Uplo::Lower : tl::Uplo::Upper;
    int info = tl::trtri_recursive(ul, d ? tl::Diag::Unit : tl::Diag::NonUnit, A.v);
    if (info) mc::fail("info", "%d", info);
    auto in = [&](int i, int j) { return u ? i >= j : i <= j; };
    WM X = mask(get(A), in), B = mask(B0, in);
    if (d) for (int i = 0; i < n; ++i) X(i, i) = B(i, i) = cw(1);
    smallr(nrm(B * X - eye(n)), tolF(n, nrm(B) * nrm(X)) * (1 + nrm(X)), "inverse");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!in(i, j) && mag(get(A)(i, j) - B0(i, j)) != 0) mc::fail("footprint", "trtri");
    tl::lauum_recursive(ul, C.v);
    WM S = mask(B0, in), w = u ? H(S) * S : S * H(S);
    for (int i = 0; i < n; ++i) w(i, i).im = 0;
    WM g = mask(get(C), in);
    for (int i = 0; i < n; ++i) g(i, i).im = 0;
    smallr(nrm(g - mask(w, in)), tolF(n, nrm(S) * nrm(S)), "lauum");
}
MC_HARNESS(positive_tridiagonal)
{
    int n = mc::range("n", 1, 8), fam = mc::choose("family", 4);
    VecR d(n);
    Vec e(n - 1);
    std::vector<W> d0(n);
    std::vector<cw> e0(n);
    for (int i = 0; i + 1 < n; ++i) e0[i] = up(dn<T>(val(fam, i, 1, 0))), e.v[i] = dn<T>(e0[i]);
    for (int i = 0; i < n; ++i) {
        d0[i] = W(1) + (i ? mag(e0[i - 1]) : 0) + (i + 1 < n ? mag(e0[i]) : 0);
        d.v[i] = R(d0[i]);
        d0[i] = W(d.v[i]);
    }
    mc::body();
    int info = tl::pttrf(d.v, e.v);
    if (info) mc::fail("info", "%d", info);
    for (int i = 0; i < n; ++i) {
        cw l = i ? up(T(e.v[i - 1])) : cw(0);
        W dp = i ? W(d.v[i - 1]) : 0;
        smallr(wabs(W(d.v[i]) + dp * (l.re * l.re + l.im * l.im) - d0[i]), 12 * EPS * d0[i], "diagonal");
        if (i) smallr(mag(l * cw(dp) - e0[i - 1]), 8 * EPS * mag(e0[i - 1]), "off-diagonal");
    }
}
#elif MC_G == 2
MC_HARNESS(hermitian_eig)
{
    int m, n, u = mc::choose("uplo", 2);
    WM B0 = input(m, n, true), A0(n, n);
    if (!n) return;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) A0(i, j) = B0(i, j), A0(j, i) = cj(B0(i, j));
    for (int i = 0; i < n; ++i) A0(i, i).im = 0;
    Mat A(n, n);
    put(A, A0);
    Vec tau(std::max(0, n - 1));
    VecR d(n), e(std::max(0, n - 1));
    mc::body();
    tl::Uplo ul = u ? tl::Uplo::Lower : tl::Uplo::Upper;
    int info = tl::hetd2(ul, A.v, tau.v);
    if (info) mc::fail("info", "hetd2 %d", info);
    for (int i = 0; i < n; ++i) d.v[i] = R(up(T(A.v(i, i))).re);
    for (int i = 0; i + 1 < n; ++i) e.v[i] = R(up(T(u ? A.v(i + 1, i) : A.v(i, i + 1))).re);
    tl::ungtr(ul, A.v, tau.v);
    WM Q = get(A), D(n, n);
    for (int i = 0; i < n; ++i) D(i, i) = cw(W(d.v[i]));
    for (int i = 0; i + 1 < n; ++i) D(i, i + 1) = D(i + 1, i) = cw(W(e.v[i]));
    ortho(Q, "tridiagonal-Q");
    smallr(nrm(Q * D * H(Q) - A0), 2 * tolF(n, nrm(A0)), "tridiagonal");
    info = tl::steqr(true, d.v, e.v, A.v);
    if (info) mc::fail("info", "steqr %d", info);
    WM Z = get(A), L(n, n);
    for (int i = 0; i < n; ++i) L(i, i) = cw(W(d.v[i]));
    ortho(Z, "eigenvectors");
    smallr(nrm(Z * L * H(Z) - A0), 4 * tolF(n, nrm(A0)), "eigen");
    for (int i = 0; i + 1 < n; ++i)
        if (d.v[i] > d.v[i + 1]) mc::fail("order", "eigenvalues");
}
MC_HARNESS(schur)
{
    int m, n, alg = mc::choose("algorithm", 2);
    WM A0 = input(m, n, true, alg);
    if (!n) return;
    Mat A(n, n), Z(n, n);
    put(A, A0);
    Vec tau(std::max(0, n - 1));
    VecC w(n);
    mc::body();
    tl::GehrdOpts go;
    go.nb = 2;
    go.nx_switch = 2;
    int info = tl::gehrd(0, n, A.v, tau.v, go);
    if (info) mc::fail("info", "gehrd %d", info);
    put(Z, get(A));
    tl::unghr(0, n, Z.v, tau.v);
    WM Hs = mask(get(A), [](int i, int j) { return i <= j + 1; }), Q = get(Z);
    ortho(Q, "hessenberg-Q");
    smallr(nrm(Q * Hs * H(Q) - A0), 2 * tolF(n, nrm(A0)), "hessenberg");
    put(A, Hs);
    if (alg) {
        tl::FrancisOpts op;
        op.nmin = 15;
        op.nshift_recommender = [](size_t, size_t) { return (size_t)4; };
        op.deflation_window_recommender = [](size_t, size_t) { return (size_t)5; };
        info = tl::multishift_qr(true, true, 0, n, A.v, w.v, Z.v, op);
    }
    else info = tl::lahqr(true, true, 0, n, A.v, w.v, Z.v);
    if (info) mc::fail("info", "eigenvalue solver %d", info);
    WM S = mask(get(A), [](int i, int j) { return i <= j + 1; }), Zw = get(Z);
    ortho(Zw, "schur-Z");
    smallr(nrm(Zw * S * H(Zw) - A0), 6 * tolF(n, nrm(A0)), "schur");
    for (int i = 0; i + 1 < n; ++i) {
        bool sd = mag(S(i + 1, i)) != 0;
        if (sd && (CPLX || (i + 2 < n && mag(S(i + 2, i + 1)) != 0))) mc::fail("form", "not (quasi-)triangular");
        if (!CPLX && sd && !(S(i + 1, i).re * S(i, i + 1).re < 0)) mc::fail("form", "block not in standard form");
    }
    for (int i = 0; i < n; ++i) smallr(wabs(W(w.v[i].real()) - S(i, i).re), tolF(2, nrm(S)), "eigenvalues");
    // eigenvectors
    Mat Vl(n, n), Vr(n, n);
    put(A, S);
    std::vector<bool> sel(n, true);
    tl::trevc3(tl::Side::Both, tl::HowMny::All, sel, A.v, Vl.v, Vr.v);
    WM V = get(Vr), U = get(Vl);
    auto resid = [&](const WM& X, const WM& Tm, bool left, const char* key) {
        for (int i = 0; i < n; ++i) {
            bool pair = !CPLX && i + 1 < n && mag(S(i + 1, i)) != 0;
            WM x(n, 1);
            cw lam = S(i, i);
            for (int k = 0; k < n; ++k) x(k, 0) = pair ? cw(X(k, i).re, X(k, i + 1).re) : X(k, i);
            if (pair) lam = cw(S(i, i).re, wsqrt(-S(i + 1, i).re * S(i, i + 1).re));
            if (!(nrm(x) > W(0.4))) mc::fail(key, "vector %d vanishes", i);
            if (left) lam = cj(lam);
            WM y = Tm * x;
            for (int k = 0; k < n; ++k) y(k, 0) = y(k, 0) - lam * x(k, 0);
            smallr(nrm(y), 4 * tolF(n, nrm(S) * nrm(x)) + tolF(n, nrm(x)) * W(tl::safe_min<R>()), key);
            if (pair) ++i;
        }
    };
    resid(V, S, false, "right-vectors");
    resid(U, H(S), true, "left-vectors");
    // reordering
    auto ifst = tl::size_type<decltype(A.v)>(n - 1);
    auto ilst = tl::size_type<decltype(A.v)>(0);
    put(A, S);
    info = tl::schur_move(true, A.v, Z.v, ifst, ilst);
    WM S2 = mask(get(A), [](int i, int j) { return i <= j + 1; }), Z2 = get(Z);
    ortho(Z2, "reorder-Z");
    smallr(nrm(Z2 * S2 * H(Z2) - A0), 12 * tolF(n, nrm(A0)), "reorder");
}
#elif MC_G == 3
MC_HARNESS(svd)
{
    int m, n;
    WM A0 = input(m, n, false);
    if (!m || !n) return;
    int k = std::min(m, n);
    Mat A(m, n), U(m, k), V(k, n);
    put(A, A0);
    VecR s(k);
    mc::body();
    int info = tl::gesvd(true, true, A.v, s.v, U.v, V.v);
    if (info) mc::fail("info", "%d", info);
    WM u = get(U), v = get(V), S(k, k);
    for (int i = 0; i < k; ++i) {
        S(i, i) = cw(W(s.v[i]));
        if (!(s.v[i] >= R(0)) || (i && s.v[i - 1] < s.v[i])) mc::fail("order", "singular values");
    }
    ortho(u, "left-vectors");
    ortho(H(v), "right-vectors");
    smallr(nrm(u * S * v - A0), 6 * tolF(m + n, nrm(A0)), "svd");
}
MC_HARNESS(generalized_schur)
{
    int m, n, alg = mc::choose("algorithm", 2);
    WM A0 = input(m, n, true, alg);
    if (!n) return;
    WM B0 = triu(gen(mc::choose("familyB", 3), n, n, 3));
    Mat A(n, n), B(n, n), Q(n, n), Z(n, n);
    put(A, A0);
    put(B, B0);
    put(Q, eye(n));
    put(Z, eye(n));
    VecC al(n);
    Vec be(n);
    mc::body();
    int info = tl::gghrd(true, true, 0, n, A.v, B.v, Q.v, Z.v);
    if (info) mc::fail("info", "gghrd %d", info);
    auto chk = [&](W f, const char* key) {
        WM a = mask(get(A), [](int i, int j) { return i <= j + 1; }), b = triu(get(B)), q = get(Q), z = get(Z);
        ortho(q, key);
        ortho(z, key);
        smallr(nrm(q * a * H(z) - A0), f * tolF(n, nrm(A0)), key);
        smallr(nrm(q * b * H(z) - B0), f * tolF(n, nrm(B0)), key);
        put(A, a);
        put(B, b);
    };
    chk(2, "hessenberg-triangular");
    if (alg) {
        tl::FrancisOpts op;
        op.nmin = 15;
        op.nshift_recommender = [](size_t, size_t) { return (size_t)4; };
        op.deflation_window_recommender = [](size_t, size_t) { return (size_t)5; };
        info = tl::multishift_qz(true, true, true, 0, n, A.v, B.v, al.v, be.v, Q.v, Z.v, op);
    }
    else info = tl::lahqz(true, true, true, 0, n, A.v, B.v, al.v, be.v, Q.v, Z.v);
    if (info) mc::fail("info", "QZ %d", info);
    chk(8, "qz");
    WM a = get(A);
    for (int i = 0; i + 1 < n; ++i)
        if (mag(a(i + 1, i)) != 0 && (CPLX || (i + 2 < n && mag(a(i + 2, i + 1)) != 0))) mc::fail("form", "not (quasi-)triangular");
}
#elif MC_G == 4
static WM opw(const WM& A, tl::Op o) { return o == tl::Op::NoTrans ? A : o == tl::Op::Trans ? TR(A) : H(A); }
static tl::Op opk(int k) { return k == 0 ? tl::Op::NoTrans : k == 1 ? tl::Op::Trans : tl::Op::ConjTrans; }
static const tl::Uplo UL[] = {tl::Uplo::Upper, tl::Uplo::Lower};
static const tl::Diag DG[] = {tl::Diag::NonUnit, tl::Diag::Unit};
static const tl::Side SD[] = {tl::Side::Left, tl::Side::Right};
static WM scale(const WM& A, cw a) { WM C = A; for (auto& x : C.a) x = x * a; return C; }
MC_HARNESS(products)
{
    int m = mc::pick<int>("m", {0, 1, 2, 3, 6}), n = mc::pick<int>("n", {0, 1, 2, 3, 6}), k = mc::pick<int>("k", {0, 1, 2, 5}), ta = mc::choose("transA", 3), tb = mc::choose("transB", 3), f = mc::choose("family", 3);
    WM A0 = ta ? gen(f, k, m, 1) : gen(f, m, k, 1), B0 = tb ? gen(f, n, k, 2) : gen(f, k, n, 2), C0 = gen(0, m, n, 3);
    T al = dn<T>(cw(W(1.5), CPLX ? -1 : 0)), be = dn<T>(cw(W(-0.5), CPLX ? 2 : 0));
    Mat A(A0.m, A0.n), C(m, n), D(m, n);
    MatH<T, 0> L(B0.m, B0.n);  // mixed containers: B is a plain column-major array
    Mat B(B0.m, B0.n);
    put(A, A0);
    put(B, B0);
    put(C, C0);
    put(D, C0);
    for (int i = 0; i < B0.m; ++i) for (int j = 0; j < B0.n; ++j) L.v(i, j) = dn<T>(B0(i, j));
    mc::body();
    tl::gemm(opk(ta), opk(tb), al, A.v, B.v, be, C.v);
    WM P = opw(A0, opk(ta)) * opw(B0, opk(tb)), X = scale(P, up(al)), Y = scale(C0, up(be));
    for (size_t q = 0; q < X.a.size(); ++q) X.a[q] = X.a[q] + Y.a[q];
    W bd = tolF(k, nrm(A0) * nrm(B0) * 2 + nrm(C0) * 3);
    smallr(nrm(get(C) - X), bd, "gemm");
    tl::gemm(opk(ta), opk(tb), al, A.v, L.v, be, D.v);
    smallr(nrm(get(D) - X), bd, "gemm-mixed");
    tl::gemm(opk(ta), opk(tb), al, A.v, B.v, C.v);
    smallr(nrm(get(C) - scale(P, up(al))), bd, "gemm-nobeta");
    if (n == 1 && k > 0) {
        Vec x(k), y(m);
        for (int i = 0; i < k; ++i) x.v[i] = dn<T>(opw(B0, opk(tb))(i, 0));
        for (int i = 0; i < m; ++i) y.v[i] = dn<T>(C0(i, 0));
        tl::gemv(opk(ta), al, A.v, x.v, be, y.v);
        for (int i = 0; i < m; ++i) smallr(mag(up(T(y.v[i])) - X(i, 0)), bd, "gemv");
        Mat E(m, k);
        put(E, gen(0, m, k, 4));
        WM E0 = get(E);
        tl::ger(al, y.v, x.v, E.v);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < k; ++j) smallr(mag(get(E)(i, j) - E0(i, j) - up(al) * up(T(y.v[i])) * cj(up(T(x.v[j])))), tolF(k, nrm(E0) + 60 * (1 + nrm(X)) * (1 + nrm(B0))), "ger");
        W s = 0;
        for (int i = 0; i < k; ++i) s += mag(up(T(x.v[i]))) * mag(up(T(x.v[i])));
        smallr(wabs(W(tl::nrm2(x.v)) - wsqrt(s)), tolF(k, wsqrt(s)), "nrm2");
    }
}
MC_HARNESS(structured)
{
    int m = mc::pick<int>("m", {0, 1, 2, 3, 6}), n = mc::pick<int>("n", {0, 1, 2, 4}), s = mc::choose("side", 2), u = mc::choose("uplo", 2), t = mc::choose("trans", 3), d = mc::choose("diag", 2), f = mc::choose("family", 3);
    int q = s ? n : m;
    WM A0 = gen(f, q, q, 1), B0 = gen(0, m, n, 2);
    for (int i = 0; i < q; ++i) A0(i, i) = up(dn<T>(A0(i, i) + cw(A0(i, i).re < 0 ? -3 : 3)));
    auto in = [&](int i, int j) { return u ? i >= j : i <= j; };
    WM Tm = mask(A0, in);
    if (d) for (int i = 0; i < q; ++i) Tm(i, i) = cw(1);
    T al = dn<T>(cw(W(1.5), CPLX ? -1 : 0)), be = dn<T>(cw(W(-0.5), CPLX ? 2 : 0));
    Mat A(q, q), B(m, n), C(m, n), S(m, n), S2(m, n);
    put(A, A0);
    put(B, B0);
    put(C, B0);
    mc::body();
    WM To = opw(Tm, opk(t));
    tl::trmm(SD[s], UL[u], opk(t), DG[d], al, A.v, B.v);
    WM P = scale(s ? B0 * To : To * B0, up(al));
    smallr(nrm(get(B) - P), tolF(q, 2 * nrm(Tm) * nrm(B0)), "trmm");
    tl::trsm(SD[s], UL[u], opk(t), DG[d], al, A.v, C.v);
    WM X = get(C);
    smallr(nrm((s ? X * To : To * X) - scale(B0, up(al))), tolF(q, nrm(Tm) * nrm(X) + 2 * nrm(B0)), "trsm");
    if (n == 1 && !s) {
        Vec x(m);
        for (int i = 0; i < m; ++i) x.v[i] = dn<T>(B0(i, 0));
        tl::trsv(UL[u], opk(t), DG[d], A.v, x.v);
        WM xw(m, 1);
        for (int i = 0; i < m; ++i) xw(i, 0) = up(T(x.v[i]));
        smallr(nrm(To * xw - B0), tolF(q, nrm(Tm) * nrm(xw)), "trsv");
    }
    // Hermitian and symmetric products from one triangle
    WM He(q, q), Sy(q, q);
    for (int i = 0; i < q; ++i)
        for (int j = 0; j < q; ++j) {
            bool k = in(i, j);
            He(i, j) = i == j ? cw(A0(i, i).re) : k ? A0(i, j) : cj(A0(j, i));
            Sy(i, j) = k ? A0(i, j) : A0(j, i);
        }
    put(B, B0);
    put(S, B0);
    put(S2, B0);
    tl::hemm(SD[s], UL[u], al, A.v, B.v, be, S.v);
    WM Y = scale(B0, up(be)), X1 = scale(s ? B0 * He : He * B0, up(al)), X2 = scale(s ? B0 * Sy : Sy * B0, up(al));
    for (size_t k = 0; k < Y.a.size(); ++k) X1.a[k] = X1.a[k] + Y.a[k], X2.a[k] = X2.a[k] + Y.a[k];
    smallr(nrm(get(S) - X1), tolF(q, 2 * nrm(A0) * nrm(B0) + 3 * nrm(B0)), "hemm");
    tl::symm(SD[s], UL[u], al, A.v, B.v, be, S2.v);
    smallr(nrm(get(S2) - X2), tolF(q, 2 * nrm(A0) * nrm(B0) + 3 * nrm(B0)), "symm");
    if (t != 1 || !CPLX) {
        // rank-k updates: C (q x q) += op(E) op(E)^H
        tl::Op o = t == 0 ? tl::Op::NoTrans : tl::Op::ConjTrans;
        WM E0 = t == 0 ? gen(f, q, 3, 5) : gen(f, 3, q, 5), G0 = t == 0 ? gen(0, q, 3, 6) : gen(0, 3, q, 6);
        Mat E(E0.m, E0.n), G(G0.m, G0.n), Cc(q, q), Cd(q, q);
        put(E, E0);
        put(G, G0);
        put(Cc, A0);
        put(Cd, A0);
        tl::herk(UL[u], o, R(2), E.v, R(-1), Cc.v);
        WM EE = opw(E0, o), GG = opw(G0, o), K1 = EE * H(EE), K2 = EE * H(GG), K3 = GG * H(EE);
        tl::her2k(UL[u], o, al, E.v, G.v, R(-1), Cd.v);
        WM g1 = get(Cc), g2 = get(Cd);
        for (int i = 0; i < q; ++i)
            for (int j = 0; j < q; ++j) {
                cw w1 = in(i, j) ? (i == j ? cw(2 * K1(i, i).re - A0(i, i).re) : cw(2) * K1(i, j) - A0(i, j)) : A0(i, j);
                cw w2 = in(i, j) ? (up(al) * K2(i, j) + cj(up(al)) * K3(i, j) - (i == j ? cw(A0(i, i).re) : A0(i, j))) : A0(i, j);
                smallr(mag(g1(i, j) - w1), in(i, j) ? tolF(4, 2 * nrm(E0) * nrm(E0) + nrm(A0)) : 0, "herk");
                smallr(mag(g2(i, j) - w2), in(i, j) ? tolF(4, 8 * nrm(E0) * nrm(G0) + nrm(A0)) : 0, "her2k");
            }
    }
}
MC_HARNESS(movement)
{
    int m = mc::pick<int>("m", {0, 1, 2, 3, 6}), n = mc::pick<int>("n", {0, 1, 2, 4, 7}), f = mc::choose("family", 4);
    WM A0 = gen(f, m, n, 1);
    Mat A(m, n), B(m, n), C(n, m), D(m, n);
    put(A, A0);
    mc::body();
    tl::lacpy(tl::GENERAL, A.v, B.v);
    smallr(nrm(get(B) - A0), 0, "lacpy");
    tl::transpose(A.v, C.v);
    smallr(nrm(get(C) - TR(A0)), 0, "transpose");
    tl::conjtranspose(A.v, C.v);
    smallr(nrm(get(C) - H(A0)), 0, "conjtranspose");
    tl::lascl(tl::GENERAL, R(2), R(3), B.v);
    smallr(nrm(get(B) - scale(A0, cw(W(1.5)))), 4 * EPS * nrm(A0), "lascl");
    tl::laset(tl::GENERAL, dn<T>(cw(2)), dn<T>(cw(5)), D.v);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) smallr(mag(get(D)(i, j) - cw(i == j ? 5 : 2)), 0, "laset");
    W mx = 0, one = 0, inf = 0;
    for (int i = 0; i < m; ++i) { W s = 0; for (int j = 0; j < n; ++j) s += mag(A0(i, j)), mx = mag(A0(i, j)) > mx ? mag(A0(i, j)) : mx; inf = s > inf ? s : inf; }
    for (int j = 0; j < n; ++j) { W s = 0; for (int i = 0; i < m; ++i) s += mag(A0(i, j)); one = s > one ? s : one; }
    smallr(wabs(W(tl::lange(tl::MAX_NORM, A.v)) - mx), tolF(m + n, mx), "max-norm");
    smallr(wabs(W(tl::lange(tl::ONE_NORM, A.v)) - one), tolF(m + n, one), "one-norm");
    smallr(wabs(W(tl::lange(tl::INF_NORM, A.v)) - inf), tolF(m + n, inf), "inf-norm");
    smallr(wabs(W(tl::lange(tl::FROB_NORM, A.v)) - nrm(A0)), tolF(m + n, nrm(A0)), "frob-norm");
    if (m == n) {
        WM L = tril(A0), He(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) He(i, j) = i == j ? cw(A0(i, i).re) : A0(i, j), He(j, i) = cj(He(i, j));
        smallr(wabs(W(tl::lantr(tl::FROB_NORM, tl::LOWER_TRIANGLE, tl::NON_UNIT_DIAG, A.v)) - nrm(L)), tolF(m + n, nrm(L)), "lantr");
        smallr(wabs(W(tl::lanhe(tl::FROB_NORM, tl::LOWER_TRIANGLE, A.v)) - nrm(He)), tolF(m + n, nrm(He)), "lanhe");
    }
}
#endif
MC_MAIN
