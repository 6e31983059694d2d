// mat.hpp -- guarded operands and a boring reference model (dense long-double complex matrices).
#pragma once
#include "mc.hpp"
// tlapack
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/base/utils.hpp>
#include <cmath>
#include <complex>
#include <limits>
#include <memory>
#include <vector>

namespace tl = tlapack;
typedef long double LD;

// ---- reference scalar -------------------------------------------------------------------------
struct cx {
    LD re = 0, im = 0;
    cx() {}
    cx(LD r, LD i = 0) : re(r), im(i) {}
};
inline cx operator+(cx a, cx b) { return cx(a.re + b.re, a.im + b.im); }
inline cx operator-(cx a, cx b) { return cx(a.re - b.re, a.im - b.im); }
inline cx operator-(cx a) { return cx(-a.re, -a.im); }
inline cx operator*(cx a, cx b) { return cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
inline cx& operator+=(cx& a, cx b) { a = a + b; return a; }
inline cx& operator-=(cx& a, cx b) { a = a - b; return a; }
inline cx& operator*=(cx& a, cx b) { a = a * b; return a; }
inline cx cj(cx a) { return cx(a.re, -a.im); }
inline LD ab1(cx a) { return fabsl(a.re) + fabsl(a.im); }
inline LD ab(cx a) { return hypotl(a.re, a.im); }
inline cx operator/(cx a, cx b)
{
    LD s = std::max(fabsl(b.re), fabsl(b.im));
    cx t(b.re / s, b.im / s);
    LD d = (t.re * t.re + t.im * t.im) * s;
    cx r = a * cj(t);
    return cx(r.re / d, r.im / d);
}
inline bool operator==(cx a, cx b) { return a.re == b.re && a.im == b.im; }
inline bool operator!=(cx a, cx b) { return !(a == b); }
inline bool fin(cx a) { return std::isfinite(a.re) && std::isfinite(a.im); }

template <class R>
inline cx up(R x) { return cx((LD)x); }
template <class R>
inline cx up(std::complex<R> x) { return cx((LD)x.real(), (LD)x.imag()); }

template <class T>
struct Sc {  // real scalar
    typedef T real;
    static constexpr bool cplx = false;
    static T mk(LD re, LD) { return T(re); }
};
template <class R>
struct Sc<std::complex<R>> {
    typedef R real;
    static constexpr bool cplx = true;
    static std::complex<R> mk(LD re, LD im) { return std::complex<R>(R(re), R(im)); }
};
template <class T>
inline T mk(cx a) { return Sc<T>::mk(a.re, a.im); }
template <class T>
inline LD epsOf() { return (LD)std::numeric_limits<typename Sc<T>::real>::epsilon(); }
template <class T>
inline T nanOf()
{
    LD q = std::numeric_limits<LD>::quiet_NaN();
    return Sc<T>::mk(q, q);
}
template <class T>
inline bool bitEq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }

// ---- reference matrices -----------------------------------------------------------------------
struct RM {
    int m = 0, n = 0;
    std::vector<cx> a;
    RM() {}
    RM(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_) {}
    cx& operator()(int i, int j) { return a[(size_t)j * m + i]; }
    const cx& operator()(int i, int j) const { return a[(size_t)j * m + i]; }
    static RM eye(int m, int n)
    {
        RM r(m, n);
        for (int i = 0; i < m && i < n; ++i) r(i, i) = 1;
        return r;
    }
    static RM eye(int n) { return eye(n, n); }
};
inline RM operator*(const RM& A, const RM& B)
{
    RM C(A.m, B.n);
    for (int j = 0; j < B.n; ++j)
        for (int l = 0; l < A.n; ++l) {
            cx b = B(l, j);
            if (b.re == 0 && b.im == 0) continue;
            for (int i = 0; i < A.m; ++i) C(i, j) += A(i, l) * b;
        }
    return C;
}
inline RM operator+(const RM& A, const RM& B)
{
    RM C = A;
    for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += B.a[i];
    return C;
}
inline RM operator-(const RM& A, const RM& B)
{
    RM C = A;
    for (size_t i = 0; i < C.a.size(); ++i) C.a[i] -= B.a[i];
    return C;
}
inline RM operator*(cx s, const RM& A)
{
    RM C = A;
    for (auto& x : C.a) x = s * x;
    return C;
}
inline RM Tr(const RM& A)
{
    RM C(A.n, A.m);
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) C(j, i) = A(i, j);
    return C;
}
inline RM Cj(const RM& A)
{
    RM C = A;
    for (auto& x : C.a) x = cj(x);
    return C;
}
inline RM H(const RM& A) { return Cj(Tr(A)); }
inline RM sub(const RM& A, int i0, int i1, int j0, int j1)
{
    RM C(i1 - i0, j1 - j0);
    for (int i = i0; i < i1; ++i)
        for (int j = j0; j < j1; ++j) C(i - i0, j - j0) = A(i, j);
    return C;
}
inline LD nrmF(const RM& A)
{
    LD mx = 0;
    for (auto& x : A.a) {
        if (!fin(x)) return std::numeric_limits<LD>::infinity();
        mx = std::max(mx, std::max(fabsl(x.re), fabsl(x.im)));
    }
    if (mx == 0) return 0;
    LD s = 0;
    for (auto& x : A.a) s += (x.re / mx) * (x.re / mx) + (x.im / mx) * (x.im / mx);
    return mx * sqrtl(s);
}
inline LD nrmMax(const RM& A)
{
    LD s = 0;
    for (auto& x : A.a) {
        if (!fin(x)) return std::numeric_limits<LD>::infinity();
        s = std::max(s, ab(x));
    }
    return s;
}
inline LD nrm1(const RM& A)
{
    LD s = 0;
    for (int j = 0; j < A.n; ++j) {
        LD t = 0;
        for (int i = 0; i < A.m; ++i) t += ab(A(i, j));
        if (!std::isfinite(t)) return std::numeric_limits<LD>::infinity();
        s = std::max(s, t);
    }
    return s;
}
/// || Q^H Q - I ||_F
inline LD orthCols(const RM& Q) { return nrmF(H(Q) * Q - RM::eye(Q.n)); }
inline LD orthRows(const RM& Q) { return nrmF(Q * H(Q) - RM::eye(Q.m)); }
inline void mixRM(const RM& A)
{
    for (auto& x : A.a) { mc::mixd((double)x.re); mc::mixd((double)x.im); }
}
/// Solve A X = B by Gaussian elimination with complete-ish (partial) pivoting in long double.
inline bool refSolve(RM A, RM Bm, RM& X)
{
    int n = A.n;
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k; i < n; ++i)
            if (ab(A(i, k)) > ab(A(p, k))) p = i;
        if (ab(A(p, k)) == 0) return false;
        if (p != k) {
            for (int j = 0; j < n; ++j) std::swap(A(p, j), A(k, j));
            for (int j = 0; j < Bm.n; ++j) std::swap(Bm(p, j), Bm(k, j));
        }
        for (int i = k + 1; i < n; ++i) {
            cx f = A(i, k) / A(k, k);
            for (int j = k; j < n; ++j) A(i, j) -= f * A(k, j);
            for (int j = 0; j < Bm.n; ++j) Bm(i, j) -= f * Bm(k, j);
        }
    }
    X = RM(n, Bm.n);
    for (int j = 0; j < Bm.n; ++j)
        for (int i = n - 1; i >= 0; --i) {
            cx s = Bm(i, j);
            for (int k = i + 1; k < n; ++k) s -= A(i, k) * X(k, j);
            X(i, j) = s / A(i, i);
        }
    return true;
}

// ---- guarded matrix: m x n view inside a poisoned buffer with padded leading dimension ----------
enum { GUARD = 5 };
template <class T>
inline T poisonVal(int i)
{
    // NaN with a recognisable payload: any arithmetic use shows up as NaN, any overwrite as a bit change
    (void)i;
    return nanOf<T>();
}

template <class T, tl::Layout L>
struct GM {
    typedef tl::LegacyMatrix<T, size_t, L> view_t;
    int m, n, pad, ld;
    std::vector<T> buf, before;
    GM(int m_, int n_, int pad_ = 2) : m(m_), n(n_), pad(pad_)
    {
        ld = (L == tl::Layout::ColMajor ? m : n) + pad;
        if (ld == 0) ld = 1;
        int other = (L == tl::Layout::ColMajor ? n : m);
        buf.assign((size_t)ld * other + 2 * GUARD, poisonVal<T>(0));
        snap();
    }
    T* ptr() { return buf.data() + GUARD; }
    const T* ptr() const { return buf.data() + GUARD; }
    size_t off(int i, int j) const { return GUARD + (L == tl::Layout::ColMajor ? (size_t)j * ld + i : (size_t)i * ld + j); }
    T& operator()(int i, int j) { return buf[off(i, j)]; }
    const T& operator()(int i, int j) const { return buf[off(i, j)]; }
    view_t view() { return view_t(m, n, ptr(), ld); }
    void snap() { before = buf; }
    RM get() const
    {
        RM r(m, n);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j) r(i, j) = up((*this)(i, j));
        return r;
    }
    void set(const RM& r)
    {
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j) (*this)(i, j) = mk<T>(r(i, j));
        snap();
    }
    template <class F>
    void fill(F f)
    {
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) (*this)(i, j) = mk<T>(f(i, j));
        snap();
    }
    /// Every location outside {(i,j): w(i,j)} is bitwise unchanged since snap().
    template <class W>
    void unchangedExcept(W w, const char* key, const char* name) const
    {
        std::vector<char> may(buf.size(), 0);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n; ++j)
                if (w(i, j)) may[off(i, j)] = 1;
        mc::E().checks++;
        for (size_t k = 0; k < buf.size(); ++k)
            if (!may[k] && !bitEq(buf[k], before[k])) {
                long q = (long)k - GUARD;
                long a = q / ld, b = q % ld;
                if (L == tl::Layout::ColMajor) std::swap(a, b);
                mc::fail(key, "%s modified outside its output region at row %ld col %ld (view %dx%d)", name, a, b, m, n);
            }
    }
    void guards(const char* name) const
    {
        unchangedExcept([](int, int) { return true; }, "guard", name);
    }
    void constant(const char* name) const
    {
        unchangedExcept([](int, int) { return false; }, "input-modified", name);
    }
};

// ---- guarded vector with stride and direction ---------------------------------------------------
template <class T>
struct GV {
    typedef tl::LegacyVector<T, size_t, int, tl::Direction::Forward> fview_t;
    typedef tl::LegacyVector<T, size_t, int, tl::Direction::Backward> bview_t;
    int n, inc;
    bool back;
    std::vector<T> buf, before;
    GV(int n_, int inc_ = 1, bool back_ = false) : n(n_), inc(inc_), back(back_)
    {
        buf.assign((n ? (size_t)(n - 1) * inc + 1 : 0) + 2 * GUARD, poisonVal<T>(0));
        snap();
    }
    T* ptr() { return buf.data() + GUARD; }
    size_t off(int i) const { return GUARD + (size_t)(back ? (n - 1 - i) : i) * inc; }
    T& operator[](int i) { return buf[off(i)]; }
    const T& operator[](int i) const { return buf[off(i)]; }
    fview_t fview() { return fview_t(n, ptr(), inc); }
    bview_t bview() { return bview_t(n, ptr(), inc); }
    void snap() { before = buf; }
    template <class F>
    void fill(F f)
    {
        for (int i = 0; i < n; ++i) (*this)[i] = mk<T>(f(i));
        snap();
    }
    RM get() const
    {
        RM r(n, 1);
        for (int i = 0; i < n; ++i) r(i, 0) = up((*this)[i]);
        return r;
    }
    void set(const RM& r)
    {
        for (int i = 0; i < n; ++i) (*this)[i] = mk<T>(r.a[i]);
        snap();
    }
    template <class W>
    void unchangedExcept(W w, const char* key, const char* name) const
    {
        std::vector<char> may(buf.size(), 0);
        for (int i = 0; i < n; ++i)
            if (w(i)) may[off(i)] = 1;
        mc::E().checks++;
        for (size_t k = 0; k < buf.size(); ++k)
            if (!may[k] && !bitEq(buf[k], before[k])) mc::fail(key, "%s modified outside its output region at offset %ld (n=%d inc=%d)", name, (long)k - GUARD, n, inc);
    }
    void guards(const char* name) const
    {
        unchangedExcept([](int) { return true; }, "guard", name);
    }
    void constant(const char* name) const
    {
        unchangedExcept([](int) { return false; }, "input-modified", name);
    }
};

// ---- deterministic data ---------------------------------------------------------------------------
inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull + 0x27D4EB2F165667C5ull;
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL;
    x ^= x >> 33;
    return x;
}
/// generic value in (-1,1), never tiny
inline LD gen1(uint64_t i, uint64_t j, uint64_t salt)
{
    LD u = (LD)(hash3(i, j, salt) >> 11) / (LD)(1ull << 53);
    LD v = 2 * u - 1;
    if (fabsl(v) < 0.05L) v += (v < 0 ? -0.07L : 0.07L);
    return v;
}
template <class T>
inline cx gen(int i, int j, int salt)
{
    // rounded to T so that reference and implementation see the same number
    return up(mk<T>(cx(gen1(i, j, 2 * salt), Sc<T>::cplx ? gen1(i, j, 2 * salt + 1) : 0)));
}
/// small integer in [-3,3]\{0}
template <class T>
inline cx gint(int i, int j, int salt)
{
    auto f = [&](int s) {
        int v = (int)(hash3(i, j, s) % 6) - 3;
        return (LD)(v >= 0 ? v + 1 : v);
    };
    return cx(f(2 * salt + 1000), Sc<T>::cplx ? f(2 * salt + 1001) : 0);
}
/// alphabet of n-th value: 0,1,-1,(i,-i,...) for exact enumeration
template <class T>
inline cx alpha3(int k)
{
    if (k == 0) return cx(0);
    if (k == 1) return cx(1);
    if (k == 2) return Sc<T>::cplx ? cx(0, 1) : cx(-1);
    if (k == 3) return Sc<T>::cplx ? cx(-1) : cx(2);
    if (k == 4) return Sc<T>::cplx ? cx(1, -1) : cx(-2);
    return cx(3, Sc<T>::cplx ? 2 : 0);
}
template <class T>
inline cx pickScalar(const char* name, int n)
{
    return alpha3<T>(mc::choose(name, n));
}
/// structured matrix families used by the factorization checks
enum { FAM_GENERIC, FAM_ZERO, FAM_EYE, FAM_RANK1, FAM_GRADED_ROWS, FAM_GRADED_COLS, FAM_ZEROCOL, FAM_REAL, FAM_INT, FAM_HUGE, FAM_TINY, FAM_UPPER, FAM_LOWER, FAM_ONES, FAM_ZEROROW, FAM_IMAG, FAM_COUNT };
template <class T>
inline RM family(int fam, int m, int n, int salt)
{
    typedef typename Sc<T>::real R;
    RM A(m, n);
    LD huge = sqrtl((LD)std::numeric_limits<R>::max()) * 16, tiny = sqrtl((LD)std::numeric_limits<R>::min()) / 16;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            cx g = gen<T>(i, j, salt), v;
            switch (fam) {
                case FAM_GENERIC: v = g; break;
                case FAM_ZERO: v = 0; break;
                case FAM_EYE: v = (i == j) ? 1 : 0; break;
                case FAM_RANK1: v = gint<T>(i, 0, salt) * gint<T>(0, j, salt + 7); break;
                case FAM_GRADED_ROWS: v = cx(powl(4.0L, -(LD)(i % 40))) * g; break;
                case FAM_GRADED_COLS: v = cx(powl(4.0L, (LD)(j % 40) - (n < 40 ? n : 40))) * g; break;
                case FAM_ZEROCOL: v = (j == n / 2) ? cx(0) : g; break;
                case FAM_REAL: v = cx(g.re); break;
                case FAM_INT: v = gint<T>(i, j, salt); break;
                case FAM_HUGE: v = cx(huge) * g; break;
                case FAM_TINY: v = cx(tiny) * g; break;
                case FAM_UPPER: v = (i <= j) ? g : cx(0); break;
                case FAM_LOWER: v = (i >= j) ? g : cx(0); break;
                case FAM_ONES: v = 1; break;
                case FAM_ZEROROW: v = (i == m / 2 || i == 0) ? cx(0) : g; break;
                case FAM_IMAG: v = Sc<T>::cplx ? cx(0, g.re) : cx(g.re); break;
            }
            A(i, j) = up(mk<T>(v));
        }
    return A;
}

/// componentwise comparison |got-ref| <= tol*scale
inline void cmpElt(cx got, cx ref, LD bound, const char* key, const char* what, int i, int j)
{
    mc::E().checks++;
    LD d = std::max(fabsl(got.re - ref.re), fabsl(got.im - ref.im));
    if (!(d <= bound))
        mc::fail(key, "%s(%d,%d): got (%Lg,%Lg) expected (%Lg,%Lg) err %.3Lg > tol %.3Lg", what, i, j, got.re, got.im, ref.re, ref.im, d, bound);
}
/// residual check: res <= bound
inline void small(LD res, LD bound, const char* key, const char* what)
{
    mc::E().checks++;
    if (!(res <= bound)) mc::fail(key, "%s: residual %.4Lg exceeds %.4Lg", what, res, bound);
}

#ifndef MC_T
#define MC_T double
#endif
#ifndef MC_L
#define MC_L ColMajor
#endif
#ifndef MC_IMPLEMENTATION_TYPES_OFF
typedef MC_T T;
typedef Sc<T>::real R;
static constexpr tl::Layout LAY = tl::Layout::MC_L;
static constexpr bool CPLX = Sc<T>::cplx;
typedef GM<T, LAY> Mat;
typedef GM<R, LAY> MatR;
typedef GV<T> Vec;
typedef GV<R> VecR;
typedef tl::LegacyMatrix<T, size_t, LAY> View;
static const LD EPS = epsOf<T>();
#endif
