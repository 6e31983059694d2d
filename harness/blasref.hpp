// Definitions of the BLAS operations on reference matrices.
#pragma once
#include "mat.hpp"
inline RM Abs(const RM& A)
{
    RM B = A;
    for (auto& x : B.a) x = cx(ab1(x));
    return B;
}
inline RM opM(const RM& A, tl::Op op)
{
    switch (op) {
        case tl::Op::NoTrans: return A;
        case tl::Op::Trans: return Tr(A);
        case tl::Op::ConjTrans: return H(A);
        default: return Cj(A);
    }
}
/// symmetric / Hermitian matrix described by one triangle
inline RM symFrom(const RM& A, tl::Uplo u, bool herm)
{
    RM S = A;
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) {
            bool stored = (u == tl::Uplo::Upper) ? i <= j : i >= j;
            if (!stored) S(i, j) = herm ? cj(A(j, i)) : A(j, i);
            if (i == j && herm) S(i, j).im = 0;
        }
    return S;
}
/// triangular matrix described by (uplo, diag)
inline RM triFrom(const RM& A, tl::Uplo u, tl::Diag d)
{
    RM S = A;
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) {
            bool stored = (u == tl::Uplo::Upper) ? i <= j : i >= j;
            if (!stored) S(i, j) = 0;
            if (i == j && d == tl::Diag::Unit) S(i, j) = 1;
        }
    return S;
}
inline bool inTri(tl::Uplo u, int i, int j)
{
    switch (u) {
        case tl::Uplo::Upper: return i <= j;
        case tl::Uplo::Lower: return i >= j;
        case tl::Uplo::StrictUpper: return i < j;
        case tl::Uplo::StrictLower: return i > j;
        case tl::Uplo::UpperHessenberg: return i <= j + 1;
        case tl::Uplo::LowerHessenberg: return i + 1 >= j;
        default: return true;
    }
}
inline tl::Op pickOp(const char* n, std::initializer_list<tl::Op> l) { return mc::pick(n, l); }
inline tl::Uplo pickUplo(const char* n = "uplo") { return mc::pick(n, {tl::Uplo::Upper, tl::Uplo::Lower}); }
inline tl::Diag pickDiag() { return mc::pick("diag", {tl::Diag::NonUnit, tl::Diag::Unit}); }
inline tl::Side pickSide() { return mc::pick("side", {tl::Side::Left, tl::Side::Right}); }

/// fills only the referenced part of a square operand; the rest stays NaN (poison)
template <class M, class F>
inline void fillTri(M& A, tl::Uplo u, tl::Diag d, bool hermDiagPoison, F f)
{
    typedef std::decay_t<decltype(A(0, 0))> S;
    for (int i = 0; i < A.m; ++i)
        for (int j = 0; j < A.n; ++j) {
            if (!inTri(u, i, j)) continue;
            if (i == j && d == tl::Diag::Unit) continue;
            cx v = f(i, j);
            if (i == j && hermDiagPoison) v.im = std::numeric_limits<LD>::quiet_NaN();
            A(i, j) = mk<S>(v);
        }
    A.snap();
}

// ---- length sweeps --------------------------------------------------------------------------------------
// Besides the small shapes that are crossed with every option value, each dimension runs alone through every length, and all
// dimensions together through every square/cube size: a loop with any unrolling factor or block size up to the bound meets all
// of its remainders. During a sweep the scalars are fixed (generic alpha and beta).
struct Sweep { static bool& on() { static bool b; return b; } };
static inline int chooseS(const char* k, int n) { return Sweep::on() ? 0 : mc::choose(k, n); }
static inline int sweepLen(bool all)
{
    int hi = all ? (mc::thorough() ? 90 : 20) : mc::thorough() ? 300 : 68;
    static const int far1[] = {100, 127, 128, 129, 131, 255, 257, 258}, farA[] = {31, 33, 35, 65};
    const int* far = all ? farA : far1;
    int nf = mc::thorough() ? 0 : all ? 4 : 8;
    int c = mc::choose("len", hi - 3 + nf);
    return c < hi - 3 ? 4 + c : far[c - (hi - 3)];
}
/// chooses whether the dimensions (count of them: 1..3) are swept; if so fills d[] and returns true
static inline bool sweepDims(int* d, int count)
{
    Sweep::on() = mc::flag("sweep");
    if (!Sweep::on()) return false;
    static const int base[] = {3, 2, 5};
    int axis = count == 1 ? 0 : mc::choose("axis", count + 1);
    int l = sweepLen(axis == count);
    for (int i = 0; i < count; ++i) d[i] = axis == count || axis == i ? l : base[i];
    return true;
}
