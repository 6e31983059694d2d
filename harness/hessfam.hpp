// Shared Hessenberg families (C14, C15).
#pragma once
#include "refl.hpp"
static cx hv(int k)
{
    switch (k) {
        case 0: return 0;
        case 1: return 1;
        case 2: return CPLX ? cx(0, 1) : cx(-1);
        case 3: return CPLX ? cx(-1, 0) : cx(2);
        case 4: return cx((LD)(R)sqrtl(EPS));
        case 5: return CPLX ? cx(2, -1) : cx(-3);
        case 6: return cx((LD)(R)(EPS * EPS));
        default: return CPLX ? cx(1, 1) : cx(0.5L);
    }
}
enum { HF = 31 };
static RM hess(int fam, int n)
{
    RM A;
    if (fam < FAM_COUNT) A = family<T>(fam, n, n, 80);
    else {
        A = RM(n, n);
        LD big = (LD)std::numeric_limits<R>::max() * EPS / (n + 1);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                if (i > j + 1) continue;
                cx g = gen<T>(i, j, 81), v;
                switch (fam - FAM_COUNT) {
                    case 0: v = (i == j + 1) ? 1 : (i == 0 && j == n - 1) ? 1 : 0; break;                        // cyclic permutation
                    case 1: v = (i == j + 1 || (i == 0)) ? cx(1) : cx(0); break;                                   // companion
                    case 2: v = i == j ? 2 : j == i + 1 ? 1 : 0; break;                                            // Jordan block
                    case 3: v = i == j + 1 ? cx(sqrtl(EPS)) : i == j ? 1 : g; break;                               // near-defective
                    case 4: v = i == j + 1 ? ((j % 3 == 1) ? cx(0) : g) : g; break;                                // split
                    case 5: v = i == j + 1 ? cx(EPS * ((j & 1) ? 1 : 4)) : g; break;                               // tiny subdiagonals
                    case 6: v = i == j ? cx(i / 2) : i == j + 1 ? cx((i & 1) ? -1 : 0.001L) : j == i + 1 ? cx((j & 1) ? 1 : 0.5L) : cx(0.1L) * g; break;  // rotations
                    case 7: v = big; break;
                    case 8: v = i == j + 1 ? cx(1) : j == i + 1 ? cx(-1) : cx(0); break;                           // skew
                    case 9: v = i == j + 1 ? cx(1) : j == i + 1 ? cx(1) : i == j ? cx(2) : cx(0); break;           // symmetric
                    case 10: v = i == j + 1 ? cx(1) : cx(0); break;                                                // nilpotent
                    case 11: v = cx(powl(2, -2 * (i % 20)) * powl(2, j % 20)) * g; break;                            // graded by similarity
                    case 12: v = i == j + 1 ? cx(i) : i <= j ? cx((LD)((i + j) % 3) - 1) : cx(0); break;
                    case 14: v = i == j + 1 ? cx(sqrtl(EPS) * (j & 1 ? 0.6L : 0.2L), CPLX ? sqrtl(EPS) * 0.3L : 0) : i == j ? cx(i + 1, CPLX ? 0.5L * (i % 3) : 0) : g; break;  // consecutive small subdiagonals
                    default: v = i == j + 1 ? cx((LD)std::numeric_limits<R>::min() * 4) : g; break;
                }
                A(i, j) = up(mk<T>(v));
            }
    }
    for (int j = 0; j < n; ++j)
        for (int i = j + 2; i < n; ++i) A(i, j) = 0;
    return A;
}
static void isolate(RM& A, int ilo, int ihi)
{
    int n = A.m;
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i)
            if (j < ilo || i >= ihi) A(i, j) = 0;
}
