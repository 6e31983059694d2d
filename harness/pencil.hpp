// Characteristic polynomial of 2x2 pencils (C15, C28).
#pragma once
#include "refl.hpp"
static void checkCharpoly(const RM& A, const RM& B, cx a1, LD b1, cx a2, LD b2, LD tol, const char* key)
{
    LD nA = nrmMax(A), nB = nrmMax(B);
    if (nA == 0) nA = 1;
    if (nB == 0) nB = 1;
    cx d0 = (A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0)) / (nA * nA);
    cx d1 = cx(-1) * (A(0, 0) * B(1, 1) + A(1, 1) * B(0, 0) - A(1, 0) * B(0, 1)) / (nA * nB);
    cx d2 = B(0, 0) * B(1, 1) / (nB * nB);
    MC_CHECK(fin(a1) && fin(a2) && std::isfinite(b1) && std::isfinite(b2), key, "alpha/beta not finite");
    a1 = a1 / nA; a2 = a2 / nA; b1 /= nB; b2 /= nB;
    LD n1 = hypotl(ab(a1), b1), n2 = hypotl(ab(a2), b2);
    if (n1 == 0 || n2 == 0) {  // 0/0 eigenvalue: the pencil is (numerically) singular
        small(std::max({ab(d0), ab(d1), ab(d2)}), tol, key, "0/0 eigenvalue of a regular pencil");
        return;
    }
    a1 = a1 / n1; b1 /= n1; a2 = a2 / n2; b2 /= n2;
    cx q[3] = {a1 * a2, cx(-1) * (cx(b2) * a1 + cx(b1) * a2), cx(b1 * b2)}, p[3] = {d0, d1, d2};
    cx num = 0;
    LD den = 0;
    for (int k = 0; k < 3; ++k) num += p[k] * cj(q[k]), den += ab(q[k]) * ab(q[k]);
    if (den == 0) den = 1;
    cx c = num / den;
    LD e = 0;
    for (int k = 0; k < 3; ++k) e = std::max(e, ab(p[k] - c * q[k]));
    if (e > tol && ab(a1 * b2 - a2 * b1) < 16 * sqrtl(tol)) {
        // nearly double eigenvalue: each root is only determined to the square root of the
        // precision, so the polynomial must vanish at each root separately
        e = std::max(ab(p[0] * b1 * b1 + p[1] * a1 * b1 + p[2] * a1 * a1), ab(p[0] * b2 * b2 + p[1] * a2 * b2 + p[2] * a2 * a2));
    }
    small(e, tol, key, "characteristic polynomial of the pencil");
}
