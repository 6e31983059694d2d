// Reference (80-bit) products of elementary reflectors, independent of larft/larfb/larf.
#pragma once
#include "blasref.hpp"
/// Q := (I - tau v v^H) Q
inline void applyH(RM& Q, const RM& v, cx tau)
{
    for (int j = 0; j < Q.n; ++j) {
        cx s = 0;
        for (int i = 0; i < Q.m; ++i)
            if (v.a[i] != cx(0)) s += cj(v.a[i]) * Q(i, j);
        s = s * tau;
        for (int i = 0; i < Q.m; ++i)
            if (v.a[i] != cx(0)) Q(i, j) -= v.a[i] * s;
    }
}
/// i-th reflector vector stored in V. N = order. k reflectors. Forward: unit at i; Backward: unit at N-k+i.
inline RM reflVec(const RM& V, int i, int k, int N, bool fwd, bool colw)
{
    RM v(N, 1);
    int p = fwd ? i : N - k + i;
    for (int r = 0; r < N; ++r) {
        if (r == p) v.a[r] = 1;
        else if (fwd ? r > p : r < p) v.a[r] = colw ? V(r, i) : cj(V(i, r));
    }
    return v;
}
/// H = H_1 H_2 ... H_k (forward) or H_k ... H_2 H_1 (backward); N x N
inline RM hprod(const RM& V, const std::vector<cx>& tau, int k, int N, bool fwd, bool colw)
{
    RM Q = RM::eye(N);
    if (fwd)
        for (int i = k - 1; i >= 0; --i) applyH(Q, reflVec(V, i, k, N, fwd, colw), tau[i]);
    else
        for (int i = 0; i < k; ++i) applyH(Q, reflVec(V, i, k, N, fwd, colw), tau[i]);
    return Q;
}
inline std::vector<cx> tauOf(const RM& t, int k)
{
    std::vector<cx> r;
    for (int i = 0; i < k; ++i) r.push_back(t.a[i]);
    return r;
}
inline LD colNrm(const RM& A, int j) { return nrmF(sub(A, 0, A.m, j, j + 1)); }
inline LD rowNrm(const RM& A, int i) { return nrmF(sub(A, i, i + 1, 0, A.n)); }
