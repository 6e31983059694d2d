// C26: every Tikhonov-regularised least squares variant returns the minimiser.
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/trsm.hpp>
#include "blasref.hpp"
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/tkhnv.hpp>

using namespace tlapack;
static LD colNorm(const RM& A, int j)
{
    LD mx = 0;
    for (int i = 0; i < A.m; ++i) {
        if (!fin(A(i, j))) return std::numeric_limits<LD>::infinity();
        mx = std::max(mx, ab1(A(i, j)));
    }
    if (mx == 0) return 0;
    LD s = 0;
    for (int i = 0; i < A.m; ++i) { LD t = ab(A(i, j)) / mx; s += t * t; }
    return mx * sqrtl(s);
}
static const char* vn[] = {"qr", "elden", "svd"};
static void check(const RM& A, const RM& Bm, LD lam, int var)
{
    int m = A.m, n = A.n, k = Bm.n;
    Mat Am(m, n), B(m, k);
    Am.set(A);
    B.set(Bm);
    auto a = Am.view();
    auto b = B.view();
    TikOpts o(var == 0 ? TikVariant::QR : var == 1 ? TikVariant::Elden : TikVariant::SVD);
    if (mc::E().replaying) fprintf(stderr, "m=%d n=%d k=%d lambda=%Lg\n", m, n, k, lam);
    tkhnv(a, b, (R)lam, o);
    Am.guards("A");
    B.guards("b");
    RM X = sub(B.get(), 0, n, 0, k);
    LD nA = nrmF(A), nT = hypotl(nA, lam);
    RM Rs = Bm - A * X;
    RM G = H(A) * Rs - cx(lam * lam) * X;  // half the negative gradient
    for (int j = 0; j < k; ++j) {
        LD nx = colNorm(X, j), nb = colNorm(Bm, j), nr = colNorm(Rs, j), g = colNorm(G, j);
        LD C = 20 * (m + n + 4) * EPS;
        LD bound;
        // row-wise backward error for the variants that keep the regularisation rows apart; QR is normwise on the stacked matrix
        if (var == 0) bound = C * nT * (hypotl(nr, lam * nx) + nT * nx + nb);
        else bound = C * (nA * (nr + nA * nx + nb) + lam * lam * nx + lam * nA * nx);
        bound += 1e3L * (LD)std::numeric_limits<R>::denorm_min() * (nT * nT + nT);
        if (!(g <= bound)) mc::fail(vn[var], "column %d: gradient %Lg exceeds %Lg (|A|=%Lg |x|=%Lg |b|=%Lg |r|=%Lg lambda=%Lg)", j, g, bound, nA, nx, nb, nr, lam);
        mc::E().checks++;
    }
    mixRM(X);
}
static LD pickLambda(LD scale)
{
    int k = mc::choose("lambda", 6);
    static const LD l[] = {0, 1, 0.01L, 1e-5L, 30, 1e4L};
    return (LD)(R)(l[k] * scale);
}
/// well conditioned full column rank matrices with different structure
static RM fam(int f, int m, int n)
{
    RM A(m, n);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            cx g = gen<T>(i, j, 31);
            cx v = 0;
            switch (f) {
                case 0: v = g; break;
                case 1: v = (i == j) ? cx(1) : cx(0); break;
                case 2: v = (i == j) ? cx(3) + g : (i > j && i < j + 3) ? g : cx(0); break;
                case 3: v = (i == (j + 1) % m) ? (CPLX ? cx(0, 2) : cx(-2)) : cx(0); break;
                case 4: v = (i <= j) ? (i == j ? cx(2) : g) : cx(0); break;
                case 5: v = cx(powl(0.5L, j)) * g; break;
                case 6: v = (i == j ? cx(4) : cx(0)) + cx(1); break;
                case 7: v = cx(g.re); break;
            }
            A(i, j) = up(mk<T>(v));
        }
    return A;
}
static RM rhs(int f, int m, int k)
{
    RM B(m, k);
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < k; ++j) B(i, j) = f == 0 ? gen<T>(i, j, 77) : f == 1 ? cx(i == j ? 1 : 0) : f == 2 ? cx(0) : cx(i == m - 1 ? 1 : 0, CPLX && j == 0 ? 1 : 0);
    return B;
}
MC_HARNESS(small)
{
    int var = mc::choose("variant", 3), n = mc::range("n", 0, mc::thorough() ? 8 : 6), m = mc::range("m", n, mc::thorough() ? 10 : 8), k = mc::range("nrhs", 0, mc::thorough() ? 4 : 3), f = mc::choose("fam", 8), q = mc::choose("rhs", 4);
    LD lam = pickLambda(1);
    mc::body();
    check(fam(f, m, n), rhs(q, m, k), lam, var);
}
MC_HARNESS(scaled)
{
    int var = mc::choose("variant", 3), n = mc::range("n", 1, 3), m = mc::range("m", n, 4), f = mc::choose("fam", 8), sc = mc::choose("scale", 6);
    LD mx = (LD)std::numeric_limits<R>::max(), mn = (LD)std::numeric_limits<R>::min();
    LD s = sc == 0 ? sqrtl(mn) / 64 : sc == 1 ? sqrtl(mx) * 64 : sc == 2 ? sqrtl(sqrtl(mn)) : sc == 3 ? sqrtl(sqrtl(mx)) : sc == 4 ? mn * 1e6L / EPS : mx * 1e-6L * EPS;
    LD lam = pickLambda(s);
    int bs = mc::choose("bscale", 2);
    mc::body();
    RM A = fam(f, m, n), B = rhs(0, m, 2);
    for (auto& x : A.a) x = up(mk<T>(cx(s) * x));
    if (bs)
        for (auto& x : B.a) x = up(mk<T>(cx(s) * x));
    LD nb = nrmMax(B);
    if (nb / (s * 1e-3L) > mx * 1e-3L) throw mc::Prune{};  // solution not representable
    check(A, B, lam, var);
}
/// every matrix over an alphabet; full column rank is decided exactly by a pivoted elimination
MC_HARNESS(alphabet)
{
    int var = mc::choose("variant", 3), sh = mc::choose("shape", mc::thorough() ? 5 : 4);
    static const int ms[] = {1, 2, 3, 2, 3}, ns[] = {1, 1, 1, 2, 2};
    int m = ms[sh], n = ns[sh];
    int li = mc::choose("lam", 3);
    LD lam = li == 0 ? 0 : li == 1 ? 1 : 0.125L;
    RM A(m, n);
    for (auto& x : A.a) x = pickScalar<T>("a", 5);
    if (lam == 0) {  // rank
        RM G = H(A) * A;
        cx det = n == 1 ? G(0, 0) : G(0, 0) * G(1, 1) - G(0, 1) * G(1, 0);
        if (ab(det) < 0.5L) throw mc::Prune{};
    }
    mc::body();
    check(A, rhs(0, m, 2), lam, var);
}
MC_HARNESS(large)
{
    int var = mc::choose("variant", 3), n = mc::pick("n", {1, 12, 31, 32, 33, 40, 65}), m = n + mc::pick("extra", {0, 1, 7, 33}), k = mc::pick("nrhs", {1, 2, 5, 33, 40}), f = mc::choose("fam", 8);
    if (!mc::thorough() && (f == 1 || f == 3 || f == 6 || f == 7)) throw mc::Prune{};
    if (!mc::thorough() && n > 40 && k != 33) throw mc::Prune{};
    LD lam = pickLambda(1);
    mc::body();
    check(fam(f, m, n), rhs(0, m, k), lam, var);
}
MC_MAIN
