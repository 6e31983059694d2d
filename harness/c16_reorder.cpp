// C16: reordering of (generalized) Schur forms: all short histories of swaps and moves.
#include "refl.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/lapack/schur_move.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>

struct Blk { int sz; cx p[3]; };  // p: normalised coefficients of det(beta A - alpha B): beta^2, alpha beta, alpha^2

static LD hsh(int a, int b, int c)
{
    unsigned x = a * 7919u + b * 104729u + c * 1299709u + 12345u;
    x ^= x >> 7; x *= 2654435761u; x ^= x >> 15;
    return (LD)((int)(x % 9) - 4);
}
enum { NFAM = 8, NCPL = 4 };
static bool separated(int fam, int cpl) { return (fam == 0 || fam == 4 || fam == 5 || fam == 7) && cpl != 2; }

/// initial Schur form for a list of block sizes
static RM buildT(const std::vector<int>& bs, int fam, int cpl)
{
    int n = 0;
    for (int s : bs) n += s;
    RM Tm(n, n);
    LD q = (LD)(R)sqrtl(EPS);
    int k = 0, i = 0;
    for (int s : bs) {
        LD lam = 0, b = 0, c = 0, im = 0;
        switch (fam) {
            case 0: lam = (k % 2 ? -1 : 1) * (k + 1), b = 2, c = -0.5L * (k + 1), im = k * 0.5L; break;
            case 1: lam = 1, b = 1, c = -1; break;
            case 2: lam = 1 + k * q, b = 1, c = -1, im = k * q; break;
            case 3: lam = k < 2 ? 1 : k, b = 1, c = -EPS; break;
            case 4: lam = ldexpl(1 + (k % 2), (T(0) == T(0) ? 4 : 4) * k), b = lam, c = -2 * lam, im = lam; break;
            case 5: lam = s == 1 ? (k == 0 ? 0 : k) : 0, b = 3 + k, c = -1, im = -k; break;
            case 6: lam = 1 + k * 4 * EPS, b = 1, c = -1 - 8 * k * EPS; break;
            default: lam = -1 - k, b = 4 * q * (k + 1), c = -32 * (k + 1), im = 1; break;  // unbalanced blocks
        }
        if (!CPLX) im = 0;
        Tm(i, i) = cx(lam, im);
        if (s == 2) { Tm(i + 1, i + 1) = lam; Tm(i, i + 1) = b; Tm(i + 1, i) = c; }
        for (int jj = i + s; jj < n; ++jj)
            for (int ii = i; ii < i + s; ++ii) {
                LD h = hsh(ii, jj, 1), g = CPLX ? hsh(ii, jj, 2) : 0;
                LD f = cpl == 0 ? 0 : cpl == 1 ? 1 : cpl == 2 ? 1 / q : q;
                Tm(ii, jj) = cx(f * h, f * g);
            }
        i += s; ++k;
    }
    return Tm;
}
static std::vector<int> patternOf(const RM& S)
{
    std::vector<int> b;
    for (int i = 0; i < S.m;) {
        int s = i + 1 < S.m && S(i + 1, i) != cx(0) ? 2 : 1;
        b.push_back(s);
        i += s;
    }
    return b;
}
static Blk blkOf(const RM& S_, const RM& P_, int i, int s)
{
    LD ns = nrmF(S_), np = nrmF(P_);
    RM S = cx(1 / (ns > 0 ? ns : 1)) * S_, P = cx(1 / (np > 0 ? np : 1)) * P_;
    Blk b;
    b.sz = s;
    if (s == 1) { b.p[0] = S(i, i); b.p[1] = P(i, i); b.p[2] = 0; }
    else {
        b.p[0] = S(i, i) * S(i + 1, i + 1) - S(i, i + 1) * S(i + 1, i);
        b.p[1] = cx(-1) * (S(i, i) * P(i + 1, i + 1) + S(i + 1, i + 1) * P(i, i) - S(i + 1, i) * P(i, i + 1));
        b.p[2] = P(i, i) * P(i + 1, i + 1);
    }
    LD nn = 0;
    for (auto& x : b.p) nn = hypotl(nn, ab(x));
    if (nn > 0) for (auto& x : b.p) x = x / nn;
    return b;
}
static void sameBlk(const Blk& g, const Blk& w, LD tol, int pos)
{
    MC_CHECK(g.sz == w.sz, "block-size", "block %d has size %d, expected %d", pos, g.sz, w.sz);
    if (g.sz != w.sz) throw mc::Prune{};
    LD e = 0;  // sine of the angle between the coefficient vectors
    for (int i = 0; i < 3; ++i)
        for (int j = i + 1; j < 3; ++j) e = std::max(e, ab(g.p[i] * w.p[j] - g.p[j] * w.p[i]));
    small(e, tol, "eigenvalue-order", "eigenvalue of a block differs from the permuted list");
}
/// all compositions of n into 1s and 2s: choose
static std::vector<int> choosePattern(int n)
{
    std::vector<int> b;
    for (int i = 0; i < n;) {
        int s = CPLX || i + 1 >= n ? 1 : 1 + mc::choose("blk", 2);
        b.push_back(s);
        i += s;
    }
    return b;
}
struct Op { bool move; int a, b, c; };
static std::vector<Op> opsOf(const std::vector<int>& bs)
{
    int n = 0;
    std::vector<Op> o;
    std::vector<char> start;
    for (int s : bs) { start.push_back(1); if (s == 2) start.push_back(0); n += s; }
    start.push_back(1);
    for (int n1 = 1; n1 <= 2; ++n1)
        for (int n2 = 1; n2 <= 2; ++n2)
            for (int j = 0; j + n1 + n2 <= n; ++j)
                if (start[j] && start[j + n1] && start[j + n1 + n2] && (!CPLX || (n1 == 1 && n2 == 1))) o.push_back({false, j, n1, n2});
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) o.push_back({true, i, j, 0});
    return o;
}
/// model: apply the operation to the list of block start positions; returns permutation of blocks
static std::vector<int> model(const std::vector<int>& bs, const Op& o, int& ifst, int& ilst)
{
    int nb = bs.size();
    std::vector<int> st(nb), at, id(nb);
    for (int i = 0, p = 0; i < nb; p += bs[i], ++i) { st[i] = p; id[i] = i; for (int k = 0; k < bs[i]; ++k) at.push_back(i); }
    if (o.move) {
        int f = at[o.a], l = at[o.b];
        ifst = st[f];
        id.erase(id.begin() + f);
        id.insert(id.begin() + l, f);
        ilst = 0;
        for (int i = 0; id[i] != f; ++i) ilst += bs[id[i]];
    }
    else {
        int b0 = at[o.a], b1 = at[o.a + o.b], e = o.a + o.b + o.c;
        int b2 = e == (int)at.size() ? nb : at[e];
        std::rotate(id.begin() + b0, id.begin() + b1, id.begin() + b2);
    }
    return id;
}
static RM permQ(int n, int k)
{
    RM Q(n, n);
    for (int i = 0; i < n; ++i) Q((i * 1 + k) % n, i) = (i % 2) ? cx(-1) : (CPLX && i % 3 == 0 ? cx(0, 1) : cx(1));
    return Q;
}
static bool sameBits(const RM& A, const RM& B) { for (size_t i = 0; i < A.a.size(); ++i) if (A.a[i] != B.a[i]) return false; return true; }

static std::vector<int> fixedPattern(int n, int pat)
{
    std::vector<int> b;
    for (int i = 0, k = 0; i < n; ++k) {
        int s = pat == 0 ? 1 : pat == 1 ? 2 : pat == 2 ? 1 + k % 2 : pat == 3 ? 2 - k % 2 : k % 3 ? 1 : 2;
        if (CPLX || i + s > n) s = 1;
        b.push_back(s);
        i += s;
    }
    return b;
}
static void history(bool gen, int n, int depth, int fam, int cpl, int sc, bool wq, bool wz, int bfam, int pat = -1)
{
    std::vector<int> bs = pat >= 0 ? fixedPattern(n, pat) : choosePattern(n);
    RM S0 = cx(ldexpl(1, sc)) * buildT(bs, fam, cpl), P0 = RM::eye(n);
    if (gen) {
        // B: upper triangular, diagonal in 2x2 blocks
        int i = 0, k = 0;
        for (int s : bs) {
            for (int q = i; q < i + s; ++q) {
                P0(q, q) = bfam == 0 ? cx(1) : bfam == 1 || bfam == 4 ? cx(1 + k * 0.5L) : bfam == 2 ? cx(s == 1 && k == 1 ? 0 : 2) : cx(ldexpl(1, -3 * k));
                for (int jj = i + s; jj < n; ++jj) P0(q, jj) = bfam == 0 ? cx(0) : cx(0.25L * hsh(q, jj, 5), CPLX ? 0.5L * hsh(q, jj, 6) : 0);
            }
            if (s == 2 && bfam == 1) {
                LD u = 1 + k * 0.5L, v = 0.5L, aa = S0(i, i).re;
                LD dd = aa * (v - u) * aa * (v - u) + 4 * u * v * S0(i, i + 1).re * S0(i + 1, i).re;
                if (dd < -0.1L * aa * aa) P0(i + 1, i + 1) = v;  // keep the eigenvalues complex
            }
            if (bfam == 3 && s == 1 && k % 2) P0(i, i) = -P0(i, i);
            if (CPLX && bfam == 3) P0(i, i) = P0(i, i) * cx(0, 1);
            i += s; ++k;
        }
        if (bfam == 4) P0 = cx(ldexpl(1, sizeof(R) == 4 ? 20 : 60)) * P0;
    }
    for (auto& x : S0.a) x = up(mk<T>(x));
    bool sep = separated(fam, cpl) && (!gen || bfam <= 1 || bfam == 4);
    bool det = fam == 0 && cpl == 1 && bfam == 0;  // simplest family: histories of full depth
    (void)det;
    mc::body();
    RM Q0 = permQ(n, 1), Z0 = gen ? permQ(n, 2) : Q0;
    LD nS = nrmF(S0), nP = nrmF(P0);
    RM M0 = Q0 * S0 * H(Z0), N0 = Q0 * P0 * H(Z0);
    std::vector<Blk> want;
    { int i = 0; for (int s : bs) want.push_back(blkOf(S0, P0, i, s)), i += s; }
    Mat a(n, n), b(n, n), q(n, n), z(n, n);
    a.set(S0); b.set(P0);
    if (wq) q.set(Q0); else q.fill([](int i, int j) { return cx(777 + i + 8 * j); });
    if (wz) z.set(Z0); else z.fill([](int i, int j) { return cx(777 + i + 8 * j); });
    auto av = a.view(), bv = b.view(), qv = q.view(), zv = z.view();
    RM S = S0, P = P0;
    LD steps = 0;
    for (int d = 0; d < depth; ++d) {
        std::vector<int> cur = patternOf(S);
        std::vector<Op> ops = opsOf(cur);
        if (ops.empty()) return;
        Op o = ops[mc::choose("op", (int)ops.size())];
        mc::addStates(1, 1);
        int ef = 0, el = 0;
        std::vector<int> id = model(cur, o, ef, el);
        RM Sb = a.get(), Pb = b.get(), Qb = q.get(), Zb = z.get();
        q.snap(); z.snap(); a.snap(); b.snap();
        int info;
        size_t ifst = o.a, ilst = o.b;
        if (o.move) {
            info = gen ? tl::generalized_schur_move(wq, wz, av, bv, qv, zv, ifst, ilst) : tl::schur_move(wq, av, qv, ifst, ilst);
            steps += n;
        }
        else {
            info = gen ? tl::generalized_schur_swap(wq, wz, av, bv, qv, zv, (size_t)o.a, (size_t)o.b, (size_t)o.c) : tl::schur_swap(wq, av, qv, (size_t)o.a, (size_t)o.b, (size_t)o.c);
            steps += o.b + o.c > 2 ? 2 : 1;
        }
        a.guards("A"); b.guards("B"); q.guards("Q"); z.guards("Z");
        if (!wq) q.constant("Q");
        if (!wz) z.constant("Z");
        if (!gen) b.constant("B");
        S = a.get(); P = b.get();
        LD tol = 60 * EPS * (n + 2) * (steps + 1);
        MC_CHECK(info == 0 || info == 1, "info", "returned %d", info);
        // structure
        for (int j = 0; j < n; ++j)
            for (int i = j + 1; i < n; ++i) {
                if (gen) MC_CHECK(P(i, j) == cx(0), "B-triangular", "B(%d,%d)=(%Lg,%Lg)", i, j, P(i, j).re, P(i, j).im);
                if (i > j + 1 || CPLX) MC_CHECK(S(i, j) == cx(0), "quasi-triangular", "A(%d,%d)=(%Lg,%Lg)", i, j, S(i, j).re, S(i, j).im);
                else if (j > 0 && S(i, j) != cx(0)) MC_CHECK(S(j, j - 1) == cx(0), "quasi-triangular", "two adjacent subdiagonals at %d", j);
            }
        for (int i = 0; i + 1 < n; ++i)
            if (S(i + 1, i) != cx(0)) {
                if (!gen) MC_CHECK(S(i, i) == S(i + 1, i + 1) && S(i, i + 1).re * S(i + 1, i).re < 0, "standard-block", "2x2 block at %d is not standardised", i);
                else MC_CHECK(P(i, i + 1) == cx(0) && P(i, i).re > 0 && P(i + 1, i + 1).re > 0, "standard-block", "B block at %d is not positive diagonal", i);
            }
        // decomposition
        if (wq) small(orthCols(q.get()), tol, "Q-unitary", "Q");
        if (wz && gen) small(orthCols(z.get()), tol, "Z-unitary", "Z");
        if (wq && (wz || !gen)) {
            RM Q = q.get(), Z = gen ? z.get() : Q;
            small(nrmF(Q * S * H(Z) - M0), tol * nS, "A-decomposition", "Q A Z^H");
            if (gen) small(nrmF(Q * P * H(Z) - N0), tol * nP, "B-decomposition", "Q B Z^H");
        }
        else {
            if (std::isfinite(nrmF(S))) small(fabsl(nrmF(S) - nS), tol * nS, "A-norm", "norm of A");
            else MC_CHECK(false, "A-finite", "A is not finite");
            if (gen) small(fabsl(nrmF(P) - nP), tol * nP, "B-norm", "norm of B");
        }
        if (info == 1 && !o.move) {
            bool same = sameBits(S, Sb) && sameBits(P, Pb) && (!wq || sameBits(q.get(), Qb)) && (!gen || !wz || sameBits(z.get(), Zb));
            bool nested = (o.b == 2 && Sb(o.a + 1, o.a) == cx(0)) || (o.c == 2 && Sb(o.a + o.b + 1, o.a + o.b) == cx(0));
            MC_CHECK(same || nested, "failed-swap", "a failed swap changed the decomposition");
        }
        if (info == 1) MC_CHECK(!sep, "swap-failed", "swap of well separated blocks was refused");
        if (!sep) continue;
        // permuted eigenvalues
        if (info == 0) {
            if (o.move) MC_CHECK((int)ifst == ef && (int)ilst == el, "ifst-ilst", "ifst=%d ilst=%d, expected %d %d", (int)ifst, (int)ilst, ef, el);
            std::vector<Blk> w2;
            for (int k : id) w2.push_back(want[k]);
            want = w2;
            int i = 0, k = 0;
            std::vector<int> now = patternOf(S);
            MC_CHECK(now.size() == want.size(), "block-count", "%d blocks, expected %d", (int)now.size(), (int)want.size());
            if (now.size() != want.size()) throw mc::Prune{};
            LD et = 2000 * tol;
            for (int s : now) { sameBlk(blkOf(S, P, i, s), want[k], et, k); i += s; ++k; }
        }
    }
    mc::mix(patternOf(S).size());
    mixRM(S);
}
static int chooseFam() { return mc::choose("family", NFAM); }

MC_HARNESS(schur_histories)
{
    int n = mc::range("n", 1, mc::thorough() ? 6 : 5);
    int fam = chooseFam();
    int cpl = mc::choose("coupling", NCPL);
    static const int scs[3] = {0, sizeof(R) == 4 ? -60 : -400, sizeof(R) == 4 ? 60 : 400};
    int sc = scs[mc::choose("scale", 3)];
    if (sc && n > 4) throw mc::Prune{};
    int depth = n <= 4 ? (mc::thorough() ? 3 : 2) : n == 5 ? 2 : mc::thorough() ? 2 : 1;
    if (!mc::thorough() && n == 5 && (fam + cpl) % 2) depth = 1;
    if (n == 4 && depth == 3 && (sc || cpl == 3)) depth = 2;
    if (n == 6 && (fam + cpl) % 2) depth = 1;
    history(false, n, depth, fam, cpl, sc, true, true, 0);
}
MC_HARNESS(schur_noq)
{
    int n = mc::range("n", 2, 5);
    int fam = chooseFam();
    history(false, n, 1, fam, mc::choose("coupling", NCPL), 0, false, true, 0);
}
MC_HARNESS(gen_histories)
{
    int n = mc::range("n", 1, mc::thorough() ? 6 : 5);
    int fam = chooseFam();
    int cpl = mc::choose("coupling", NCPL);
    int bf = mc::choose("bfam", 5);
    int depth = n <= 3 ? (mc::thorough() ? 3 : 2) : n == 4 ? 2 : n == 5 ? (mc::thorough() ? 2 : 1) : 1;
    if (n == 5 && depth == 2 && (fam + cpl + bf) % 2) depth = 1;
    if (!mc::thorough() && n == 4 && (fam + cpl + bf) % 2) depth = 1;
    history(true, n, depth, fam, cpl, 0, true, true, bf);
}
MC_HARNESS(gen_noqz)
{
    int n = mc::range("n", 2, 5);
    int fam = chooseFam();
    int w = mc::choose("want", 3);
    history(true, n, 1, fam, mc::choose("coupling", NCPL), 0, w == 1, w == 2, mc::choose("bfam", 4));
}
/// one swap or move in larger forms: far rows and columns, long moves
MC_HARNESS(schur_large)
{
    int n = mc::pick<int>("n", {7, 9, 12});
    int pat = mc::choose("pattern", CPLX ? 1 : 5), f = mc::pick<int>("family", {0, 7});
    history(false, n, 1, f, 1, 0, true, true, 0, pat);
}
MC_HARNESS(gen_large)
{
    int n = mc::pick<int>("n", {7, 9});
    int pat = mc::choose("pattern", CPLX ? 1 : 5);
    history(true, n, 1, 0, 1, 0, true, true, mc::pick<int>("bfam", {0, 1}), pat);
}
/// all pairs of adjacent blocks over a value lattice
MC_HARNESS(swap_lattice)
{
    if (CPLX) {
        RM A(2, 2);
        A(0, 0) = alpha3<T>(mc::choose("a", 5)); A(0, 1) = alpha3<T>(mc::choose("a", 5)); A(1, 1) = alpha3<T>(mc::choose("a", 5));
        mc::body();
        Mat a(2, 2), q(2, 2);
        a.set(A); q.set(RM::eye(2));
        auto av = a.view(), qv = q.view();
        MC_CHECK(tl::schur_swap(true, av, qv, (size_t)0, (size_t)1, (size_t)1) == 0, "info", "1x1 swap failed");
        RM S = a.get(), Q = q.get();
        MC_CHECK(S(1, 0) == cx(0) && S(0, 0) == A(1, 1) && S(1, 1) == A(0, 0), "swap11", "diagonal not exchanged");
        small(nrmF(Q * S * H(Q) - A), 20 * EPS * nrmF(A), "A-decomposition", "Q A Q^H");
        small(orthCols(Q), 20 * EPS, "Q-unitary", "Q");
        return;
    }
    int n1 = 1 + mc::choose("n1", 2), n2 = 1 + mc::choose("n2", 2);
    int n = n1 + n2;
    static const LD q = (LD)(R)sqrtl(EPS);
    static const LD bv_[6] = {1, -2, q, 3, 1 / q, EPS}, cv_[6] = {-1, 3, -q, -EPS, 2, -0.5L};
    static const LD dv[7] = {0, 1, -1, 1 + q, 1 + 2 * EPS, 1 / q, q};
    int nv = mc::thorough() ? 6 : 4, nd = mc::thorough() ? 7 : 5, nc = n == 4 ? (mc::thorough() ? 3 : 2) : mc::thorough() ? 5 : 4;
    RM A(n, n);
    A(0, 0) = 1;
    if (n1 == 2) { A(1, 1) = 1; A(0, 1) = bv_[mc::choose("b1", nv)]; LD c = cv_[mc::choose("c1", nv)]; if (c * A(0, 1).re > 0) c = -c; A(1, 0) = c; }
    LD d2 = dv[mc::choose("d2", nd)];
    for (int i = n1; i < n; ++i) A(i, i) = d2;
    if (n2 == 2) { A(n1, n1 + 1) = bv_[mc::choose("b2", nv)]; LD c = cv_[mc::choose("c2", nv)]; if (c * A(n1, n1 + 1).re > 0) c = -c; A(n1 + 1, n1) = c; }
    static const LD cp[5] = {1, 0, 1 / q, q, -2};
    for (int i = 0; i < n1; ++i)
        for (int j = n1; j < n; ++j) A(i, j) = cp[mc::choose("cpl", nc)];
    bool gen = mc::flag("generalized");
    mc::body();
    for (auto& x : A.a) x = up(mk<T>(x));
    Mat a(n, n), b(n, n), qm(n, n), zm(n, n);
    RM B = RM::eye(n);
    if (gen) for (int i = 0; i < n1; ++i) for (int j = n1; j < n; ++j) B(i, j) = i + j == 1 ? 1 : -0.5L;
    a.set(A); b.set(B); qm.set(RM::eye(n)); zm.set(RM::eye(n));
    auto av = a.view(), bv = b.view(), qv = qm.view(), zv = zm.view();
    int info = gen ? tl::generalized_schur_swap(true, true, av, bv, qv, zv, (size_t)0, (size_t)n1, (size_t)n2) : tl::schur_swap(true, av, qv, (size_t)0, (size_t)n1, (size_t)n2);
    a.guards("A"); b.guards("B"); qm.guards("Q"); zm.guards("Z");
    RM S = a.get(), P = b.get(), Q = qm.get(), Z = gen ? zm.get() : Q;
    mc::mix(info);
    if (info) {
        MC_CHECK(n1 == 2 && n2 == 2, "info", "swap of a 1x1 block failed");
        MC_CHECK(sameBits(S, A) && sameBits(P, B) && sameBits(Q, RM::eye(n)), "failed-swap", "a failed swap changed the decomposition");
        return;
    }
    LD tol = 200 * EPS;
    small(nrmF(Q * S * H(Z) - A), tol * nrmF(A), "A-decomposition", "Q A Z^H");
    if (gen) small(nrmF(Q * P * H(Z) - B), tol * nrmF(B), "B-decomposition", "Q B Z^H");
    small(orthCols(Q), tol, "Q-unitary", "Q");
    small(orthCols(Z), tol, "Z-unitary", "Z");
    for (int j = 0; j < n; ++j)
        for (int i = j + 1; i < n; ++i) {
            bool inner = (j == 0 && i == 1 && n2 == 2) || (j == n2 && i == n2 + 1);
            if (gen) MC_CHECK(P(i, j) == cx(0), "B-triangular", "B(%d,%d)", i, j);
            if (!inner) MC_CHECK(S(i, j) == cx(0), "quasi-triangular", "A(%d,%d)=%Lg", i, j, S(i, j).re);
            else if (S(i, j) != cx(0)) {
                if (!gen) MC_CHECK(S(j, j) == S(i, i) && S(j, i).re * S(i, j).re < 0, "standard-block", "block at %d", j);
                else MC_CHECK(P(j, i) == cx(0) && P(j, j).re > 0 && P(i, i).re > 0, "standard-block", "B block at %d", j);
            }
        }
}
MC_MAIN
