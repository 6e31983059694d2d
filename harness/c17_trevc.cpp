// C17: eigenvectors of (quasi-)triangular matrices: trevc, trevc3 for every side, mode, selection and blocking.
#include "refl.hpp"
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/trevc3.hpp>

static LD hsh(int a, int b, int c)
{
    unsigned x = a * 7919u + b * 104729u + c * 1299709u + 4321u;
    x ^= x >> 7; x *= 2654435761u; x ^= x >> 15;
    return (LD)((int)(x % 9) - 4);
}
enum { RIGHT, LEFT, BOTH };
enum { ALL, BACKORTH, BACKANY, SELECT };

struct Eig { int k, sz; cx w; };  // first index, number of columns, eigenvalue with imag > 0 for a pair
static std::vector<Eig> eigs(const RM& A)
{
    std::vector<Eig> v;
    for (int i = 0; i < A.m;) {
        if (i + 1 < A.m && A(i + 1, i) != cx(0)) {
            v.push_back({i, 2, cx(A(i, i).re, sqrtl(fabsl(A(i, i + 1).re)) * sqrtl(fabsl(A(i + 1, i).re)))});
            i += 2;
        }
        else { v.push_back({i, 1, A(i, i)}); ++i; }
    }
    return v;
}
/// orthogonal (unitary) basis: product of two reflectors
static RM basis(int n)
{
    RM Q = RM::eye(n);
    for (int s = 0; s < 2; ++s) {
        RM v(n, 1);
        LD q = 0;
        for (int i = 0; i < n; ++i) { v.a[i] = gen<T>(i, s, 91); q += ab(v.a[i]) * ab(v.a[i]); }
        if (q > 0) applyH(Q, v, cx(2 / q));
    }
    for (auto& x : Q.a) x = up(mk<T>(x));
    return Q;
}
static void residual(const RM& A, LD na, const RM& V, int c, const Eig& e, bool left, const char* nm)
{
    int n = A.m;
    RM x(n, 1);
    LD mx = 0;
    for (int p = 0; p < e.sz; ++p)
        for (int i = 0; i < n; ++i) {
            MC_CHECK(fin(V(i, c + p)), "non-finite", "%s: entry (%d,%d) of the eigenvector for eigenvalue %d is not finite", nm, i, c + p, e.k);
            if (!fin(V(i, c + p))) throw mc::Prune{};
        }
    for (int i = 0; i < n; ++i) {
        x.a[i] = e.sz == 1 ? V(i, c) : cx(V(i, c).re, V(i, c + 1).re);
        mx = std::max(mx, std::max(fabsl(x.a[i].re), fabsl(x.a[i].im)));
    }
    MC_CHECK(mx > 0, "zero-vector", "%s: eigenvector %d is zero", nm, e.k);
    if (!(mx > 0)) throw mc::Prune{};
    for (auto& v : x.a) v = cx(v.re / mx, v.im / mx);
    // scale the matrix too, so that the residual is computed without overflow
    LD sc = na > 0 ? na : 1;
    LD res = 0;
    for (int i = 0; i < n; ++i) {
        cx r = -((left ? cj(e.w) : e.w) * x.a[i]);
        r = cx(r.re / sc, r.im / sc);
        for (int j = 0; j < n; ++j) {
            cx t = left ? cj(A(j, i)) : A(i, j);
            if (t != cx(0)) r += cx(t.re / sc, t.im / sc) * x.a[j];
        }
        res = std::max(res, ab(r));
    }
    LD tiny = (LD)std::numeric_limits<R>::min();
    small(res, 10 * (n + 2) * EPS + 8 * tiny / sc, left ? "left-equation" : "right-equation", nm);
}
struct Cfg { int side, mode; bool blk; tl::Trevc3Opts o; std::vector<int> sel; int extra; };

static void run(const RM& A0, const Cfg& c)
{
    using namespace tl;
    int n = A0.m;
    RM A = A0;
    auto es = eigs(A);
    LD na = nrmMax(A);
    // columns requested
    std::vector<Eig> want;
    int m = 0;
    for (auto& e : es) {
        bool s = c.mode != SELECT || c.sel[e.k] || (e.sz == 2 && c.sel[e.k + 1]);
        if (s) { want.push_back(e); m += e.sz; }
    }
    int nc = m + c.extra;
    Mat At(n, n), Vl(n, nc), Vr(n, nc), X(n, n), Y(n, n);
    At.set(A);
    std::vector<int> sel(c.sel.begin(), c.sel.end());
    if ((int)sel.size() != n) sel.assign(n, 0);
    std::vector<int> sel0 = sel;
    RM Q;
    if (c.mode == BACKORTH) Q = basis(n);
    if (c.mode == BACKANY) {
        Q = RM(n, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) Q(i, j) = gint<T>(i, j, 93);
    }
    if (c.mode == BACKORTH || c.mode == BACKANY)
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                if (c.side != LEFT) Vr(i, j) = mk<T>(Q(i, j));
                if (c.side != RIGHT) Vl(i, j) = mk<T>(Q(i, j));
            }
    Vl.snap(); Vr.snap();
    auto vT = At.view(), vl = Vl.view(), vr = Vr.view();
    tl::Side side = c.side == RIGHT ? tl::Side::Right : c.side == LEFT ? tl::Side::Left : tl::Side::Both;
    auto call = [&](HowMny how, View& l, View& r) {
        VecR rw(n);
        auto vrw = rw.fview();
        if (!c.blk) {
            Vec wk(3 * n);
            auto vw = wk.fview();
            tl::trevc(side, how, sel, vT, l, r, vrw, vw);
            wk.guards("work");
        }
        else {
            WorkInfo wi = trevc3_worksize(side, how, sel, vT, l, r, c.o);
            Vec wk((int)(wi.m * wi.n));
            auto vw = wk.fview();
            tl::trevc3_work(side, how, sel, vT, l, r, vrw, vw, c.o);
            wk.guards("work");
        }
        rw.guards("rwork");
    };
    call(c.mode == ALL ? HowMny::All : c.mode == SELECT ? HowMny::Select : HowMny::Back, vl, vr);
    At.constant("T");
    Vl.unchangedExcept([&](int, int j) { return c.side != RIGHT && j < m; }, "footprint", "Vl");
    Vr.unchangedExcept([&](int, int j) { return c.side != LEFT && j < m; }, "footprint", "Vr");
    if (c.mode == SELECT) {
        for (auto& e : es) {
            bool w = sel0[e.k] || (e.sz == 2 && sel0[e.k + 1]);
            bool g = sel[e.k] || (e.sz == 2 && sel[e.k + 1]);
            MC_CHECK(w == g, "select", "select for eigenvalue %d changed from %d to %d", e.k, (int)w, (int)g);
        }
    }
    else
        MC_CHECK(sel == sel0, "select", "select modified although not referenced");
    RM gl = Vl.get(), gr = Vr.get();
    // reference All run (same code) for Back / Select comparison
    RM xr, xl;
    bool cmp = c.mode == BACKANY || c.mode == BACKORTH || (c.mode == SELECT && !c.blk);
    if (cmp) {
        auto vx = X.view(), vy = Y.view();
        std::vector<int> keep = sel;
        call(HowMny::All, vy, vx);
        xr = X.get(); xl = Y.get();
    }
    for (int s = 0; s < 2; ++s) {
        bool left = s == 1;
        if (left ? c.side == RIGHT : c.side == LEFT) continue;
        const char* nm = left ? "left" : "right";
        RM V = sub(left ? gl : gr, 0, n, 0, m);
        mixRM(V);
        const RM& F = left ? xl : xr;
        int col = 0;
        for (auto& e : want) {
            if (c.mode == BACKORTH) {
                // undo the basis, then it must be an eigenvector of T
                RM z = H(Q) * sub(V, 0, n, col, col + e.sz);
                residual(A, na, z, 0, e, left, nm);
            }
            else if (c.mode != BACKANY) {
                residual(A, na, V, col, e, left, nm);
                for (int p = 0; p < e.sz; ++p)
                    for (int i = 0; i < n; ++i)
                        if (left ? i < e.k : i > e.k + e.sz - 1) MC_CHECK(V(i, col + p) == cx(0), "trailing-zeros", "%s vector %d has entry %d", nm, e.k, i);
            }
            if (cmp)
                for (int p = 0; p < e.sz; ++p) {
                    RM f = sub(F, 0, n, e.k + p, e.k + p + 1);
                    RM ex = c.mode == SELECT ? f : Q * f;
                    LD nf = nrmMax(f);
                    LD q = c.mode == SELECT ? 0 : 8 * (n + 1) * (c.mode == BACKANY ? 4 : 1) * EPS * nf;
                    for (int i = 0; i < n; ++i) cmpElt(V(i, col + p), ex.a[i], q, c.mode == SELECT ? "select-vs-all" : "back-vs-all", nm, i, col + p);
                }
            col += e.sz;
        }
    }
}
static void chooseBlock(Cfg& c, std::initializer_list<int> bs, std::initializer_list<int> bss)
{
    c.blk = mc::flag("blocked");
    if (c.blk) {
        c.o.block_size = mc::pick<int>("bs", bs);
        c.o.block_size_solve = mc::pick<int>("bss", bss);
    }
    c.extra = 0;
}
/// every quasi-triangular matrix over a small alphabet
static RM chooseT(int n, int nd, int no, int nb)
{
    RM A(n, n);
    for (int i = 0; i < n;) {
        int s = CPLX || i + 1 >= n ? 1 : 1 + mc::choose("blk", 2);
        int d = mc::choose("d", nd);
        cx v = d == 0 ? cx(1) : d == 1 ? cx(0) : d == 2 ? (CPLX ? cx(0, -2) : cx(-2)) : d == 3 ? cx(1 + 4 * EPS) : cx(3);
        A(i, i) = v;
        if (s == 2) {
            A(i + 1, i + 1) = v;
            int b = mc::choose("b", nb);
            static const LD bc[4][2] = {{1, -1}, {-0.5L, 2}, {8, -0.125L}, {-3, 0.0625L}};
            A(i, i + 1) = bc[b][0]; A(i + 1, i) = bc[b][1];
        }
        i += s;
    }
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < j; ++i) {
            if (j == i + 1 && A(j, i) != cx(0)) continue;
            int o = mc::choose("o", no);
            A(i, j) = o == 0 ? cx(0) : o == 1 ? (CPLX ? cx(1, 2) : cx(1)) : o == 2 ? cx(-3) : cx(0.25L);
        }
    return A;
}
MC_HARNESS(trevc_small)
{
    int n = mc::range("n", 0, 3);
    Cfg c;
    bool th = mc::thorough();
    RM A = chooseT(n, th ? 5 : 4, th ? 3 : 2, th ? 4 : 3);
    c.side = mc::choose("side", 3);
    c.mode = mc::choose("mode", 4);
    if (c.mode == SELECT) {
        int s = mc::choose("sel", 1 << n);
        for (int i = 0; i < n; ++i) c.sel.push_back((s >> i) & 1);
    }
    chooseBlock(c, {1, 2, 64}, {1, 2, 64});
    if (c.mode == ALL || c.mode == SELECT) c.extra = c.side == BOTH;
    mc::body();
    run(A, c);
}
MC_HARNESS(trevc_four)
{
    int n = 4;
    Cfg c;
    bool th = mc::thorough();
    RM A = chooseT(n, th ? 4 : 3, 2, th ? 3 : 2);
    c.side = BOTH;
    c.mode = mc::choose("mode", 4);
    if (c.mode == SELECT) {
        int s = mc::choose("sel", 1 << n);
        for (int i = 0; i < n; ++i) c.sel.push_back((s >> i) & 1);
    }
    c.blk = mc::flag("blocked");
    if (c.blk) {
        if (c.mode == SELECT) { c.o.block_size = mc::pick<int>("bs", {1, 2, 3}); c.o.block_size_solve = 1; }
        else { c.o.block_size = mc::pick<int>("bs", {1, 2}); c.o.block_size_solve = mc::pick<int>("bss", {1, 3}); }
    }
    c.extra = 0;
    mc::body();
    run(A, c);
}
/// structured families at larger orders; every block boundary relation
static RM familyT(int n, int pat, int fam, LD scale)
{
    RM A(n, n);
    LD q = (LD)(R)sqrtl(EPS);
    for (int i = 0, k = 0; i < n; ++k) {
        int s = 1;
        if (!CPLX && i + 1 < n) s = pat == 0 ? 1 : pat == 1 ? 2 : pat == 2 ? 1 + k % 2 : pat == 3 ? (i > 0 ? 2 : 1) : 1 + (hsh(k, 5, pat) > 0);
        LD lam, b = 1, cc = -1;
        switch (fam) {
            case 0: lam = (k % 2 ? -1 : 1) * (LD)(k + 1), b = 2, cc = -0.5L * (k + 1); break;      // distinct
            case 1: lam = k / 2, b = 1 + k / 2, cc = -1; break;                                      // pairwise equal
            case 2: lam = 1 + k * q, b = 1 + k * q, cc = -1; break;                                  // clustered
            case 3: lam = powl(2, -(k % 20)), b = lam, cc = -lam * 4; break;                        // graded
            case 4: lam = k % 3 ? k : 0, b = 1 + k, cc = -0.25L; break;                              // repeated zero
            default: lam = k, b = 16, cc = -powl(2, -(k % 9)); break;                              // unbalanced pairs
        }
        A(i, i) = CPLX ? cx(lam, fam == 1 ? 0 : (LD)(k % 4)) : cx(lam);
        if (s == 2) { A(i + 1, i + 1) = lam; A(i, i + 1) = b; A(i + 1, i) = cc; }
        for (int jj = i + s; jj < n; ++jj)
            for (int ii = i; ii < i + s; ++ii) {
                LD f = fam == 2 ? q * 0.25L : fam == 1 || fam == 4 ? 1.0L / (1 + jj - ii) / (1 + jj - ii) : fam == 3 ? powl(2, -(jj % 20) - 2) : 0.5L / (1 + jj - ii);
                A(ii, jj) = cx(f * hsh(ii, jj, 1), CPLX ? f * hsh(ii, jj, 2) : 0);
            }
        i += s;
    }
    for (auto& x : A.a) x = up(mk<T>(cx(scale) * x));
    return A;
}
MC_HARNESS(trevc_families)
{
    bool th = mc::thorough();
    Cfg c;
    int n = th ? mc::pick<int>("n", {5, 6, 7, 9, 12, 33, 64, 65, 66, 70, 131}) : mc::pick<int>("n", {5, 7, 12, 66, 70});
    int pat = CPLX ? 0 : mc::choose("pattern", 5);
    int fam = mc::choose("fam", 6);
    
    int se = n > 12 ? 0 : mc::choose("scale", 3);
    LD scale = se == 0 ? 1 : powl(2, (se == 1 ? 1 : -1) * (sizeof(R) == 4 ? 30 : 260));
    c.side = n > 12 ? (int)BOTH : mc::choose("side", 3);
    c.mode = mc::choose("mode", 4);
    if (c.mode == SELECT) {
        int s = mc::choose("pick", n > 12 ? 5 : 8);
        for (int i = 0; i < n; ++i)
            c.sel.push_back(s == 0 ? i % 2 : s == 1 ? i == n / 2 : s == 2 ? (i != 3 && i != n - 2) : s == 3 ? (i % 5 < 3) : s == 4 ? 1 : s == 5 ? i == 0 : s == 6 ? i == n - 1 : 0);
    }
    c.blk = mc::flag("blocked");
    if (c.blk && n > 12 && (fam == 4 || (fam == 3 && n > 100))) throw mc::Prune{};  // highly multiple eigenvalues: growth beyond the range of trevc3
    if (c.blk) {
        if (n > 12) { c.o.block_size = mc::pick<int>("bs", {64, 7}); c.o.block_size_solve = mc::pick<int>("bss", {64, 5}); }
        else { c.o.block_size = mc::pick<int>("bs", {1, 2, 3, 4}); c.o.block_size_solve = mc::pick<int>("bss", {1, 2, 3}); }
    }
    c.extra = 0;
    mc::body();
    run(familyT(n, pat, fam, scale), c);
}
/// growth protection of the unblocked solver: every matrix over an exponent lattice
MC_HARNESS(trevc_scale)
{
    bool th = mc::thorough();
    Cfg c;
    int n = mc::range("n", 1, 3);
    int e = std::numeric_limits<R>::max_exponent - 6;
    LD big = ldexpl(1, e), half = ldexpl(1, e / 2);
    const int NV = th ? 7 : 5;
    auto val = [&](int k) { return k == 0 ? cx(0) : k == 1 ? cx(big) : k == 2 ? cx(1) : k == 3 ? cx(1 / big) : k == 4 ? (CPLX ? cx(0, half) : cx(-half)) : k == 5 ? cx(-big / 2) : cx(1 / half); };
    RM A(n, n);
    for (int i = 0; i < n;) {
        int s = CPLX || i + 1 >= n ? 1 : 1 + mc::choose("blk", 2);
        cx v = val(mc::choose("d", NV));
        A(i, i) = v;
        if (s == 2) {
            A(i + 1, i + 1) = v;
            int b = mc::choose("b", 5);
            LD bb = b == 0 ? 1 : b == 1 ? big : b == 2 ? 1 / big : b == 3 ? -half : big, cc = b == 0 ? -1 : b == 1 ? -1 / big : b == 2 ? -1 / big : b == 3 ? 1 : -big;
            A(i, i + 1) = bb; A(i + 1, i) = cc;
        }
        i += s;
    }
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < j; ++i) {
            if (j == i + 1 && A(j, i) != cx(0)) continue;
            A(i, j) = val(mc::choose("o", NV));
        }
    c.side = BOTH;
    c.mode = mc::choose("mode", 2);
    c.blk = false;
    c.extra = 0;
    mc::body();
    run(A, c);
}
/// longer back substitutions whose right-hand sides or updates leave the range: rescaling at every step
MC_HARNESS(trevc_scale_long)
{
    bool th = mc::thorough();
    Cfg c;
    int n = mc::range("n", 4, 5);
    int e = std::numeric_limits<R>::max_exponent - 6;
    LD big = ldexpl(1, e), half = ldexpl(1, e / 2);
    auto dv = [&](int k) { return k == 0 ? cx(1) : k == 1 ? cx(1 / half) : CPLX ? cx(0, 0.5L) : cx(0); };
    auto ov = [&](int k) { return k == 0 ? cx(half) : k == 1 ? cx(1) : CPLX ? cx(0, big) : cx(-big); };
    RM A(n, n);
    const int ND = th ? 3 : 2;
    for (int i = 0; i < n;) {
        int s = CPLX || i + 1 >= n ? 1 : 1 + mc::choose("blk", 2);
        cx v = dv(mc::choose("d", ND));
        A(i, i) = v;
        if (s == 2) {
            A(i + 1, i + 1) = v;
            int b = mc::choose("b", 3);
            A(i, i + 1) = b == 0 ? 1 : b == 1 ? half : 1 / half;
            A(i + 1, i) = b == 0 ? -1 : b == 1 ? -1 / half : -1 / half;
        }
        i += s;
    }
    for (int j = 1; j < n; ++j) {
        cx x = ov(mc::choose("o", 3));
        for (int i = 0; i < j; ++i) {
            if (j == i + 1 && A(j, i) != cx(0)) continue;
            A(i, j) = (i + j) % 3 == 0 ? cx(-1) * x : x;
        }
    }
    c.side = BOTH;
    c.mode = mc::choose("mode", 2);
    c.blk = false;
    c.extra = 0;
    mc::body();
    run(A, c);
}
/// rescaling while some of the remaining components receive no further update: every sparsity pattern
MC_HARNESS(trevc_scale_sparse)
{
    bool th = mc::thorough();
    Cfg c;
    int n = mc::range("n", 4, 5);
    int e = std::numeric_limits<R>::max_exponent - 6;
    LD big = ldexpl(1, e), half = ldexpl(1, e / 2);
    LD ob = (th || n == 4) && mc::flag("obig") ? big : half;
    RM A(n, n);
    for (int i = 0; i < n;) {
        int s = CPLX || i + 1 >= n ? 1 : 1 + mc::choose("blk", 2);
        int d = th || n == 4 ? mc::choose("d", th ? 5 : 4) : i == 0 ? 0 : mc::pick("d", {0, 1, 3, 4});
        cx v = d == 0 ? cx(0) : d == 1 ? cx(1) : d == 2 ? cx(1 / half) : d == 3 ? cx(1 / 256.0L) : cx(half);
        A(i, i) = v;
        if (s == 2) {
            A(i + 1, i + 1) = v;
            A(i, i + 1) = 1;
            A(i + 1, i) = (th || n == 4) && mc::flag("small") ? -1 / half : cx(-1);
        }
        i += s;
    }
    for (int j = 1; j < n; ++j)
        for (int i = 0; i < j; ++i) {
            if (j == i + 1 && A(j, i) != cx(0)) continue;
            if (mc::flag("o")) A(i, j) = (i + j) % 3 == 0 ? cx(-ob) : CPLX && j % 2 ? cx(0, ob) : cx(ob);
        }
    c.side = BOTH;
    c.mode = 0;
    c.blk = false;
    c.extra = 0;
    mc::body();
    run(A, c);
}
MC_MAIN
