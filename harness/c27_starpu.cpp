// C27: tiled task-parallel execution equals sequential execution for every schedule; views address the right elements.
#include <tlapack/plugins/starpu.hpp>
#ifdef TILED_FIRST
#include <tlapack/starpu/starpu.hpp>
#endif
#include "blasref.hpp"
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/getrf_level0.hpp>
#include <tlapack/lapack/getrf_recursive.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/starpu/starpu.hpp>
using tl::Op; using tl::Uplo; using tl::Diag; using tl::Side;
typedef tl::starpu::Matrix<T> SM;
typedef tl::starpu::Matrix<const T> CSM;
typedef tl::starpu::idx_t idx;
typedef std::tuple<idx, idx> rg;
#define OPS3 {Op::NoTrans, Op::Trans, Op::ConjTrans}

static void onViol(const char* key, const char* msg)
{
    mc::Engine& e = mc::E();
    snprintf(e.assertMsg, sizeof e.assertMsg, "[%s] %s", key, msg);
    if (e.jbActive) siglongjmp(e.jb, 1);
}
static spu::Sim& begin()
{
    spu::onViolation = onViol;
    spu::S().reset();
    return spu::S();
}
static void done(spu::Sim& s, bool need = true)
{
    uint64_t a = s.nstates, b = s.ntrans;
    bool ok = s.explore(400000);
    if (need) MC_CHECK(ok, "bound", "task graph too large for the bound (%zu tasks)", s.tasks.size());
    mc::addStates(s.nstates - a, s.ntrans - b);
}
static int cdiv(int a, int b) { return (a + b - 1) / b; }
static LD tol(int k) { return 8 * (k + 8) * EPS; }

// ---------------------------------------------------------------------------------------------------
// Views: explicit-state search to closure over all compositions of view operations.
struct Win {
    int r0, r1, c0, c1;
    bool operator<(const Win& o) const { return std::tie(r0, r1, c0, c1) < std::tie(o.r0, o.r1, o.c0, o.c1); }
};
template <class M>
static void checkView(M& V, const Win& w, T* base, int ld, int mt, int nt, const char* how)
{
    int m = w.r1 - w.r0, n = w.c1 - w.c0;
    MC_CHECK((int)tl::nrows(V) == m && (int)tl::ncols(V) == n && (int)tl::size(V) == m * n, "shape", "%s: view of rows %d:%d cols %d:%d reports %dx%d", how, w.r0, w.r1, w.c0, w.c1, (int)tl::nrows(V), (int)tl::ncols(V));
    if (m == 0 || n == 0) return;
    const SM& cV = (const SM&)V;  // entry access needs a non-const element type; the layout of both classes is the same
    (void)cV;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            T want = base[(w.r0 + i) + (w.c0 + j) * ld];
            T got = ((const M&)V)(i, j);
            MC_CHECK(bitEq(got, want), "element", "%s: element (%d,%d) of rows %d:%d cols %d:%d is another element of the matrix", how, i, j, w.r0, w.r1, w.c0, w.c1);
        }
    if (m == 1 || n == 1)
        for (int i = 0; i < std::max(m, n); ++i) {
            T want = base[(w.r0 + (m > 1 ? i : 0)) + (w.c0 + (m > 1 ? 0 : i)) * ld];
            MC_CHECK(bitEq(T(((const M&)V)[i]), want), "element", "%s: element [%d] of a vector view is wrong", how, i);
        }
    // tiles: a partition of the window following the grid of the whole matrix
    int nx = V.get_nx(), ny = V.get_ny();
    int ex = (w.r1 - 1) / mt - w.r0 / mt + 1, ey = (w.c1 - 1) / nt - w.c0 / nt + 1;
    MC_CHECK(nx == ex && ny == ey, "grid", "%s: rows %d:%d cols %d:%d has %dx%d tiles", how, w.r0, w.r1, w.c0, w.c1, nx, ny);
    for (int x = 0; x < nx; ++x)
        for (int y = 0; y < ny; ++y) {
            int a = std::max(w.r0, (w.r0 / mt + x) * mt), b = std::min(w.r1, (w.r0 / mt + x + 1) * mt);
            int c = std::max(w.c0, (w.c0 / nt + y) * nt), d = std::min(w.c1, (w.c0 / nt + y + 1) * nt);
            auto t = V.tile(x, y);
            auto& mi = t.handle->mi;
            MC_CHECK((int)t.m == b - a && (int)t.n == d - c && (int)mi.nx == b - a && (int)mi.ny == d - c, "tile", "%s: tile (%d,%d) of rows %d:%d cols %d:%d is %dx%d", how, x, y, w.r0, w.r1, w.c0, w.c1, (int)mi.nx, (int)mi.ny);
            MC_CHECK(mi.ptr == (uintptr_t)&base[a + c * ld] && (int)mi.ld == ld, "tile", "%s: tile (%d,%d) of rows %d:%d cols %d:%d starts at another element", how, x, y, w.r0, w.r1, w.c0, w.c1);
        }
}
static void gc()
{
    auto& h = spu::S().handles;
    size_t k = 0;
    for (auto* x : h) {
        if (x->plan && x->cleaned) delete x;
        else h[k++] = x;
    }
    h.resize(k);
}
MC_HARNESS(views)
{
    int N = mc::thorough() ? 6 : 5;
    int m = mc::range("m", 1, N), n = mc::range("n", 1, N);
    mc::require(mc::thorough() || m + n <= 8);
    int mt = mc::range("mt", 1, m), nt = mc::range("nt", 1, n);
    int pad = mc::choose("pad", 2) * 2;
    mc::body();
    begin();
    Mat A(m, n, pad);
    A.fill([](int i, int j) { return cx(100 * i + j + 1); });
    A.snap();
    {
        T* p = A.ptr();
        int ld = A.ld;
        SM M(p, m, n, ld, mt, nt);
        typedef std::shared_ptr<SM> PS;
        std::map<Win, PS> seen;
        std::vector<std::pair<Win, PS>> todo;
        auto visit = [&](SM&& v, const Win& w, const char* how) {
            checkView(v, w, p, ld, mt, nt, how);
            auto r = seen.insert({w, nullptr});
            if (r.second) {
                r.first->second = std::make_shared<SM>(v);
                todo.push_back({w, r.first->second});
            }
        };
        visit(SM(M), Win{0, m, 0, n}, "matrix");
        uint64_t st = 0, tr = 0;
        while (!todo.empty()) {
            auto [w, P] = todo.back();
            todo.pop_back();
            ++st;
            SM& V = *P;
            const SM& cV = V;
            int a = w.r1 - w.r0, b = w.c1 - w.c0;
            for (int r0 = 0; r0 <= a; ++r0)
                for (int r1 = r0; r1 <= a; ++r1) {
                    for (int c0 = 0; c0 <= b; ++c0)
                        for (int c1 = c0; c1 <= b; ++c1) {
                            // full 2-D enumeration from the whole matrix, row/column spans combined cyclically deeper down
                            if (!(w.r0 == 0 && w.c0 == 0 && a == m && b == n) && ((r0 + 2 * r1 + 3 * c0 + 5 * c1) % 3)) continue;
                            Win q{w.r0 + r0, w.r0 + r1, w.c0 + c0, w.c0 + c1};
                            visit(tl::slice(V, rg(r0, r1), rg(c0, c1)), q, "slice");
                            auto k = tl::slice(cV, rg(r0, r1), rg(c0, c1));
                            checkView(k, q, p, ld, mt, nt, "const slice");
                            ++tr;
                        }
                    Win q{w.r0 + r0, w.r0 + r1, w.c0, w.c1};
                    visit(tl::rows(V, rg(r0, r1)), q, "rows");
                    auto k = tl::rows(cV, rg(r0, r1));
                    checkView(k, q, p, ld, mt, nt, "const rows");
                    ++tr;
                }
            for (int c0 = 0; c0 <= b; ++c0)
                for (int c1 = c0; c1 <= b; ++c1) {
                    Win q{w.r0, w.r1, w.c0 + c0, w.c0 + c1};
                    visit(tl::cols(V, rg(c0, c1)), q, "cols");
                    auto k = tl::cols(cV, rg(c0, c1));
                    checkView(k, q, p, ld, mt, nt, "const cols");
                    ++tr;
                }
            for (int i = 0; i < a; ++i) {
                Win q{w.r0 + i, w.r0 + i + 1, w.c0, w.c1};
                visit(tl::row(V, i), q, "row");
                auto k = tl::row(cV, i);
                checkView(k, q, p, ld, mt, nt, "const row");
                for (int c0 = 0; c0 <= b; ++c0)
                    for (int c1 = c0; c1 <= b; ++c1) {
                        Win z{w.r0 + i, w.r0 + i + 1, w.c0 + c0, w.c0 + c1};
                        visit(tl::slice(V, i, rg(c0, c1)), z, "row slice");
                        auto kk = tl::slice(cV, i, rg(c0, c1));
                        checkView(kk, z, p, ld, mt, nt, "const row slice");
                        ++tr;
                    }
            }
            for (int j = 0; j < b; ++j) {
                Win q{w.r0, w.r1, w.c0 + j, w.c0 + j + 1};
                visit(tl::col(V, j), q, "col");
                auto k = tl::col(cV, j);
                checkView(k, q, p, ld, mt, nt, "const col");
                for (int r0 = 0; r0 <= a; ++r0)
                    for (int r1 = r0; r1 <= a; ++r1) {
                        Win z{w.r0 + r0, w.r0 + r1, w.c0 + j, w.c0 + j + 1};
                        visit(tl::slice(V, rg(r0, r1), j), z, "column slice");
                        auto kk = tl::slice(cV, rg(r0, r1), j);
                        checkView(kk, z, p, ld, mt, nt, "const column slice");
                        ++tr;
                    }
            }
            if ((a == 1) != (b == 1) && a && b)
                for (int r0 = 0; r0 <= std::max(a, b); ++r0)
                    for (int r1 = r0; r1 <= std::max(a, b); ++r1) {
                        Win z = a > 1 ? Win{w.r0 + r0, w.r0 + r1, w.c0, w.c1} : Win{w.r0, w.r1, w.c0 + r0, w.c0 + r1};
                        visit(tl::slice(V, rg(r0, r1)), z, "vector slice");
                        auto kk = tl::slice(cV, rg(r0, r1));
                        checkView(kk, z, p, ld, mt, nt, "const vector slice");
                        ++tr;
                    }
            if (a && b) {
                int nx = V.get_nx(), ny = V.get_ny();
                auto rb = [&](int x) { return x == 0 ? w.r0 : std::min(w.r1, (w.r0 / mt + x) * mt); };
                auto cb = [&](int y) { return y == 0 ? w.c0 : std::min(w.c1, (w.c0 / nt + y) * nt); };
                for (int x = 0; x <= nx; ++x)
                    for (int dx = 0; x + dx <= nx; ++dx)
                        for (int y = 0; y <= ny; ++y)
                            for (int dy = 0; y + dy <= ny; ++dy) {
                                Win z{rb(x), dx ? rb(x + dx) : rb(x), cb(y), dy ? cb(y + dy) : cb(y)};
                                visit(V.get_tiles(x, y, dx, dy), z, "get_tiles");
                                auto kk = cV.get_const_tiles(x, y, dx, dy);
                                checkView(kk, z, p, ld, mt, nt, "get_const_tiles");
                                ++tr;
                            }
            }
            gc();
        }
        mc::addStates(st, tr);
        mc::mix(st);
    }
    MC_CHECK(spu::S().tasks.empty(), "views", "creating views submitted tasks");
    A.constant("A");
}
// ---------------------------------------------------------------------------------------------------
// Entry operations: every sequence of up to `depth` operations, every schedule of the resulting tasks.
MC_HARNESS(entries)
{
    int depth = mc::thorough() ? 3 : 2;
    int mt = mc::range("mt", 1, 2);
    int nt = mc::range("nt", 1, 2);
    struct O { int op, kind, dst, src; } o[3];
    for (int d = 0; d < depth; ++d) {
        o[d].op = mc::choose("op", 5);
        o[d].kind = mc::choose("kind", 3);  // value, entry of the same matrix, entry of another matrix
        o[d].dst = mc::choose("dst", mc::thorough() ? 2 : 4);
        o[d].src = o[d].kind == 0 ? 0 : mc::choose("src", mc::thorough() ? 3 : 4);
    }
    mc::body();
    auto& s = begin();
    Mat A(2, 2), B(2, 2);
    A.fill([](int i, int j) { return gen<T>(i, j, 1); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    Mat X = A;
    {
        SM a(A.ptr(), 2, 2, A.ld, mt, nt), b(B.ptr(), 2, 2, B.ld, 2, 2);
        for (int d = 0; d < depth; ++d) {
            int di = o[d].dst & 1, dj = o[d].dst >> 1, si = o[d].src & 1, sj = o[d].src >> 1;
            T v = o[d].kind == 0 ? mk<T>(gen<T>(d, 3, 7)) : o[d].kind == 1 ? X(si, sj) : B(si, sj);
            switch (o[d].op) {
                case 0: X(di, dj) = v; break;
                case 1: X(di, dj) += v; break;
                case 2: X(di, dj) -= v; break;
                case 3: X(di, dj) *= v; break;
                default: { T t = v; X(di, dj) /= t; }
            }
            auto app = [&](auto&& e, auto&& r) {
                typedef decltype(r) Q;
                switch (o[d].op) {
                    case 0: e = std::forward<Q>(r); break;
                    case 1: e += r; break;
                    case 2: e -= r; break;
                    case 3: e *= r; break;
                    default: e /= r;
                }
            };
            if (o[d].kind == 0) app(a(di, dj), (const T&)v);
            else if (o[d].kind == 1) app(a(di, dj), a(si, sj));
            else app(a(di, dj), b(si, sj));
        }
        MC_CHECK((int)s.tasks.size() == depth, "entries", "an entry operation did not become one task");
        done(s);
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) {
                MC_CHECK(bitEq(T(a(i, j)), X(i, j)) || (ab(up(X(i, j)) - up(A(i, j))) <= 8 * EPS * ab(up(X(i, j)))), "entries", "entry (%d,%d) differs from the scalar computation", i, j);
            }
    }
    A.guards("A");
    B.constant("B");
    mixRM(A.get());
}
MC_HARNESS(entry_expr)
{
    int i1 = mc::choose("p", 4), i2 = mc::choose("q", 4);
    int mt = mc::range("mt", 1, 2);
    mc::body();
    begin();
    Mat A(2, 2), B(2, 2);
    A.fill([](int i, int j) { return gen<T>(i, j, 1); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    SM a(A.ptr(), 2, 2, A.ld, mt, 1), b(B.ptr(), 2, 2, B.ld, 2, 2);
    T x = A(i1 & 1, i1 >> 1), y = B(i2 & 1, i2 >> 1);
    R r = R(1.25);
    auto X = [&] { return a(i1 & 1, i1 >> 1); };
    auto Y = [&] { return b(i2 & 1, i2 >> 1); };
    auto near = [](T u, T v) { return ab(up(u) - up(v)) <= 4 * EPS * ab(up(v)); };
    MC_CHECK(near(X() + Y(), x + y) && near(X() - Y(), x - y) && near(X() * Y(), x * y) && near(X() / Y(), x / y), "expr", "entry op entry");
    MC_CHECK(near(X() + y, x + y) && near(X() - y, x - y) && near(X() * y, x * y) && near(X() / y, x / y), "expr", "entry op value");
    MC_CHECK(near(x + Y(), x + y) && near(x - Y(), x - y) && near(x * Y(), x * y) && near(x / Y(), x / y), "expr", "value op entry");
    MC_CHECK(near(X() + r, x + r) && near(X() - r, x - r) && near(X() * r, x * r) && near(X() / r, x / r), "expr", "entry op real value");
    MC_CHECK(near(r + Y(), r + y) && near(r - Y(), r - y) && near(r * Y(), r * y) && near(r / Y(), r / y), "expr", "real value op entry");
    MC_CHECK((LD)tl::real(X()) == up(x).re && (LD)tl::imag(X()) == up(x).im && up(T(tl::conj(X()))) == cj(up(x)), "expr", "real, imag or conj of an entry");
    { LD u = (LD)abs(X()), v = (LD)tl::abs(x); MC_CHECK(fabsl(u - v) <= 4 * EPS * v, "expr", "abs of an entry"); }
    MC_CHECK(spu::S().tasks.empty(), "expr", "reading entries submitted tasks");
}
// ---------------------------------------------------------------------------------------------------
struct Tiling {  // a window of `len` elements starting at `off` in a dimension cut into tiles of `t`
    int len, off, t;
    int total() const { return std::max(off + len, 1); }
    int tiles() const { return len == 0 ? 1 : (off + len - 1) / t - off / t + 1; }
};
static Tiling tiling(const char* nm, int maxTiles, bool zero)
{
    static const std::vector<Tiling> all = {{1, 0, 1}, {2, 0, 2}, {2, 0, 1}, {3, 0, 2}, {3, 1, 2}, {2, 1, 2}, {3, 1, 4}, {3, 0, 1}, {5, 0, 2}, {4, 1, 2}, {0, 0, 1}, {0, 1, 2}};
    int k = mc::choose(nm, (int)all.size());
    Tiling x = all[k];
    mc::note(x.len * 100 + x.off * 10 + x.t);
    mc::require(x.tiles() <= maxTiles && (zero || x.len > 0));
    return x;
}
/// registers the buffer of a whole tiled matrix and gives the window
struct Op2 {
    Mat M;
    Tiling r, c;
    std::shared_ptr<SM> big;
    Op2(Tiling r_, Tiling c_, int extra = 1) : M(r_.total() + extra, c_.total() + extra), r(r_), c(c_)
    {
        M.fill([](int, int) { return cx(std::numeric_limits<LD>::quiet_NaN()); });
        int m = M.m, n = M.n;
        big = std::make_shared<SM>(M.ptr(), m, n, M.ld, std::min(r.t, m), std::min(c.t, n));
    }
    template <class F>
    void fill(F f)
    {
        for (int i = 0; i < r.len; ++i)
            for (int j = 0; j < c.len; ++j) at(i, j) = mk<T>(f(i, j));
        M.snap();
    }
    T& at(int i, int j) { return M(r.off + i, c.off + j); }
    RM get()
    {
        RM x(r.len, c.len);
        for (int i = 0; i < r.len; ++i)
            for (int j = 0; j < c.len; ++j) x(i, j) = up(at(i, j));
        return x;
    }
    SM win() { return tl::slice(*big, rg(r.off, r.off + r.len), rg(c.off, c.off + c.len)); }
    bool whole() const { return r.off == 0 && c.off == 0; }
    template <class W>
    void only(W w, const char* name)
    {
        M.unchangedExcept([&](int i, int j) { return i >= r.off && i < r.off + r.len && j >= c.off && j < c.off + c.len && w(i - r.off, j - c.off); }, "footprint", name);
    }
    void constant(const char* name) { M.constant(name); }
};
static cx scalK(int k, int salt) { return k == 0 ? gen<T>(1, 2, salt) : k == 1 ? cx(1) : cx(0); }

MC_HARNESS(gemm)
{
    Op ta = mc::pick("transA", OPS3), tb = mc::pick("transB", OPS3);
    int mx = mc::thorough() ? 3 : 2;
    Tiling m = tiling("m", mx, true), n = tiling("n", mx, false), k = tiling("k", 3, true);
    mc::require(m.tiles() * n.tiles() * k.tiles() <= 12);
    int ka = mc::choose("alpha", 3), kb = mc::choose("beta", 4);
    mc::require(mc::thorough() || ka == 0 || kb == 0);
    mc::body();
    auto& s = begin();
    Op2 A(ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m), B(tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k), C(m, n, 2);
    A.fill([](int i, int j) { return gen<T>(i, j, 1); });
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    if (kb < 3) C.fill([](int i, int j) { return gen<T>(i, j, 3); });
    cx al = scalK(ka, 50), be = kb < 3 ? scalK(kb, 60) : cx(0);
    RM X = opM(A.get(), ta), Y = opM(B.get(), tb), C0 = kb < 3 ? C.get() : RM(m.len, n.len);
    RM ref = al * (X * Y) + be * C0, sc = cx(ab1(al)) * (Abs(X) * Abs(Y)) + cx(ab1(be)) * Abs(C0);
    {
        SM a = A.win(), b = B.win(), c = C.win();
        if (kb == 3) tl::gemm(ta, tb, mk<T>(al), a, b, tl::StrongZero(), c);
        else tl::gemm(ta, tb, mk<T>(al), a, b, mk<T>(be), c);
    }
    done(s);
    for (int i = 0; i < m.len; ++i)
        for (int j = 0; j < n.len; ++j) cmpElt(up(C.at(i, j)), ref(i, j), tol(k.len) * sc(i, j).re, "gemm", "C", i, j);
    A.constant("A");
    B.constant("B");
    C.only([](int, int) { return true; }, "C");
    mixRM(C.get());
}
MC_HARNESS(herk)
{
    Uplo u = mc::pick("uplo", {Uplo::Upper, Uplo::Lower, Uplo::General});
    Op ta = mc::pick("trans", {Op::NoTrans, Op::ConjTrans});
    Tiling n = tiling("n", 3, false), k = tiling("k", mc::thorough() ? 3 : 2, true);
    mc::require(u != Uplo::General || n.tiles() < 3 || k.tiles() < 3);
    int ka = mc::choose("alpha", 3), kb = mc::choose("beta", 4);
    mc::body();
    auto& s = begin();
    Op2 A(ta == Op::NoTrans ? n : k, ta == Op::NoTrans ? k : n), C(n, n, 2);
    A.fill([](int i, int j) { return gen<T>(i, j, 1); });
    LD q = std::numeric_limits<LD>::quiet_NaN();
    auto tri = [&](int i, int j) { return inTri(u, i, j); };
    R al = R(scalK(ka, 50).re), be = kb < 3 ? R(scalK(kb, 60).re) : R(0);
    C.fill([&](int i, int j) {
        if (kb == 3 || !tri(i, j)) return cx(q, q);
        cx g = i > j ? cj(gen<T>(j, i, 3)) : gen<T>(i, j, 3);
        if (i == j) g.im = 0;
        return g;
    });
    RM X = ta == Op::NoTrans ? A.get() : H(A.get()), C0 = kb == 3 ? RM(n.len, n.len) : C.get();
    for (int i = 0; i < n.len; ++i)
        for (int j = 0; j < n.len; ++j) if (!tri(i, j)) C0(i, j) = 0;
    RM ref = cx(al) * (X * H(X)) + cx(be) * C0, sc = cx(fabsl((LD)al)) * (Abs(X) * Abs(H(X))) + cx(fabsl((LD)be)) * Abs(C0);
    {
        SM a = A.win(), c = C.win();
        if (kb == 3) tl::herk(u, ta, al, a, tl::StrongZero(), c);
        else tl::herk(u, ta, al, a, be, c);
    }
    done(s);
    for (int i = 0; i < n.len; ++i)
        for (int j = 0; j < n.len; ++j)
            if (tri(i, j)) cmpElt(up(C.at(i, j)), ref(i, j), tol(k.len) * sc(i, j).re, "herk", "C", i, j);
    A.constant("A");
    C.only(tri, "C");
    mixRM(C.get());
}
MC_HARNESS(trsm)
{
    Side sd = pickSide();
    Uplo u = pickUplo();
    Op ta = mc::pick("trans", OPS3);
    Diag d = pickDiag();
    Tiling n = tiling("n", 3, false), k = tiling("k", mc::thorough() ? 3 : 2, false);
    int ka = mc::choose("alpha", 3);
    mc::require(mc::thorough() || n.tiles() * k.tiles() <= 6);
    mc::body();
    auto& s = begin();
    Op2 A(n, n), B(sd == Side::Left ? n : k, sd == Side::Left ? k : n, 2);
    LD q = std::numeric_limits<LD>::quiet_NaN();
    A.fill([&](int i, int j) { return !inTri(u, i, j) || (i == j && d == Diag::Unit) ? cx(q, q) : i == j ? gen<T>(i, j, 1) + cx(3, 1) * cx(1, Sc<T>::cplx ? 0 : 0) : gen<T>(i, j, 1); });
    for (int i = 0; i < n.len; ++i)
        if (d == Diag::NonUnit) A.at(i, i) = mk<T>(cx(A.get()(i, i).re, Sc<T>::cplx ? A.get()(i, i).im : 0));
    A.M.snap();
    B.fill([](int i, int j) { return gen<T>(i, j, 2); });
    cx al = scalK(ka, 50);
    RM S = opM(triFrom(A.get(), u, d), ta), B0 = B.get();
    {
        SM a = A.win(), b = B.win();
        tl::trsm(sd, u, ta, d, mk<T>(al), a, b);
    }
    done(s);
    RM X = B.get();
    RM L = sd == Side::Left ? S * X : X * S, aL = sd == Side::Left ? Abs(S) * Abs(X) : Abs(X) * Abs(S);
    for (int i = 0; i < X.m; ++i)
        for (int j = 0; j < X.n; ++j) cmpElt(L(i, j), al * B0(i, j), tol(2 * n.len) * (aL(i, j).re + ab1(al) * ab1(B0(i, j))), "trsm", "op(A)X", i, j);
    A.constant("A");
    B.only([](int, int) { return true; }, "B");
    mixRM(X);
}
// operands that are disjoint windows of one tiled matrix (several windows may share a tile)
MC_HARNESS(shared)
{
    int which = mc::choose("routine", 4);
    int t = mc::pick("tile", {6, 3, 4, 2});
    Op ta = mc::pick("transA", OPS3), tb = which == 0 ? mc::pick("transB", OPS3) : Op::NoTrans;
    Uplo u = which ? pickUplo() : Uplo::Upper;
    Side sd = which == 2 ? pickSide() : Side::Left;
    mc::require(which != 1 || ta != Op::Trans);
    mc::require(which != 3 || ta == Op::NoTrans);
    int perm = mc::choose("place", 6);
    mc::body();
    auto& s = begin();
    Mat M(6, 6);
    M.fill([](int i, int j) { return gen<T>(i, j, 4) + (i == j || i == j + 2 || j == i + 2 || i == j + 4 || j == i + 4 ? cx(4) : cx(0)); });
    // three 2x2 windows: (0,0), (2,2) and (4,0) of the 6x6 matrix, in some order
    static const int pos[3][2] = {{0, 0}, {2, 2}, {4, 0}};
    static const int pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    auto W = [&](int w) { return sub(M.get(), pos[pm[perm][w]][0], pos[pm[perm][w]][0] + 2, pos[pm[perm][w]][1], pos[pm[perm][w]][1] + 2); };
    RM A0 = W(0), B0 = W(1), C0 = W(2);
    cx al = gen<T>(1, 2, 50), be = gen<T>(1, 2, 60);
    {
        SM big(M.ptr(), 6, 6, M.ld, t, t);
        auto win = [&](int w) { return tl::slice(big, rg(pos[pm[perm][w]][0], pos[pm[perm][w]][0] + 2), rg(pos[pm[perm][w]][1], pos[pm[perm][w]][1] + 2)); };
        SM a = win(0), b = win(1), c = win(2);
        if (t == 3) mc::require(a.get_nx() == c.get_nx() && a.get_ny() == c.get_ny() && b.get_nx() == c.get_nx() && a.get_nx() == a.get_ny() && b.get_ny() == c.get_ny());
        if (which == 0) tl::gemm(ta, tb, mk<T>(al), a, b, mk<T>(be), c);
        else if (which == 1) tl::herk(u, ta, R(al.re), a, R(be.re), c);
        else if (which == 2) tl::trsm(sd, u, ta, Diag::NonUnit, mk<T>(al), a, c);
        else {
            tl::trsm(Side::Left, u, Op::NoTrans, Diag::NonUnit, T(1), a, c);
            tl::gemm(Op::NoTrans, Op::NoTrans, mk<T>(al), c, a, T(1), b);
            tl::trsm(Side::Right, u, Op::ConjTrans, Diag::NonUnit, T(1), a, b);
        }
        done(s);
    }
    RM C1 = W(2), B1 = W(1);
    auto at = [&](int w) { return std::make_pair(pos[pm[perm][w]][0], pos[pm[perm][w]][1]); };
    auto inW = [&](int w, int i, int j) { return i >= at(w).first && i < at(w).first + 2 && j >= at(w).second && j < at(w).second + 2; };
    if (which == 0) {
        RM r = al * (opM(A0, ta) * opM(B0, tb)) + be * C0;
        MC_CHECK(nrmMax(C1 - r) <= 400 * EPS * 30, "shared", "gemm on windows of one matrix");
    }
    else if (which == 1) {
        RM X = ta == Op::NoTrans ? A0 : H(A0);
        for (int i = 0; i < 2; ++i) C0(i, i).im = 0;
        RM r = cx(al.re) * (X * H(X)) + cx(be.re) * C0;
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j)
                if (inTri(u, i, j)) MC_CHECK(ab(C1(i, j) - r(i, j)) <= 400 * EPS * 30, "shared", "herk on windows of one matrix");
    }
    else if (which == 2) {
        RM S = opM(triFrom(A0, u, Diag::NonUnit), ta);
        RM r = sd == Side::Left ? S * C1 : C1 * S;
        MC_CHECK(nrmMax(r - al * C0) <= 400 * EPS * 30, "shared", "trsm on windows of one matrix");
    }
    else {
        RM S = triFrom(A0, u, Diag::NonUnit);
        MC_CHECK(nrmMax(S * C1 - C0) <= 400 * EPS * 30, "shared", "first solve of a chain on windows of one matrix");
        RM r = B0 + al * (C1 * A0);
        MC_CHECK(nrmMax(B1 * H(S) - r) <= 400 * EPS * 60, "shared", "chain of tasks on windows of one matrix");
    }
    M.unchangedExcept([&](int i, int j) {
        if (which == 1) return inW(2, i, j) && inTri(u, i - at(2).first, j - at(2).second);
        return inW(2, i, j) || (which == 3 && inW(1, i, j)); }, "footprint", "M");
    mixRM(M.get());
}
// ---------------------------------------------------------------------------------------------------
static void spd(Mat& A, int off, int n, Uplo u)
{
    LD q = std::numeric_limits<LD>::quiet_NaN();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            cx g = i > j ? cj(gen<T>(j, i, 3)) : gen<T>(i, j, 3);
            if (i == j) g = cx(n + 1);
            A(off + i, off + j) = inTri(u, i, j) ? mk<T>(g) : mk<T>(cx(q, q));
        }
    A.snap();
}
static void checkChol(Mat& A, const Mat& A0, int off, int n, Uplo u, int info)
{
    MC_CHECK(info == 0, "info", "info=%d for a positive definite matrix", info);
    RM L(n, n), S(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            if (inTri(u, i, j)) L(i, j) = up(A(off + i, off + j));
            S(i, j) = inTri(u, i, j) ? up(A0(off + i, off + j)) : cj(up(A0(off + j, off + i)));
        }
    RM P = u == Uplo::Lower ? L * H(L) : H(L) * L, aP = u == Uplo::Lower ? Abs(L) * Abs(H(L)) : Abs(H(L)) * Abs(L);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) cmpElt(P(i, j), S(i, j), tol(2 * n) * aP(i, j).re, "potrf", "A", i, j);
    A.unchangedExcept([&](int i, int j) { return i >= off && j >= off && i < off + n && j < off + n && inTri(u, i - off, j - off); }, "footprint", "A");
}
MC_HARNESS(potrf)
{
    Uplo u = pickUplo();
    int n = mc::range("n", 1, mc::thorough() ? 9 : 7), nt = mc::range("nt", 1, n);
    int route = mc::choose("route", 4);  // blocked, right-looking, blocked with another nb, potf2 overload
    mc::require(cdiv(n, nt) <= (mc::thorough() ? 5 : 4));
    int nb = route == 2 ? mc::range("nb", 1, n) : nt;
    mc::require(route != 2 || nb % nt == 0);  // the tiled kernels need block boundaries on tile boundaries
    mc::body();
    auto& s = begin();
    Mat A(n, n);
    spd(A, 0, n, u);
    Mat A0 = A;
    int info = 0;
    {
        SM a(A.ptr(), n, n, A.ld, nt, nt);
        if (route == 3) info = u == Uplo::Upper ? tl::potf2(tl::UPPER_TRIANGLE, a) : tl::potf2(tl::LOWER_TRIANGLE, a);
        else {
            tl::PotrfOpts o;
            o.nb = nb;
            o.variant = route == 1 ? tl::PotrfVariant::RightLooking : tl::PotrfVariant::Blocked;
            info = u == Uplo::Upper ? tl::potrf(tl::UPPER_TRIANGLE, a, o) : tl::potrf(tl::LOWER_TRIANGLE, a, o);
        }
        done(s, false);
        s.all();
    }
    checkChol(A, A0, 0, n, u, info);
    mixRM(A.get());
}
// ---------------------------------------------------------------------------------------------------
// Generic algorithms on tiled matrices: every entry update is a task and reads synchronise with the tasks they depend on.
// Each algorithm is run under the two extreme schedules, under the reversed lazy schedule, and with every set of up to
// `preempt` tasks held back until something needs them; every run must leave the memory of the sequential algorithm.
struct Gen {
    int algo, m, n, mt, nt;
    Mat A, B;
    std::vector<idx> piv;
    std::vector<std::complex<R>> w;
    int info = 0;
    LD val[4] = {0, 0, 0, 0};
    Gen(int algo_, int m_, int n_, int mt_, int nt_) : algo(algo_), m(m_), n(n_), mt(mt_), nt(nt_), A(m_, n_), B(m_, n_), piv(std::min(m_, n_), 77), w(n_)
    {
        A.fill([&](int i, int j) { return algo == 5 && i > j + 1 ? cx(0) : algo == 4 || algo == 6 ? gen<T>(i, j, 1) + (i == j ? cx(4) : cx(0)) : gen<T>(i, j, 1); });
        B.fill([&](int i, int j) { return algo == 5 ? cx(i == j) : gen<T>(i, j, 2); });
    }
    template <class MA, class MB, class MP, class MW>
    void run(MA& a, MB& b, MP& p, MW& ww)
    {
        switch (algo) {
            case 0: tl::lacpy(tl::GENERAL, a, b); tl::lacpy(tl::LOWER_TRIANGLE, b, a); break;
            case 1: tl::laset(tl::UPPER_TRIANGLE, T(R(3)), T(R(2)), a); tl::lacpy(tl::UPPER_TRIANGLE, a, b); tl::laset(tl::LOWER_TRIANGLE, T(R(1)), T(R(5)), b); break;
            case 2: if constexpr (!tl::is_complex<T>) info = tl::getrf_level0(a, p); break;  // the tiled entries have no complex == real comparison
            case 3: if constexpr (!tl::is_complex<T>) info = tl::getrf_recursive(a, p); break;
            case 4:
                if constexpr (!std::is_same_v<MA, SM>) tl::trmm(tl::LEFT_SIDE, tl::UPPER_TRIANGLE, tl::NO_TRANS, tl::NON_UNIT_DIAG, T(R(1)), a, b);
                else tl::trmm(tl::LEFT_SIDE, tl::UPPER_TRIANGLE, tl::NO_TRANS, tl::NON_UNIT_DIAG, T(R(1)), a, b);
                break;
            case 5: info = tl::lahqr(true, true, 0, n, a, ww, b); break;
            case 6: {
                auto r0 = tl::row(b, 0);
                auto r1 = tl::row(b, m - 1);
                tl::swap(r0, r1);
                auto c0 = tl::col(a, 0);
                auto c1 = tl::col(b, n - 1);
                tl::swap(c0, c1);
                auto s0 = tl::slice(b, std::pair<idx, idx>(0, m), n - 1);
                val[0] = (LD)tl::nrm2(s0);
                val[1] = (LD)tl::iamax(s0);
                break;
            }
            default: break;
        }
        if (algo != 5) {
            val[2] = (LD)tl::lange(tl::FROB_NORM, a) + 3 * (LD)tl::lange(tl::ONE_NORM, b) + 5 * (LD)tl::lange(tl::MAX_NORM, a) + 7 * (LD)tl::lange(tl::INF_NORM, b);
            val[3] = (LD)tl::lantr(tl::ONE_NORM, tl::UPPER_TRIANGLE, tl::NON_UNIT_DIAG, a) + 3 * (LD)tl::lantr(tl::INF_NORM, tl::LOWER_TRIANGLE, tl::UNIT_DIAG, b);
        }
    }
    void tiled()
    {
        auto& s = spu::S();
        SM a(A.ptr(), m, n, A.ld, mt, nt), b(B.ptr(), m, n, B.ld, std::max(1, mt - 1), nt);
        tl::starpu::Matrix<idx> p(piv.data(), (idx)piv.size(), 1, (idx)piv.size(), 1);
        tl::starpu::Matrix<std::complex<R>> ww(w.data(), n, 1, std::min(mt, n), 1);
        run(a, b, p, ww);
        s.all();
    }
    void plain()
    {
        auto a = A.view(), b = B.view();
        tl::LegacyMatrix<std::complex<R>, idx> ww_(n, 1, w.data(), n);
        tl::LegacyVector<std::complex<R>, idx> ww(n, w.data(), 1);
        (void)ww_;
        tl::LegacyVector<idx, idx> pv(piv.size(), piv.data(), 1);
        run(a, b, pv, ww);
    }
};
static void sameRun(Gen& g, Gen& r, bool exact, const char* how)
{
    LD slack = exact ? 0 : 200 * EPS;
    MC_CHECK(g.info == r.info, "generic", "%s: info %d instead of %d", how, g.info, r.info);
    for (int i = 0; i < g.m; ++i)
        for (int j = 0; j < g.n; ++j) {
            MC_CHECK(exact ? bitEq(T(g.A(i, j)), T(r.A(i, j))) : ab(up(g.A(i, j)) - up(r.A(i, j))) <= slack * 20, "generic", "%s: A(%d,%d) differs from the sequential run", how, i, j);
            MC_CHECK(exact ? bitEq(T(g.B(i, j)), T(r.B(i, j))) : ab(up(g.B(i, j)) - up(r.B(i, j))) <= slack * 20, "generic", "%s: B(%d,%d) differs from the sequential run", how, i, j);
        }
    for (size_t i = 0; i < g.piv.size(); ++i) MC_CHECK(g.piv[i] == r.piv[i], "generic", "%s: pivot %d differs from the sequential run", how, (int)i);
    for (size_t i = 0; i < g.w.size(); ++i) MC_CHECK(std::abs(g.w[i] - r.w[i]) <= slack * 20 + 0, "generic", "%s: w[%d] differs from the sequential run", how, (int)i);
    for (int k = 0; k < 4; ++k) MC_CHECK(exact ? g.val[k] == r.val[k] : fabsl(g.val[k] - r.val[k]) <= slack * 50 * (1 + fabsl(r.val[k])), "generic", "%s: returned value %d differs from the sequential run", how, k);
    g.A.guards("A");
    g.B.guards("B");
}
MC_HARNESS(generic)
{
    int algo = mc::choose("algo", 7);
    int N = mc::thorough() ? 5 : 4;
    int m = mc::range("m", 1, N), n = mc::range("n", 1, N);
    mc::require((algo != 4 && algo != 5) || m == n);
    mc::require(!tl::is_complex<T> || (algo != 2 && algo != 3));
    int mt = mc::range("mt", 1, m), nt = mc::range("nt", 1, n);
#ifdef TILED_FIRST
    mc::require(algo != 3 || (mt == 1 && nt == 1) || (mt == m && nt == n));  // here the tiled gemm and trsm are used: they need block boundaries on tile boundaries
#endif
    mc::body();
    Gen ref(algo, m, n, mt, nt);
    ref.plain();
    begin();
    spu::S().policy = spu::EAGER;
    Gen e(algo, m, n, mt, nt);
    e.tiled();
    sameRun(e, ref, false, "eager schedule");
    int total = (int)spu::S().tasks.size();
    uint64_t runs = 1;
    for (auto pol : {spu::LAZY, spu::LAZY_REV}) {
        begin();
        spu::S().policy = pol;
        Gen g(algo, m, n, mt, nt);
        g.tiled();
        sameRun(g, e, true, pol == spu::LAZY ? "lazy schedule" : "reversed lazy schedule");
        ++runs;
    }
    auto with = [&](std::vector<int> d) {
        begin();
        spu::S().policy = spu::EAGER;
        spu::S().delay = d;
        Gen g(algo, m, n, mt, nt);
        g.tiled();
        sameRun(g, e, true, "schedule with delayed tasks");
        ++runs;
    };
    int cap = mc::thorough() ? 400 : 120, cap2 = mc::thorough() ? 60 : 24;
    for (int a = 0; a < std::min(total, cap); ++a) with({a});
    if (total <= cap2)
        for (int a = 0; a < total; ++a)
            for (int b = a + 1; b < total; ++b) with({a, b});
    mc::addStates(runs, (uint64_t)total * runs);
    mixRM(e.A.get());
    mc::mix(total);
}
MC_MAIN
