// Operands of the pointer-based interface checks: NaN-guarded buffers, read-only arena for constant inputs.
#pragma once
#include <sys/mman.h>
#include "blasref.hpp"
using tl::Diag;
using tl::Op;
using tl::Side;
using tl::Uplo;
// ---- operands ---------------------------------------------------------------------------------------
// Constant inputs come from an arena that is read-only while the routine runs.
static const size_t ARENA = 1 << 16;
static char* arena()
{
    static char* p = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return p;
}
static size_t arenaTop = 0;
struct ReadOnly {
    ReadOnly() { mprotect(arena(), ARENA, PROT_READ); }
    ~ReadOnly() { mprotect(arena(), ARENA, PROT_READ | PROT_WRITE); }
};
struct Mem {
    T* p;
    size_t n;
    bool ro;
    std::vector<T> own, before;
    Mem(size_t n_, bool ro_) : n(n_), ro(ro_)
    {
        if (ro) {
            p = (T*)(arena() + arenaTop);
            arenaTop += n * sizeof(T);
            if (arenaTop > ARENA) mc::fail("harness", "arena too small");
        }
        else {
            own.resize(n);
            p = own.data();
        }
        for (size_t i = 0; i < n; ++i) p[i] = nanOf<T>();
    }
    void snap() { before.assign(p, p + n); }
};
/// pointer-based matrix with run-time layout
struct PM : Mem {
    int m, n2, ld;
    char lay;
    PM(char lay_, int m_, int n_, int pad, bool ro) : Mem((size_t)((lay_ == 'C' ? m_ : n_) + pad) * (lay_ == 'C' ? n_ : m_) + 2 * GUARD, ro), m(m_), n2(n_), ld((lay_ == 'C' ? m_ : n_) + pad), lay(lay_) {}
    size_t off(int i, int j) const { return GUARD + (lay == 'C' ? (size_t)i + (size_t)j * ld : (size_t)j + (size_t)i * ld); }
    T* ptr() { return p + GUARD; }
    template <class W, class F>
    void fill(W w, F f)
    {
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n2; ++j)
                if (w(i, j)) p[off(i, j)] = mk<T>(f(i, j));
        snap();
    }
    RM get() const
    {
        RM r(m, n2);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n2; ++j) r(i, j) = up(p[off(i, j)]);
        return r;
    }
    /// every element in w equals ref exactly; all other memory is unchanged
    template <class W>
    void expect(const RM& ref, W w, const char* what) const
    {
        std::vector<char> may(n, 0);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < n2; ++j)
                if (w(i, j)) {
                    may[off(i, j)] = 1;
                    cx g = up(p[off(i, j)]);
                    mc::mixd((double)g.re);
                    cmpElt(g, ref(i, j), 0, "wrong-result", what, i, j);
                }
        for (size_t k = 0; k < n; ++k)
            if (!may[k] && !bitEq(p[k], before[k])) mc::fail("outside-write", "%s: memory outside the output changed at offset %ld (%dx%d ld %d layout %c)", what, (long)k - GUARD, m, n2, ld, lay);
    }
    void same(const char* what) const
    {
        mc::E().checks++;
        for (size_t k = 0; k < n; ++k)
            if (!bitEq(p[k], before[k])) mc::fail("modified", "%s changed at offset %ld", what, (long)k - GUARD);
    }
};
struct PV : Mem {
    int len, inc;
    PV(int n_, int inc_, bool ro) : Mem((n_ ? (size_t)(n_ - 1) * abs(inc_) + 1 : 0) + 2 * GUARD, ro), len(n_), inc(inc_) {}
    size_t off(int i) const { return GUARD + (size_t)(inc < 0 ? len - 1 - i : i) * abs(inc); }
    T* ptr() { return p + GUARD; }
    template <class F>
    void fill(F f)
    {
        for (int i = 0; i < len; ++i) p[off(i)] = mk<T>(f(i));
        snap();
    }
    void poison() { snap(); }
    RM get() const
    {
        RM r(len, 1);
        for (int i = 0; i < len; ++i) r(i, 0) = up(p[off(i)]);
        return r;
    }
    void expect(const RM& ref, const char* what, LD tol = 0) const
    {
        std::vector<char> may(n, 0);
        for (int i = 0; i < len; ++i) {
            may[off(i)] = 1;
            cx g = up(p[off(i)]);
            mc::mixd((double)g.re);
            cmpElt(g, ref(i, 0), tol, "wrong-result", what, i, 0);
        }
        for (size_t k = 0; k < n; ++k)
            if (!may[k] && !bitEq(p[k], before[k])) mc::fail("outside-write", "%s: memory outside the output changed at offset %ld (n %d inc %d)", what, (long)k - GUARD, len, inc);
    }
    void same(const char* what) const
    {
        mc::E().checks++;
        for (size_t k = 0; k < n; ++k)
            if (!bitEq(p[k], before[k])) mc::fail("modified", "%s changed at offset %ld", what, (long)k - GUARD);
    }
};
static auto ALLW = [](int, int) { return true; };
static cx gi(int i, int j, int s) { return gint<T>(i, j, s); }
static char pickLay() { return mc::pick("layout", {'C', 'R'}); }
static char pickTr() { return mc::pick("trans", {'N', 'T', 'C'}); }
static char pickUp() { return mc::pick("uplo", {'U', 'L'}); }
static char pickDg() { return mc::pick("diag", {'N', 'U'}); }
static char pickSd() { return mc::pick("side", {'L', 'R'}); }
static int pickInc(const char* n) { return mc::thorough() ? mc::pick(n, {1, -1, 2, -2, 3, -3}) : mc::pick(n, {1, -1, 2, -3}); }
static int pickPad(const char* n) { return mc::pick(n, {0, 2}); }
static int N() { return mc::thorough() ? 5 : 3; }
static cx pickSc(const char* n)
{
    int k = mc::choose(n, 3);
    return k == 0 ? cx(0) : k == 1 ? cx(1) : (CPLX ? cx(2, -1) : cx(-2));
}
static LD pickRe(const char* n)
{
    int k = mc::choose(n, 3);
    return k == 0 ? 0 : k == 1 ? 1 : -2;
}
static RM tri(const RM& A, char u, char d) { return triFrom(A, (Uplo)u, (Diag)d); }
static RM op(const RM& A, char o) { return opM(A, (Op)o); }
static bool inT(char u, int i, int j) { return u == 'U' ? i <= j : u == 'L' ? i >= j : true; }
static void start() { arenaTop = 0; }
static bool zero(cx a) { return a.re == 0 && a.im == 0; }
/// beta*C where beta==0 gives exactly 0 whatever C holds
static RM scaled(cx beta, const RM& C)
{
    if (zero(beta)) return RM(C.m, C.n);
    return beta * C;
}
static RM plus(cx alpha, const RM& P, cx beta, const RM& C)
{
    RM r = scaled(beta, C);
    return zero(alpha) ? r : r + alpha * P;
}

