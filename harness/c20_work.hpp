// C20: driver. A routine is run with a workspace of exactly the queried size in a guarded buffer for every initial
// content; all results must be bitwise equal to each other and equal to rounding to the self-allocating call.
#pragma once
#include "refl.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#ifndef MC_WL
    #define MC_WL 0  // 0 column-major matrix, 1 row-major matrix, 2 vector
#endif
static tl::Op pickT()
{
    if (CPLX) return mc::pick("trans", {tl::Op::NoTrans, tl::Op::ConjTrans});
    return mc::pick("trans", {tl::Op::NoTrans, tl::Op::Trans, tl::Op::ConjTrans});
}
static int HI() { return mc::thorough() ? 5 : 4; }
static RM gm(int m, int n, int s) { return family<T>(FAM_GENERIC, m, n, s); }

template <class S>
static S sentinel()
{
    // a NaN with a payload nothing computes
    S s;
    unsigned char* p = (unsigned char*)&s;
    const size_t h = sizeof(typename Sc<S>::real);
    for (size_t o = 0; o < sizeof(S); o += h) {
        if (h == 4) { uint32_t v = 0x7fdead42u; memcpy(p + o, &v, 4); }
        else { uint64_t v = 0x7ff9dead1234beefull; memcpy(p + o, &v, 8); }
    }
    return s;
}
template <class S>
struct WB {
    typedef typename Sc<S>::real RR;
    size_t m, n, ld;
    std::vector<S> b;
    std::vector<char> in;
    WB(const tl::WorkInfo& w, int content) : m(w.m), n(w.n)
    {
        ld = MC_WL == 1 ? n : m;
        const size_t sz = m * n;
        b.assign(sz + 2 * GUARD, sentinel<S>());
        LD v = content == 0 ? 0 : content == 1 ? NAN : content == 2 ? (LD)std::numeric_limits<RR>::max() : -(LD)INFINITY;
        for (size_t k = 0; k < sz; ++k) b[GUARD + k] = mk<S>(cx(v, content == 2 ? -v : v));
    }
    auto view()
    {
#if MC_WL == 0
        return tl::LegacyMatrix<S, size_t, tl::Layout::ColMajor>(m, n, b.data() + GUARD, m ? m : 1);
#elif MC_WL == 1
        return tl::LegacyMatrix<S, size_t, tl::Layout::RowMajor>(m, n, b.data() + GUARD, n ? n : 1);
#else
        return tl::LegacyVector<S, size_t>(m * n, b.data() + GUARD);
#endif
    }
    void check(const char* what)
    {
        S s = sentinel<S>();
        mc::E().checks++;
        for (size_t k = 0; k < b.size(); ++k)
            if ((k < GUARD || k >= GUARD + m * n) && !bitEq(b[k], s)) mc::fail("outside-workspace", "%s: wrote outside its workspace of %ldx%ld at offset %ld", what, (long)m, (long)n, (long)k - GUARD);
    }
};
struct Outs {
    std::vector<LD> v;
    std::vector<double> bits;
    template <class M>
    void mat(const M& A, const char* nm)
    {
        A.guards(nm);
        for (int i = 0; i < A.m; ++i)
            for (int j = 0; j < A.n; ++j) one(A(i, j));
    }
    template <class X>
    void vec(const GV<X>& x, const char* nm)
    {
        x.guards(nm);
        for (int i = 0; i < x.n; ++i) one(x[i]);
    }
    template <class X>
    void one(const X& x)
    {
        cx c = up(x);
        v.push_back(c.re);
        v.push_back(c.im);
    }
    void num(LD x) { v.push_back(x); }
    bool same(const Outs& o) const
    {
        if (v.size() != o.v.size()) return false;
        for (size_t i = 0; i < v.size(); ++i)
            if (!(v[i] == o.v[i] || (v[i] != v[i] && o.v[i] != o.v[i]))) return false;
        return true;
    }
};
static LD DEV = 1e4;
template <class S, class Run, class Alloc>
static void ws(const char* what, const tl::WorkInfo& w, Run run, Alloc alloc)
{
    Outs ref;
    alloc(ref);
    mc::mix((uint64_t)w.m * 1000 + w.n);
    for (LD x : ref.v) mc::mixd((double)x);
    LD big = 0;
    for (LD x : ref.v)
        if (fabsl(x) > big) big = fabsl(x);
    Outs first;
    for (int content = 0; content < 4; ++content) {
        WB<S> wb(w, content);
        auto view = wb.view();
        Outs o;
        try {
            run(view, o);
        }
        catch (const mc::Prune&) {
            throw;
        }
        catch (const std::exception& e) {
            wb.check(what);
            mc::fail("rejected", "%s: a workspace of exactly the queried size %ldx%ld was refused: %s", what, (long)w.m, (long)w.n, e.what());
            return;
        }
        wb.check(what);
        mc::E().checks++;
        if (content == 0) {
            first = o;
            if (o.v.size() != ref.v.size()) mc::fail("differs", "%s: number of outputs differs", what);
            for (size_t i = 0; i < ref.v.size() && i < o.v.size(); ++i) {
                LD d = fabsl(o.v[i] - ref.v[i]);
                if (o.v[i] == ref.v[i] || (o.v[i] != o.v[i] && ref.v[i] != ref.v[i])) continue;
                if (!(d <= DEV * EPS * big)) {
                    mc::fail("differs", "%s: output %ld is %Lg with a workspace but %Lg from the self-allocating call", what, (long)i, o.v[i], ref.v[i]);
                    break;
                }
            }
        }
        else if (!o.same(first))
            mc::fail("depends-on-contents", "%s: result depends on the initial workspace content (%s)", what, content == 1 ? "NaN" : content == 2 ? "huge" : "-Inf");
    }
}
static Mat matOf(const RM& r)
{
    Mat m(r.m, r.n);
    m.set(r);
    return m;
}
