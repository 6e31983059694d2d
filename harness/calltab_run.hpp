// Execution support shared by c21_args.cpp and c04_foot.cpp: padded operand buffers for the cases of calltab.hpp.
#pragma once
#include "calltab.hpp"

#include "mc.hpp"
namespace crun {
using ctab::C;
using ctab::Case;
using ctab::CPLX;
using ctab::R;
using ctab::T;
const int PADR = 4, LDN = 20, NEL = 420;  // every buffer holds LDN x 21 elements, views start at (4,4), vectors have stride 2
struct Buf {
    char kind;
    std::vector<unsigned char> mem;
    size_t es = 0;
};
inline size_t esize(char k) { return k == 'R' || k == 'm' ? sizeof(R) : k == 'C' ? sizeof(C) : k == 'P' ? sizeof(size_t) : sizeof(T); }
inline bool isMat(char k) { return k == 'M' || k == 'm'; }
constexpr bool COL = tlapack::Layout::MC_L == tlapack::Layout::ColMajor;
// buffer index of element (i,j) of an operand
inline int at(char k, int i, int j) { return isMat(k) ? (COL ? (PADR + j) * LDN + PADR + i : (PADR + i) * LDN + PADR + j) : PADR + 2 * i; }
inline int lds(char k) { return isMat(k) ? LDN : 2; }
// small deterministic data, never zero
inline double val(unsigned k, unsigned idx)
{
    unsigned h = (idx + 1) * 2654435761u ^ (k + 1) * 40503u * 977u;
    h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
    static const double v[] = {1, -1, 0.5, -0.5, 0.75, -0.25, 1.25, -1.5};
    return v[h & 7];
}
template <class E>
inline void put(std::vector<unsigned char>& m, int idx, const E& e) { memcpy(m.data() + idx * sizeof(E), &e, sizeof(E)); }
inline void setEl(Buf& b, int idx, double re, double im)
{
    switch (b.kind) {
        case 'R': case 'm': put<R>(b.mem, idx, R(re)); break;
        case 'C': put<C>(b.mem, idx, C(R(re), R(im))); break;
        case 'P': put<size_t>(b.mem, idx, 0); break;
        default:
            if constexpr (CPLX) put<C>(b.mem, idx, C(R(re), R(im)));
            else put<T>(b.mem, idx, T(re));
    }
}
// overwrite by NaN the part of an element that is not referenced (what: 0 everything, 2 imaginary part)
inline void poison(Buf& b, int idx, int what)
{
    if (b.kind == 'P') { size_t s; memset(&s, 0x5a, sizeof s); put<size_t>(b.mem, idx, s); return; }
    const R q = std::numeric_limits<R>::quiet_NaN();
    size_t n = b.es / sizeof(R);
    R* p = (R*)(b.mem.data() + idx * b.es);
    for (size_t c = what == 2 ? 1 : 0; c < n; ++c) p[c] = q;
}
struct Arena {
    std::vector<Buf> bufs;
    Plain p;
    Arena(const Case& c, const int* d, const char* o)
    {
        memset(&p, 0, sizeof p);
        memcpy(p.d, d, sizeof p.d);
        memcpy(p.o, o, sizeof p.o);
        bufs.resize(c.kinds.size());
        for (size_t k = 0; k < c.kinds.size(); ++k) {
            Buf& b = bufs[k];
            b.kind = c.kinds[k];
            if (b.kind == 'N') continue;
            b.es = esize(b.kind);
            b.mem.assign(NEL * b.es, 0);
            for (int i = 0; i < NEL; ++i) setEl(b, i, val(k, i), val(k + 17, i));
        }
        bind();
    }
    void bind()
    {
        for (size_t k = 0; k < bufs.size(); ++k)
            if (bufs[k].kind != 'N') p.ptr[k] = bufs[k].mem.data() + bufs[k].es * at(bufs[k].kind, 0, 0), p.ld[k] = lds(bufs[k].kind);
    }
    Arena(const Arena& a) : bufs(a.bufs), p(a.p) { bind(); }
};
inline std::string show(const Case& c, const int* d, const char* o)
{
    std::string s = c.name + " opts '";
    for (size_t i = 0; i < c.opts.size(); ++i) s += o[i] < 32 ? std::string("\\") + char('0' + o[i]) : std::string(1, o[i]);
    s += "' operands";
    for (size_t k = 0; k < c.kinds.size(); ++k) {
        s += " " + std::to_string(d[2 * k]);
        if (isMat(c.kinds[k])) s += "x" + std::to_string(d[2 * k + 1]);
    }
    return s;
}
// choose the case, the options and the base dimensions; returns nominal operand dimensions
inline const Case& select(int* d, char* o, int extra, int& badOpt, bool validOnly)
{
    const auto& tab = ctab::TAB();
    const Case& c = tab[mc::choose("case", (int)tab.size())];
    int b[8] = {0};
    memset(d, 0, sizeof(int) * 40);
    memset(o, 0, 8);
    badOpt = 0;
    for (size_t i = 0; i < c.opts.size(); ++i) {
        static char nm[8][8] = {"opt0", "opt1", "opt2", "opt3", "opt4"};
        o[i] = c.opts[i][mc::choose(nm[i], (int)c.opts[i].size())];
        if (o[i] == 'X') ++badOpt;
    }
    mc::require(validOnly ? badOpt == 0 : badOpt <= 1);
    for (int i = 0; i < c.nb; ++i) {
        static char nm[4][8] = {"base0", "base1", "base2", "base3"};
        b[i] = mc::range(nm[i], c.minBase, c.maxBase + (c.nb < 3 ? extra : extra / 2));
    }
    c.nominal(b, o, d);
    return c;
}
}  // namespace crun
