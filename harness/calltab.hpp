// Call table shared by C04 (footprint) and C21 (argument validation): for each routine the operands, options, the documented
// requirements on shapes and options, the referenced and written region of every operand, and the call itself.
// CT_NS renames the library namespace so that a second build (without argument checks) can be linked into the same program.
#pragma once
#ifdef CT_NS
#define tlapack CT_NS
#define ctab CT_TAB
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/base/utils.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/iamax.hpp>
#if MC_G == 1
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsm.hpp>
#include <tlapack/blas/trsv.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
#elif MC_G == 2
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/ul_mult.hpp>
#elif MC_G == 3
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/ungq.hpp>
#include <tlapack/lapack/ungq_level2.hpp>
#include <tlapack/lapack/unmq.hpp>
#include <tlapack/lapack/unmq_level2.hpp>
#elif MC_G == 4
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/gghd3.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/lahqr_shiftcolumn.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/lahqz_shiftcolumn.hpp>
#include <tlapack/lapack/multishift_qr.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/generalized_schur_swap.hpp>
#include <tlapack/lapack/tkhnv.hpp>
#include <tlapack/lapack/trevc.hpp>
#include <tlapack/lapack/unghr.hpp>
#elif MC_G == 5
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>
#include <tlapack/lapack/gesvd.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
#include <tlapack/lapack/labrd.hpp>
#include <tlapack/lapack/lahr2.hpp>
#include <tlapack/lapack/lasrt.hpp>
#include <tlapack/lapack/lassq.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/schur_move.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/trevc3.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/ungtr.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmrq.hpp>
#endif
#include <complex>
#include <functional>
#include <string>
#include <vector>

#ifndef CT_PLAIN
#define CT_PLAIN
struct Plain {
    int d[40];        // dimensions: d[2k], d[2k+1] of operand k
    char o[8];        // options
    void* ptr[16];    // first element of operand k
    int ld[16];       // leading dimension or increment
    double res[32];   // returned values
    int nres;
};
#endif
namespace ctab {
namespace tl = tlapack;
using tl::Diag;
using tl::Direction;
using tl::Norm;
using tl::Op;
using tl::Side;
using tl::StoreV;
using tl::Uplo;
typedef MC_T T;
typedef tl::real_type<T> R;
typedef tl::complex_type<R> C;
constexpr bool CPLX = tl::is_complex<T>;
template <class E>
using Mat = tl::LegacyMatrix<E, size_t, tl::Layout::MC_L>;
template <class E>
using Vec = tl::LegacyVector<E, size_t, int>;

struct X {
    Plain& p;
    Mat<T> M(int k) { return Mat<T>(p.d[2 * k], p.d[2 * k + 1], (T*)p.ptr[k], p.ld[k]); }
    Mat<R> MR(int k) { return Mat<R>(p.d[2 * k], p.d[2 * k + 1], (R*)p.ptr[k], p.ld[k]); }
    Vec<T> V(int k) { return Vec<T>(p.d[2 * k], (T*)p.ptr[k], p.ld[k]); }
    Vec<R> VR(int k) { return Vec<R>(p.d[2 * k], (R*)p.ptr[k], p.ld[k]); }
    Vec<C> VC(int k) { return Vec<C>(p.d[2 * k], (C*)p.ptr[k], p.ld[k]); }
    Vec<size_t> P(int k) { return Vec<size_t>(p.d[2 * k], (size_t*)p.ptr[k], p.ld[k]); }
    size_t N(int k) { return p.d[2 * k]; }
    void ret(double v) { p.res[p.nres++] = v; }
    void ret(const std::complex<double>& v) { ret(v.real()); ret(v.imag()); }
    void ret(const std::complex<float>& v) { ret(v.real()); ret(v.imag()); }
};
// region codes: value of the mask at (i,j): 0 not referenced / not written, 1 all, 2 real part only
typedef std::function<int(int, int)> Mask;
struct Foot {
    Mask rd[16], wr[16];
};
struct Case {
    std::string name;
    int nb;                          // number of base dimensions
    std::vector<std::string> opts;   // candidate characters of every option
    std::string kinds;               // operand kinds: M m V R C P N
    std::function<void(const int* b, const char* o, int* d)> nominal;
    std::function<int(const int* d, const char* o)> ok;  // 1 documented as valid, 0 invalid, -1 not specified
    std::function<void(const int* d, const char* o, Foot&)> foot;
    std::function<void(Plain&)> prep;
    std::function<void(X, const char* o)> call;
    int maxBase = 3, minBase = 0;
    bool quick = false;  // may return at once, before all checks, when an operand is empty
};
inline const Mask ALL = [](int, int) { return 1; };
inline const Mask NONE = [](int, int) { return 0; };
inline const Mask WORK = [](int, int) { return 3; };  // may be overwritten with anything
inline const Mask UP = [](int i, int j) { return int(i <= j); };
inline const Mask LO = [](int i, int j) { return int(i >= j); };
inline const Mask SUP = [](int i, int j) { return int(i < j); };
inline const Mask SLO = [](int i, int j) { return int(i > j); };
inline const Mask UPR = [](int i, int j) { return i < j ? 1 : i == j ? 2 : 0; };
inline const Mask LOR = [](int i, int j) { return i > j ? 1 : i == j ? 2 : 0; };
inline Mask tri(char u) { return u == 'U' ? UP : u == 'L' ? LO : ALL; }
inline Mask triR(char u) { return u == 'U' ? UPR : LOR; }
inline Mask triD(char u, char dg) { return dg == 'U' ? (u == 'U' ? SUP : SLO) : tri(u); }
inline const char* OPS = "NTC\3X";
inline const char* UPLO3 = "ULGX";
inline bool isOp(char c) { return c == 'N' || c == 'T' || c == 'C'; }
inline bool isUL(char c) { return c == 'U' || c == 'L'; }
inline bool isLR(char c) { return c == 'R' || c == 'L'; }
inline bool isNU(char c) { return c == 'N' || c == 'U'; }
// rows/columns of op(M) of operand k
inline int opr(const int* d, int k, char t) { return t == 'N' ? d[2 * k] : d[2 * k + 1]; }
inline int opc(const int* d, int k, char t) { return t == 'N' ? d[2 * k + 1] : d[2 * k]; }
inline void setd(int* d, int k, int r, int c = 1) { d[2 * k] = r; d[2 * k + 1] = c; }
inline void setop(int* d, int k, char t, int r, int c) { if (t == 'N') setd(d, k, r, c); else setd(d, k, c, r); }
#define DIMS const int *b, const char *o, int *d
#define PRED const int *d, const char *o
#define FOOT const int *d, const char *o, Foot &f
#define RR(k) d[2 * (k)]
#define CC(k) d[2 * (k) + 1]
#define SQR(k) (RR(k) == CC(k))
typedef std::vector<std::string> Os;

inline std::vector<Case> table()
{
    std::vector<Case> cs;
    const T al = T(R(2)), be = T(R(-1));
    auto add = [&](Case c) { cs.push_back(c); };
    auto noprep = [](Plain&) {};
#if MC_G == 1
    // ---- level 1 ----
    for (int w = 0; w < 2; ++w)
        add({w ? "copy" : "axpy", 1, {}, "VV", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); }, [](PRED) { return RR(1) >= RR(0) ? 1 : 0; },
             [w](FOOT) { int n = RR(0); f.wr[1] = [n](int i, int) { return i < n; }; f.rd[1] = w ? NONE : f.wr[1]; }, noprep,
             [=](X x, const char*) { auto a = x.V(0), y = x.V(1); if (w) tl::copy(a, y); else tl::axpy(al, a, y); }});
    add({"swap", 1, {}, "VV", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); }, [](PRED) { return RR(1) == RR(0) ? 1 : 0; },
         [](FOOT) { f.wr[0] = f.wr[1] = ALL; }, noprep, [](X x, const char*) { auto a = x.V(0), y = x.V(1); tl::swap(a, y); }});
    add({"dot", 1, {}, "VV", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); }, [](PRED) { return RR(1) == RR(0) ? 1 : 0; },
         [](FOOT) {}, noprep, [](X x, const char*) { auto a = x.V(0), y = x.V(1); x.ret(tl::dot(a, y)); }});
    add({"dotu", 1, {}, "VV", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); }, [](PRED) { return RR(1) == RR(0) ? 1 : 0; },
         [](FOOT) {}, noprep, [](X x, const char*) { auto a = x.V(0), y = x.V(1); x.ret(tl::dotu(a, y)); }});
    add({"rot", 1, {}, "VV", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); }, [](PRED) { return RR(1) == RR(0) ? 1 : 0; },
         [](FOOT) { f.wr[0] = f.wr[1] = ALL; }, noprep, [](X x, const char*) { auto a = x.V(0), y = x.V(1); tl::rot(a, y, R(0.6), T(R(0.8))); }});
    if constexpr (!CPLX)
        add({"rotm", 1, {}, "VV", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); }, [](PRED) { return RR(1) == RR(0) ? 1 : 0; },
             [](FOOT) { f.wr[0] = f.wr[1] = ALL; }, noprep, [](X x, const char*) { auto a = x.V(0), y = x.V(1); R h[4] = {R(0.5), R(0.25), R(-0.75), R(2)}; tl::rotm<-1>(a, y, h); }});
    add({"nrm2 asum iamax scal", 1, {}, "V", [](DIMS) { setd(d, 0, b[0]); }, [](PRED) { return 1; },
         [](FOOT) { f.wr[0] = ALL; }, noprep, [=](X x, const char*) { auto a = x.V(0); x.ret(tl::nrm2(a)); x.ret(tl::asum(a)); x.ret((double)tl::iamax(a)); tl::scal(al, a); }});
    // ---- level 2 ----
    for (int w = 0; w < 2; ++w)
        add({w ? "gemv (no beta)" : "gemv", 2, {OPS}, "MVV", [](DIMS) { setop(d, 0, o[0], b[0], b[1]); setd(d, 1, b[1]); setd(d, 2, b[0]); },
             [](PRED) { return o[0] == 3 ? -1 : isOp(o[0]) && RR(1) == opc(d, 0, o[0]) && RR(2) == opr(d, 0, o[0]) ? 1 : 0; },
             [w](FOOT) { f.wr[2] = w && RR(1) == 0 ? WORK : ALL; if (w) f.rd[2] = NONE; /* returns at once when x is empty */ }, noprep,
             [=](X x, const char* o) { auto a = x.M(0); auto v = x.V(1), y = x.V(2); if (w) tl::gemv((Op)o[0], al, a, v, y); else tl::gemv((Op)o[0], al, a, v, be, y); }});
    for (int w = 0; w < 2; ++w)
        add({w ? "geru" : "ger", 2, {}, "VVM", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[1]); setd(d, 2, b[0], b[1]); },
             [](PRED) { return RR(0) == RR(2) && RR(1) == CC(2) ? 1 : 0; }, [](FOOT) { f.wr[2] = ALL; }, noprep,
             [=](X x, const char*) { auto a = x.M(2); auto v = x.V(0), y = x.V(1); if (w) tl::geru(al, v, y, a); else tl::ger(al, v, y, a); }});
    for (int w = 0; w < 4; ++w) {
        bool he = w & 1, nb = w & 2;
        add({std::string(he ? "hemv" : "symv") + (nb ? " (no beta)" : ""), 1, {UPLO3}, "MVV", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0]); setd(d, 2, b[0]); },
             [](PRED) { return isUL(o[0]) && SQR(0) && RR(1) == RR(0) && RR(2) == RR(0) ? 1 : o[0] == 'G' ? -1 : 0; },
             [=](FOOT) { f.rd[0] = he ? triR(o[0]) : tri(o[0]); f.wr[2] = ALL; if (nb) f.rd[2] = NONE; }, noprep,
             [=](X x, const char* o) {
                 auto a = x.M(0); auto v = x.V(1), y = x.V(2);
                 if (he && nb) tl::hemv((Uplo)o[0], al, a, v, y);
                 else if (he) tl::hemv((Uplo)o[0], al, a, v, be, y);
                 else if (nb) tl::symv((Uplo)o[0], al, a, v, y);
                 else tl::symv((Uplo)o[0], al, a, v, be, y);
             }});
    }
    for (int w = 0; w < 2; ++w)
        add({w ? "her" : "syr", 1, {UPLO3}, "VM", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0], b[0]); },
             [](PRED) { return isUL(o[0]) && SQR(1) && RR(0) == RR(1) ? 1 : o[0] == 'G' ? -1 : 0; },
             [=](FOOT) { f.rd[1] = w ? triR(o[0]) : tri(o[0]); f.wr[1] = tri(o[0]); }, noprep,
             [=](X x, const char* o) { auto v = x.V(0); auto a = x.M(1); if (w) tl::her((Uplo)o[0], R(2), v, a); else tl::syr((Uplo)o[0], al, v, a); }});
    for (int w = 0; w < 2; ++w)
        add({w ? "her2" : "syr2", 1, {UPLO3}, "VVM", [](DIMS) { setd(d, 0, b[0]); setd(d, 1, b[0]); setd(d, 2, b[0], b[0]); },
             [](PRED) { return isUL(o[0]) && SQR(2) && RR(0) == RR(2) && RR(1) == RR(2) ? 1 : o[0] == 'G' ? -1 : 0; },
             [=](FOOT) { f.rd[2] = w ? triR(o[0]) : tri(o[0]); f.wr[2] = tri(o[0]); }, noprep,
             [=](X x, const char* o) { auto v = x.V(0), y = x.V(1); auto a = x.M(2); if (w) tl::her2((Uplo)o[0], al, v, y, a); else tl::syr2((Uplo)o[0], al, v, y, a); }});
    for (int w = 0; w < 2; ++w)
        add({w ? "trsv" : "trmv", 1, {UPLO3, OPS, "NUX"}, "MV", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0]); },
             [](PRED) { return o[1] == 3 || o[0] == 'G' ? -1 : isUL(o[0]) && isOp(o[1]) && isNU(o[2]) && SQR(0) && RR(1) == RR(0) ? 1 : 0; },
             [=](FOOT) { f.rd[0] = triD(o[0], o[2]); f.wr[1] = ALL; }, noprep,
             [=](X x, const char* o) { auto a = x.M(0); auto v = x.V(1); if (w) tl::trsv((Uplo)o[0], (Op)o[1], (Diag)o[2], a, v); else tl::trmv((Uplo)o[0], (Op)o[1], (Diag)o[2], a, v); }});
    // ---- level 3 ----
    for (int w = 0; w < 2; ++w)
        add({w ? "gemm (no beta)" : "gemm", 3, {OPS, OPS}, "MMM", [](DIMS) { setop(d, 0, o[0], b[0], b[2]); setop(d, 1, o[1], b[2], b[1]); setd(d, 2, b[0], b[1]); },
             [](PRED) { return o[0] == 3 || o[1] == 3 ? -1 : isOp(o[0]) && isOp(o[1]) && opr(d, 0, o[0]) == RR(2) && opc(d, 1, o[1]) == CC(2) && opc(d, 0, o[0]) == opr(d, 1, o[1]) ? 1 : 0; },
             [=](FOOT) { f.wr[2] = ALL; if (w) f.rd[2] = NONE; }, noprep,
             [=](X x, const char* o) { auto a = x.M(0), B = x.M(1), c = x.M(2); if (w) tl::gemm((Op)o[0], (Op)o[1], al, a, B, c); else tl::gemm((Op)o[0], (Op)o[1], al, a, B, be, c); }});
    add({"gemmtr", 2, {UPLO3, OPS, OPS}, "MMM", [](DIMS) { setop(d, 0, o[1], b[0], b[1]); setop(d, 1, o[2], b[1], b[0]); setd(d, 2, b[0], b[0]); },
             [](PRED) { return o[0] == 'G' || o[1] == 3 || o[2] == 3 ? -1 : isUL(o[0]) && isOp(o[1]) && isOp(o[2]) && SQR(2) && opr(d, 0, o[1]) == RR(2) && opc(d, 1, o[2]) == CC(2) && opc(d, 0, o[1]) == opr(d, 1, o[2]) ? 1 : 0; },
             [=](FOOT) { f.wr[2] = tri(o[0]); f.rd[2] = tri(o[0]); }, noprep,
             [=](X x, const char* o) { auto a = x.M(0), B = x.M(1), c = x.M(2); tl::gemmtr((Uplo)o[0], (Op)o[1], (Op)o[2], al, a, B, be, c); }});
    for (int w = 0; w < 4; ++w) {
        bool he = w & 1, nb = w & 2;
        add({std::string(he ? "hemm" : "symm") + (nb ? " (no beta)" : ""), 2, {"LRBX", UPLO3}, "MMM",
             [](DIMS) { int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k, k); setd(d, 1, b[0], b[1]); setd(d, 2, b[0], b[1]); },
             [](PRED) { return o[1] == 'G' ? -1 : isLR(o[0]) && isUL(o[1]) && SQR(0) && RR(0) == (o[0] == 'L' ? RR(1) : CC(1)) && RR(2) == RR(1) && CC(2) == CC(1) ? 1 : 0; },
             [=](FOOT) { f.rd[0] = he ? triR(o[1]) : tri(o[1]); f.wr[2] = ALL; if (nb) f.rd[2] = NONE; }, noprep,
             [=](X x, const char* o) {
                 auto a = x.M(0), B = x.M(1), c = x.M(2);
                 if (he && nb) tl::hemm((Side)o[0], (Uplo)o[1], al, a, B, c);
                 else if (he) tl::hemm((Side)o[0], (Uplo)o[1], al, a, B, be, c);
                 else if (nb) tl::symm((Side)o[0], (Uplo)o[1], al, a, B, c);
                 else tl::symm((Side)o[0], (Uplo)o[1], al, a, B, be, c);
             }});
    }
    for (int w = 0; w < 4; ++w) {
        bool he = w & 1, nb = w & 2;
        const char* ops = he ? "NCTX" : (CPLX ? "NTCX" : "NTX");
        char t2 = he ? 'C' : 'T';
        add({std::string(he ? "herk" : "syrk") + (nb ? " (no beta)" : ""), 2, {UPLO3, ops}, "MM", [](DIMS) { setop(d, 0, o[1], b[0], b[1]); setd(d, 1, b[0], b[0]); },
             [=](PRED) { return o[0] == 'G' || (!CPLX && o[1] != 'N' && o[1] != t2) ? -1 : isUL(o[0]) && (o[1] == 'N' || o[1] == t2) && SQR(1) && opr(d, 0, o[1]) == RR(1) ? 1 : 0; },
             [=](FOOT) { f.rd[1] = nb ? NONE : he ? triR(o[0]) : tri(o[0]); f.wr[1] = tri(o[0]); }, noprep,
             [=](X x, const char* o) {
                 auto a = x.M(0), c = x.M(1);
                 if (he && nb) tl::herk((Uplo)o[0], (Op)o[1], R(2), a, c);
                 else if (he) tl::herk((Uplo)o[0], (Op)o[1], R(2), a, R(-1), c);
                 else if (nb) tl::syrk((Uplo)o[0], (Op)o[1], al, a, c);
                 else tl::syrk((Uplo)o[0], (Op)o[1], al, a, be, c);
             }});
        add({std::string(he ? "her2k" : "syr2k") + (nb ? " (no beta)" : ""), 2, {UPLO3, ops}, "MMM", [](DIMS) { setop(d, 0, o[1], b[0], b[1]); setop(d, 1, o[1], b[0], b[1]); setd(d, 2, b[0], b[0]); },
             [=](PRED) { return o[0] == 'G' || (!CPLX && o[1] != 'N' && o[1] != t2) ? -1 : isUL(o[0]) && (o[1] == 'N' || o[1] == t2) && SQR(2) && opr(d, 0, o[1]) == RR(2) && RR(0) == RR(1) && CC(0) == CC(1) ? 1 : 0; },
             [=](FOOT) { f.rd[2] = nb ? NONE : he ? triR(o[0]) : tri(o[0]); f.wr[2] = tri(o[0]); }, noprep,
             [=](X x, const char* o) {
                 auto a = x.M(0), B = x.M(1), c = x.M(2);
                 if (he && nb) tl::her2k((Uplo)o[0], (Op)o[1], al, a, B, c);
                 else if (he) tl::her2k((Uplo)o[0], (Op)o[1], al, a, B, R(-1), c);
                 else if (nb) tl::syr2k((Uplo)o[0], (Op)o[1], al, a, B, c);
                 else tl::syr2k((Uplo)o[0], (Op)o[1], al, a, B, be, c);
             }});
    }
    for (int w = 0; w < 2; ++w)
        add({w ? "trsm" : "trmm", 2, {"LRBX", UPLO3, OPS, "NUX"}, "MM", [](DIMS) { int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k, k); setd(d, 1, b[0], b[1]); },
             [](PRED) { return o[2] == 3 || o[1] == 'G' ? -1 : isLR(o[0]) && isUL(o[1]) && isOp(o[2]) && isNU(o[3]) && SQR(0) && RR(0) == (o[0] == 'L' ? RR(1) : CC(1)) ? 1 : 0; },
             [=](FOOT) { f.rd[0] = triD(o[1], o[3]); f.wr[1] = ALL; }, noprep,
             [=](X x, const char* o) { auto a = x.M(0), B = x.M(1); if (w) tl::trsm((Side)o[0], (Uplo)o[1], (Op)o[2], (Diag)o[3], al, a, B); else tl::trmm((Side)o[0], (Uplo)o[1], (Op)o[2], (Diag)o[3], al, a, B); }});
    add({"hemm2", 2, {"LRX", UPLO3, "NTC"}, "MMM",
         [](DIMS) { setop(d, 1, o[2], b[0], b[1]); int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k, k); setd(d, 2, b[0], b[1]); },
         [](PRED) { return o[1] == 'G' ? -1 : isLR(o[0]) && isUL(o[1]) && SQR(0) && RR(0) == (o[0] == 'L' ? opr(d, 1, o[2]) : opc(d, 1, o[2])) && RR(2) == opr(d, 1, o[2]) && CC(2) == opc(d, 1, o[2]) ? 1 : 0; },
         [](FOOT) { f.rd[0] = triR(o[1]); f.wr[2] = ALL; }, noprep,
         [=](X x, const char* o) { auto a = x.M(0), B = x.M(1), c = x.M(2); tl::hemm2((Side)o[0], (Uplo)o[1], (Op)o[2], al, a, B, be, c); }});
    add({"trmm_blocked_mixed", 2, {"LRBX", UPLO3, OPS, "NUX"}, "MMM", [](DIMS) { int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k, k); setd(d, 1, b[0], b[1]); setd(d, 2, std::min(2, b[0]), b[1]); },
         [](PRED) { return o[2] == 3 || o[1] == 'G' ? -1 : isLR(o[0]) && isUL(o[1]) && isOp(o[2]) && isNU(o[3]) && SQR(0) && RR(0) == (o[0] == 'L' ? RR(1) : CC(1)) ? (RR(2) == std::min(2, RR(1)) && CC(2) == CC(1) ? 1 : -1) : 0; },
         [=](FOOT) { f.rd[0] = triD(o[1], o[3]); f.wr[1] = ALL; f.rd[2] = NONE; f.wr[2] = WORK; }, noprep,
         [=](X x, const char* o) { auto a = x.M(0), B = x.M(1), W = x.M(2); tl::TrmmBlockedOpts q; q.nb = 2; tl::trmm_blocked_mixed((Side)o[0], (Uplo)o[1], (Op)o[2], (Diag)o[3], al, a, B, W, q); }});
#elif MC_G == 2
    auto pd = [](Plain& p) {  // positive definite in both triangles
        T* a = (T*)p.ptr[0];
        for (int i = 0; i < p.d[0] && i < p.d[1]; ++i) a[(size_t)i * p.ld[0] + i] = T(R(8 + i));
    };
    auto dom = [](Plain& p) {
        T* a = (T*)p.ptr[0];
        for (int i = 0; i < p.d[0] && i < p.d[1]; ++i) a[(size_t)i * p.ld[0] + i] = a[(size_t)i * p.ld[0] + i] + T(R(4));
    };
    for (int w = 0; w < 2; ++w)
        add({w ? "getrf recursive" : "getrf level0", 2, {}, "MP", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, std::min(b[0], b[1])); },
             [](PRED) { return RR(1) >= std::min(RR(0), CC(0)) ? 1 : 0; },
             [](FOOT) { int k = std::min(RR(0), CC(0)); f.wr[0] = ALL; f.wr[1] = [k](int i, int) { return i < k; }; f.rd[1] = NONE; }, dom,
             [w](X x, const char*) { auto a = x.M(0); auto p = x.P(1); x.ret(tl::getrf(a, p, tl::GetrfOpts{w ? tl::GetrfVariant::Recursive : tl::GetrfVariant::Level0})); }, 4});
    add({"getri", 1, {}, "MP", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0]); }, [](PRED) { return SQR(0) && RR(1) == RR(0) ? 1 : !SQR(0) ? 0 : -1; },
         [](FOOT) { f.wr[0] = ALL; }, [dom](Plain& p) { dom(p); size_t* q = (size_t*)p.ptr[1]; for (int i = 0; i < p.d[2]; ++i) q[(size_t)i * p.ld[1]] = p.d[0] - 1 - (i % 2 && i + 1 < p.d[0] ? 0 : p.d[0] - 1 - i); },
         [](X x, const char*) { auto a = x.M(0); auto p = x.P(1); x.ret(tl::getri(a, p, tl::GetriOpts{tl::GetriVariant::UXLI})); }});
    for (int v = 0; v < 6; ++v) {
        static const char* nm[] = {"potf2", "potrf blocked", "potrf right-looking", "potrf recursive", "potrf level 2", "potrf2"};
        add({nm[v], 1, {UPLO3}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && SQR(0) ? 1 : 0; },
             [](FOOT) { f.rd[0] = triR(o[0]); f.wr[0] = tri(o[0]); }, pd,
             [v](X x, const char* o) {
                 auto a = x.M(0);
                 tl::PotrfOpts q; q.nb = 2;
                 q.variant = v == 1 ? tl::PotrfVariant::Blocked : v == 2 ? tl::PotrfVariant::RightLooking : v == 3 ? tl::PotrfVariant::Recursive : tl::PotrfVariant::Level2;
                 x.ret(v == 0 ? tl::potf2((Uplo)o[0], a) : v == 5 ? tl::potrf2((Uplo)o[0], a) : tl::potrf((Uplo)o[0], a, q));
             }, 5});
    }
    add({"potri", 1, {UPLO3}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && SQR(0) ? 1 : 0; },
         [](FOOT) { f.rd[0] = triR(o[0]); f.wr[0] = tri(o[0]); }, pd, [](X x, const char* o) { auto a = x.M(0); tl::potri((Uplo)o[0], a); }, 4});
    add({"potrs", 2, {UPLO3}, "MM", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0], b[1]); }, [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && SQR(0) && RR(1) == RR(0) ? 1 : 0; },
         [](FOOT) { f.rd[0] = tri(o[0]); f.wr[1] = ALL; }, pd, [](X x, const char* o) { auto a = x.M(0), B = x.M(1); x.ret(tl::potrs((Uplo)o[0], a, B)); }});
    add({"pttrf", 1, {}, "RV", [](DIMS) { setd(d, 0, b[0] + 1); setd(d, 1, b[0]); }, [](PRED) { return RR(0) == RR(1) + 1 ? 1 : 0; },
         [](FOOT) { f.wr[0] = f.wr[1] = ALL; }, [](Plain& p) { R* a = (R*)p.ptr[0]; for (int i = 0; i < p.d[0]; ++i) a[(size_t)i * p.ld[0]] = R(5); },
         [](X x, const char*) { auto a = x.VR(0); auto e = x.V(1); x.ret(tl::pttrf(a, e)); }});
    add({"pbtrf_with_workspace", 1, {UPLO3}, "MN", [](DIMS) { setd(d, 0, b[0] + 1, b[0] + 1); setd(d, 1, b[0] / 2 + (b[0] > 0)); },
         [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && SQR(0) && RR(1) < RR(0) ? 1 : 0; },
         [](FOOT) { int k = RR(1); char u = o[0]; Mask m = [k, u](int i, int j) { return u == 'U' ? (i <= j && j <= i + k) : (j <= i && i <= j + k); };
                    f.wr[0] = m; f.rd[0] = [m](int i, int j) { return m(i, j) ? (i == j ? 2 : 1) : 0; }; }, pd,
         [](X x, const char* o) { auto a = x.M(0); tl::BlockedBandedCholeskyOpts q; q.nb = 2; tl::pbtrf_with_workspace((Uplo)o[0], a, x.N(1), q); }, 4});
    add({"hetrf", 1, {UPLO3, "TCX"}, "MP", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0]); },
         [](PRED) { return o[0] == 'G' || (!CPLX && o[1] == 'C') ? -1 : !isUL(o[0]) || (o[1] != 'T' && o[1] != 'C') || !SQR(0) ? 0 : RR(1) == RR(0) ? 1 : -1; },
         [](FOOT) { f.rd[0] = CPLX && o[1] == 'C' ? triR(o[0]) : tri(o[0]); f.wr[0] = tri(o[0]); f.wr[1] = ALL; f.rd[1] = NONE; }, noprep,
         [](X x, const char* o) { auto a = x.M(0); std::vector<int> p(x.N(1)); tl::HetrfOpts q; q.nb = 2; q.invariant = (Op)o[1]; x.ret(tl::hetrf((Uplo)o[0], a, p, q)); auto w = x.P(1); for (size_t i = 0; i < p.size(); ++i) w[i] = p[i]; }, 5});
    add({"trtri", 1, {UPLO3, "NUX"}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && isNU(o[1]) && SQR(0) ? 1 : 0; },
         [](FOOT) { f.rd[0] = f.wr[0] = triD(o[0], o[1]); }, dom, [](X x, const char* o) { auto a = x.M(0); x.ret(tl::trtri_recursive((Uplo)o[0], (Diag)o[1], a)); }, 5});
    add({"lauum", 1, {UPLO3}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && SQR(0) ? 1 : 0; },
         [](FOOT) { f.rd[0] = f.wr[0] = tri(o[0]); }, noprep, [](X x, const char* o) { auto a = x.M(0); x.ret(tl::lauum_recursive((Uplo)o[0], a)); }, 5});
    for (int v = 0; v < 4; ++v) {
        static const char* nm[] = {"lu_mult", "ul_mult", "mult_llh", "mult_uhu"};
        add({nm[v], 1, {}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return SQR(0) ? 1 : 0; },
             [v](FOOT) { f.rd[0] = f.wr[0] = v < 2 ? ALL : v == 2 ? LO : UP; }, noprep,
             [v](X x, const char*) {
                 auto a = x.M(0);
                 if (v == 0) tl::lu_mult(a, tl::LuMultOpts{2});
                 if (v == 1) tl::ul_mult(a);
                 if (v == 2) tl::mult_llh(a, tl::mult_llh_Opts{2});
                 if (v == 3) tl::mult_uhu(a, tl::mult_uhu_Opts{2});
             }, 5});
    }
    static const std::string U7 = std::string("GULHS") + "\4\6X";
    auto region = [](char u) -> Mask {
        switch (u) {
            case 'G': return ALL;
            case 'U': return UP;
            case 'L': return LO;
            case 'H': return [](int i, int j) { return int(i <= j + 1); };
            case 4: return [](int i, int j) { return int(j <= i + 1); };
            case 'S': return SUP;
            default: return SLO;
        }
    };
    for (int v = 0; v < 2; ++v)
        add({v ? "hasinf" : "hasnan", 2, {U7}, "M", [](DIMS) { setd(d, 0, b[0], b[1]); }, [](PRED) { return o[0] == 'X' ? 0 : 1; },
             [region](FOOT) { f.rd[0] = region(o[0]); }, noprep, [v](X x, const char* o) { auto a = x.M(0); x.ret(v ? tl::hasinf((Uplo)o[0], a) : tl::hasnan((Uplo)o[0], a)); }, 4});
    add({"lascl", 2, {U7}, "M", [](DIMS) { setd(d, 0, b[0], b[1]); }, [](PRED) { return o[0] == 'X' ? 0 : 1; },
         [region](FOOT) { f.rd[0] = f.wr[0] = region(o[0]); }, noprep, [](X x, const char* o) { auto a = x.M(0); x.ret(tl::lascl((Uplo)o[0], R(3), R(2), a)); }, 4});
    add({"lascl arguments", 1, {"0NnI1"}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return o[0] == '1' || o[0] == 'I' ? 1 : 0; },
         [](FOOT) { f.wr[0] = ALL; }, noprep,
         [](X x, const char* o) { auto a = x.M(0); R q = std::numeric_limits<R>::quiet_NaN(), inf = std::numeric_limits<R>::infinity();
                                  x.ret(tl::lascl(Uplo::General, o[0] == '0' ? R(0) : o[0] == 'N' ? q : o[0] == 'I' ? inf : R(1), o[0] == 'n' ? q : R(2), a)); }});
    add({"lascl banded", 2, {}, "MNN", [](DIMS) { setd(d, 0, b[0] + 1, b[1] + 1); setd(d, 1, b[0] / 2); setd(d, 2, b[1] / 2); }, [](PRED) { return RR(0) == 0 || CC(0) == 0 ? -1 : RR(1) < RR(0) && RR(2) < CC(0) ? 1 : 0; },
         [](FOOT) { int kl = RR(1), ku = RR(2); f.rd[0] = f.wr[0] = [=](int i, int j) { return int(i <= j + kl && j <= i + ku); }; }, noprep,
         [](X x, const char*) { auto a = x.M(0); x.ret(tl::lascl(tl::BandAccess(x.N(1), x.N(2)), R(3), R(2), a)); }});
    add({"laset", 2, {"ULGHX"}, "M", [](DIMS) { setd(d, 0, b[0], b[1]); }, [](PRED) { return o[0] == 'X' || o[0] == 'H' ? 0 : 1; },
         [region](FOOT) { f.wr[0] = region(o[0]); f.rd[0] = NONE; }, noprep, [=](X x, const char* o) { auto a = x.M(0); tl::laset((Uplo)o[0], al, be, a); }, 4});
    add({"lacpy", 2, {"ULGHX"}, "MM", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, b[0], b[1]); }, [](PRED) { return o[0] == 'X' || o[0] == 'H' ? 0 : RR(1) >= RR(0) && CC(1) >= CC(0) ? 1 : -1; },
         [region](FOOT) { int m = RR(0), n = CC(0); Mask r = region(o[0]); f.rd[0] = r; f.wr[1] = [=](int i, int j) { return int(i < m && j < n && r(i, j)); }; f.rd[1] = NONE; }, noprep,
         [](X x, const char* o) { auto a = x.M(0), B = x.M(1); tl::lacpy((Uplo)o[0], a, B); }, 4});
    const char* NRM = "M1IF2X";
    auto isNrm = [](char c) { return c == 'M' || c == '1' || c == 'I' || c == 'F'; };
    add({"lange", 2, {NRM}, "M", [](DIMS) { setd(d, 0, b[0], b[1]); }, [isNrm](PRED) { return isNrm(o[0]) ? 1 : 0; },
         [](FOOT) {}, noprep, [](X x, const char* o) { auto a = x.M(0); x.ret(tl::lange((Norm)o[0], a)); }, 4});
    for (int v = 0; v < 2; ++v)
        add({v ? "lansy" : "lanhe", 1, {NRM, UPLO3}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [isNrm](PRED) { return o[1] == 'G' ? -1 : !isNrm(o[0]) || !isUL(o[1]) ? 0 : SQR(0) ? 1 : -1; },
             [v](FOOT) { f.rd[0] = v ? tri(o[1]) : triR(o[1]); }, noprep, [v](X x, const char* o) { auto a = x.M(0); x.ret(v ? tl::lansy((Norm)o[0], (Uplo)o[1], a) : tl::lanhe((Norm)o[0], (Uplo)o[1], a)); }, 4});
    add({"lantr", 2, {NRM, UPLO3, "NUX"}, "M", [](DIMS) { setd(d, 0, b[0], b[1]); }, [isNrm](PRED) { return o[1] == 'G' ? -1 : isNrm(o[0]) && isUL(o[1]) && isNU(o[2]) ? 1 : 0; },
         [](FOOT) { f.rd[0] = triD(o[1], o[2]); }, noprep, [](X x, const char* o) { auto a = x.M(0); x.ret(tl::lantr((Norm)o[0], (Uplo)o[1], (Diag)o[2], a)); }, 4});
    for (int v = 0; v < 2; ++v)
        add({v ? "infnorm_symmetric_colmajor" : "infnorm_hermitian_colmajor", 1, {UPLO3}, "M", [](DIMS) { setd(d, 0, b[0], b[0]); }, [](PRED) { return o[0] == 'G' ? -1 : !isUL(o[0]) ? 0 : SQR(0) ? 1 : -1; },
             [v](FOOT) { f.rd[0] = v ? tri(o[0]) : triR(o[0]); }, noprep, [v](X x, const char* o) { auto a = x.M(0); x.ret(v ? tl::infnorm_symmetric_colmajor((Uplo)o[0], a) : tl::infnorm_hermitian_colmajor((Uplo)o[0], a)); }, 4});
    add({"infnorm_triangular_colmajor", 2, {UPLO3, "NUX"}, "M", [](DIMS) { setd(d, 0, b[0], b[1]); }, [](PRED) { return o[0] == 'G' ? -1 : isUL(o[0]) && isNU(o[1]) ? 1 : 0; },
         [](FOOT) { f.rd[0] = triD(o[0], o[1]); }, noprep, [](X x, const char* o) { auto a = x.M(0); x.ret(tl::infnorm_triangular_colmajor((Uplo)o[0], (Diag)o[1], a)); }, 4});
    for (int v = 0; v < 2; ++v)
        add({v ? "conjtranspose" : "transpose", 2, {}, "MMN", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, b[1], b[0]); setd(d, 2, 2); }, [](PRED) { return RR(0) == CC(1) && CC(0) == RR(1) && RR(2) >= 2 ? 1 : 0; },
             [](FOOT) { f.wr[1] = ALL; f.rd[1] = NONE; }, noprep,
             [v](X x, const char*) { auto a = x.M(0), B = x.M(1); tl::TransposeOpts q; q.nx = x.N(2); if (v) tl::conjtranspose(a, B, q); else tl::transpose(a, B, q); }, 4});
    add({"conjugate", 1, {}, "V", [](DIMS) { setd(d, 0, b[0]); }, [](PRED) { return 1; }, [](FOOT) { f.wr[0] = ALL; }, noprep, [](X x, const char*) { auto a = x.V(0); tl::conjugate(a); }});
#elif MC_G == 3
    for (int v = 0; v < 8; ++v) {
        static const char* nm[] = {"geqr2", "geqrf", "gelq2", "gelqf", "geql2", "geqlf", "gerq2", "gerqf"};
        add({nm[v], 2, {}, "MV", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, std::min(b[0], b[1])); }, [](PRED) { return RR(1) >= std::min(RR(0), CC(0)) ? 1 : 0; },
             [](FOOT) { int k = std::min(RR(0), CC(0)); f.wr[0] = ALL; f.wr[1] = [k](int i, int) { return i < k; }; f.rd[1] = NONE; }, noprep,
             [v](X x, const char*) {
                 auto a = x.M(0); auto t = x.V(1);
                 int r = v == 0 ? tl::geqr2(a, t) : v == 1 ? tl::geqrf(a, t, tl::GeqrfOpts{2}) : v == 2 ? tl::gelq2(a, t) : v == 3 ? tl::gelqf(a, t, tl::GelqfOpts{2}) : v == 4 ? tl::geql2(a, t) : v == 5 ? tl::geqlf(a, t, tl::GeqlfOpts{2}) : v == 6 ? tl::gerq2(a, t) : tl::gerqf(a, t, tl::GerqfOpts{2});
                 x.ret(r);
             }, 4});
    }
    add({"gelqt", 2, {}, "MM", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, b[0], 2); }, [](PRED) { return CC(1) == 0 ? -1 : RR(1) >= RR(0) ? 1 : 0; },
         [](FOOT) { f.wr[0] = f.wr[1] = ALL; f.rd[1] = [](int i, int j) { return 1; }; }, noprep,
         [](X x, const char*) { auto a = x.M(0), t = x.M(1); x.ret(tl::gelqt(a, t)); }, 4});
    auto trap = [](char dir, char st, int n, int k) -> Mask {  // strict part of the reflectors, operand n-by-k (columnwise) or k-by-n
        return [=](int i, int j) {
            int q = st == 'C' ? i : j, c = st == 'C' ? j : i;  // position q of reflector c
            return int(dir == 'F' ? q > c : q < n - k + c);
        };
    };
    add({"larf", 2, {"LRBX", "FB", "CRX"}, "VM", [](DIMS) { setd(d, 0, o[0] == 'R' ? b[1] : b[0]); setd(d, 1, b[0], b[1]); },
         [](PRED) { return isLR(o[0]) && (o[2] == 'C' || o[2] == 'R') && RR(0) == (o[0] == 'L' ? RR(1) : CC(1)) ? 1 : 0; },
         [](FOOT) { int n = RR(0), fwd = o[1] == 'F'; f.rd[0] = [=](int i, int) { return int(fwd ? i > 0 : i < n - 1); }; f.wr[1] = ALL; }, noprep,
         [=](X x, const char* o) { auto v = x.V(0); auto c = x.M(1); tl::larf((Side)o[0], (Direction)o[1], (StoreV)o[2], v, T(R(0.75)), c); }});
    add({"larf split", 2, {"LRBX", "CRX"}, "VVM", [](DIMS) { bool l = o[0] != 'R'; setd(d, 0, l ? b[0] : b[1]); setd(d, 1, l ? b[1] : b[0]); setd(d, 2, b[0], b[1]); },
         [](PRED) { return !isLR(o[0]) || (o[1] != 'C' && o[1] != 'R') || RR(0) != (o[0] == 'L' ? RR(2) : CC(2)) ? 0 : RR(1) == (o[0] == 'L' ? CC(2) : RR(2)) ? 1 : -1; },
         [](FOOT) { f.wr[1] = f.wr[2] = ALL; }, noprep,
         [=](X x, const char* o) { auto v = x.V(0), c0 = x.V(1); auto c = x.M(2); tl::larf((Side)o[0], (StoreV)o[1], v, T(R(0.75)), c0, c); }});
    add({"larfg", 1, {"FBX", "CRX"}, "V", [](DIMS) { setd(d, 0, b[0] + 1); }, [](PRED) { return RR(0) == 0 ? -1 : (o[0] == 'F' || o[0] == 'B') && (o[1] == 'C' || o[1] == 'R') ? 1 : 0; },
         [](FOOT) { f.wr[0] = ALL; }, noprep, [](X x, const char* o) { auto v = x.V(0); T tau(0); tl::larfg((Direction)o[0], (StoreV)o[1], v, tau); x.ret(tau); }});
    add({"larft", 2, {"FBX", "CRX"}, "MVM", [](DIMS) { int k = b[0], n = b[0] + b[1]; if (o[1] == 'C') setd(d, 0, n, k); else setd(d, 0, k, n); setd(d, 1, k); setd(d, 2, k, k); },
         [](PRED) {
             int n = o[1] == 'C' ? RR(0) : CC(0), kv = o[1] == 'C' ? CC(0) : RR(0), k = RR(1);
             return (o[0] != 'F' && o[0] != 'B') || (o[1] != 'C' && o[1] != 'R') || k > kv || RR(2) < k || CC(2) < k ? 0 : k == kv && k <= n ? 1 : -1;
         },
         [trap](FOOT) { int n = o[1] == 'C' ? RR(0) : CC(0), k = RR(1); char dr = o[0]; f.rd[0] = trap(dr, o[1], n, k); f.rd[2] = NONE; f.wr[2] = [k, dr](int i, int j) { return int(i < k && j < k && (dr == 'F' ? i <= j : i >= j)); }; }, noprep,
         [](X x, const char* o) { auto v = x.M(0), t = x.M(2); auto ta = x.V(1); x.ret(tl::larft((Direction)o[0], (StoreV)o[1], v, ta, t)); }});
    add({"larfb", 3, {"LRBX", CPLX ? "NCTX" : "NCX", "FBX", "CRX"}, "MMM",
         [](DIMS) { int k = b[0]; int nq = b[0] + b[1]; if (o[3] == 'C') setd(d, 0, nq, k); else setd(d, 0, k, nq); setd(d, 1, k, k); if (o[0] == 'R') setd(d, 2, b[2], nq); else setd(d, 2, nq, b[2]); },
         [](PRED) {
             int nq = o[0] == 'L' ? RR(2) : CC(2), k = RR(1), kv = o[3] == 'C' ? CC(0) : RR(0), nv = o[3] == 'C' ? RR(0) : CC(0);
             bool good = isLR(o[0]) && (o[1] == 'N' || o[1] == 'C') && (o[2] == 'F' || o[2] == 'B') && (o[3] == 'C' || o[3] == 'R') && SQR(1) && kv == k && nv == nq;
             return !good ? 0 : k <= nq ? 1 : -1;
         },
         [trap](FOOT) { int n = o[3] == 'C' ? RR(0) : CC(0), k = RR(1); f.rd[0] = trap(o[2], o[3], n, k); f.rd[1] = o[2] == 'F' ? UP : LO; f.wr[2] = ALL; }, noprep,
         [](X x, const char* o) { auto v = x.M(0), t = x.M(1), c = x.M(2); x.ret(tl::larfb((Side)o[0], (Op)o[1], (Direction)o[2], (StoreV)o[3], v, t, c)); }, 2, 0, true});
    for (int w = 0; w < 2; ++w)
        add({w ? "ungq" : "ungq_level2", 3, {"FBX", "CR"}, "MV",
             [](DIMS) { int k = b[0], q = b[0] + b[1], n = q + b[2]; if (o[1] == 'C') setd(d, 0, n, q); else setd(d, 0, q, n); setd(d, 1, k); },
             [](PRED) { int n = o[1] == 'C' ? RR(0) : CC(0), q = o[1] == 'C' ? CC(0) : RR(0), k = RR(1); return (o[0] == 'F' || o[0] == 'B') && n >= q && q >= k ? 1 : 0; },
             [](FOOT) {
                 int n = o[1] == 'C' ? RR(0) : CC(0), q = o[1] == 'C' ? CC(0) : RR(0), k = RR(1); char dr = o[0], st = o[1];
                 f.wr[0] = ALL;
                 f.rd[0] = [=](int i, int j) { int p = st == 'C' ? i : j, c = st == 'C' ? j : i; return dr == 'F' ? int(c < k && p > c) : int(c >= q - k && p < n - q + c); };
             }, noprep,
             [w](X x, const char* o) { auto a = x.M(0); auto t = x.V(1); tl::UngqOpts q; q.nb = 2; x.ret(w ? tl::ungq((Direction)o[0], (StoreV)o[1], a, t, q) : tl::ungq_level2((Direction)o[0], (StoreV)o[1], a, t)); }, 2, 0, true});
    for (int w = 0; w < 2; ++w)
        add({w ? "unmq" : "unmq_level2", 3, {"LRBX", CPLX ? "NCTX" : "NCX", "FBX", "CR"}, "MVM",
             [](DIMS) { int k = b[0], nq = b[0] + b[1]; if (o[3] == 'C') setd(d, 0, nq, k); else setd(d, 0, k, nq); setd(d, 1, k); if (o[0] == 'R') setd(d, 2, b[2], nq); else setd(d, 2, nq, b[2]); },
             [](PRED) {
                 int nq = o[0] == 'L' ? RR(2) : CC(2), k = RR(1), kv = o[3] == 'C' ? CC(0) : RR(0), nv = o[3] == 'C' ? RR(0) : CC(0);
                 bool good = isLR(o[0]) && (o[1] == 'N' || o[1] == 'C') && (o[2] == 'F' || o[2] == 'B') && kv == k && nv == nq;
                 return !good ? 0 : k <= nq ? 1 : -1;
             },
             [trap](FOOT) { int n = o[3] == 'C' ? RR(0) : CC(0), k = RR(1); f.rd[0] = trap(o[2], o[3], n, k); f.wr[2] = ALL; }, noprep,
             [w](X x, const char* o) { auto v = x.M(0), c = x.M(2); auto t = x.V(1); tl::UnmqOpts q; q.nb = 2; x.ret(w ? tl::unmq((Side)o[0], (Op)o[1], (Direction)o[2], (StoreV)o[3], v, t, c, q) : tl::unmq_level2((Side)o[0], (Op)o[1], (Direction)o[2], (StoreV)o[3], v, t, c)); }, 2, 0, true});
#elif MC_G == 4
    auto zeroLow = [](Plain& p, int k, int off) {  // zero below the off-th subdiagonal
        Mat<T> a(p.d[2 * k], p.d[2 * k + 1], (T*)p.ptr[k], p.ld[k]);
        for (int j = 0; j < p.d[2 * k + 1]; ++j)
            for (int i = j + 1 + off; i < p.d[2 * k]; ++i) a(i, j) = T(0);
    };
    add({"gebd2", 2, {}, "MVV", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, std::min(b[0], b[1])); setd(d, 2, std::min(b[0], b[1])); },
         [](PRED) { int k = std::min(RR(0), CC(0)); return RR(1) >= k && RR(2) >= k ? 1 : 0; },
         [](FOOT) { int k = std::min(RR(0), CC(0)); f.wr[0] = ALL; f.wr[1] = f.wr[2] = [k](int i, int) { return i < k; }; f.rd[1] = f.rd[2] = NONE; }, noprep,
         [](X x, const char*) { auto a = x.M(0); auto q = x.V(1), p = x.V(2); x.ret(tl::gebd2(a, q, p)); }, 4});
    for (int w = 0; w < 2; ++w)
        add({w ? "gehrd" : "gehd2", 1, {}, "MVNN", [](DIMS) { int n = b[0] + 1; setd(d, 0, n, n); setd(d, 1, n - 1); setd(d, 2, 0); setd(d, 3, n); },
             [w](PRED) {
                 int n = RR(0);
                 if (RR(0) == 0 || CC(0) == 0) return -1;
                 if (!SQR(0)) return 0;
                 if (n == 0) return -1;
                 if (RR(1) < n - 1) return 0;
                 if (RR(2) >= n || RR(3) > n) return w ? 0 : -1;
                 return RR(2) < RR(3) && RR(1) == n - 1 ? 1 : -1;
             },
             [](FOOT) { int lo = RR(2), hi = RR(3); f.rd[0] = f.wr[0] = [=](int i, int j) { return int(j >= lo && i < hi && (i >= lo || j > lo) && (j > lo || i > lo)); }; f.rd[1] = NONE; f.wr[1] = ALL; }, noprep,
             [w](X x, const char*) { auto a = x.M(0); auto t = x.V(1); tl::GehrdOpts g; g.nb = 2; g.nx_switch = 2; x.ret(w ? tl::gehrd(x.N(2), x.N(3), a, t, g) : tl::gehd2(x.N(2), x.N(3), a, t)); }, 3});
    add({"unghr", 1, {}, "MVNN", [](DIMS) { int n = b[0] + 1; setd(d, 0, n, n); setd(d, 1, n - 1); setd(d, 2, 0); setd(d, 3, n); },
         [](PRED) { int n = RR(0); if (n == 0 || !SQR(0)) return -1; if (RR(1) + 1 < n) return 0; return RR(1) == n - 1 && RR(2) < RR(3) && RR(3) <= n ? 1 : -1; },
         [](FOOT) { int lo = RR(2), hi = RR(3); f.rd[0] = [=](int i, int j) { return int(j >= lo && i > j + 1 && i < hi && j < hi); }; f.wr[0] = ALL; f.rd[1] = [=](int i, int) { return int(i >= lo && i < hi - 1); }; }, noprep,
         [](X x, const char*) { auto a = x.M(0); auto t = x.V(1); x.ret(tl::unghr(x.N(2), x.N(3), a, t)); }, 3});
    add({"hetd2", 1, {UPLO3}, "MV", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0] ? b[0] - 1 : 0); },
         [](PRED) { return o[0] == 'G' ? -1 : !isUL(o[0]) || !SQR(0) || RR(1) + 1 < RR(0) ? 0 : 1; },
         [](FOOT) { int k = RR(0) - 1; f.rd[0] = triR(o[0]); f.wr[0] = tri(o[0]); f.rd[1] = NONE; f.wr[1] = [k](int i, int) { return int(i < k); }; }, noprep,
         [](X x, const char* o) { auto a = x.M(0); auto t = x.V(1); x.ret(tl::hetd2((Uplo)o[0], a, t)); }, 5});
    for (int w = 0; w < 2; ++w)
        add({w ? "gghd3" : "gghrd", 1, {"NY", "NY"}, "MMMMNN", [](DIMS) { int n = b[0] + 1; for (int k = 0; k < 4; ++k) setd(d, k, n, n); setd(d, 4, 0); setd(d, 5, n); },
             [](PRED) {
                 int n = CC(0);
                 for (int k = 0; k < 4; ++k)
                     if (RR(k) != n || CC(k) != n) return n == 0 ? -1 : 0;
                 return n > 0 && RR(4) < n && RR(5) > RR(4) && RR(5) <= n ? 1 : n == 0 ? -1 : 0;
             },
             [](FOOT) { f.wr[0] = f.wr[1] = ALL; f.wr[2] = o[0] == 'Y' ? ALL : NONE; f.wr[3] = o[1] == 'Y' ? ALL : NONE; if (o[0] != 'Y') f.rd[2] = NONE; if (o[1] != 'Y') f.rd[3] = NONE; },
             [zeroLow](Plain& p) {
                 zeroLow(p, 1, 0);
                 Mat<T> a(p.d[0], p.d[1], (T*)p.ptr[0], p.ld[0]), bb(p.d[2], p.d[3], (T*)p.ptr[1], p.ld[1]);
                 for (int j = 0; j < p.d[1]; ++j)
                     for (int i = j + 1; i < p.d[0]; ++i)
                         if (j < p.d[8] || i >= p.d[10]) a(i, j) = T(0);
             },
             [w](X x, const char* o) {
                 auto a = x.M(0), B = x.M(1), q = x.M(2), z = x.M(3); tl::Gghd3Opts g; g.nb = 2;
                 x.ret(w ? tl::gghd3(o[0] == 'Y', o[1] == 'Y', x.N(4), x.N(5), a, B, q, z, g) : tl::gghrd(o[0] == 'Y', o[1] == 'Y', x.N(4), x.N(5), a, B, q, z));
             }, 3});
    for (int w = 0; w < 2; ++w)
        add({w ? "multishift_qr" : "lahqr", 1, {"NY", "NY"}, "MCM", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0]); setd(d, 2, b[0], b[0]); },
             [](PRED) { int n = CC(0); return RR(0) == n && RR(1) == n && (o[1] == 'N' || (RR(2) == n && CC(2) == n)) ? 1 : 0; },
             [w](FOOT) { f.wr[0] = w ? ALL : Mask([](int i, int j) { return int(i <= j + 1); }); f.wr[1] = ALL; f.rd[1] = NONE; f.wr[2] = o[1] == 'Y' ? ALL : NONE; if (o[1] != 'Y') f.rd[2] = NONE; },
             [zeroLow](Plain& p) { zeroLow(p, 0, 1); },
             [w](X x, const char* o) { auto a = x.M(0), z = x.M(2); auto s = x.VC(1); size_t n = x.N(0); x.ret(w ? tl::multishift_qr(o[0] == 'Y', o[1] == 'Y', size_t(0), n, a, s, z) : tl::lahqr(o[0] == 'Y', o[1] == 'Y', size_t(0), n, a, s, z)); }, 3});
    for (int w = 0; w < 2; ++w)
        add({w ? "multishift_qz" : "lahqz", 1, {"NY", "NY", "NY"}, "MMCVMM", [](DIMS) { for (int k = 0; k < 6; ++k) setd(d, k, b[0], k == 2 || k == 3 ? 1 : b[0]); },
             [](PRED) {
                 int n = CC(0);
                 return RR(0) == n && RR(1) == n && CC(1) == n && RR(2) == n && RR(3) == n && (o[1] == 'N' || (RR(4) == n && CC(4) == n)) && (o[2] == 'N' || (RR(5) == n && CC(5) == n)) ? 1 : 0;
             },
             [](FOOT) { f.wr[0] = f.wr[1] = f.wr[2] = f.wr[3] = ALL; f.rd[2] = f.rd[3] = NONE; f.wr[4] = o[1] == 'Y' ? ALL : NONE; f.wr[5] = o[2] == 'Y' ? ALL : NONE; if (o[1] != 'Y') f.rd[4] = NONE; if (o[2] != 'Y') f.rd[5] = NONE; },
             [zeroLow](Plain& p) { zeroLow(p, 0, 1); zeroLow(p, 1, 0); },
             [w](X x, const char* o) {
                 auto a = x.M(0), B = x.M(1), q = x.M(4), z = x.M(5); auto al = x.VC(2); auto bt = x.V(3); size_t n = x.N(0); tl::FrancisOpts fo;
                 x.ret(w ? tl::multishift_qz(o[0] == 'Y', o[1] == 'Y', o[2] == 'Y', size_t(0), n, a, B, al, bt, q, z, fo) : tl::lahqz(o[0] == 'Y', o[1] == 'Y', o[2] == 'Y', size_t(0), n, a, B, al, bt, q, z));
             }, 3});
    add({"lahqr_shiftcolumn", 1, {}, "MV", [](DIMS) { setd(d, 0, 2 + b[0], 2 + b[0]); setd(d, 1, 2 + b[0]); }, [](PRED) { int n = CC(0); return (n == 2 || n == 3) && RR(0) == n && RR(1) == n ? 1 : 0; },
         [](FOOT) { f.rd[1] = NONE; f.wr[1] = ALL; }, noprep,
         [](X x, const char*) { auto a = x.M(0); auto v = x.V(1); if constexpr (CPLX) x.ret(tl::lahqr_shiftcolumn(a, v, T(R(0.5)), T(R(0.25)))); else x.ret(tl::lahqr_shiftcolumn(a, v, C(R(0.5), R(1)), C(R(0.5), R(-1)))); }, 3});
    add({"rot_sequence", 2, {"LR", "FB"}, "RVM", [](DIMS) { int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k); setd(d, 1, k); setd(d, 2, o[0] == 'L' ? b[0] + 1 : b[0], o[0] == 'L' ? b[1] : b[1] + 1); },
         [](PRED) { int n = o[0] == 'L' ? RR(2) : CC(2), k = n - 1; if (n == 0) return RR(0) == 0 && RR(1) == 0 ? 1 : -1; return RR(0) == k && RR(1) == k ? 1 : 0; },
         [](FOOT) { f.wr[2] = ALL; }, noprep, [](X x, const char* o) { auto c = x.VR(0); auto s = x.V(1); auto a = x.M(2); x.ret(tl::rot_sequence((Side)o[0], (Direction)o[1], c, s, a)); }});
    add({"rot_sequence3", 3, {"LR", "FB"}, "mMM", [](DIMS) { int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k, b[2] + 1); setd(d, 1, k, b[2] + 1); setd(d, 2, o[0] == 'L' ? b[0] + 1 : b[0], o[0] == 'L' ? b[1] : b[1] + 1); },
         [](PRED) { int n = o[0] == 'L' ? RR(2) : CC(2), k = n - 1; if (n == 0) return -1; return CC(0) == 0 ? -1 : RR(0) == k && RR(1) == k && CC(0) == CC(1) ? 1 : 0; },
         [](FOOT) { f.wr[2] = ALL; }, noprep, [](X x, const char* o) { auto c = x.MR(0); auto s = x.M(1), a = x.M(2); tl::rot_sequence3((Side)o[0], (Direction)o[1], c, s, a); }});
    add({"schur_swap", 1, {"NY"}, "MMNNN", [](DIMS) { int n = b[0] + 2; setd(d, 0, n, n); setd(d, 1, n, n); setd(d, 2, b[0]); setd(d, 3, 1); setd(d, 4, 1); },
         [](PRED) { int n = CC(0); if (RR(0) != n || RR(1) != n || CC(1) != n) return 0; int mx = CPLX ? 1 : 2; if (RR(3) < 1 || RR(3) > mx || RR(4) < 1 || RR(4) > mx) return 0; return RR(2) + RR(3) + RR(4) <= n ? (RR(3) == 1 && RR(4) == 1 ? 1 : -1) : (CPLX && RR(2) < n ? -1 : 0); },
         [](FOOT) { f.wr[0] = ALL; f.wr[1] = o[0] == 'Y' ? ALL : NONE; if (o[0] != 'Y') f.rd[1] = NONE; }, [zeroLow](Plain& p) { zeroLow(p, 0, 0); },
         [](X x, const char* o) { auto a = x.M(0), q = x.M(1); x.ret(tl::schur_swap(o[0] == 'Y', a, q, x.N(2), x.N(3), x.N(4))); }});
    add({"generalized_schur_swap", 1, {"NY", "NY"}, "MMMMNNN", [](DIMS) { int n = b[0] + 2; for (int k = 0; k < 4; ++k) setd(d, k, n, n); setd(d, 4, b[0]); setd(d, 5, 1); setd(d, 6, 1); },
         [](PRED) {
             int n = CC(0);
             if (RR(0) != n || RR(2) != n || CC(2) != n) return 0;
             int mx = CPLX ? 1 : 2;
             if (RR(5) < 1 || RR(5) > mx || RR(6) < 1 || RR(6) > mx) return 0;
             if (RR(1) != n || CC(1) != n || RR(3) != n || CC(3) != n) return -1;
             return RR(4) + RR(5) + RR(6) <= n ? (RR(5) == 1 && RR(6) == 1 ? 1 : -1) : (CPLX && RR(4) < n ? -1 : 0);
         },
         [](FOOT) { f.wr[0] = f.wr[1] = ALL; f.wr[2] = o[0] == 'Y' ? ALL : NONE; f.wr[3] = o[1] == 'Y' ? ALL : NONE; if (o[0] != 'Y') f.rd[2] = NONE; if (o[1] != 'Y') f.rd[3] = NONE; }, [zeroLow](Plain& p) { zeroLow(p, 0, 0); zeroLow(p, 1, 0); },
         [](X x, const char* o) { auto a = x.M(0), B = x.M(1), q = x.M(2), z = x.M(3); x.ret(tl::generalized_schur_swap(o[0] == 'Y', o[1] == 'Y', a, B, q, z, x.N(4), x.N(5), x.N(6))); }, 2});
    for (int v = 0; v < 3; ++v) {
        static const char* nm[] = {"tkhnv QR", "tkhnv Elden", "tkhnv SVD"};
        add({nm[v], 3, {}, "MM", [](DIMS) { setd(d, 0, b[0] + b[1] + 1, b[0] + 1); setd(d, 1, b[0] + b[1] + 1, b[2] + 1); }, [](PRED) { return RR(0) == 0 || CC(0) == 0 ? -1 : RR(0) < CC(0) ? 0 : RR(1) == RR(0) && CC(1) > 0 ? 1 : -1; },
             [](FOOT) { f.wr[0] = f.wr[1] = ALL; }, noprep,
             [v](X x, const char*) { auto a = x.M(0), B = x.M(1); ::TikOpts q; q.variant = v == 0 ? ::TikVariant::QR : v == 1 ? ::TikVariant::Elden : ::TikVariant::SVD; ::tkhnv(a, B, R(0.5), q); }, 2});
    }
    (void)be; (void)al;
#elif MC_G == 5
    // routines without entry checks: only consistent calls are made
    auto trap = [](char dir, char st, int n, int k) -> Mask {
        return [=](int i, int j) {
            int q = st == 'C' ? i : j, c = st == 'C' ? j : i;
            return int(dir == 'F' ? q > c : q < n - k + c);
        };
    };
    auto zeroLow = [](Plain& p, int k, int off) {
        Mat<T> a(p.d[2 * k], p.d[2 * k + 1], (T*)p.ptr[k], p.ld[k]);
        for (int j = 0; j < p.d[2 * k + 1]; ++j)
            for (int i = j + 1 + off; i < p.d[2 * k]; ++i) a(i, j) = T(0);
    };
    auto spread = [](Plain& p, int k, R step) {  // distinct diagonal entries
        Mat<T> a(p.d[2 * k], p.d[2 * k + 1], (T*)p.ptr[k], p.ld[k]);
        for (int i = 0; i < p.d[2 * k] && i < p.d[2 * k + 1]; ++i) a(i, i) = T(R(1) + step * R(i));
    };
    for (int v = 0; v < 8; ++v) {
        static const char* nm[] = {"ung2r", "ungl2", "ung2l", "ungr2", "ungqr", "unglq", "ungql", "ungrq"};
        char st = v % 2 ? 'R' : 'C', dr = v / 2 % 2 ? 'B' : 'F';
        add({nm[v], 3, {}, "MV", [=](DIMS) { int k = b[0], q = b[0] + b[1], n = q + b[2]; if (st == 'C') setd(d, 0, n, q); else setd(d, 0, q, n); setd(d, 1, k); },
             [=](PRED) { int n = st == 'C' ? RR(0) : CC(0), q = st == 'C' ? CC(0) : RR(0); return n >= q && q >= RR(1) ? 1 : -1; },
             [=](FOOT) {
                 int n = st == 'C' ? RR(0) : CC(0), q = st == 'C' ? CC(0) : RR(0), k = RR(1);
                 f.wr[0] = ALL;
                 f.rd[0] = [=](int i, int j) { int p = st == 'C' ? i : j, c = st == 'C' ? j : i; return dr == 'F' ? int(c < k && p > c) : int(c >= q - k && p < n - q + c); };
             }, noprep,
             [v](X x, const char*) {
                 auto a = x.M(0); auto t = x.V(1);
                 x.ret(v == 0 ? tl::ung2r(a, t) : v == 1 ? tl::ungl2(a, t) : v == 2 ? tl::ung2l(a, t) : v == 3 ? tl::ungr2(a, t) : v == 4 ? tl::ungqr(a, t, tl::UngqrOpts{2}) : v == 5 ? tl::unglq(a, t, tl::UnglqOpts{2}) : v == 6 ? tl::ungql(a, t, tl::UngqlOpts{2}) : tl::ungrq(a, t, tl::UngrqOpts{2}));
             }, 2});
        static const char* nu[] = {"unm2r", "unml2", "unm2l", "unmr2", "unmqr", "unmlq", "unmql", "unmrq"};
        add({nu[v], 3, {"LR", "NC"}, "MVM", [=](DIMS) { int k = b[0], nq = b[0] + b[1]; if (st == 'C') setd(d, 0, nq, k); else setd(d, 0, k, nq); setd(d, 1, k); if (o[0] == 'R') setd(d, 2, b[2], nq); else setd(d, 2, nq, b[2]); },
             [=](PRED) { int nq = o[0] == 'L' ? RR(2) : CC(2), k = RR(1), kv = st == 'C' ? CC(0) : RR(0), nv = st == 'C' ? RR(0) : CC(0); return kv == k && nv == nq && k <= nq ? 1 : -1; },
             [=](FOOT) { int n = st == 'C' ? RR(0) : CC(0), k = RR(1); f.rd[0] = trap(dr, st, n, k); f.wr[2] = ALL; }, noprep,
             [v](X x, const char* o) {
                 auto a = x.M(0), c = x.M(2); auto t = x.V(1); auto sd = (Side)o[0]; auto op = (Op)o[1];
                 x.ret(v == 0 ? tl::unm2r(sd, op, a, t, c) : v == 1 ? tl::unml2(sd, op, a, t, c) : v == 2 ? tl::unm2l(sd, op, a, t, c) : v == 3 ? tl::unmr2(sd, op, a, t, c) : v == 4 ? tl::unmqr(sd, op, a, t, c, tl::UnmqrOpts{2}) : v == 5 ? tl::unmlq(sd, op, a, t, c, tl::UnmlqOpts{2}) : v == 6 ? tl::unmql(sd, op, a, t, c, tl::UnmqlOpts{2}) : tl::unmrq(sd, op, a, t, c, tl::UnmrqOpts{2}));
             }, 2});
    }
    add({"unmhr", 3, {"LR", "NC"}, "MVMNN", [](DIMS) { int n = b[0] + 1; setd(d, 0, n, n); setd(d, 1, n - 1); if (o[0] == 'L') setd(d, 2, n, b[1]); else setd(d, 2, b[1], n); setd(d, 3, std::min(b[2], n - 1)); setd(d, 4, n); },
         [](PRED) { int n = RR(0); return SQR(0) && RR(1) == n - 1 && (o[0] == 'L' ? RR(2) : CC(2)) == n && RR(3) < RR(4) && RR(4) <= n ? 1 : -1; },
         [](FOOT) { int lo = RR(3), hi = RR(4); bool l = o[0] == 'L'; f.rd[0] = [=](int i, int j) { return int(j >= lo && i > j + 1 && i < hi); }; f.rd[1] = [=](int i, int) { return int(i >= lo && i < hi - 1); }; f.wr[2] = [=](int i, int j) { int q = l ? i : j; return int(q > lo && q < hi); }; }, noprep,
         [](X x, const char* o) { auto a = x.M(0), c = x.M(2); auto t = x.V(1); x.ret(tl::unmhr((Side)o[0], (Op)o[1], x.N(3), x.N(4), a, t, c)); }, 3});
    for (int w = 0; w < 2; ++w)
        add({w ? "bidiag" : "gebrd", 2, {}, "MVV", [](DIMS) { setd(d, 0, b[0], b[1]); setd(d, 1, std::min(b[0], b[1])); setd(d, 2, std::min(b[0], b[1])); },
             [](PRED) { int k = std::min(RR(0), CC(0)); return RR(1) == k && RR(2) == k ? 1 : -1; },
             [](FOOT) { f.wr[0] = ALL; f.wr[1] = f.wr[2] = ALL; f.rd[1] = f.rd[2] = NONE; }, noprep,
             [w](X x, const char*) { auto a = x.M(0); auto q = x.V(1), p = x.V(2); tl::GebrdOpts g; g.nb = 2; x.ret(w ? tl::bidiag(a, q, p) : tl::gebrd(a, q, p, g)); }, 5});
    add({"hessenberg", 1, {}, "MV", [](DIMS) { int n = b[0] + 1; setd(d, 0, n, n); setd(d, 1, n - 1); }, [](PRED) { return RR(0) > 0 && SQR(0) && RR(1) == RR(0) - 1 ? 1 : -1; },
         [](FOOT) { f.wr[0] = ALL; f.wr[1] = ALL; f.rd[1] = NONE; }, noprep, [](X x, const char*) { auto a = x.M(0); auto t = x.V(1); x.ret(tl::hessenberg(size_t(0), x.N(0), a, t)); }, 4});
    for (int w = 0; w < 2; ++w)
        add({w ? "ungbr_p" : "ungbr_q", 2, {}, "MVN",
             [w](DIMS) { int m = b[0] + 1, k = b[1]; if (m >= k) { if (w) setd(d, 0, std::min(k, m), m); else setd(d, 0, m, std::min(k, m)); } else setd(d, 0, m, m); setd(d, 1, m > k ? k : m - (w || m < k ? 1 : 0)); setd(d, 2, k); },
             [w](PRED) {
                 int n = w ? CC(0) : RR(0), q = w ? RR(0) : CC(0), k = RR(2);
                 if (w) return n > k ? (q == k && RR(1) == k ? 1 : -1) : (q == n && RR(1) == n - 1 ? 1 : -1);
                 return n >= k ? (q == k && RR(1) == k ? 1 : -1) : (q == n && RR(1) == n - 1 ? 1 : -1);
             },
             [w](FOOT) {
                 int n = w ? CC(0) : RR(0), k = RR(2); bool shift = w ? n <= k : n < k;
                 f.rd[0] = [=](int i, int j) { int p = w ? j : i, c = w ? i : j; return int(shift ? p > c + 1 : p > c); };
                 f.wr[0] = ALL;
             }, noprep,
             [w](X x, const char*) { auto a = x.M(0); auto t = x.V(1); tl::UngbrOpts u; u.nb = 2; x.ret(w ? tl::ungbr_p(x.N(2), a, t, u) : tl::ungbr_q(x.N(2), a, t, u)); }, 4});
    add({"ungtr", 1, {"UL"}, "MV", [](DIMS) { int n = b[0] + 1; setd(d, 0, n, n); setd(d, 1, n - 1); }, [](PRED) { return SQR(0) && RR(0) > 0 && RR(1) == RR(0) - 1 ? 1 : -1; },
         [](FOOT) { char u = o[0]; f.rd[0] = [u](int i, int j) { return u == 'U' ? int(i < j - 1) : int(i > j + 1); }; f.wr[0] = ALL; }, noprep,
         [](X x, const char* o) { auto a = x.M(0); auto t = x.V(1); x.ret(tl::ungtr((Uplo)o[0], a, t)); }, 5});
    add({"geqrt3", 2, {}, "MM", [](DIMS) { setd(d, 0, b[0] + b[1] + 1, b[0] + 1); setd(d, 1, b[0] + 1, b[0] + 1); }, [](PRED) { return RR(0) >= CC(0) && CC(0) > 0 && SQR(1) && RR(1) == CC(0) ? 1 : -1; },
         [](FOOT) { f.wr[0] = ALL; f.wr[1] = UP; f.rd[1] = NONE; }, noprep, [](X x, const char*) { auto a = x.M(0), t = x.M(1); tl::geqrt3(a, t, tl::Geqrt3Opts{}); }});
    add({"gesvd", 2, {"NY", "NY"}, "MRMM", [](DIMS) { int k = std::min(b[0], b[1]); setd(d, 0, b[0] + 1, b[1] + 1); setd(d, 1, k + 1); setd(d, 2, b[0] + 1, b[0] + 1); setd(d, 3, b[1] + 1, b[1] + 1); },
         [](PRED) { int m = RR(0), n = CC(0), k = std::min(m, n); return k > 0 && RR(1) == k && RR(2) == m && CC(2) == m && RR(3) == n && CC(3) == n ? 1 : -1; },
         [](FOOT) { f.wr[0] = WORK; f.wr[1] = ALL; f.rd[1] = f.rd[2] = f.rd[3] = NONE; f.wr[2] = o[0] == 'Y' ? ALL : NONE; f.wr[3] = o[1] == 'Y' ? ALL : NONE; }, noprep,
         [](X x, const char* o) { auto a = x.M(0), u = x.M(2), v = x.M(3); auto s = x.VR(1); x.ret(tl::gesvd(o[0] == 'Y', o[1] == 'Y', a, s, u, v)); }, 4});
    add({"svd_qr", 1, {"UL", "NY", "NY"}, "RRMM", [](DIMS) { int n = b[0] + 1; setd(d, 0, n); setd(d, 1, n - 1); setd(d, 2, n + 1, n); setd(d, 3, n, n + 1); },
         [](PRED) { int n = RR(0); return n > 0 && RR(1) == n - 1 && CC(2) == n && RR(3) == n ? 1 : -1; },
         [](FOOT) { f.wr[0] = ALL; f.wr[1] = ALL; f.wr[2] = o[1] == 'Y' ? ALL : NONE; f.wr[3] = o[2] == 'Y' ? ALL : NONE; if (o[1] != 'Y') f.rd[2] = NONE; if (o[2] != 'Y') f.rd[3] = NONE; }, noprep,
         [](X x, const char* o) { auto dd = x.VR(0), e = x.VR(1); auto u = x.M(2), v = x.M(3); x.ret(tl::svd_qr((Uplo)o[0], o[1] == 'Y', o[2] == 'Y', dd, e, u, v)); }, 3});
    add({"steqr", 1, {"NY"}, "RRM", [](DIMS) { int n = b[0]; setd(d, 0, n); setd(d, 1, n ? n - 1 : 0); setd(d, 2, n, n); },
         [](PRED) { int n = RR(0); return RR(1) == (n ? n - 1 : 0) && RR(2) == n && CC(2) == n ? 1 : -1; },
         [](FOOT) { f.wr[0] = f.wr[1] = ALL; f.wr[2] = o[0] == 'Y' ? ALL : NONE; if (o[0] != 'Y') f.rd[2] = NONE; }, noprep,
         [](X x, const char* o) { auto dd = x.VR(0), e = x.VR(1); auto z = x.M(2); x.ret(tl::steqr(o[0] == 'Y', dd, e, z)); }, 5});
    add({"trmm_out", 2, {"LR", "UL", "N", "NU", "NTC"}, "MMM", [](DIMS) { int k = o[0] == 'L' ? b[0] : b[1]; setd(d, 0, k, k); setop(d, 1, o[4], b[0], b[1]); setd(d, 2, b[0], b[1]); },
         [](PRED) { return SQR(0) && opr(d, 1, o[4]) == RR(2) && opc(d, 1, o[4]) == CC(2) && RR(0) == (o[0] == 'L' ? RR(2) : CC(2)) ? 1 : -1; },
         [](FOOT) { f.rd[0] = triD(o[1], o[3]); f.wr[2] = ALL; }, noprep,
         [=](X x, const char* o) { auto a = x.M(0), B = x.M(1), c = x.M(2); tl::trmm_out((Side)o[0], (Uplo)o[1], (Op)o[2], (Diag)o[3], (Op)o[4], al, a, B, be, c); }});
    add({"trsm_tri", 1, {"LR", "UL", "NTC", "NU"}, "MM", [](DIMS) { setd(d, 0, b[0], b[0]); setd(d, 1, b[0], b[0]); }, [](PRED) { return SQR(0) && SQR(1) && RR(0) == RR(1) ? 1 : -1; },
         [](FOOT) { char ua = o[2] == 'N' ? o[1] : (o[1] == 'U' ? 'L' : 'U'); f.rd[0] = triD(ua, o[3]); f.rd[1] = f.wr[1] = tri(o[1]); }, [spread](Plain& p) { spread(p, 0, R(0.5)); },
         [=](X x, const char* o) { auto a = x.M(0), B = x.M(1); tl::trsm_tri((Side)o[0], (Uplo)o[1], (Op)o[2], (Diag)o[3], al, a, B); }, 5});
    for (int w = 0; w < 2; ++w)
        add({w ? "mult_hehe (no beta)" : "mult_hehe", 1, {"UL"}, "MMM", [](DIMS) { for (int k = 0; k < 3; ++k) setd(d, k, b[0], b[0]); }, [](PRED) { return SQR(0) && SQR(1) && SQR(2) && RR(0) == RR(1) && RR(2) == RR(0) ? 1 : -1; },
             [w](FOOT) { f.rd[0] = f.rd[1] = triR(o[0]); f.wr[2] = ALL; if (w) f.rd[2] = NONE; }, noprep,
             [=](X x, const char* o) { auto a = x.M(0), B = x.M(1), c = x.M(2); if (w) tl::mult_hehe((Uplo)o[0], al, a, B, c); else tl::mult_hehe((Uplo)o[0], al, a, B, be, c); }, 5});
    for (int w = 0; w < 2; ++w)
        add({w ? "schur_move up" : "schur_move", 1, {"NY"}, "MM", [](DIMS) { setd(d, 0, b[0] + 1, b[0] + 1); setd(d, 1, b[0] + 1, b[0] + 1); }, [](PRED) { return SQR(0) && SQR(1) && RR(0) == RR(1) && RR(0) > 0 ? 1 : -1; },
             [](FOOT) { f.wr[0] = ALL; f.wr[1] = o[0] == 'Y' ? ALL : NONE; if (o[0] != 'Y') f.rd[1] = NONE; }, [=](Plain& p) { zeroLow(p, 0, 0); spread(p, 0, R(1)); },
             [w](X x, const char* o) { auto a = x.M(0), q = x.M(1); size_t f = w ? x.N(0) - 1 : 0, l = w ? 0 : x.N(0) - 1; x.ret(tl::schur_move(o[0] == 'Y', a, q, f, l)); x.ret(double(l)); }});
    for (int w = 0; w < 2; ++w)
        add({w ? "generalized_schur_move up" : "generalized_schur_move", 1, {"NY", "NY"}, "MMMM", [](DIMS) { for (int k = 0; k < 4; ++k) setd(d, k, b[0] + 1, b[0] + 1); },
             [](PRED) { for (int k = 0; k < 4; ++k) if (RR(k) != RR(0) || CC(k) != RR(0)) return -1; return RR(0) > 0 ? 1 : -1; },
             [](FOOT) { f.wr[0] = f.wr[1] = ALL; f.wr[2] = o[0] == 'Y' ? ALL : NONE; f.wr[3] = o[1] == 'Y' ? ALL : NONE; if (o[0] != 'Y') f.rd[2] = NONE; if (o[1] != 'Y') f.rd[3] = NONE; }, [=](Plain& p) { zeroLow(p, 0, 0); spread(p, 0, R(1)); zeroLow(p, 1, 0); spread(p, 1, R(0)); },
             [w](X x, const char* o) { auto a = x.M(0), B = x.M(1), q = x.M(2), z = x.M(3); size_t f = w ? x.N(0) - 1 : 0, l = w ? 0 : x.N(0) - 1; x.ret(tl::generalized_schur_move(o[0] == 'Y', o[1] == 'Y', a, B, q, z, f, l)); x.ret(double(l)); }});
    add({"trevc3", 1, {"LRB", "AB"}, "MMM", [](DIMS) { for (int k = 0; k < 3; ++k) setd(d, k, b[0] + 1, b[0] + 1); }, [](PRED) { for (int k = 0; k < 3; ++k) if (RR(k) != RR(0) || CC(k) != RR(0)) return -1; return RR(0) > 0 ? 1 : -1; },
         [](FOOT) { bool bt = o[1] == 'B'; f.wr[1] = o[0] != 'R' ? ALL : NONE; f.wr[2] = o[0] != 'L' ? ALL : NONE; if (o[0] == 'R' || !bt) f.rd[1] = NONE; if (o[0] == 'L' || !bt) f.rd[2] = NONE; }, [=](Plain& p) { zeroLow(p, 0, 0); spread(p, 0, R(1)); },
         [](X x, const char* o) {
             auto a = x.M(0), l = x.M(1), r = x.M(2); std::vector<int> sel(x.N(0), 1); tl::Trevc3Opts q; q.block_size = 2; q.block_size_solve = 2;
             x.ret(tl::trevc3(o[0] == 'L' ? Side::Left : o[0] == 'R' ? Side::Right : Side::Both, o[1] == 'A' ? tl::HowMny::All : tl::HowMny::Back, sel, a, l, r, q));
         }, 4});
    add({"hessenberg_rq", 1, {}, "MRVRV", [](DIMS) { int n = b[0] + 1; setd(d, 0, n, n); for (int k = 1; k < 5; ++k) setd(d, k, n - 1); }, [](PRED) { for (int k = 1; k < 5; ++k) if (RR(k) != RR(0) - 1) return -1; return SQR(0) && RR(0) > 0 ? 1 : -1; },
         [](FOOT) { f.wr[0] = [](int i, int j) { return int(i <= j + 1); }; f.rd[0] = f.wr[0]; f.wr[3] = f.wr[4] = ALL; f.rd[3] = f.rd[4] = NONE; }, [=](Plain& p) { zeroLow(p, 0, 0); },
         [](X x, const char*) { auto a = x.M(0); auto c = x.VR(1), cr = x.VR(3); auto s = x.V(2), sr = x.V(4); tl::hessenberg_rq(a, c, s, cr, sr); }, 4});
    add({"rscl", 1, {}, "V", [](DIMS) { setd(d, 0, b[0]); }, [](PRED) { return 1; }, [](FOOT) { f.wr[0] = ALL; }, noprep, [](X x, const char*) { auto a = x.V(0); tl::rscl(R(3), a); }, 4});
    add({"lassq", 1, {}, "V", [](DIMS) { setd(d, 0, b[0]); }, [](PRED) { return 1; }, [](FOOT) {}, noprep, [](X x, const char*) { auto a = x.V(0); R sc(0.5), sm(2); tl::lassq(a, sc, sm); x.ret(sc); x.ret(sm); }, 5});
    add({"lasrt", 1, {"ID"}, "R", [](DIMS) { setd(d, 0, b[0]); }, [](PRED) { return 1; }, [](FOOT) { f.wr[0] = ALL; }, noprep, [](X x, const char* o) { auto a = x.VR(0); x.ret(tl::lasrt(o[0], x.N(0), a)); }, 6});
    (void)be; (void)al;
#endif
    return cs;
}
inline const std::vector<Case>& TAB()
{
    static const std::vector<Case> t = table();
    return t;
}
}  // namespace ctab
