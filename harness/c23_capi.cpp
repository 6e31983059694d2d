// Fills the tables of c23_api.hpp from the generated C headers (compiled twice: C and CBLAS).
#ifdef USE_CBLAS
    #include "tlapack_cblas.h"
    #define FN(p, n) cblas_##p##n
    #define TAB(p) api_cblas_##p
    #define NAME "cblas"
    #define SIGNED true
    #define LAY(c) (c == 'C' ? CblasColMajor : c == 'R' ? CblasRowMajor : (CBLAS_LAYOUT)(c))
    #define OP(c) (c == 'N' ? CblasNoTrans : c == 'T' ? CblasTrans : c == 'C' ? CblasConjTrans : (CBLAS_TRANSPOSE)(c))
    #define UP(c) (c == 'U' ? CblasUpper : c == 'L' ? CblasLower : (CBLAS_UPLO)(c))
    #define DG(c) (c == 'N' ? CblasNonUnit : c == 'U' ? CblasUnit : (CBLAS_DIAG)(c))
    #define SD(c) (c == 'L' ? CblasLeft : c == 'R' ? CblasRight : (CBLAS_SIDE)(c))
#else
    #include "tlapack.h"
    #define FN(p, n) p##n
    #define TAB(p) api_c_##p
    #define NAME "c"
    #define SIGNED false
    #define LAY(c) ((Layout)(c))
    #define OP(c) ((Op)(c))
    #define UP(c) ((Uplo)(c))
    #define DG(c) ((Diag)(c))
    #define SD(c) ((Side)(c))
#endif
#include "c23_api.hpp"
typedef float _Complex cf;
typedef double _Complex cd;
#define V(T, p) (*(const T*)(p))

#define COMMON(p, T, R, ip, nrm, asm_)                                                                                                               \
    static double p##_asum(I_ n, CP x, I_ ix) { return asm_(n, (const T*)x, ix); }                                                                   \
    static double p##_nrm2(I_ n, CP x, I_ ix) { return nrm(n, (const T*)x, ix); }                                                                    \
    static size_t p##_iamax(I_ n, CP x, I_ ix) { return ip(n, (const T*)x, ix); }                                                                    \
    static void p##_dot(I_ n, CP x, I_ ix, CP y, I_ iy, P_ o) { *(T*)o = FN(p, dot)(n, (const T*)x, ix, (const T*)y, iy); }                          \
    static void p##_dotu(I_ n, CP x, I_ ix, CP y, I_ iy, P_ o) { *(T*)o = FN(p, dotu)(n, (const T*)x, ix, (const T*)y, iy); }                        \
    static void p##_axpy(I_ n, CP a, CP x, I_ ix, P_ y, I_ iy) { FN(p, axpy)(n, V(T, a), (const T*)x, ix, (T*)y, iy); }                              \
    static void p##_copy(I_ n, CP x, I_ ix, P_ y, I_ iy) { FN(p, copy)(n, (const T*)x, ix, (T*)y, iy); }                                             \
    static void p##_swap(I_ n, P_ x, I_ ix, P_ y, I_ iy) { FN(p, swap)(n, (T*)x, ix, (T*)y, iy); }                                                   \
    static void p##_scal(I_ n, CP a, P_ x, I_ ix) { FN(p, scal)(n, V(T, a), (T*)x, ix); }                                                            \
    static void p##_rot(I_ n, P_ x, I_ ix, P_ y, I_ iy, double c, CP s) { FN(p, rot)(n, (T*)x, ix, (T*)y, iy, (R)c, V(T, s)); }                      \
    static void p##_rotg(P_ a, P_ b, P_ c, P_ s) { FN(p, rotg)((T*)a, (T*)b, (R*)c, (T*)s); }                                                        \
    static void p##_gemv(int l, int o, I_ m, I_ n, CP al, CP A, I_ lda, CP x, I_ ix, CP be, P_ y, I_ iy)                                             \
    { FN(p, gemv)(LAY(l), OP(o), m, n, V(T, al), (const T*)A, lda, (const T*)x, ix, V(T, be), (T*)y, iy); }                                          \
    static void p##_ger(int l, I_ m, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda)                                                            \
    { FN(p, ger)(LAY(l), m, n, V(T, al), (const T*)x, ix, (const T*)y, iy, (T*)A, lda); }                                                            \
    static void p##_geru(int l, I_ m, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda)                                                           \
    { FN(p, geru)(LAY(l), m, n, V(T, al), (const T*)x, ix, (const T*)y, iy, (T*)A, lda); }                                                           \
    static void p##_hemv(int l, int u, I_ n, CP al, CP A, I_ lda, CP x, I_ ix, CP be, P_ y, I_ iy)                                                   \
    { FN(p, hemv)(LAY(l), UP(u), n, V(T, al), (const T*)A, lda, (const T*)x, ix, V(T, be), (T*)y, iy); }                                             \
    static void p##_symv(int l, int u, I_ n, CP al, CP A, I_ lda, CP x, I_ ix, CP be, P_ y, I_ iy)                                                   \
    { FN(p, symv)(LAY(l), UP(u), n, V(T, al), (const T*)A, lda, (const T*)x, ix, V(T, be), (T*)y, iy); }                                             \
    static void p##_her(int l, int u, I_ n, double al, CP x, I_ ix, P_ A, I_ lda) { FN(p, her)(LAY(l), UP(u), n, (R)al, (const T*)x, ix, (T*)A, lda); } \
    static void p##_her2(int l, int u, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda)                                                          \
    { FN(p, her2)(LAY(l), UP(u), n, V(T, al), (const T*)x, ix, (const T*)y, iy, (T*)A, lda); }                                                       \
    static void p##_syr2(int l, int u, I_ n, CP al, CP x, I_ ix, CP y, I_ iy, P_ A, I_ lda)                                                          \
    { FN(p, syr2)(LAY(l), UP(u), n, V(T, al), (const T*)x, ix, (const T*)y, iy, (T*)A, lda); }                                                       \
    static void p##_trmv(int l, int u, int o, int d, I_ n, CP A, I_ lda, P_ x, I_ ix) { FN(p, trmv)(LAY(l), UP(u), OP(o), DG(d), n, (const T*)A, lda, (T*)x, ix); } \
    static void p##_trsv(int l, int u, int o, int d, I_ n, CP A, I_ lda, P_ x, I_ ix) { FN(p, trsv)(LAY(l), UP(u), OP(o), DG(d), n, (const T*)A, lda, (T*)x, ix); } \
    static void p##_gemm(int l, int oa, int ob, I_ m, I_ n, I_ k, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc)                            \
    { FN(p, gemm)(LAY(l), OP(oa), OP(ob), m, n, k, V(T, al), (const T*)A, lda, (const T*)B, ldb, V(T, be), (T*)C, ldc); }                            \
    static void p##_symm(int l, int s, int u, I_ m, I_ n, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc)                                    \
    { FN(p, symm)(LAY(l), SD(s), UP(u), m, n, V(T, al), (const T*)A, lda, (const T*)B, ldb, V(T, be), (T*)C, ldc); }                                 \
    static void p##_hemm(int l, int s, int u, I_ m, I_ n, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc)                                    \
    { FN(p, hemm)(LAY(l), SD(s), UP(u), m, n, V(T, al), (const T*)A, lda, (const T*)B, ldb, V(T, be), (T*)C, ldc); }                                 \
    static void p##_herk(int l, int u, int o, I_ n, I_ k, double al, CP A, I_ lda, double be, P_ C, I_ ldc)                                          \
    { FN(p, herk)(LAY(l), UP(u), OP(o), n, k, (R)al, (const T*)A, lda, (R)be, (T*)C, ldc); }                                                         \
    static void p##_her2k(int l, int u, int o, I_ n, I_ k, CP al, CP A, I_ lda, CP B, I_ ldb, double be, P_ C, I_ ldc)                               \
    { FN(p, her2k)(LAY(l), UP(u), OP(o), n, k, V(T, al), (const T*)A, lda, (const T*)B, ldb, (R)be, (T*)C, ldc); }                                   \
    static void p##_syrk(int l, int u, int o, I_ n, I_ k, CP al, CP A, I_ lda, CP be, P_ C, I_ ldc)                                                  \
    { FN(p, syrk)(LAY(l), UP(u), OP(o), n, k, V(T, al), (const T*)A, lda, V(T, be), (T*)C, ldc); }                                                   \
    static void p##_syr2k(int l, int u, int o, I_ n, I_ k, CP al, CP A, I_ lda, CP B, I_ ldb, CP be, P_ C, I_ ldc)                                   \
    { FN(p, syr2k)(LAY(l), UP(u), OP(o), n, k, V(T, al), (const T*)A, lda, (const T*)B, ldb, V(T, be), (T*)C, ldc); }                                \
    static void p##_trmm(int l, int s, int u, int o, int d, I_ m, I_ n, CP al, CP A, I_ lda, P_ B, I_ ldb)                                           \
    { FN(p, trmm)(LAY(l), SD(s), UP(u), OP(o), DG(d), m, n, V(T, al), (const T*)A, lda, (T*)B, ldb); }                                               \
    static void p##_trsm(int l, int s, int u, int o, int d, I_ m, I_ n, CP al, CP A, I_ lda, P_ B, I_ ldb)                                           \
    { FN(p, trsm)(LAY(l), SD(s), UP(u), OP(o), DG(d), m, n, V(T, al), (const T*)A, lda, (T*)B, ldb); }

#define REALONLY(p, T)                                                                                                                    \
    static void p##_rotm(I_ n, P_ x, I_ ix, P_ y, I_ iy, CP pr) { FN(p, rotm)(n, (T*)x, ix, (T*)y, iy, (const T*)pr); }                   \
    static void p##_rotmg(P_ d1, P_ d2, P_ a, CP b, P_ pr) { FN(p, rotmg)((T*)d1, (T*)d2, (T*)a, V(T, b), (T*)pr); }                      \
    static void p##_syr(int l, int u, I_ n, CP al, CP x, I_ ix, P_ A, I_ lda) { FN(p, syr)(LAY(l), UP(u), n, V(T, al), (const T*)x, ix, (T*)A, lda); }

#ifdef USE_CBLAS
COMMON(s, float, float, cblas_isamax, cblas_snrm2, cblas_sasum)
COMMON(d, double, double, cblas_idamax, cblas_dnrm2, cblas_dasum)
COMMON(c, cf, float, cblas_icamax, cblas_cnrm2, cblas_casum)
COMMON(z, cd, double, cblas_izamax, cblas_znrm2, cblas_zasum)
static void c_rotr(I_ n, P_ x, I_ ix, P_ y, I_ iy, double c, double s) { cblas_csrot(n, (cf*)x, ix, (cf*)y, iy, (float)c, (float)s); }
static void z_rotr(I_ n, P_ x, I_ ix, P_ y, I_ iy, double c, double s) { cblas_zdrot(n, (cd*)x, ix, (cd*)y, iy, c, s); }
#else
COMMON(s, float, float, isamax, snrm2, sasum)
COMMON(d, double, double, idamax, dnrm2, dasum)
COMMON(c, cf, float, icamax, cnrm2, casum)
COMMON(z, cd, double, izamax, znrm2, zasum)
static void c_rotr(I_ n, P_ x, I_ ix, P_ y, I_ iy, double c, double s) { csrot(n, (cf*)x, ix, (cf*)y, iy, (float)c, (float)s); }
static void z_rotr(I_ n, P_ x, I_ ix, P_ y, I_ iy, double c, double s) { zdrot(n, (cd*)x, ix, (cd*)y, iy, c, s); }
#endif
REALONLY(s, float)
REALONLY(d, double)

#define TABLE(p, rotr_, rotm_, rotmg_, syr_)                                                                                                     \
    extern const Api TAB(p) = {NAME,     SIGNED,   p##_asum, p##_nrm2, p##_iamax, p##_dot,  p##_dotu, p##_axpy, p##_copy, p##_swap,  p##_scal, p##_rot,   \
                        rotr_,    p##_rotg, rotm_,    rotmg_,   p##_gemv,  p##_ger,  p##_geru, p##_hemv, p##_symv, p##_her,   p##_her2, syr_,       \
                        p##_syr2, p##_trmv, p##_trsv, p##_gemm, p##_symm,  p##_hemm, p##_herk, p##_her2k, p##_syrk, p##_syr2k, p##_trmm, p##_trsm};
extern "C" {
TABLE(s, nullptr, s_rotm, s_rotmg, s_syr)
TABLE(d, nullptr, d_rotm, d_rotmg, d_syr)
TABLE(c, c_rotr, nullptr, nullptr, nullptr)
TABLE(z, z_rotr, nullptr, nullptr, nullptr)
}
