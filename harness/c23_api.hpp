// Neutral view of the pointer-based interfaces: one table of functions per (interface, type).
#pragma once
#include <stddef.h>
typedef long I_;
typedef const void* CP;
typedef void* P_;
struct Api {
    const char* name;
    bool isSigned;  // sizes are signed integers
    double (*asum)(I_, CP, I_);
    double (*nrm2)(I_, CP, I_);
    size_t (*iamax)(I_, CP, I_);
    void (*dot)(I_, CP, I_, CP, I_, P_);
    void (*dotu)(I_, CP, I_, CP, I_, P_);
    void (*axpy)(I_, CP, CP, I_, P_, I_);
    void (*copy)(I_, CP, I_, P_, I_);
    void (*swap)(I_, P_, I_, P_, I_);
    void (*scal)(I_, CP, P_, I_);
    void (*rot)(I_, P_, I_, P_, I_, double, CP);
    void (*rotr)(I_, P_, I_, P_, I_, double, double);  // real c and s (complex vectors), may be null
    void (*rotg)(P_, P_, P_, P_);
    void (*rotm)(I_, P_, I_, P_, I_, CP);
    void (*rotmg)(P_, P_, P_, CP, P_);
    void (*gemv)(int, int, I_, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*ger)(int, I_, I_, CP, CP, I_, CP, I_, P_, I_);
    void (*geru)(int, I_, I_, CP, CP, I_, CP, I_, P_, I_);
    void (*hemv)(int, int, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*symv)(int, int, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*her)(int, int, I_, double, CP, I_, P_, I_);
    void (*her2)(int, int, I_, CP, CP, I_, CP, I_, P_, I_);
    void (*syr)(int, int, I_, CP, CP, I_, P_, I_);
    void (*syr2)(int, int, I_, CP, CP, I_, CP, I_, P_, I_);
    void (*trmv)(int, int, int, int, I_, CP, I_, P_, I_);
    void (*trsv)(int, int, int, int, I_, CP, I_, P_, I_);
    void (*gemm)(int, int, int, I_, I_, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*symm)(int, int, int, I_, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*hemm)(int, int, int, I_, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*herk)(int, int, int, I_, I_, double, CP, I_, double, P_, I_);
    void (*her2k)(int, int, int, I_, I_, CP, CP, I_, CP, I_, double, P_, I_);
    void (*syrk)(int, int, int, I_, I_, CP, CP, I_, CP, P_, I_);
    void (*syr2k)(int, int, int, I_, I_, CP, CP, I_, CP, I_, CP, P_, I_);
    void (*trmm)(int, int, int, int, int, I_, I_, CP, CP, I_, P_, I_);
    void (*trsm)(int, int, int, int, int, I_, I_, CP, CP, I_, P_, I_);
};
extern "C" {
extern const Api api_c_s, api_c_d, api_c_c, api_c_z;
extern const Api api_cblas_s, api_cblas_d, api_cblas_c, api_cblas_z;
}
