! bind(C) entry points that call the Fortran module exactly as a Fortran program does
subroutine fdrv_axpy_s(n, a, x, incx, y, incy) bind(C, name="fdrv_axpy_s")
    use tlapack
    integer(c_size_t), value :: n
    integer(c_int64_t), value :: incx, incy
    real(c_float), value :: a
    real(c_float) :: x(*), y(*)
    call saxpy(n, a, x, incx, y, incy)
end subroutine
subroutine fdrv_axpy_d(n, a, x, incx, y, incy) bind(C, name="fdrv_axpy_d")
    use tlapack
    integer(c_size_t), value :: n
    integer(c_int64_t), value :: incx, incy
    real(c_double), value :: a
    real(c_double) :: x(*), y(*)
    call daxpy(n, a, x, incx, y, incy)
end subroutine
subroutine fdrv_axpy_c(n, a, x, incx, y, incy) bind(C, name="fdrv_axpy_c")
    use tlapack
    integer(c_size_t), value :: n
    integer(c_int64_t), value :: incx, incy
    complex(c_float_complex) :: a
    complex(c_float_complex) :: x(*), y(*)
    call caxpy(n, a, x, incx, y, incy)
end subroutine
subroutine fdrv_axpy_z(n, a, x, incx, y, incy) bind(C, name="fdrv_axpy_z")
    use tlapack
    integer(c_size_t), value :: n
    integer(c_int64_t), value :: incx, incy
    complex(c_double_complex) :: a
    complex(c_double_complex) :: x(*), y(*)
    call zaxpy(n, a, x, incx, y, incy)
end subroutine
function fdrv_snrm2(n, x, incx) bind(C, name="fdrv_snrm2")
    use tlapack
    integer(c_size_t), value :: n
    integer(c_int64_t), value :: incx
    real(c_float) :: x(*)
    real(c_float) :: fdrv_snrm2
    fdrv_snrm2 = snrm2(n, x, incx)
end function
subroutine fdrv_ssymm(layout, side, uplo, m, n, alpha, A, lda, B, ldb, beta, C, ldc) bind(C, name="fdrv_ssymm")
    use tlapack
    character(c_char), value :: layout, side, uplo
    integer(c_size_t), value :: m, n, lda, ldb, ldc
    real(c_float), value :: alpha, beta
    real(c_float) :: A(*), B(*), C(*)
    character :: l, s, u
    l = layout
    s = side
    u = uplo
    call ssymm(l, s, u, m, n, alpha, A, lda, B, ldb, beta, C, ldc)
end subroutine
