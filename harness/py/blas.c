#include "cblas.h"

#define DOT(NAME, T)                                                                             \
    T NAME(const int n, const T *x, const int incx, const T *y, const int incy) {                \
        T s = 0;                                                                                 \
        long ix = incx < 0 ? (long) (1 - n) * incx : 0, iy = incy < 0 ? (long) (1 - n) * incy : 0; \
        for (int i = 0; i < n; i++, ix += incx, iy += incy) s += x[ix] * y[iy];                  \
        return s;                                                                                \
    }
DOT(cblas_ddot, double)
DOT(cblas_sdot, float)

#define AT(p, ld, i, j, tr) ((tr) ? (p)[(long) (j) * (ld) + (i)] : (p)[(long) (i) * (ld) + (j)])
#define GEMM(NAME, T)                                                                                              \
    void NAME(CBLAS_LAYOUT layout, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, const int m, const int n, const int k,  \
              const T alpha, const T *a, const int lda, const T *b, const int ldb, const T beta, T *c,             \
              const int ldc) {                                                                                     \
        int col = layout == CblasColMajor;                                                                         \
        int A = (ta != CblasNoTrans) ^ col, B = (tb != CblasNoTrans) ^ col;                                        \
        for (int i = 0; i < m; i++)                                                                                \
            for (int j = 0; j < n; j++) {                                                                          \
                T s = 0;                                                                                           \
                for (int l = 0; l < k; l++) s += AT(a, lda, i, l, A) * AT(b, ldb, l, j, B);                        \
                T *p = col ? &c[(long) j * ldc + i] : &c[(long) i * ldc + j];                                      \
                *p = alpha * s + (beta == 0 ? 0 : beta * *p);                                                      \
            }                                                                                                      \
    }
GEMM(cblas_dgemm, double)
GEMM(cblas_sgemm, float)
