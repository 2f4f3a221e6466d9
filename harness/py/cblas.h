/* Reference CBLAS interface, the subset the compiler calls (no BLAS is installed here). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int CBLAS_INDEX;
typedef enum CBLAS_LAYOUT { CblasRowMajor = 101, CblasColMajor = 102 } CBLAS_LAYOUT;
typedef CBLAS_LAYOUT CBLAS_ORDER;
typedef enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 } CBLAS_TRANSPOSE;
double cblas_ddot(const int n, const double *x, const int incx, const double *y, const int incy);
float cblas_sdot(const int n, const float *x, const int incx, const float *y, const int incy);
void cblas_dgemm(CBLAS_LAYOUT layout, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, const int m, const int n, const int k,
                 const double alpha, const double *a, const int lda, const double *b, const int ldb, const double beta,
                 double *c, const int ldc);
void cblas_sgemm(CBLAS_LAYOUT layout, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, const int m, const int n, const int k,
                 const float alpha, const float *a, const int lda, const float *b, const int ldb, const float beta,
                 float *c, const int ldc);
#ifdef __cplusplus
}
#endif
