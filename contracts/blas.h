// assumed contracts of the BLAS/LAPACK routines (column-major reference definitions);
// the native build calls the installed library instead
#pragma once
#ifndef VC_NATIVE
#define REP extern "C" NOINLINE __attribute__((used))
REP int replace__dcopy_(int *n, double *x, int *ix, double *y, int *iy) { for (int i = 0; i < *n; i++) y[i * *iy] = x[i * *ix]; return 0; }
REP double replace__ddot_(int *n, double *x, int *ix, double *y, int *iy) { double s = 0; for (int i = 0; i < *n; i++) s += x[i * *ix] * y[i * *iy]; return s; }
static inline double blas_out(double v, double alpha, double beta, double c) { return beta == 0 ? alpha * v : alpha * v + beta * c; }
REP int replace__dgemv_(const char *t, const int *m, const int *n, const double *al, const double *a, const int *lda, const double *x, const int *ix, const double *be, double *y, const int *iy) {
  ENSURE(*lda >= *m);
  int rows = *t == 'N' ? *m : *n, cols = *t == 'N' ? *n : *m;
  for (int i = 0; i < rows; i++) {
    double s = 0; for (int k = 0; k < cols; k++) s += (*t == 'N' ? a[i + *lda * k] : a[k + *lda * i]) * x[k * *ix];
    y[i * *iy] = blas_out(s, *al, *be, y[i * *iy]);
  }
  return 0;
}
REP int replace__dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *al, const double *a, const int *lda, const double *b, const int *ldb, const double *be, double *c, const int *ldc) {
  ENSURE(*lda >= (*ta == 'N' ? *m : *k) && *ldb >= (*tb == 'N' ? *k : *n) && *ldc >= *m);
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) {
    double s = 0;
    for (int l = 0; l < *k; l++) s += (*ta == 'N' ? a[i + *lda * l] : a[l + *lda * i]) * (*tb == 'N' ? b[l + *ldb * j] : b[j + *ldb * l]);
    c[i + *ldc * j] = blas_out(s, *al, *be, c[i + *ldc * j]);
  }
  return 0;
}
REP int replace__dsyrk_(const char *u, const char *t, const int *n, const int *k, const double *al, const double *a, const int *lda, const double *be, double *c, const int *ldc) {
  ENSURE(*lda >= (*t == 'N' ? *n : *k) && *ldc >= *n);
  for (int j = 0; j < *n; j++) for (int i = 0; i < *n; i++) {
    if (*u == 'U' ? i > j : i < j) continue;
    double s = 0;
    for (int l = 0; l < *k; l++) s += *t == 'N' ? a[i + *lda * l] * a[j + *lda * l] : a[l + *lda * i] * a[l + *lda * j];
    c[i + *ldc * j] = blas_out(s, *al, *be, c[i + *ldc * j]);
  }
  return 0;
}
REP int replace__dsymm_(const char *sd, const char *u, const int *m, const int *n, const double *al, const double *a, const int *lda, const double *b, const int *ldb, const double *be, double *c, const int *ldc) {
  bool left = *sd == 'L'; int ka = left ? *m : *n;
  ENSURE(*lda >= ka && *ldb >= *m && *ldc >= *m);
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) {
    double s = 0;
    for (int l = 0; l < ka; l++) {
      int p = left ? i : l, q = left ? l : j; // element (p,q) of the symmetric matrix
      if (*u == 'U' ? p > q : p < q) { int t = p; p = q; q = t; }
      s += a[p + *lda * q] * (left ? b[l + *ldb * j] : b[i + *ldb * l]);
    }
    c[i + *ldc * j] = blas_out(s, *al, *be, c[i + *ldc * j]);
  }
  return 0;
}
#endif
