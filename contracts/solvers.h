// assumed contracts of the LAPACK routines (what they read, write and return);
// the native build calls the installed library instead
#pragma once
#ifndef VC_NATIVE
static int lapack_pivot = 0; // 0: exchange rows only where needed, 1: whenever possible (both are allowed results)
static double lapack_lu[9], lapack_a[9]; static int lapack_ipiv[3]; // last factorised matrix
static double lapack_abs(double x) { return x < 0 ? -x : x; }
REP void replace__dgetrf_(const int *m, const int *n, double *a, const int *lda, int *ipiv, int *info) {
  ENSURE(*m == *n && *lda >= *m); int N = *n, L = *lda; *info = 0;
  for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) lapack_a[i + N * j] = a[i + L * j];
  for (int k = 0; k < N; k++) {
    int p = k;
    if (lapack_pivot) { for (int i = N - 1; i > k; i--) if (a[i + L * k] != 0) { p = i; break; } }
    else if (a[k + L * k] == 0) { for (int i = k + 1; i < N; i++) if (a[i + L * k] != 0) { p = i; break; } }
    ipiv[k] = p + 1;
    if (a[p + L * k] == 0) { if (*info == 0) *info = k + 1; continue; }
    if (p != k) for (int j = 0; j < N; j++) { double t = a[k + L * j]; a[k + L * j] = a[p + L * j]; a[p + L * j] = t; }
    for (int i = k + 1; i < N; i++) { a[i + L * k] /= a[k + L * k]; for (int j = k + 1; j < N; j++) a[i + L * j] -= a[i + L * k] * a[k + L * j]; }
  }
  for (int j = 0; j < N; j++) { lapack_ipiv[j] = ipiv[j]; for (int i = 0; i < N; i++) lapack_lu[i + N * j] = a[i + L * j]; }
}
static double lapack_minor(const double *a, int n, int r, int c) { // determinant without row r and column c
  double b[4]; int k = 0; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i != r && j != c) b[k++] = a[i + n * j];
  return n == 1 ? 1 : n == 2 ? b[0] : b[0] * b[3] - b[1] * b[2];
}
static double lapack_det(const double *a, int n) { double d = 0; for (int j = 0; j < n; j++) d += (j % 2 ? -1 : 1) * a[n * j] * lapack_minor(a, n, 0, j); return d; }
REP void replace__dgetri_(const int *n, double *a, const int *lda, const int *ipiv, double *work, const int *lwork, int *info) {
  int N = *n, L = *lda; ENSURE(L >= N && *lwork >= N); for (int i = 0; i < *lwork; i++) work[i] = 0;
  for (int j = 0; j < N; j++) { ENSURE(ipiv[j] == lapack_ipiv[j]); for (int i = 0; i < N; i++) ENSURE(a[i + L * j] == lapack_lu[i + N * j]); }
  double d = lapack_det(lapack_a, N); *info = 0;
  for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) a[i + L * j] = ((i + j) % 2 ? -1 : 1) * lapack_minor(lapack_a, N, j, i) / d;
}
REP void replace__dpotrf2_(const char *uplo, const int *n, double *a, const int *lda, int *info) {
  int N = *n, L = *lda; ENSURE(L >= N && (*uplo == 'U' || *uplo == 'L')); bool up = *uplo == 'U'; *info = 0;
  for (int j = 0; j < N; j++) { // factor F with F F' = A, stored transposed for 'U'
    auto F = [&](int i, int k) -> double & { return up ? a[k + L * i] : a[i + L * k]; };
    double s = F(j, j); for (int k = 0; k < j; k++) s -= F(j, k) * F(j, k);
    if (!(s > 0)) { *info = j + 1; return; }
    double r = std::sqrt(s); F(j, j) = r;
    for (int i = j + 1; i < N; i++) { double t = F(i, j); for (int k = 0; k < j; k++) t -= F(i, k) * F(j, k); F(i, j) = t / r; }
  }
}
REP void replace__dtrtrs_(const char *uplo, const char *trans, const char *diag, const int *n, const int *nrhs, const double *a, const int *lda, double *b, const int *ldb, int *info) {
  int N = *n, L = *lda; ENSURE(L >= N && *ldb >= N && (*uplo == 'U' || *uplo == 'L') && (*trans == 'N' || *trans == 'T') && (*diag == 'N' || *diag == 'U')); bool t = *trans == 'T', unit = *diag == 'U', up = (*uplo == 'U') != t; *info = 0;
  if (!unit) for (int i = 0; i < N; i++) if (a[i + L * i] == 0) { *info = i + 1; return; }
  for (int c = 0; c < *nrhs; c++) for (int q = 0; q < N; q++) {
    int i = up ? N - 1 - q : q; double s = b[i + *ldb * c];
    for (int k = up ? i + 1 : 0; k < (up ? N : i); k++) s -= (t ? a[k + L * i] : a[i + L * k]) * b[k + *ldb * c];
    b[i + *ldb * c] = unit ? s : s / a[i + L * i];
  }
}
REP void replace__dposv_(const char *uplo, const int *n, const int *nrhs, double *a, const int *lda, double *b, const int *ldb, int *info) {
  int N = *n, L = *lda; ENSURE(L >= N && *ldb >= N && (*uplo == 'U' || *uplo == 'L')); bool up = *uplo == 'U'; *info = 0;
  double f[9]; for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) f[i + N * j] = (up ? i <= j : i >= j) ? a[i + L * j] : a[j + L * i];
  for (int k = 1; k <= N; k++) { double m[9]; for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) m[i + k * j] = f[i + N * j]; if (!(lapack_det(m, k) > 0)) { *info = k; return; } }
  double d = lapack_det(f, N), x[9];
  for (int c = 0; c < *nrhs; c++) { for (int i = 0; i < N; i++) { double s = 0; for (int k = 0; k < N; k++) s += ((i + k) % 2 ? -1 : 1) * lapack_minor(f, N, k, i) * b[k + *ldb * c]; x[i] = s / d; } for (int i = 0; i < N; i++) b[i + *ldb * c] = x[i]; }
}
REP double replace__dlange_(const char *norm, const int *m, const int *n, const double *a, const int *lda, double *work) {
  int M = *m, N = *n, L = *lda; ENSURE(L >= M && (*norm == 'M' || *norm == '1' || *norm == 'O' || *norm == 'I' || *norm == 'F' || *norm == 'E')); double r = 0;
#ifdef LAPACK_NORM_UNUSED
  return 1; // condition numbers are no part of the contract: norms are of no interest
#endif
  if (*norm == 'I') for (int i = 0; i < M; i++) work[i] = 0;
  if (*norm == 'F' || *norm == 'E') { for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) r += a[i + L * j] * a[i + L * j]; return std::sqrt(r); }
  if (*norm == 'M') { for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) { double x = lapack_abs(a[i + L * j]); if (x > r) r = x; } return r; }
  if (*norm == 'I') { for (int i = 0; i < M; i++) { double s = 0; for (int j = 0; j < N; j++) s += lapack_abs(a[i + L * j]); if (s > r) r = s; } return r; }
  for (int j = 0; j < N; j++) { double s = 0; for (int i = 0; i < M; i++) s += lapack_abs(a[i + L * j]); if (s > r) r = s; } return r;
}
REP void replace__dgeqrf_(const int *m, const int *n, double *a, const int *lda, double *tau, double *work, const int *lwork, int *info) {
  ENSURE(*lda >= *m && *m >= 0 && *n >= 0); int k = *m < *n ? *m : *n; *info = 0;
  if (*lwork == -1) { work[0] = 3 * *n; return; } // size query
  ENSURE(*lwork >= (*n > 1 ? *n : 1)); for (int i = 0; i < *lwork; i++) work[i] = 0; for (int i = 0; i < k; i++) tau[i] = 0;
}
// A = U S V': the contract knows the decomposition that the harness has chosen
static double lapack_s[3], lapack_u[9], lapack_vt[9], lapack_m[9];
REP void replace__dgesvd_(const char *ju, const char *jv, const int *m, const int *n, double *a, const int *lda, double *s, double *u, const int *ldu, double *vt, const int *ldvt, double *work, const int *lwork, int *info) {
  int M = *m, N = *n, k = M < N ? M : N, g = M < N ? N : M, need = 3 * k + g > 5 * k ? 3 * k + g : 5 * k; *info = 0;
  ENSURE(*lda >= M && *lwork >= need); for (int i = 0; i < *lwork; i++) work[i] = 0;
  for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) { ENSURE(a[i + *lda * j] == lapack_m[i + M * j]); a[i + *lda * j] = 0; }
  for (int i = 0; i < k; i++) s[i] = lapack_s[i];
  int cu = *ju == 'A' ? M : *ju == 'S' ? k : 0, rv = *jv == 'A' ? N : *jv == 'S' ? k : 0;
  if (cu) { ENSURE(*ldu >= M); for (int j = 0; j < cu; j++) for (int i = 0; i < M; i++) u[i + *ldu * j] = lapack_u[i + M * j]; }
  if (rv) { ENSURE(*ldvt >= rv); for (int j = 0; j < N; j++) for (int i = 0; i < rv; i++) vt[i + *ldvt * j] = lapack_vt[i + N * j]; }
}
#endif
