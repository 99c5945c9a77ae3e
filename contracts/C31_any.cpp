#include "mat.h"
// the LAPACK routines are asked for the right system, for any order of the matrix
#ifndef VC_NATIVE
static const double *P_a, *P_b; static int P_n, P_c, P_info, P_calls; static char P_u, P_t, P_d;
static void sysm(const double *a, int n, int lda, const double *b, int nrhs, int ldb) { ENSURE(a == P_a && n == P_n && lda == P_n && b == P_b && nrhs == P_c && ldb == P_n); P_calls++; }
REP void replace__dtrtrs_(const char *uplo, const char *trans, const char *diag, const int *n, const int *nrhs, const double *a, const int *lda, double *b, const int *ldb, int *info) { sysm(a, *n, *lda, b, *nrhs, *ldb); ENSURE(*uplo == P_u && *trans == P_t && *diag == P_d); *info = P_info; }
REP void replace__dposv_(const char *uplo, const int *n, const int *nrhs, double *a, const int *lda, double *b, const int *ldb, int *info) { sysm(a, *n, *lda, b, *nrhs, *ldb); ENSURE(*uplo == P_u); *info = P_info; }
REP void replace__dgetrf_(const int *m, const int *n, double *a, const int *lda, int *ipiv, int *info) { ENSURE(*m == P_n && *n == P_n && a == P_a && *lda == P_n); ipiv[0] = 1; ipiv[*n - 1] = *n; P_calls++; *info = P_info; }
REP void replace__dgetri_(const int *n, double *a, const int *lda, const int *ipiv, double *work, const int *lwork, int *info) { ENSURE(P_calls == 1 && P_info == 0 && *n == P_n && a == P_a && *lda == P_n && *lwork >= *n && ipiv[*n - 1] == *n && ipiv[0] == 1); work[0] = 0; work[*lwork - 1] = 0; P_calls++; *info = P_c; }
REP double replace__dlange_(const char *norm, const int *m, const int *n, const double *a, const int *lda, double *work) { ENSURE(*m == P_n && *n == P_c && *lda == P_n && a == P_a && *norm == P_u); if (*norm == 'I') { work[0] = 0; work[*m - 1] = 0; } P_calls++; return 5; }
static double P_x[1];
HARNESS(trian_any) { int n = vc_size(1, 1000), c = vc_size(1, 1000); bool up = vc_bool(), tr = vc_bool(), un = vc_bool(); double *a = vc_array(4), *b = vc_array(4); P_a = a; P_b = b; P_n = n; P_c = c; P_u = up ? 'U' : 'L'; P_t = tr ? 'T' : 'N'; P_d = un ? 'U' : 'N'; P_info = vc_int(-3, 3); P_calls = 0; Mat A(a, n, n), B(b, n, c); ENSURE((A.SolveTrian(B, up, tr, un) != 0) == (P_info != 0)); ENSURE(P_calls == 1); }
HARNESS(pos_any) { int n = vc_size(1, 1000), c = vc_size(1, 1000); bool up = vc_bool(); double *a = vc_array(4), *b = vc_array(4); P_a = a; P_b = b; P_n = n; P_c = c; P_u = up ? 'U' : 'L'; P_info = vc_int(-3, 3); P_calls = 0; Mat A(a, n, n), B(b, n, c); ENSURE((A.SolvePos(B, up) != 0) == (P_info != 0)); ENSURE(P_calls == 1); }
HARNESS(inv_any) { int n = vc_size(2, 1000); double *a = vc_array(4); P_a = a; P_n = n; P_info = vc_int(-3, 3); P_c = vc_int(-3, 3); P_calls = 0; Mat A(a, n, n); int r = A.Inv0(); ENSURE((r != 0) == (P_info != 0 || P_c != 0)); ENSURE(P_calls == (P_info != 0 ? 1 : 2)); }
HARNESS(norm_any) { int m = vc_size(1, 1000), n = vc_size(1, 1000); int k = vc_pin(vc_int(0, 3), 0, 3); double *a = vc_array(4); P_a = a; P_n = m; P_c = n; P_u = "M1IF"[k]; P_calls = 0; Mat A(a, m, n); ENSURE(A.Norm(P_u) == 5); ENSURE(P_calls == 1); }
#endif
