#include "mat.h"
#include "solvers.h"
#include "/repo/src/matrix/decompositions.cpp"
// determinants, inverses, factors and solutions (LAPACK through its contract)
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct Sq { double d[9], o[9]; int n; Sq(int n) : n(n) { for (int i = 0; i < n * n; i++) d[i] = o[i] = vc_real(); } double operator()(int i, int j) const { return o[i + n * j]; } };
static double det(const double *a, int n) { return n == 1 ? a[0] : n == 2 ? a[0] * a[3] - a[1] * a[2] : a[0] * (a[4] * a[8] - a[5] * a[7]) - a[3] * (a[1] * a[8] - a[2] * a[7]) + a[6] * (a[1] * a[5] - a[2] * a[4]); }
static void pivots(int p) {
#ifndef VC_NATIVE
  lapack_pivot = p;
#endif
}
static bool far0(double x) { return vc_symbolic() ? x != 0 : std::fabs(x) > 1e-6; } // away from the rounding of the library
template <int N> static void determinant() { vc_bounded(); pivots(dim(0, 1)); Sq a(N); double w = det(a.o, N); vc_assume(far0(w)); Mat A(a.d, N, N); ENSURE(vc_same(A.Det(), w)); }
HARNESS(det_1) { determinant<1>(); }
HARNESS(det_2) { determinant<2>(); }
HARNESS(det_3) { determinant<3>(); }
template <int N> static void inverse() {
  vc_bounded(); pivots(dim(0, 1)); Sq a(N); double w = det(a.o, N), s[9]; Mat A(a.d, N, N), S(s, N, N); vc_assume(w == 0 || far0(w)); if (!vc_symbolic()) vc_assume(w != 0);
  int info = A.Inv(S); ENSURE((info != 0) == (w == 0)); for (int i = 0; i < N * N; i++) ENSURE(a.d[i] == a.o[i]);
  if (w != 0) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double x = 0; for (int k = 0; k < N; k++) x += a(i, k) * s[k + N * j]; ENSURE(vc_same(x, i == j ? 1 : 0)); }
}
HARNESS(inv_1) { inverse<1>(); }
HARNESS(inv_2) { inverse<2>(); }
HARNESS(inv_3) { inverse<3>(); }
HARNESS(inv_2x2) { vc_bounded(); Sq a(2); double w = det(a.o, 2); vc_assume(far0(w)); Mat A(a.d, 2, 2); ENSURE(A.Inv2x2() == 0); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double x = 0; for (int k = 0; k < 2; k++) x += a(i, k) * a.d[k + 2 * j]; ENSURE(vc_same(x, i == j ? 1 : 0)); } }
// positive definite: A = G G' for a triangular G with a positive diagonal
struct Pd { double g[9], d[9], o[9]; int n; Pd(int n) : n(n) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) g[i + n * j] = i < j ? 0 : i == j ? vc_posreal() : vc_real(); if (!vc_symbolic()) for (int i = 0; i < n; i++) vc_assume(g[i + n * i] > 0.01); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < n; k++) s += g[i + n * k] * g[j + n * k]; d[i + n * j] = o[i + n * j] = s; } } };
template <int N> static void chol() {
  vc_bounded(); bool up = dim(0, 1); Pd a(N); double s[9]; Mat A(a.d, N, N), S(s, N, N); ENSURE(A.Chol(S, up) == 0);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ENSURE(vc_same(up ? s[j + N * i] : s[i + N * j], a.g[i + N * j]) && a.d[i + N * j] == a.o[i + N * j]);
}
HARNESS(chol_1) { chol<1>(); }
HARNESS(chol_2) { chol<2>(); }
HARNESS(chol_3) { chol<3>(); }
HARNESS(chol_fails) { vc_bounded(); bool up = dim(0, 1); double x = vc_real(), y = vc_real(), z = vc_real(); vc_assume(x < -0.001 || x * z - y * y < -0.001); double d[4] = {x, y, y, z}, s[4]; Mat A(d, 2, 2), S(s, 2, 2); ENSURE(A.Chol(S, up) != 0); }
HARNESS(chol_checks) { vc_bounded(); int m = dim(1, 2), n = dim(1, 2), p = dim(1, 3); Buf a(m * n), s(p * p); Mat A(a.d, m, n), S(s.d, p, p); bool sym = m == n && (m == 1 || a.o[1] == a.o[2]); vc_assume(a.o[0] > 1 && (m * n < 4 || a.o[1] - a.o[2] > 0.1 || sym)); if (sym && p == m) return; ENSURE(vc_throws([&] { A.Chol(S, true); })); a.unchanged(); s.unchanged(); }
template <int N> static void det_pd() { vc_bounded(); Pd a(N); double w = det(a.o, N); Mat A(a.d, N, N); ENSURE(vc_same(A.Det_pd0(), w)); }
HARNESS(det_pd_1) { det_pd<1>(); }
HARNESS(det_pd_2) { det_pd<2>(); }
HARNESS(det_pd_3) { det_pd<3>(); }
HARNESS(det_pd_fails) { vc_bounded(); double x = vc_real(), y = vc_real(), z = vc_real(); vc_assume(x < -0.001 || x * z - y * y < -0.001); double d[4] = {x, y, y, z}; Mat A(d, 2, 2); ENSURE(std::isnan(A.Det_pd0())); }
template <int N> static void trian() { // one triangle holds the matrix, the other one is not used
  vc_bounded(); bool up = dim(0, 1), tr = dim(0, 1), unit = dim(0, 1); int c = dim(1, 2); Sq a(N); Buf b(N * c); if (!unit) for (int i = 0; i < N; i++) vc_assume(vc_symbolic() ? a(i, i) != 0 : std::fabs(a(i, i)) > 0.01);
  Mat A(a.d, N, N), B(b.d, N, c); ENSURE(A.SolveTrian(B, up, tr, unit) == 0);
  auto T = [&](int i, int j) { if (tr) { int t = i; i = j; j = t; } return i == j ? (unit ? 1 : a(i, i)) : (up ? i < j : i > j) ? a(i, j) : 0; };
  for (int i = 0; i < N; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < N; k++) s += T(i, k) * b.d[k + N * j]; ENSURE(vc_same(s, b.o[i + N * j])); }
  for (int i = 0; i < N * N; i++) ENSURE(a.d[i] == a.o[i]);
}
HARNESS(trian_1) { trian<1>(); }
HARNESS(trian_2) { trian<2>(); }
HARNESS(trian_3) { trian<3>(); }
HARNESS(trian_singular) { vc_bounded(); bool up = dim(0, 1), tr = dim(0, 1); int z = dim(0, 1); Sq a(2); Buf b(2); a.d[z + 2 * z] = 0; Mat A(a.d, 2, 2), B(b.d, 2, 1); ENSURE(A.SolveTrian(B, up, tr, false) != 0); }
template <int N> static void pos() { // only the named triangle is used
  vc_bounded(); bool up = dim(0, 1); int c = dim(1, 2); Pd a(N); Buf b(N * c); for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) if (up ? i > j : i < j) a.d[i + N * j] = vc_real();
  Mat A(a.d, N, N), B(b.d, N, c); ENSURE(A.SolvePos(B, up) == 0);
  for (int i = 0; i < N; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < N; k++) s += a.o[i + N * k] * b.d[k + N * j]; ENSURE(vc_same(s, b.o[i + N * j])); }
}
HARNESS(pos_1) { pos<1>(); }
HARNESS(pos_2) { pos<2>(); }
HARNESS(pos_fails) { vc_bounded(); bool up = dim(0, 1); double x = vc_real(), y = vc_real(), z = vc_real(); vc_assume(x < -0.001 || x * z - y * y < -0.001); double d[4] = {x, y, y, z}; Buf b(2); Mat A(d, 2, 2), B(b.d, 2, 1); ENSURE(A.SolvePos(B, up) != 0); }
HARNESS(solve_checks) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), p = dim(1, 3); Buf a(m * n), b(p * 2), s(p * p); Mat A(a.d, m, n), B(b.d, p, 2), S(s.d, p, p); bool bad = m != n || p != m; if (!bad) return;
  ENSURE(vc_throws([&] { A.SolveTrian(B, true, dim(0, 1), false); })); ENSURE(vc_throws([&] { A.SolvePos(B, true); })); ENSURE(vc_throws([&] { A.Inv(S); })); if (m != n) ENSURE(vc_throws([&] { A.Det(); })); a.unchanged(); b.unchanged(); s.unchanged();
}
HARNESS(norm) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 2), k = dim(0, 3); Buf a(m * n); Mat A(a.d, m, n); double v = A.Norm("M1IF"[k]), w = 0; auto ab = [](double x) { return x < 0 ? -x : x; };
  if (k == 3) { for (int i = 0; i < m * n; i++) w += a.o[i] * a.o[i]; ENSURE(v >= 0 && vc_same(v * v, w)); }
  else if (k == 0) { for (int i = 0; i < m * n; i++) if (ab(a.o[i]) > w) w = ab(a.o[i]); ENSURE(vc_same(v, w)); }
  else { int r = k == 1 ? n : m, q = k == 1 ? m : n; for (int j = 0; j < r; j++) { double s = 0; for (int i = 0; i < q; i++) s += ab(k == 1 ? a.o[i + m * j] : a.o[j + m * i]); if (s > w) w = s; } ENSURE(vc_same(v, w)); }
  a.unchanged();
}
HARNESS(qr_work) { vc_bounded(); int m = dim(1, 3), n = dim(1, 3); Buf a(m * n); Mat A(a.d, m, n); double tau[3]; ENSURE(A.QR0(tau) == 0); }
#ifdef VC_NATIVE
#define SVD_SET(...)
#else
#define SVD_SET(...) __VA_ARGS__
#endif
// singular values: storage, work and the parts asked for
HARNESS(svd) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3), k = m < n ? m : n; char ju = dim(0, 1) ? 'A' : 'N', jv = dim(0, 1) ? 'A' : 'N';
  Buf a(m * n); Mat A(a.d, m, n); MatrixSvd<double> S(m, n, ju, jv); int need = k + (ju == 'A' ? m * m : 0) + (jv == 'A' ? n * n : 0); ENSURE(S.StorageSize == need);
  double u[9], s[3], vt[9]; for (int i = 0; i < m * m; i++) u[i] = vc_real(); for (int i = 0; i < n * n; i++) vt[i] = vc_real(); for (int i = 0; i < k; i++) s[i] = vc_real();
  SVD_SET(for (int i = 0; i < 9; i++) { lapack_u[i] = i < m * m ? u[i] : 0; lapack_vt[i] = i < n * n ? vt[i] : 0; lapack_m[i] = i < m * n ? a.o[i] : 0; } for (int i = 0; i < k; i++) lapack_s[i] = s[i];)
  double st[24], *w = new double[S.WorkSize]; for (int i = 0; i < 24; i++) st[i] = 7;
  S.Calculate(A, st, w); a.unchanged(); for (int i = need; i < 24; i++) ENSURE(st[i] == 7);
  ENSURE(S.S.length() == k);
  if (ju == 'A') ENSURE(S.U.RowsCount == m && S.U.ColsCount == m); if (jv == 'A') ENSURE(S.VT.RowsCount == n && S.VT.ColsCount == n);
  if (vc_symbolic()) {
    for (int i = 0; i < k; i++) ENSURE(S.S.Data[i] == s[i]);
    if (ju == 'A') for (int i = 0; i < m * m; i++) ENSURE(S.U.Data[i] == u[i]);
    if (jv == 'A') for (int i = 0; i < n * n; i++) ENSURE(S.VT.Data[i] == vt[i]);
  } else if (ju == 'A' && jv == 'A')
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double x = 0; for (int l = 0; l < k; l++) x += S.U.Data[i + m * l] * S.S.Data[l] * S.VT.Data[l + n * j]; ENSURE(vc_same(x, a.o[i + m * j])); }
  delete[] w;
}
HARNESS(qr_memory) { vc_bounded(); int m = dim(1, 2), n = dim(1, 2); Buf a(m * n), q(m * m), r(n * n); Mat A(a.d, m, n), Q(q.d, m, m), R(r.d, n, n); try { A.QR(Q, R); } catch (...) {} }
