#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
// least squares: normal equations, residuals and their cross products
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double ab(double x) { return x < 0 ? -x : x; }
template <bool GLS, bool INV> static void ls(int N, int k, int m) {
  vc_bounded(); bool resid = dim(0, 1), sigma = dim(0, 1); int extra = dim(0, 1); double x[6], y[6], om[9], oo[9];
  for (int i = 0; i < N * k; i++) x[i] = vc_real(); for (int i = 0; i < N * m; i++) y[i] = vc_real();
  Mat X(x, N, k), Y(y, N, m), O(om, N, N);
  if (GLS) for (int j = 0; j < N; j++) for (int i = 0; i <= j; i++) om[i + N * j] = om[j + N * i] = vc_real();
  for (int i = 0; i < 9; i++) oo[i] = GLS && i < N * N ? om[i] : 0;
  double d = 0; if (GLS && !INV) { d = N == 1 ? om[0] : om[0] * om[3] - om[1] * om[2]; vc_assume(d != 0); }
  // weights of the normal equations
  auto W = [&](int i, int j) { if (!GLS) return i == j ? 1. : 0.; if (INV) return oo[i + N * j]; return N == 1 ? 1 / d : i == j ? oo[3 - 3 * i] / d : -oo[1] / d; };
  double A[4]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double t = 0; for (int p = 0; p < N; p++) for (int q = 0; q < N; q++) t += x[p + N * i] * W(p, q) * x[q + N * j]; A[i + k * j] = t; }
  double det = k == 1 ? A[0] : A[0] * A[3] - A[1] * A[2]; vc_assume(det != 0);
#ifdef VC_NATIVE // rounding: executions use well-conditioned problems
  for (int i = 0; i < k; i++) { double s = 0; for (int p = 0; p < N; p++) s += x[p + N * i] * x[p + N * i]; vc_assume(ab(A[i * (k + 1)]) > 1e-3 * s && s > 1e-6 && s < 1e6); } if (k == 2) vc_assume(ab(det) > 1e-3 * ab(A[0] * A[3])); if (GLS && !INV) vc_assume(ab(d) > 1e-3 && (N == 1 || ab(d) > 1e-3 * (om[0] * om[3] + om[1] * om[1])));
#endif
  Ols o(N + extra, m, k, resid, sigma); Gls g(N + extra, m, k, resid, sigma, INV);
  int S = GLS ? g.StorageSize : o.StorageSize, V = GLS ? g.WorkSize : o.WorkSize; auto st = std::make_unique<double[]>(S + 1), w = std::make_unique<double[]>(V + 1); st[S] = w[V] = 5;
  if (GLS) g.Calculate(Y, X, O, st.get(), w.get()); else o.Calculate(Y, X, st.get(), w.get());
  ENSURE(st[S] == 5 && w[V] == 5);
  const Mat &B = GLS ? g.Beta : o.Beta, &R = GLS ? g.Resid : o.Resid, &Z = GLS ? g.Sigma : o.Sigma; ENSURE(B.RowsCount == k && B.ColsCount == m);
  for (int i = 0; i < k; i++) for (int c = 0; c < m; c++) {
    double l = 0, r = 0; for (int j = 0; j < k; j++) l += A[i + k * j] * B.Data[j + k * c]; for (int p = 0; p < N; p++) for (int q = 0; q < N; q++) r += x[p + N * i] * W(p, q) * y[q + N * c];
    ENSURE(vc_same(l, r));
  }
  if (resid || sigma) { ENSURE(R.RowsCount == N && R.ColsCount == m); for (int p = 0; p < N; p++) for (int c = 0; c < m; c++) { double t = y[p + N * c]; for (int j = 0; j < k; j++) t -= x[p + N * j] * B.Data[j + k * c]; ENSURE(vc_same(R.Data[p + N * c], t)); } }
  if (sigma) for (int a = 0; a < m; a++) for (int c = 0; c < m; c++) { double t = 0; for (int p = 0; p < N; p++) t += R.Data[p + N * a] * R.Data[p + N * c]; ENSURE(vc_same(Z.Data[a + m * c], t)); }
}
HARNESS(ols_1) { ls<false, false>(dim(1, 3), 1, dim(1, 2)); }
HARNESS(ols_2) { ls<false, false>(dim(2, 3), 2, 1); }
HARNESS(gls_1) { ls<true, false>(dim(1, 2), 1, dim(1, 2)); }
HARNESS(gls_2) { ls<true, false>(2, 2, 1); }
HARNESS(gls_inv_1) { ls<true, true>(dim(1, 3), 1, dim(1, 2)); }
HARNESS(gls_inv_2) { ls<true, true>(2, 2, 1); }
HARNESS(errors) { // data that does not fit the storage is rejected, as are too few or unequal rows and singular problems
  vc_bounded(); int N = dim(1, 3), k = dim(1, 2), r = dim(1, 3); bool gls = dim(0, 1); double x[6] = {1, 2, 3, 1, 1, 5}, y[3] = {1, 4, 2}, om[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, st[32], w[64];
  Mat X(x, r, k), Y(y, N, 1), O(om, N, N); if (N == 2) om[3] = 1, om[2] = 0;
  Ols o(2, 1, 1, false, false); Gls g(2, 1, 1, false, false); bool t = gls ? vc_throws([&] { g.Calculate(Y, X, O, st, w); }) : vc_throws([&] { o.Calculate(Y, X, st, w); });
  ENSURE(t == (r != N || N < k || N > 2 || k > 1));
  double z[2] = {0, 0}; Mat Z(z, 2, 1), Y2(y, 2, 1); ENSURE(vc_throws([&] { o.Calculate(Y2, Z, st, w); }));
}
