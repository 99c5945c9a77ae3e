#include "mat.h"
#include "/repo/src/matrix/matrix_sym.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_statistics/correlation.cpp"
// correlation and covariance matrices
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
typedef CorrelationType CT; typedef CorrelationMethod CM;
template <bool N, CT T, CM C> struct Cor {
  Correlation<N, T, C> R; std::unique_ptr<double[]> w, s;
  Cor(const Mat &A, bool adj, bool low) : R(A.RowsCount, A.ColsCount, true), w(new double[R.WorkSize + 1]), s(new double[R.StorageSize + 1]) {
    for (int i = 0; i < R.StorageSize; i++) s[i] = 7; s[R.StorageSize] = w[R.WorkSize] = 5;
    R.Calculate(A, w.get(), s.get(), adj, low); ENSURE(s[R.StorageSize] == 5 && w[R.WorkSize] == 5 && R.Result.RowsCount == A.ColsCount && R.Result.ColsCount == A.ColsCount);
  }
};
// sum of products of deviations of columns i and j over the rows where both exist
static double dev(const Mat &A, int i, int j, int &n, bool nan) {
  double a = 0, b = 0, r = 0; n = 0; int m = A.RowsCount; auto ok = [&](int k) { return !nan || (!std::isnan(A.Data[k + m * i]) && !std::isnan(A.Data[k + m * j])); };
  for (int k = 0; k < m; k++) if (ok(k)) { n++; a += A.Data[k + m * i]; b += A.Data[k + m * j]; }
  for (int k = 0; k < m; k++) if (ok(k)) r += (A.Data[k + m * i] - a / n) * (A.Data[k + m * j] - b / n);
  return r;
}
template <bool N> static void covariance() {
  vc_bounded(); int m = 3, n = dim(1, 3); bool adj = dim(0, 1), low = dim(0, 1); double d[9]; for (int i = 0; i < 9; i++) d[i] = vc_real(); if (N) { int k = dim(-1, 2); if (k >= 0) d[k] = NAN; }
  Mat A(d, m, n); Cor<N, CT::kCovariance, CM::kPearson> c(A, adj, low);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (low || i <= j) { int q; double v = dev(A, i, j, q, N); ENSURE(vc_same(c.R.Result.Get0(i, j) * (adj ? q - 1 : q), v)); if (N) ENSURE(c.R.ResultCounts.Get0(i, j) == q); }
}
HARNESS(covariance) { covariance<false>(); }
HARNESS(covariance_nan) { covariance<true>(); }
HARNESS(correlation) {
  vc_bounded(); int m = 3, n = dim(1, 2); bool low = dim(0, 1); double d[6]; for (int i = 0; i < 6; i++) d[i] = vc_real(); Mat A(d, m, n); int q;
  for (int j = 0; j < n; j++) vc_assume(dev(A, j, j, q, false) > 0.1);
  Cor<false, CT::kCorrelation, CM::kPearson> c(A, false, low);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (low || i <= j) { double v = c.R.Result.Get0(i, j), a = dev(A, i, i, q, false), b = dev(A, j, j, q, false), ab = dev(A, i, j, q, false); ENSURE(vc_same(v * v * a * b, ab * ab)); ENSURE(i != j || vc_same(v, 1)); }
}
HARNESS(correlation_nan) { // every pair over the rows where both exist
  vc_bounded(); int m = 3, n = 3; bool low = dim(0, 1); double d[9]; for (int i = 0; i < 9; i++) d[i] = (i * i * 5) % 7 + (i % 2) * 0.25; int k = dim(-1, 8); if (k >= 0) d[k] = NAN; Mat A(d, m, n);
  Cor<true, CT::kCorrelation, CM::kPearson> c(A, false, low);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (low || i <= j) { double a, b, u, v; int q; double r = i == j ? 1 : A.CorrelationColumn(i < j ? i : j, i < j ? j : i, a, b, u, v, q, false, true); ENSURE(vc_same(c.R.Result.Get0(i, j), r)); if (i != j) ENSURE(c.R.ResultCounts.Get0(i, j) == q); }
}
// ranks: the number of larger (or smaller) values in the column
HARNESS(ranks) {
  vc_bounded(); int m = dim(1, 4), n = m < 3 ? 2 : 1; bool asc = dim(0, 1); double d[4]; for (int i = 0; i < m * n; i++) d[i] = vc_real(); Mat A(d, m, n); Rank R(m, n); ENSURE(R.StorageSize == m * n && R.WorkSize == m * n); double w[4], s[4]; R.Calculate(A, w, s, asc);
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int k = 0; for (int q = 0; q < m; q++) k += asc ? d[q + m * j] < d[i + m * j] : d[q + m * j] > d[i + m * j]; ENSURE(R.Result.Get0(i, j) == k); }
}
template <bool N, CT T> static void spearman() { // Pearson coefficients of the ranks
  vc_bounded(); int m = 4, n = 2; bool adj = dim(0, 1), low = dim(0, 1); double d[8], r[8]; for (int i = 0; i < 8; i++) d[i] = (i * 7) % 5 + (i % 3 ? 0.5 : 0); if (N) { int k = dim(-1, 7); if (k >= 0) d[k] = NAN; }
  Mat A(d, m, n); Cor<N, T, CM::kSpearman> c(A, adj, low); int q = 0;
  for (int i = 0; i < m; i++) if (!std::isnan(d[i]) && !std::isnan(d[i + m])) { for (int j = 0; j < 2; j++) { r[q + m * j] = 0; for (int k = 0; k < m; k++) if (!std::isnan(d[k]) && !std::isnan(d[k + m]) && d[k + m * j] > d[i + m * j]) r[q + m * j] += 1; } q++; }
  double x[8]; for (int j = 0; j < 2; j++) for (int i = 0; i < q; i++) x[i + q * j] = r[i + m * j]; Mat X(x, q, 2); Cor<false, T, CM::kPearson> p(X, adj, true);
  ENSURE(vc_same(c.R.Result.Get0(0, 1), p.R.Result.Get0(0, 1)) && (!low || vc_same(c.R.Result.Get0(1, 0), p.R.Result.Get0(0, 1))));
  if (N) ENSURE(c.R.ResultCounts.Get0(0, 1) == q); else for (int j = 0; j < 2; j++) ENSURE(vc_same(c.R.Result.Get0(j, j), p.R.Result.Get0(j, j)));
}
HARNESS(spearman) { spearman<false, CT::kCorrelation>(); }
HARNESS(spearman_cov) { spearman<false, CT::kCovariance>(); }
HARNESS(spearman_nan) { spearman<true, CT::kCorrelation>(); }
HARNESS(spearman_nan_cov) { spearman<true, CT::kCovariance>(); }
HARNESS(errors) {
  vc_bounded(); int m = dim(2, 3), n = dim(1, 3); double d[9] = {1, 2, 4, 3, 1, 5, 2, 2, 7}, w[64], s[64]; Mat A(d, m, n); Correlation<false, CT::kCorrelation, CM::kPearson> R(2, 2, true);
  ENSURE(vc_throws([&] { R.Calculate(A, w, s); }) == (m * n > 4 || n > 2)); ENSURE(vc_throws([&] { Correlation<false, CT::kCorrelation, CM::kPearson> Q(2, 2, false); }));
}
#ifdef VC_NATIVE
// a second calculation is not affected by the first one
template <bool N, CT T, CM C> static void again() {
  int m = vc_int(3, 8), n = vc_int(1, 4); bool adj = vc_int(0, 1), low = vc_int(0, 1); std::vector<double> d(m * n), e(m * n); for (auto &x : d) x = vc_real(); for (auto &x : e) x = vc_real(); if (N) { d[vc_int(0, m * n - 1)] = NAN; e[vc_int(0, m * n - 1)] = NAN; }
  int m2 = vc_int(2, m), n2 = vc_int(1, n); Mat A(d.data(), m, n), B(e.data(), m2, n2); Correlation<N, T, C> R(m, n, true), Q(m2, n2, true);
  std::vector<double> w(R.WorkSize), s(R.StorageSize), w2(Q.WorkSize), s2(Q.StorageSize);
  R.Calculate(A, w.data(), s.data(), adj, low); R.Calculate(B, w.data(), s.data(), adj, low); Q.Calculate(B, w2.data(), s2.data(), adj, low);
  ENSURE(R.Result.RowsCount == n2 && R.Result.ColsCount == n2);
  for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) if (low || i <= j) { ENSURE(vc_same(R.Result.Get0(i, j), Q.Result.Get0(i, j))); if (N && i < j) { ENSURE(vc_same(R.ResultCounts.Get0(i, j), Q.ResultCounts.Get0(i, j)));
    int c = 0; for (int k = 0; k < m2; k++) c += !std::isnan(e[k + m2 * i]) && !std::isnan(e[k + m2 * j]); if (i < j) ENSURE(R.ResultCounts.Get0(i, j) == c); } }
}
HARNESS(nat_again) { again<false, CT::kCorrelation, CM::kPearson>(); }
HARNESS(nat_again_cov) { again<false, CT::kCovariance, CM::kPearson>(); }
HARNESS(nat_again_nan) { again<true, CT::kCovariance, CM::kPearson>(); }
HARNESS(nat_again_nan_cor) { again<true, CT::kCorrelation, CM::kPearson>(); }
HARNESS(nat_again_rank) { again<false, CT::kCorrelation, CM::kSpearman>(); }
HARNESS(nat_again_rank_nan) { again<true, CT::kCorrelation, CM::kSpearman>(); }
#endif
