#include "mat.h"
// moments of columns with any number of rows
struct Ctx { const double *x, *y; };
SPEC double spec_s(const double *x, const double *y, int n, int k) { // sums over rows without missing values
  if (n <= 0) return 0;
  double r = spec_s(x, y, n - 1, k), a = x[n - 1], b = y[n - 1];
  if (std::isnan(a) || std::isnan(b)) return r;
  return r + (k == 0 ? 1 : k == 1 ? a : k == 2 ? b : k == 3 ? a * b : k == 4 ? a * a : b * b);
}
#define S(k) spec_s(c->x, c->y, i, k)
CAND bool cand_all__sum(const Ctx *c, double s, int i) { return s == S(1); }
CAND bool cand_all__cnt(const Ctx *c, int q, int i) { return q >= 0 && q == S(0); }
CAND bool cand_all__mean(const Ctx *c, double m, int q, int i) { return q >= 0 && q == S(0) && q * m == S(1); }
CAND bool cand_all__mean_i(const Ctx *c, double m, int i) { return i * m == S(1) && i == S(0); }
CAND bool cand_all__var(const Ctx *c, double m, double m2, int q, int i) { return q >= 0 && q == S(0) && q * m == S(1) && m2 + q * m * m == S(4); }
CAND bool cand_all__var_i(const Ctx *c, double m, double m2, int i) { return i == S(0) && i * m == S(1) && m2 + i * m * m == S(4); }
CAND bool cand_all__cov(const Ctx *c, double m, double n, double m2, int q, int i) { return q >= 0 && q == S(0) && q * m == S(1) && q * n == S(2) && m2 + q * m * n == S(3); }
CAND bool cand_all__cov_i(const Ctx *c, double m, double n, double m2, int i) { return i == S(0) && i * m == S(1) && i * n == S(2) && m2 + i * m * n == S(3); }
#undef S
static double *col(int m, bool nan) { return nan ? vc_array_nan(m) : vc_array(m); }
template <bool NANS, bool SAMPLE> static void var() {
  int m = vc_size(2, 100000), j = vc_pin(vc_int(0, 1), 0, 1); double *d = col(2 * m, NANS); double *x = d + m * j; Ctx c{x, x}; vc_ctx(&c);
  Mat A(d, m, 2); double me; int cnt; double v = A.VarianceColumn(j, me, cnt, SAMPLE, NANS);
  double n = spec_s(x, x, m, 0), s = spec_s(x, x, m, 1), q = spec_s(x, x, m, 4);
  ENSURE(cnt == n);
  if (n < 2) return;
  ENSURE(vc_same(me * n, s) && vc_same(v * (SAMPLE ? n - 1 : n), q - n * me * me));
}
HARNESS(var_column) { var<false, false>(); }
HARNESS(var_column_s) { var<false, true>(); }
HARNESS(var_column_nan) { var<true, false>(); }
HARNESS(var_column_nan_s) { var<true, true>(); }
template <bool NANS, bool SAMPLE> static void all() { // the whole matrix as one sample
  int m = vc_size(1, 100000); double *x = col(2 * m, NANS); Ctx c{x, x}; vc_ctx(&c);
  Mat A(x, m, 2); double me, v = A.Variance(me, SAMPLE, NANS);
  double n = spec_s(x, x, 2 * m, 0), s = spec_s(x, x, 2 * m, 1), q = spec_s(x, x, 2 * m, 4);
  if (n < 2) return;
  ENSURE(vc_same(me * n, s) && vc_same(v * (SAMPLE ? n - 1 : n), q - n * me * me));
}
HARNESS(variance) { all<false, false>(); }
HARNESS(variance_s) { all<false, true>(); }
HARNESS(variance_nan) { all<true, false>(); }
HARNESS(variance_nan_s) { all<true, true>(); }
template <bool NANS> static void mean() {
  int m = vc_size(1, 100000); double *x = col(2 * m, NANS); Ctx c{x, x}; vc_ctx(&c);
  Mat A(x, m, 2); double me = A.Mean(NANS); double n = spec_s(x, x, 2 * m, 0); if (n < 1) return;
  ENSURE(vc_same(me * n, spec_s(x, x, 2 * m, 1)));
}
HARNESS(mean) { mean<false>(); }
HARNESS(mean_nan) { mean<true>(); }
template <bool NANS, bool SAMPLE> static void cov() {
  int m = vc_size(2, 100000); double *d = col(2 * m, NANS), *x = d, *y = d + m; Ctx c{x, y}; vc_ctx(&c);
  Mat A(d, m, 2); double m1, m2; int cnt; double v = A.CovarianceColumn(0, 1, m1, m2, cnt, SAMPLE, NANS);
  double n = spec_s(x, y, m, 0); ENSURE(cnt == n); if (n < 2) return;
  ENSURE(vc_same(m1 * n, spec_s(x, y, m, 1)) && vc_same(m2 * n, spec_s(x, y, m, 2)) && vc_same(v * (SAMPLE ? n - 1 : n), spec_s(x, y, m, 3) - n * m1 * m2));
}
HARNESS(cov) { cov<false, false>(); }
HARNESS(cov_s) { cov<false, true>(); }
HARNESS(cov_nan) { cov<true, false>(); }
HARNESS(cov_nan_s) { cov<true, true>(); }
// ---- small shapes, every pattern of missing values
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct Mom { int n = 0; double s1 = 0, s2 = 0, s12 = 0, s11 = 0, s22 = 0, m1, m2, c12, c11, c22;
  Mom(const double *x, const double *y, int m) {
    for (int i = 0; i < m; i++) if (!std::isnan(x[i]) && !std::isnan(y[i])) { n++; s1 += x[i]; s2 += y[i]; }
    m1 = s1 / n; m2 = s2 / n; c12 = c11 = c22 = 0;
    for (int i = 0; i < m; i++) if (!std::isnan(x[i]) && !std::isnan(y[i])) { c12 += (x[i] - m1) * (y[i] - m2); c11 += (x[i] - m1) * (x[i] - m1); c22 += (y[i] - m2) * (y[i] - m2); }
  } };
HARNESS(correlation) {
  vc_bounded(); int m = dim(2, 3); bool sample = dim(0, 1), check = dim(0, 1); Buf a(0); for (int i = 0; i < 2 * m; i++) { if (check && vc_bool()) a.d[i] = NAN; else a.d[i] = vc_real(); }
  Mat A(a.d, m, 2); Mom M(a.d, a.d + m, m); double m1, m2, v1, v2; int cnt = -1, j = dim(-1, 2); double r = 0;
  if (j < 0 || j > 1) { ENSURE(vc_throws([&] { A.CorrelationColumn(0, j, m1, m2, v1, v2, cnt, sample, check); }) && vc_throws([&] { A.CovarianceColumn(j, 0, m1, m2, cnt, sample, check); })); return; }
  if (M.n < 2) return;
  r = A.CorrelationColumn(0, 1, m1, m2, v1, v2, cnt, sample, check);
  int q = sample ? M.n - 1 : M.n;
  ENSURE(cnt == M.n && vc_same(m1, M.m1) && vc_same(m2, M.m2) && vc_same(v1, M.c11 / q) && vc_same(v2, M.c22 / q));
  if (M.c11 > 1e-3 && M.c22 > 1e-3) ENSURE(vc_same(r * std::sqrt(M.c11) * std::sqrt(M.c22), M.c12));
}
HARNESS(correlation_const) { vc_bounded(); double v = vc_real(), w = vc_real(), d[6] = {v, v, v, w, w, w}, m1, m2, v1, v2; int c; Mat A(d, 3, 2); ENSURE(A.CorrelationColumn(0, 1, m1, m2, v1, v2, c, true, dim(0, 1)) == 1); }
HARNESS(columns) { // chosen columns, in the given order
  vc_bounded(); int m = dim(1, 3), n = 2, k = dim(0, 2); Buf a(m * n), s(4); int ix[2] = {dim(0, 1), dim(0, 1)}; Mat A(a.d, m, n); std::vector<int> v; for (int i = 0; i < k; i++) v.push_back(ix[i]);
  int K = k ? k : n; if (!k) { ix[0] = 0; ix[1] = 1; }
  Mat R(s.d, K, 1), W(s.d, K + 1, 1); auto u = v, u2 = v; double sm[2]; for (int j = 0; j < n; j++) { sm[j] = 0; for (int i = 0; i < m; i++) sm[j] += a.o[i + m * j]; }
  ENSURE(vc_throws([&] { A.ColumnsSum(W, u); }) && vc_throws([&] { A.ColumnsMean(W, u); }));
  A.ColumnsSum(R, u2); for (int j = 0; j < K; j++) ENSURE(vc_same(s.d[j], sm[ix[j]]));
  auto u3 = v; A.ColumnsMean(R, u3); for (int j = 0; j < K; j++) ENSURE(vc_same(s.d[j], sm[ix[j]] / m));
  if (m > 1) {
    bool sample = dim(0, 1); Mat C(s.d, K, K); auto u4 = v; A.ColumnsVariance(C, u4, sample);
    for (int p = 0; p < K; p++) for (int q = 0; q < K; q++) { double t = 0; for (int i = 0; i < m; i++) t += (a.o[i + m * ix[p]] - sm[ix[p]] / m) * (a.o[i + m * ix[q]] - sm[ix[q]] / m); ENSURE(vc_same(s.d[p + K * q], t / (sample ? m - 1 : m))); }
  }
}
HARNESS(rows) {
  vc_bounded(); int m = 2, n = dim(1, 3), k = dim(0, 2); Buf a(m * n), s(4); int ix[2] = {dim(0, 1), dim(0, 1)}; Mat A(a.d, m, n); std::vector<int> v; for (int i = 0; i < k; i++) v.push_back(ix[i]);
  int K = k ? k : m; if (!k) { ix[0] = 0; ix[1] = 1; } Mat R(s.d, K, 1), W(s.d, K + 1, 1); auto u = v;
  ENSURE(vc_throws([&] { A.RowsSum(W, u); })); auto u2 = v; A.RowsSum(R, u2);
  for (int i = 0; i < K; i++) { double t = 0; for (int j = 0; j < n; j++) t += a.o[ix[i] + m * j]; ENSURE(vc_same(s.d[i], t)); }
}
HARNESS(all_columns) { // means and variances of every column
  vc_bounded(); int m = dim(2, 3), n = 2; bool sample = dim(0, 1), check = dim(0, 1); Buf a(0); for (int i = 0; i < m * n; i++) { if (check && vc_bool()) a.d[i] = NAN; else a.d[i] = vc_real(); }
  Mat A(a.d, m, n); double me[2], va[2], me2[2], va2[2]; Mat M(me, n, 1), V(va, n, 1), M2(me2, n, 1), V2(va2, n, 1), W(me, n + 1, 1);
  ENSURE(vc_throws([&] { A.ColumnsMeans(W, check); }) && vc_throws([&] { A.ColumnsVariances(W, sample, check); }) && vc_throws([&] { A.ColumnsMeansVariances(W, V, sample, check); }) && vc_throws([&] { A.ColumnsMeansVariances(M, W, sample, check); }));
  A.ColumnsMeans(M, check); A.ColumnsVariances(V, sample, check); A.ColumnsMeansVariances(M2, V2, sample, check);
  for (int j = 0; j < n; j++) { Mom q(a.d + m * j, a.d + m * j, m); if (q.n < 2) continue; double v = q.c11 / (sample ? q.n - 1 : q.n); ENSURE(vc_same(me[j], q.m1) && vc_same(me2[j], q.m1) && vc_same(va[j], v) && vc_same(va2[j], v)); }
}
template <bool M, bool SD, bool VAR> static void standard() {
  vc_bounded(); int m = dim(1, 3), n = 2; Buf a(m * n), me(n); double sd[2], sv[2]; Mat A(a.d, m, n), ME(me.d, n, 1), W(me.d, n + 1, 1);
  for (int j = 0; j < n; j++) { if (vc_bool()) sd[j] = 0; else sd[j] = vc_posreal(); sv[j] = VAR ? sd[j] * sd[j] : sd[j]; } Mat SV(sv, n, 1);
  if (!M && !SD) { ENSURE(vc_throws([&] { A.ColumnsStandard(nullptr, nullptr, VAR); })); return; }
  ENSURE(vc_throws([&] { A.ColumnsStandard(&W, SD ? &SV : nullptr, VAR); }) && vc_throws([&] { A.ColumnsStandard(M ? &ME : nullptr, &W, VAR); }));
  A.ColumnsStandard(M ? &ME : nullptr, SD ? &SV : nullptr, VAR);
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    double x = a.d[i + m * j], c = a.o[i + m * j] - (M ? me.o[j] : 0);
    if (SD && sd[j] == 0) ENSURE(std::isnan(x)); else ENSURE(vc_same(SD ? x * sd[j] : x, c));
  }
}
HARNESS(standard_all) { standard<true, true, false>(); }
HARNESS(standard_var) { standard<true, true, true>(); }
HARNESS(standard_sd) { standard<false, true, false>(); }
HARNESS(standard_sdvar) { standard<false, true, true>(); }
HARNESS(standard_mean) { standard<true, false, false>(); }
HARNESS(standard_none) { standard<false, false, false>(); }
// ---- extremes: the value and the first position where it is found
struct Arr { double o[9], *d = o; explicit Arr(int n) { for (int i = 0; i < n; i++) o[i] = vc_real(); } };
HARNESS(extremes) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 2); vc_assume(m * n < 5); Arr a(m * n); Mat A(a.d, m, n); int r = -1, c = -1, r2 = -1, c2 = -1; double hi = A.max(r, c), lo = A.min(r2, c2);
  ENSURE(A.Maximum() == hi && A.Minimum() == lo && r >= 0 && r < m && c >= 0 && c < n && r2 >= 0 && r2 < m && c2 >= 0 && c2 < n && a.o[r + m * c] == hi && a.o[r2 + m * c2] == lo);
  for (int i = 0; i < m * n; i++) { ENSURE(a.o[i] <= hi && a.o[i] >= lo); if (i < r + m * c) ENSURE(a.o[i] < hi); if (i < r2 + m * c2) ENSURE(a.o[i] > lo); }
}
HARNESS(extremes_lines) {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3), i = dim(0, 2), j = dim(0, 2); vc_assume(i < m && j < n && m + n < 6); Arr a(m * n); Mat A(a.d, m, n); int c = -1, r = -1, c2 = -1, r2 = -1;
  double hr = A.MaximumInRow(i, c), lr = A.MinimumInRow(i, c2), hc = A.MaximumInColumn(j, r), lc = A.MinimumInColumn(j, r2);
  ENSURE(c >= 0 && c < n && c2 >= 0 && c2 < n && r >= 0 && r < m && r2 >= 0 && r2 < m);
  ENSURE(a.o[i + m * c] == hr && a.o[i + m * c2] == lr && a.o[r + m * j] == hc && a.o[r2 + m * j] == lc);
  for (int q = 0; q < n; q++) { double v = a.o[i + m * q]; ENSURE(v <= hr && v >= lr && (q >= c || v < hr) && (q >= c2 || v > lr)); }
  for (int p = 0; p < m; p++) { double v = a.o[p + m * j]; ENSURE(v <= hc && v >= lc && (p >= r || v < hc) && (p >= r2 || v > lc)); }
}
HARNESS(trace) { vc_bounded(); int m = dim(1, 3), n = dim(1, 3); Buf a(m * n); Mat A(a.d, m, n); double t = 0; ENSURE(vc_throws([&] { t = A.Trace(); }) == (m != n)); if (m == n) { double s = 0; for (int i = 0; i < m; i++) s += a.o[i + m * i]; ENSURE(vc_same(t, s)); } }
