#include "mat.h"
#include "/repo/src/ldt_statistics/statistics/descriptive.cpp"
// filters, trend regression and seasonal decomposition of short series
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
HARNESS(filter_ar) { // y_i = x_i + c_0 y_{i-1} + ...
  vc_bounded(); int T = dim(1, 4), k = dim(0, 2); vc_assume(k <= T); double x[4], c[2], y[4], e[4]; for (int i = 0; i < T; i++) x[i] = vc_real(); for (int i = 0; i < k; i++) c[i] = vc_real();
  Mat A(x, T, 1), C(c, k, 1), S(y, T, 1); Descriptive(&A).FilterAr(&C, &S);
  for (int i = 0; i < T; i++) { e[i] = x[i]; if (i >= k) for (int j = 0; j < k; j++) e[i] += c[j] * e[i - 1 - j]; ENSURE(vc_same(y[i], e[i])); }
}
HARNESS(filter_ma) { // y_i = c_0 x_{i+o} + ... + c_p x_{i+o-p} where all of them exist
  vc_bounded(); int T = dim(1, 5), k = dim(1, 4); bool cen = dim(0, 1); double x[5], c[4], y[5]; for (int i = 0; i < T; i++) x[i] = vc_real(); for (int i = 0; i < k; i++) c[i] = vc_real();
  Mat A(x, T, 1), C(c, k, 1), S(y, T, 1); Descriptive(&A).FilterMa(C, cen, S); int o = cen ? k / 2 : 0;
  for (int i = 0; i < T; i++) { double e = 0; bool ok = i + o < T && i + o - (k - 1) >= 0; if (ok) for (int j = 0; j < k; j++) e += c[j] * x[i + o - j]; if (ok) ENSURE(vc_same(y[i], e)); else ENSURE(std::isnan(y[i])); }
}
HARNESS(filter_errors) {
  vc_bounded(); int T = dim(0, 3), k = dim(0, 3), L = dim(0, 3); double x[3] = {1, 2, 3}, c[3] = {1, 1, 1}, y[3]; Mat A(x, T, 1), C(c, k, 1), S(y, L, 1);
  ENSURE(vc_throws([&] { Descriptive(&A).FilterAr(&C, &S); }) == (L < T || k > T));
  if (k > 0) ENSURE(vc_throws([&] { Descriptive(&A).FilterMa(C, false, S); }) == (L < T));
}
template <bool MUL> static void season() { // x = trend + seasonal + residual, the seasonal part is periodic and sums to zero (averages to one)
  vc_bounded(); int T = dim(4, 6), s = dim(2, 3); double x[6], c[3], tr[6], se[6], re[6], me[3]; for (int i = 0; i < T; i++) x[i] = MUL ? vc_posreal() : vc_real(); c[0] = c[2] = 0.25; c[1] = 0.5;
  vc_assume(!(T == 4 && s == 3)); Mat A(x, T, 1), C(c, 3, 1), R(tr, T, 1), S(se, T, 1), E(re, T, 1), M(me, s, 1);
  Descriptive(&A).SeasonalDecompositionMa(R, S, E, M, &C, s, MUL);
  for (int i = 0; i < T; i++) { bool ok = i > 0 && i < T - 1; ENSURE(std::isnan(tr[i]) == !ok); if (ok) { ENSURE(vc_same(tr[i] * 4, x[i - 1] + 2 * x[i] + x[i + 1])); ENSURE(MUL ? vc_same(tr[i] * se[i] * re[i], x[i]) : vc_same(tr[i] + se[i] + re[i], x[i])); } else ENSURE(std::isnan(re[i])); ENSURE(vc_same(se[i], me[i % s])); }
  double sum = 0, e[3], n = 0; for (int j = 0; j < s; j++) { sum += me[j]; double q = 0, k = 0; for (int i = 1; i < T - 1; i++) if (i % s == j) { double t = (x[i - 1] + 2 * x[i] + x[i + 1]) / 4; q += MUL ? x[i] / t : x[i] - t; k += 1; } e[j] = q / k; n += e[j]; }
  ENSURE(vc_same(sum, MUL ? s : 0)); for (int j = 0; j < s; j++) ENSURE(MUL ? vc_same(me[j] * (n / s), e[j]) : vc_same(me[j], e[j] - n / s));
}
HARNESS(season_add) { season<false>(); }
HARNESS(season_mul) { season<true>(); }
// ---- trend regression of any length
struct Ctx { const double *x; };
SPEC double spec_sum(const double *x, int n, int k) { return n <= 0 ? 0 : spec_sum(x, n - 1, k) + (k ? n * x[n - 1] : x[n - 1]); }
CAND bool cand_all__s0(const Ctx *c, double s, int i) { return s == spec_sum(c->x, i, 0); }
CAND bool cand_all__s1(const Ctx *c, double s, int i) { return s == spec_sum(c->x, i - 1, 1); }
HARNESS(trend) { // normal equations of y = a + b t, t = 1..n
  int n = vc_size(2, 10000); double *x = vc_array(n), r[2]; Ctx c{x}; vc_ctx(&c); vc_check_overflow(); Mat A(x, n, 1); Descriptive(&A).RegressionTrend(r);
  double N = n, t = N * (N + 1) / 2, q = t * (2 * N + 1) / 3;
  ENSURE(vc_same(r[0] * N + r[1] * t, spec_sum(x, n, 0)) && vc_same(r[0] * t + r[1] * q, spec_sum(x, n, 1)));
}
