#include "mat.h"
#include "/repo/src/ldt_statistics/statistics/descriptive.cpp"
// descriptive statistics of a vector of any length
struct Ctx { const double *x; int n; };
SPEC double spec_pow(const double *x, int n, int k) { // sum of the k-th powers
  if (n <= 0) return 0;
  double v = x[n - 1], r = spec_pow(x, n - 1, k);
  return r + (k == 0 ? 1 : k == 1 ? v : k == 2 ? v * v : k == 3 ? v * v * v : v * v * v * v);
}
SPEC bool spec_any(const double *x, int n) { return n > 0 && (!std::isnan(x[n - 1]) || spec_any(x, n - 1)); }
SPEC double spec_min(const double *x, int n) { // of the existing values
  if (n <= 0) return 0;
  double v = x[n - 1];
  if (std::isnan(v)) return spec_min(x, n - 1);
  if (!spec_any(x, n - 1)) return v;
  double r = spec_min(x, n - 1); return v < r ? v : r;
}
SPEC double spec_max(const double *x, int n) {
  if (n <= 0) return 0;
  double v = x[n - 1];
  if (std::isnan(v)) return spec_max(x, n - 1);
  if (!spec_any(x, n - 1)) return v;
  double r = spec_max(x, n - 1); return v > r ? v : r;
}
#define P(k) spec_pow(c->x, i, k)
CAND bool cand_all__min(const Ctx *c, double m, int i) { return spec_any(c->x, i) ? m == spec_min(c->x, i) : m == INFINITY; }
CAND bool cand_all__max(const Ctx *c, double m, int i) { return spec_any(c->x, i) ? m == spec_max(c->x, i) : m == -INFINITY; }
CAND bool cand_all__sum(const Ctx *c, double s, int i) { return s == P(1); }
CAND bool cand_all__sq(const Ctx *c, double s, int i) { return s == P(2); }
CAND bool cand_all__var(const Ctx *c, double m, double m2, int i) { return i == P(0) && i * m == P(1) && m2 + i * m * m == P(2); }
CAND bool cand_all__m3(const Ctx *c, double m, double m2, double m3, int i) { return i == P(0) && i * m == P(1) && m2 + i * m * m == P(2) && m3 + 3 * m * m2 + i * m * m * m == P(3); }
CAND bool cand_all__m4(const Ctx *c, double m, double m2, double m3, double m4, int i) { return i == P(0) && i * m == P(1) && m2 + i * m * m == P(2) && m3 + 3 * m * m2 + i * m * m * m == P(3) && m4 + 4 * m * m3 + 6 * m * m * m2 + i * m * m * m * m == P(4); }
#undef P
struct Vec { int n; double *x; Ctx c; Mat A; Vec(int lo, bool nan) : n(vc_size(lo, 100000)), x(nan ? vc_array_nan(n) : vc_array(n)), c{x, n}, A(x, n, 1) { vc_ctx(&c); vc_check_overflow(); } };
HARNESS(minimum) { Vec v(0, true); double m = Descriptive(&v.A).Minimum(); if (v.n == 0) ENSURE(std::isnan(m)); else if (spec_any(v.x, v.n)) ENSURE(m == spec_min(v.x, v.n)); else ENSURE(m == INFINITY); }
HARNESS(maximum) { Vec v(0, true); double m = Descriptive(&v.A).Maximum(); if (v.n == 0) ENSURE(std::isnan(m)); else if (spec_any(v.x, v.n)) ENSURE(m == spec_max(v.x, v.n)); else ENSURE(m == -INFINITY); }
HARNESS(sorted_ends) { Vec v(1, false); Descriptive d(&v.A); ENSURE(vc_same(d.MinimumSorted(), v.x[0]) && vc_same(d.MaximumSorted(), v.x[v.n - 1])); }
HARNESS(sum) { Vec v(0, false); ENSURE(vc_same(Descriptive(&v.A).Sum(), spec_pow(v.x, v.n, 1))); }
HARNESS(mean_variance) {
  Vec v(0, false); bool s = vc_bool(); auto [m, q] = Descriptive(&v.A).MeanVariance(s);
  ENSURE(std::isnan(m) == (v.n == 0) && std::isnan(q) == (v.n <= 1)); if (v.n == 0) return;
  ENSURE(vc_same(m * v.n, spec_pow(v.x, v.n, 1))); if (v.n == 1) return;
  ENSURE(vc_same(q * (s ? v.n - 1 : v.n), spec_pow(v.x, v.n, 2) - v.n * m * m));
}
template <bool S> static void moments() {
  Vec v(0, false); auto [m, q, sk, ku] = Descriptive(&v.A).MeanVarianceKurtosisSkewness(S); double n = v.n;
  if (v.n == 0) { ENSURE(std::isnan(m) && std::isnan(q) && std::isnan(sk) && std::isnan(ku)); return; }
  ENSURE(vc_same(m * n, spec_pow(v.x, v.n, 1)));
  double c2 = spec_pow(v.x, v.n, 2) - n * m * m, c3 = spec_pow(v.x, v.n, 3) - 3 * m * c2 - n * m * m * m, c4 = spec_pow(v.x, v.n, 4) - 4 * m * c3 - 6 * m * m * c2 - n * m * m * m * m;
  ENSURE(std::isnan(q) == (v.n == 1)); if (v.n == 1) return;
  ENSURE(vc_same(q * (S ? n - 1 : n), c2)); c2 = q * (S ? n - 1 : n); c3 = spec_pow(v.x, v.n, 3) - 3 * m * c2 - n * m * m * m; c4 = spec_pow(v.x, v.n, 4) - 4 * m * c3 - 6 * m * m * c2 - n * m * m * m * m;
  if (!(q > 1e-3)) return;
  ENSURE(vc_same(q * (S ? n - 1 : n), c2) && std::isnan(sk) == (v.n == 2) && std::isnan(ku) == (v.n <= 3));
  if (S) {
    if (v.n > 2) ENSURE(vc_same(sk * sk * c2 * c2 * c2 * (n - 2) * (n - 2), c3 * c3 * n * n * (n - 1)));
    if (v.n > 3) ENSURE(vc_same(ku * (n - 2) * (n - 3) * c2 * c2 * (n + 1), (n * n - 1) * ((n * c4 - 3 * c2 * c2) * (n + 1) + 6 * c2 * c2)));
  } else {
    if (v.n > 2) ENSURE(vc_same(sk * sk * q * q * q * n * n, c3 * c3));
    if (v.n > 3) ENSURE(vc_same((ku + 3) * q * q * n, c4));
  }
}
HARNESS(moments_population) { moments<false>(); }
HARNESS(moments_sample) { moments<true>(); }
HARNESS(squares) { Vec v(0, false); ENSURE(vc_same(Descriptive(&v.A).SumOfSquares(false), spec_pow(v.x, v.n, 2))); }
HARNESS(squares_central) { Vec v(1, false); double s = spec_pow(v.x, v.n, 1); ENSURE(vc_same(v.n * Descriptive(&v.A).SumOfSquares(true), v.n * spec_pow(v.x, v.n, 2) - s * s)); }
HARNESS(quantile) { // median-unbiased quantile of sorted data
  Vec v(1, false); double t = vc_real(), q = Descriptive(&v.A).QuantileSorted(t), h = (v.n + 1.0 / 3) * t + 1.0 / 3; int k = vc_int(1, 100000);
  if (t <= 0 || v.n == 1 || h < 1) ENSURE(vc_same(q, v.x[0])); else if (t >= 1 || h >= v.n) ENSURE(vc_same(q, v.x[v.n - 1]));
  else if (k < v.n && k <= h && h < k + 1) ENSURE(vc_same(q, (k + 1 - h) * v.x[k - 1] + (h - k) * v.x[k]));
}
