#include "mat.h"
#include "/repo/src/matrix/matrix_sym.cpp"
#include "/repo/src/ldt_statistics/clustering/distance.cpp"
// distances of columns with any number of rows
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct Ctx { const double *x, *y; };
SPEC double spec_sum(const double *x, const double *y, int n, int k) { // over rows without missing values
  if (n <= 0) return 0;
  double r = spec_sum(x, y, n - 1, k), a = x[n - 1], b = y[n - 1];
  if (std::isnan(a) || std::isnan(b)) return r;
  double s = a - b; return r + (k == 2 ? s * s : s < 0 ? -s : s);
}
SPEC double spec_max(const double *x, const double *y, int n) { // -1 if there is no row without missing values
  if (n <= 0) return -1;
  double r = spec_max(x, y, n - 1), a = x[n - 1], b = y[n - 1];
  if (std::isnan(a) || std::isnan(b)) return r;
  double s = a - b; if (s < 0) s = -s; return r < s ? s : r;
}
CAND bool cand_all__euc(const Ctx *c, double s, int i) { return s == spec_sum(c->x, c->y, i, 2) && s >= 0; }
CAND bool cand_all__man(const Ctx *c, double s, int i) { return s == spec_sum(c->x, c->y, i, 1) && s >= 0; }
CAND bool cand_all__max(const Ctx *c, double s, int i) { double m = spec_max(c->x, c->y, i); return m < 0 ? m == -1 && s == -INFINITY : s == m; }
template <bool N, DistanceMethod M> static void dist() {
  int m = vc_size(1, 100000), i = dim(0, 1), j = dim(1, 2); vc_assume(i < j);
  double *d = N ? vc_array_nan(3 * m) : vc_array(3 * m), r[3]; Ctx c{d + m * i, d + m * j}; vc_ctx(&c);
  Mat A(d, m, 3); Distance<N, M, CorrelationMethod::kPearson> D(m, 3);
  ENSURE(D.StorageSize == 3 && D.WorkSize == 0);
  D.Calculate(A, r, nullptr); double v = D.Result.Get0(i, j);
  ENSURE(vc_same(v, D.Result.Get0(j, i)));
  if (M == DistanceMethod::kEuclidean) ENSURE(v >= 0 && vc_same(v * v, spec_sum(c.x, c.y, m, 2)));
  if (M == DistanceMethod::kManhattan) ENSURE(vc_same(v, spec_sum(c.x, c.y, m, 1)));
  if (M == DistanceMethod::kMaximum) { double w = spec_max(c.x, c.y, m); if (w >= 0) ENSURE(vc_same(v, w)); }
}
HARNESS(euclidean) { dist<false, DistanceMethod::kEuclidean>(); }
HARNESS(euclidean_nan) { dist<true, DistanceMethod::kEuclidean>(); }
HARNESS(manhattan) { dist<false, DistanceMethod::kManhattan>(); }
HARNESS(manhattan_nan) { dist<true, DistanceMethod::kManhattan>(); }
HARNESS(maximum) { dist<false, DistanceMethod::kMaximum>(); }
HARNESS(maximum_nan) { dist<true, DistanceMethod::kMaximum>(); }
