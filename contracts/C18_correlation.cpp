#include "mat.h"
#include "/repo/src/matrix/matrix_sym.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_statistics/correlation.cpp"
#include "/repo/src/ldt_statistics/clustering/distance.cpp"
// correlation distances (bounded numbers of rows); the correlations themselves are under contract in C30 and C32
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
template <bool N, DistanceMethod M, CorrelationMethod C> static void dist() {
  vc_bounded(); const bool P = C == CorrelationMethod::kPearson; int m = 3, n = P && (!N || M == DistanceMethod::kAbsCorrelation) ? 2 : 3, i = dim(0, 1), j = dim(1, 2); vc_assume(i < j && j < n); double d[9]; bool miss = N && dim(0, 1);
  if (!P) { for (int k = 0; k < m * n; k++) d[k] = (k * 7) % 5 + (k % 3 ? 0.5 : 0); } else for (int k = 0; k < m * n; k++) d[k] = vc_real();
  if (miss) d[0] = NAN;
  Mat A(d, m, n); Distance<N, M, C> D(m, n); Correlation<N, CorrelationType::kCorrelation, C> R(m, n, true);
  ENSURE(D.StorageSize == n * (n - 1) / 2);
  auto w = std::make_unique<double[]>(D.WorkSize), w2 = std::make_unique<double[]>(R.WorkSize), st = std::make_unique<double[]>(D.StorageSize), st2 = std::make_unique<double[]>(R.StorageSize);
  if (P) for (int a = 0; a < n; a++) vc_assume(d[m * a + 1] != d[m * a + 2]); // not constant
  D.Calculate(A, st.get(), w.get()); R.Calculate(A, w2.get(), st2.get()); double v = D.Result.Get0(i, j), r = R.Result.Get0(i, j);
  ENSURE(vc_same(v, D.Result.Get0(j, i)));
  ENSURE(vc_same(v, std::sqrt(M == DistanceMethod::kCorrelation ? (1 - r) / 2 : 1 - r * r)));
}
HARNESS(pearson) { dist<false, DistanceMethod::kCorrelation, CorrelationMethod::kPearson>(); }
HARNESS(pearson_nan) { dist<true, DistanceMethod::kCorrelation, CorrelationMethod::kPearson>(); }
HARNESS(pearson_abs) { dist<false, DistanceMethod::kAbsCorrelation, CorrelationMethod::kPearson>(); }
HARNESS(pearson_abs_nan) { dist<true, DistanceMethod::kAbsCorrelation, CorrelationMethod::kPearson>(); }
HARNESS(spearman) { dist<false, DistanceMethod::kCorrelation, CorrelationMethod::kSpearman>(); }
HARNESS(spearman_nan) { dist<true, DistanceMethod::kCorrelation, CorrelationMethod::kSpearman>(); }
HARNESS(spearman_abs) { dist<false, DistanceMethod::kAbsCorrelation, CorrelationMethod::kSpearman>(); }
