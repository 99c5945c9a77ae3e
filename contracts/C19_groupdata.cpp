#include "mat.h"
#include "rbtree.h"
#include "/repo/src/matrix/matrix_sym.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_statistics/correlation.cpp"
#include "/repo/src/ldt_statistics/clustering/distance.cpp"
#include "/repo/src/ldt_statistics/clustering/hcluster.cpp"
#include "/repo/src/ldt_statistics/clustering/group_data.cpp"
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double ab(double x) { return x < 0 ? -x : x; }
// columns of one group that are closer than the threshold to an earlier one are removed, all others stay
template <class G> static void check(G &g, int n, int k, const bool *gone) {
  ENSURE((int)g.Groups.size() == k); int seen[4] = {0, 0, 0, 0}, removed = 0;
  for (auto &q : g.Groups) for (Ti v : *q) { ENSURE(v >= 0 && v < n); seen[v]++; }
  for (int i = 0; i < n; i++) { ENSURE(seen[i] == (gone[i] ? 0 : 1)); ENSURE((g.Removed.count(i) == 1) == gone[i]); removed += gone[i]; } ENSURE((int)g.Removed.size() == removed);
}
HARNESS(threshold) {
  vc_bounded(); int n = dim(2, 3), k = dim(1, 3), rep = dim(0, 1); vc_assume(k <= n); double x[3], w[8], t = vc_real(); for (int i = 0; i < n; i++) x[i] = vc_real(); Mat A(x, 1, n);
  GroupData<HClusterLinkage::kComplete, DistanceMethod::kManhattan, CorrelationMethod::kPearson> g(1, n); ENSURE(g.WorkSize == n * (n - 1) / 2);
  if (rep) { double y[3] = {0, 0, 0}; Mat B(y, 1, n); g.Calculate(B, w, 1, 1.0); } // an earlier result is forgotten
  GroupData<HClusterLinkage::kComplete, DistanceMethod::kManhattan, CorrelationMethod::kPearson> r(1, n); r.Calculate(A, w, k, 0);
  bool none[3] = {false, false, false}, gone[3] = {false, false, false}; check(r, n, k, none);
  if (t > 0) for (auto &q : r.Groups) for (size_t i = 0; i < q->size(); i++) for (size_t j = i + 1; j < q->size(); j++) if (ab(x[q->at(i)] - x[q->at(j)]) < t) gone[q->at(j)] = true;
  g.Calculate(A, w, k, t); check(g, n, k, gone); ENSURE(!g.NaNDistanceFound);
}
// the factories use the requested methods (fixed data; every choice of methods)
static HClusterLinkage L[] = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};
static DistanceMethod D[] = {DistanceMethod::kEuclidean, DistanceMethod::kManhattan, DistanceMethod::kMaximum, DistanceMethod::kCorrelation, DistanceMethod::kAbsCorrelation};
static double X[] = {1, 5, 2.5, 4, 4, 1, 2, 8, 3.5, 3, 9, 6};
template <DistanceMethod d, CorrelationMethod c> static double dist02(Mat &A) { Distance<false, d, c> o(4, 3); std::vector<double> s(o.StorageSize + 1), w(o.WorkSize + 1); o.Calculate(A, s.data(), w.data()); return o.Result.Get0(0, 2); }
template <CorrelationMethod c> static double dist02(int d, Mat &A) { return d == 0 ? dist02<DistanceMethod::kEuclidean, c>(A) : d == 1 ? dist02<DistanceMethod::kManhattan, c>(A) : d == 2 ? dist02<DistanceMethod::kMaximum, c>(A) : d == 3 ? dist02<DistanceMethod::kCorrelation, c>(A) : dist02<DistanceMethod::kAbsCorrelation, c>(A); }
HARNESS(distance_factory) {
  vc_bounded(); int d = dim(0, 4), c = dim(0, 1); Mat A(X, 4, 3);
  auto o = DistanceBase::GetFromType(dim(0, 1), D[d], c ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson, 4, 3); std::vector<double> s(o->StorageSize + 1), w(o->WorkSize + 1); o->Calculate(A, s.data(), w.data());
  double f = o->Result.Get0(0, 2), e = c ? dist02<CorrelationMethod::kSpearman>(d, A) : dist02<CorrelationMethod::kPearson>(d, A); ENSURE(e - f < 0x1p-30 && f - e < 0x1p-30);
}
#ifdef VC_NATIVE
HARNESS(nat_group_factory) { // grouping of data equals the grouping of their distances
  int l = dim(0, 4), d = dim(0, 4), c = dim(0, 1), n = dim(2, 6), k = dim(1, 6), T = dim(3, 6); vc_assume(k <= n); CorrelationMethod C = c ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson; double x[36]; for (int i = 0; i < n * T; i++) x[i] = vc_real(); Mat A(x, T, n);
  auto o = DistanceBase::GetFromType(true, D[d], C, T, n); std::vector<double> s(o->StorageSize + 1), w(o->WorkSize + 1); o->Calculate(A, s.data(), w.data()); for (int i = 0; i < n * (n - 1) / 2; i++) vc_assume(!std::isnan(o->Result.Data[i]));
  auto h = HClusterBase::GetFromType(L[l], n); h->Calculate(o->Result); std::vector<std::unique_ptr<std::vector<Ti>>> m; for (int i = 0; i < k; i++) m.push_back(std::make_unique<std::vector<Ti>>()); h->Group(m);
  auto g = GroupDataBase::GetFromType(L[l], D[d], C, T, n); std::vector<double> w2(g->WorkSize + 1); g->Calculate(A, w2.data(), k, 0); ENSURE((int)g->Groups.size() == k); for (int i = 0; i < k; i++) ENSURE(*m[i] == *g->Groups[i]);
}
#endif
