#include "vc.h"
#include "/repo/src/array.cpp"
#include "statistics.h"
#include "/repo/src/ldt_base.cpp"
using namespace ldt;
#include "running.h"
// power sums represented by the accumulator: S_k = sum of w * x^k
struct P { double s0, s1, s2, s3, s4; };
template <class R> static P sums(const R &r) {
  double W = r.SumWeights, m = r.mMean;
  return P{W, W * m, r.mM2 + W * m * m, r.mM3 + 3 * m * r.mM2 + W * m * m * m,
           r.mM4 + 4 * m * r.mM3 + 6 * m * m * r.mM2 + W * m * m * m * m};
}
template <class R> static void anyR(R &r) {
  r.SumWeights = vc_posreal(); r.mMean = vc_real(); r.mM2 = vc_real(); r.mM3 = vc_real(); r.mM4 = vc_real();
  r.Count = vc_int(0, 1000000);
}
template <int K, bool W> static void push() {
  RunningMoments<K, false, W, double> r; anyR(r);
  double x = vc_real(), w = W ? vc_posreal() : 1; int c = r.Count;
  P a = sums(r);
  r.PushNew(x, w);
  P b = sums(r);
  ENSURE(r.Count == c + 1);
  ENSURE(vc_same(b.s0, a.s0 + w));
  ENSURE(vc_same(b.s1, a.s1 + w * x));
  if (K >= 2) ENSURE(vc_same(b.s2, a.s2 + w * x * x));
  if (K >= 3) ENSURE(vc_same(b.s3, a.s3 + w * x * x * x));
  if (K >= 4) ENSURE(vc_same(b.s4, a.s4 + w * x * x * x * x));
}
HARNESS(push1) { push<1, true>(); }
HARNESS(push2) { push<2, true>(); }
HARNESS(push3) { push<3, true>(); }
HARNESS(push4) { push<4, true>(); }
HARNESS(push4u) { push<4, false>(); }
template <int K> static void comb() {
  RunningMoments<K, false, true, double> r, o; anyR(r); anyR(o);
  P a = sums(r), t = sums(o); int c = r.Count;
  r.Combine(o);
  P b = sums(r);
  ENSURE(r.Count == c + o.Count);
  ENSURE(vc_same(b.s0, a.s0 + t.s0));
  ENSURE(vc_same(b.s1, a.s1 + t.s1));
  if (K >= 2) ENSURE(vc_same(b.s2, a.s2 + t.s2));
  if (K >= 3) ENSURE(vc_same(b.s3, a.s3 + t.s3));
  if (K >= 4) ENSURE(vc_same(b.s4, a.s4 + t.s4));
}
HARNESS(combine1) { comb<1>(); }
HARNESS(combine2) { comb<2>(); }
HARNESS(combine3) { comb<3>(); }
HARNESS(combine4) { comb<4>(); }
// getters are the population statistics of the represented sums
HARNESS(getters) {
  RunningMoments<4, false, true, double> r; anyR(r);
  vc_assume(r.mM2 > 0);
  double W = r.SumWeights;
  ENSURE(vc_same(r.GetMean() , r.mMean));
  ENSURE(vc_same(r.GetVariance() * W, r.mM2));
  double s = r.GetSkewness(), v = r.mM2 / W;
  ENSURE(vc_same(s * std::sqrt(v) * v * W, r.mM3));
  ENSURE(vc_same((r.GetKurtosis() + 3) * v * v * W, r.mM4));
}
HARNESS(getters_empty) {
  RunningMoments<4, true, true, double> r;
  r.PushNew(NAN, vc_real());
  ENSURE(r.Count == 0 && r.SumWeights == 0);
  ENSURE(std::isnan(r.GetMean()) && std::isnan(r.GetVariance()) && std::isnan(r.GetSkewness()) && std::isnan(r.GetKurtosis()));
  r.SumWeights = vc_posreal(); r.mMean = vc_real(); r.Count = 3; r.Reset();
  ENSURE(r.Count == 0 && r.SumWeights == 0 && r.mMean == 0 && r.mM2 == 0 && r.mM3 == 0 && r.mM4 == 0);
}
// combining published statistics is the same as combining the accumulators
HARNESS(combine_stats) {
  RunningMoments<4, true, true, double> r, o, q; anyR(r); anyR(o); q = r;
  vc_assume(o.mM2 > 0);
  P a = sums(r), t = sums(o);
  q.Combine(o.GetMean(), o.GetVariance(), o.GetSkewness(), o.GetKurtosis(), o.SumWeights, o.Count);
  P b = sums(q);
  ENSURE(q.Count == r.Count + o.Count);
  ENSURE(vc_same(b.s0, a.s0 + t.s0));
  ENSURE(vc_same(b.s1, a.s1 + t.s1));
  ENSURE(vc_same(b.s2, a.s2 + t.s2));
  ENSURE(vc_same(b.s3, a.s3 + t.s3));
  ENSURE(vc_same(b.s4, a.s4 + t.s4));
}
// a part without observations does not change an accumulator, in either direction
HARNESS(combine_empty) {
  RunningMoments<4, true, true, double> r, e, n; anyR(r);
  P a = sums(r); int c = r.Count;
  r.Combine(e);
  P b = sums(r);
  ENSURE(r.Count == c && vc_same(a.s0, b.s0) && vc_same(a.s1, b.s1) && vc_same(a.s2, b.s2) && vc_same(a.s3, b.s3) && vc_same(a.s4, b.s4));
  n.Combine(r);
  P d = sums(n);
  ENSURE(n.Count == c && vc_same(a.s0, d.s0) && vc_same(a.s1, d.s1) && vc_same(a.s2, d.s2) && vc_same(a.s3, d.s3) && vc_same(a.s4, d.s4));
}
HARNESS(combine_nan) {
  RunningMoments<2, true, true, double> r, o; anyR(r); o.mMean = vc_real_nan(); o.mM2 = vc_real_nan(); o.SumWeights = vc_posreal();
  vc_assume(std::isnan(o.mMean) || std::isnan(o.mM2));
  double m = r.mMean, v = r.mM2, w = r.SumWeights; int c = r.Count;
  r.Combine(o);
  ENSURE(r.mMean == m && r.mM2 == v && r.SumWeights == w && r.Count == c);
}
