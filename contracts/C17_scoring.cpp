#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/helpers.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
using namespace ldt;
static const GoodnessOfFitType G[] = {GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kFrequencyCost, GoodnessOfFitType::kAuc, GoodnessOfFitType::kBrier};
static const ScoringType T[] = {ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kFrequencyCost, ScoringType::kAuc, ScoringType::kBrier};
// a better metric has the larger weight, and the weight determines the metric
template <class C, class E> static void weights(E e) {
  double a = vc_real(), b = vc_real(), m = vc_real();
  double wa = C::ToWeight(e, a, m), wb = C::ToWeight(e, b, m);
  bool up = C::IsPositiveOriented(e);
  ENSURE((wa > wb) == (up ? a > b : a < b) && (wa == wb) == (a == b));
  ENSURE(vc_same(C::FromWeight(e, wa, m), a));
}
HARNESS(fit_weights) { weights<GoodnessOfFit>(G[vc_pin(vc_int(0, 4), 0, 4)]); }
HARNESS(score_weights) { weights<Scoring>(T[vc_pin(vc_int(0, 9), 0, 9)]); }
// the ratio of two weights does not depend on the reference metric
HARNESS(fit_best) { // the reference itself: weight one for the criteria transformed by exp
  int k = vc_pin(vc_int(0, 4), 0, 4); double m = vc_real();
  if (k != 2 && k != 3) ENSURE(GoodnessOfFit::ToWeight(G[k], m, m) == 1);
}
HARNESS(score_best) {
  int k = vc_pin(vc_int(0, 9), 0, 9); double m = vc_real();
  if (k >= 2 && k != 7 && k != 8) ENSURE(Scoring::ToWeight(T[k], m, m) == 1);
}
// percentage metrics: one hundred points correspond to one
HARNESS(percent) {
  double m = vc_real();
  ENSURE(vc_same(Scoring::ToWeight(ScoringType::kMape, 100 * m, 0), Scoring::ToWeight(ScoringType::kMae, m, 0)));
  ENSURE(vc_same(Scoring::ToWeight(ScoringType::kRmspe, 100 * m, 0), Scoring::ToWeight(ScoringType::kRmse, m, 0)));
}
HARNESS(variance_needed) {
  int k = vc_pin(vc_int(0, 9), 0, 9);
  ENSURE(Scoring::RequiresVariance(T[k]) == !(k >= 2 && k <= 5));
}
HARNESS(orientation) {
  int k = vc_pin(vc_int(0, 9), 0, 9), g = vc_pin(vc_int(0, 4), 0, 4);
  ENSURE(Scoring::IsPositiveOriented(T[k]) == (k == 0 || k == 1 || k == 8));
  ENSURE(GoodnessOfFit::IsPositiveOriented(G[g]) == (g == 3));
}
// CRPS of a normal forecast: closed form; a degenerate forecast has the absolute error
HARNESS(crps_normal) {
  double y = vc_real(), m = vc_real(), s = vc_posreal();
  double z = (y - m) / s, Phi = 0.5 * erfc((0 - (y - m)) / (s * c_sqrt2)), phi = exp(-0.5 * z * z);
  ENSURE(vc_same(Scoring::GetScoreCrpsNormal(y, m, s), s * (z * (2 * Phi - 1) + c_sqrt2 * phi / c_sqrt_pi - 1 / c_sqrt_pi)));
  ENSURE(vc_same(Scoring::GetScoreCrpsNormal(y, m, 0), std::fabs(y - m)));
}
#ifdef VC_NATIVE
// integral of (F(x) - 1{x>=y})^2
template <class F> static double crps(F f, double y, double lo, double hi) {
  double r = 0; int n = 20000;
  for (int k = 0; k < 2; k++) {
    double a = k ? y : lo, b = k ? hi : y, h = (b - a) / n;
    if (h <= 0) continue;
    for (int i = 0; i < n; i++) { double v = f(a + (i + 0.5) * h) - k; r += v * v * h; }
  }
  return r;
}
HARNESS(nat_crps) {
  double y = vc_int(-12, 12) / 4.0, m = vc_int(-8, 8) / 4.0, s = vc_int(1, 8) / 4.0;
  double e = crps([&](double x) { return 0.5 * std::erfc(-(x - m) / s / std::sqrt(2)); }, y, std::min(y, m - 9 * s), std::max(y, m + 9 * s));
  ENSURE(std::fabs(Scoring::GetScoreCrpsNormal(y, m, s) - e) < 1e-4 * (1 + e));
  double yl = vc_int(1, 16) / 4.0, ml = vc_int(-4, 4) / 4.0, sl = vc_int(1, 4) / 8.0;
  double l = crps([&](double x) { return x <= 0 ? 0 : 0.5 * std::erfc(-(std::log(x) - ml) / sl / std::sqrt(2)); }, yl, 0, std::max(yl, std::exp(ml + 9 * sl)));
  ENSURE(std::fabs(Scoring::GetScoreCrpsLogNormal(yl, ml, sl) - l) < 1e-3 * (1 + l));
}
// names: every printed abbreviation is read back as the same metric, in either case
HARNESS(nat_names) {
  int k = vc_int(0, 9), g = vc_int(0, 4);
  ENSURE(FromString_ScoringType(ToString(T[k])) == T[k]);
  ENSURE(FromString_GoodnessOfFitType(ToString(G[g])) == G[g]);
}
#endif
