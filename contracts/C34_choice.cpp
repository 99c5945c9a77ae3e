#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_math/optimization/newton.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice.cpp"
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double ab(double x) { return x < 0 ? -x : x; }
static double hess[16]; static int inverted; static bool singular, symmetric;
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#else
// contracts: the normal distribution function is symmetric with values between zero and one, its density is even and positive; inverses (C31)
REP double replace___Z15dist_normal_cdfddd(double x, double m, double s) { ENSURE(m == 0 && s == 1); if (!symmetric) return 1 / (1 + std::exp(-x)); return x >= 0 ? 1 - std::exp(-x) / 2 : std::exp(x) / 2; }
REP double replace___Z15dist_normal_pdfddd(double x, double m, double s) { ENSURE(m == 0 && s == 1); return std::exp(-x * x) / 4; }
REP int replace___ZN3ldt6MatrixIdE5Inv00EPiPd(Mat *a, int *, double *) { ENSURE(a->RowsCount == a->ColsCount); inverted++; for (int i = 0; i < a->length(); i++) { hess[i] = a->Data[i]; a->Data[i] = vc_real(); } for (int i = 0; i < a->RowsCount; i++) { double v = vc_real(); vc_assume(v > 0); a->Data[i * (a->RowsCount + 1)] = v; } return singular; }
#endif
template <bool logit> static double F(double z) { return logit ? 1 / (1 + std::exp(-z)) : dist_normal_cdf(z, 0, 1); }
template <bool logit> static double f1(double z) { return logit ? F<true>(z) * (1 - F<true>(z)) : dist_normal_pdf(z, 0, 1); }
template <bool logit> static double f2(double z) { return logit ? f1<true>(z) * (1 - 2 * F<true>(z)) : -z * dist_normal_pdf(z, 0, 1); }
struct Store { std::vector<double> s, w; Store(int a, int b) : s(a + 1, 77), w(b + 1, 77) {} void ok() { ENSURE(s.back() == 77 && w.back() == 77); } };
// value, gradient and Hessian (of minus the likelihood) at given coefficients, with the statistics that follow from them
template <DiscreteChoiceModelType T, DiscreteChoiceDistType D> static void at(int n, int k0, int J, bool weighted, const int *ys, bool details) {
  constexpr bool logit = D == DiscreteChoiceDistType::kLogit; symmetric = T == DiscreteChoiceModelType::kBinary; int k = k0 + J - 2; double x[12], y[6], w[6], b[8], P[6]; for (int i = 0; i < n * k0; i++) x[i] = vc_real(); for (int i = 0; i < n; i++) { y[i] = ys[i]; w[i] = weighted ? vc_posreal() + 0.0009765625 : 1; } for (int i = 0; i < k; i++) b[i] = vc_real(); if (!vc_symbolic()) for (int i = k0 + 1; i < k; i++) b[i] = b[i - 1] + ab(b[i]); if (!vc_symbolic() && J > 2) b[k0] = ab(b[k0]);
  double f = 0, g[8], H[64], cnt[6]; for (int i = 0; i < k; i++) g[i] = 0; for (int i = 0; i < k * k; i++) H[i] = 0; for (int i = 0; i < J; i++) cnt[i] = 0;
  for (int i = 0; i < n; i++) {
    double xb = 0, D1[8], D0[8], z1 = 0, z0 = 0; int yi = ys[i]; bool up = yi < J - 1, lo = yi > 0; cnt[yi] += w[i]; for (int j = 0; j < k0; j++) xb += x[i + n * j] * b[j]; for (int j = 0; j < k; j++) D1[j] = D0[j] = j < k0 ? -x[i + n * j] : 0; z1 = -xb; z0 = -xb; if (yi > 0 && up) { z1 += b[k0 + yi - 1]; D1[k0 + yi - 1] = 1; } if (yi > 1) { z0 += b[k0 + yi - 2]; D0[k0 + yi - 2] = 1; }
    double F1 = up ? F<logit>(z1) : 1, F0 = lo ? F<logit>(z0) : 0, p1 = up ? f1<logit>(z1) : 0, p0 = lo ? f1<logit>(z0) : 0, q1 = up ? f2<logit>(z1) : 0, q0 = lo ? f2<logit>(z0) : 0, p = P[i] = F1 - F0; vc_assume(vc_symbolic() ? p > 0 : p > 1e-3 && (!up || ab(z1) < 4) && (!lo || ab(z0) < 4));
    if constexpr (T == DiscreteChoiceModelType::kBinary) if (vc_symbolic()) continue; // (specialised forms below)
    f -= w[i] * std::log(p); for (int a = 0; a < k; a++) { double d = p1 * D1[a] - p0 * D0[a]; g[a] -= w[i] * (d / p); for (int c = 0; c < k; c++) H[a + k * c] -= w[i] * ((q1 * D1[a] * D1[c] - q0 * D0[a] * D0[c]) / p - d * (p1 * D1[c] - p0 * D0[c]) / (p * p)); }
  }
  if (T == DiscreteChoiceModelType::kBinary && vc_symbolic()) for (int i = 0; i < n; i++) { // the same with distribution functions of xb
    double xb = 0, s = ys[i] ? 1 : -1, L; for (int j = 0; j < k0; j++) xb += x[i + n * j] * b[j]; double e = std::exp(xb), p = e / (1 + e), gi, hi;
    if (logit) { L = ys[i] * xb - std::log(1 + e); gi = ys[i] - 1 / (1 + std::exp(-xb)); hi = p * (1 - p); } else { double c = dist_normal_cdf(xb, 0, 1); L = ys[i] ? std::log(c) : std::log(1 - c); gi = s * dist_normal_pdf(xb, 0, 1) / (ys[i] ? c : 1 - c); hi = gi * (gi + xb); }
    f -= w[i] * L; for (int a = 0; a < k; a++) { g[a] -= w[i] * x[i + n * a] * gi; for (int c = 0; c < k; c++) H[a + k * c] += w[i] * hi * x[i + n * a] * x[i + n * c]; }
  }
  bool all = true; for (int i = 0; i < J; i++) all = all && cnt[i] > 0;
  DiscreteChoice<T, D> m(n + dim(0, 1), k0, J, details); m.Optim.IterationMax = 0; Store t(m.StorageSize, m.WorkSize); for (int i = 0; i < k; i++) t.s[i] = b[i]; Mat X(x, n, k0), Y(y, n, 1), W(w, n, 1); inverted = 0; singular = vc_symbolic() && dim(0, 1);
#ifdef VC_NATIVE
  { double d[64], M = 0; for (int i = 0; i < k * k; i++) d[i] = H[i], M = std::max(M, ab(H[i])); for (int c = 0; c < k; c++) { int p = c; for (int i = c; i < k; i++) if (ab(d[i + k * c]) > ab(d[p + k * c])) p = i; vc_assume(!all || ab(d[p + k * c]) > 1e-4 * M); for (int j = 0; j < k; j++) std::swap(d[c + k * j], d[p + k * j]); for (int i = c + 1; i < k && all; i++) { double q = d[i + k * c] / d[c + k * c]; for (int j = 0; j < k; j++) d[i + k * j] -= q * d[c + k * j]; } } }
#endif
  bool th = vc_throws([&] { m.Calculate(Y, X, weighted ? &W : nullptr, t.s.data(), t.w.data(), J, false); }); t.ok(); ENSURE(th == (!all || singular)); if (th) return;
  ENSURE(m.NumObs == n && m.NumChoices == J && m.NumCutoff == J - 1 && m.Beta.RowsCount == k && m.Beta.ColsCount == 1 && m.BetaVar.RowsCount == k && m.BetaVar.ColsCount == k); for (int i = 0; i < k; i++) ENSURE(m.Beta.Data[i] == b[i]); for (int i = 0; i < J; i++) ENSURE(vc_same(m.Counts.Data[i], cnt[i]));
  ENSURE(vc_same(m.LogL, -f)); for (int i = 0; i < k; i++) ENSURE(vc_same(m.Optim.Gradient.Data[i], g[i]));
#ifdef VC_NATIVE
  for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double v = 0, M = 1; for (int l = 0; l < k; l++) { v += m.BetaVar.Data[i + k * l] * H[l + k * j]; M = std::max(M, ab(m.BetaVar.Data[i + k * l] * H[l + k * j])); } ENSURE(ab(v - (i == j)) < 1e-6 * M); }
#else
  ENSURE(inverted == 1); for (int i = 0; i < k * k; i++) ENSURE(vc_same(hess[i], H[i]));
#endif
  vc_assume(ab(f) < INFINITY); ENSURE(vc_same(m.Aic, 2 * k - 2 * m.LogL) && vc_same(m.Sic, std::log(m.NumObs) * k - 2 * m.LogL));
  if (details) for (int i = 0; i < k; i++) { double s = m.BetaStd.Data[i]; if (m.BetaVar.Data[i * (k + 1)] <= 0) continue; ENSURE(s >= 0 && vc_same(s * s, m.BetaVar.Data[i * (k + 1)])); ENSURE(vc_same(m.BetaZ.Data[i] * s, b[i])); double z = m.BetaZ.Data[i]; ENSURE(vc_same(m.BetaProb.Data[i], 2 * (1 - Distribution<DistributionType::kNormal>(0, 1).GetCdf(z < 0 ? -z : z)))); }
}
#define B_ DiscreteChoiceModelType::kBinary
#define O_ DiscreteChoiceModelType::kOrdered
#define L_ DiscreteChoiceDistType::kLogit
#define P_ DiscreteChoiceDistType::kProbit
HARNESS(binary_logit) { vc_bounded(); int ys[2]; ys[0] = dim(0, 1); ys[1] = dim(0, 1); at<B_, L_>(2, dim(1, 2), 2, dim(0, 1), ys, false); }
HARNESS(binary_probit) { vc_bounded(); int ys[2]; ys[0] = dim(0, 1); ys[1] = 1 - ys[0]; at<B_, P_>(2, 1, 2, dim(0, 1), ys, false); }
HARNESS(binary_probit_k) { vc_bounded(); int ys[2] = {1, 0}; at<B_, P_>(2, 2, 2, false, ys, false); }
HARNESS(ordered_logit_3) { vc_bounded(); int ys[3]; ys[0] = dim(0, 2); ys[1] = (ys[0] + 1) % 3; ys[2] = (ys[0] + 2) % 3; at<O_, L_>(3, 1, 3, dim(0, 1), ys, false); }
HARNESS(ordered_probit_3) { vc_bounded(); int ys[3]; ys[0] = dim(0, 2); ys[1] = (ys[0] + 1) % 3; ys[2] = (ys[0] + 2) % 3; at<O_, P_>(3, 1, 3, dim(0, 1), ys, false); }
HARNESS(ordered_logit_4) { vc_bounded(); int ys[4] = {2, 0, 3, 1}; at<O_, L_>(4, 1, 4, false, ys, false); }
HARNESS(ordered_probit_4) { vc_bounded(); int ys[4] = {1, 3, 2, 0}; at<O_, P_>(4, 1, 4, dim(0, 1), ys, false); }
HARNESS(ordered_k) { vc_bounded(); int ys[3] = {1, 2, 0}; at<O_, P_>(3, 2, 3, false, ys, false); }
HARNESS(statistics) { vc_bounded(); int ys[2] = {1, 0}; at<B_, L_>(2, dim(1, 2), 2, false, ys, true); }
// probabilities: differences of the distribution function between the cutoffs, of sum one
template <DiscreteChoiceModelType T, DiscreteChoiceDistType D> static void probabilities(int n, int k0, int J) {
  constexpr bool logit = D == DiscreteChoiceDistType::kLogit; symmetric = false; int k = k0 + J - 2; double x[8], b[8], r[16], w[16]; for (int i = 0; i < n * k0; i++) x[i] = vc_real(); for (int i = 0; i < k; i++) b[i] = vc_real(); for (int i = 0; i < 16; i++) w[i] = r[i] = 77;
  DiscreteChoice<T, D> m(4, k0, J); m.NumCutoff = J - 1; m.NumChoices = J; m.Beta.SetData(b, k, 1); Mat X(x, n, k0), R(r, n, J); m.GetProbabilities(X, R, w); for (int i = n + J - 2; i < 16; i++) ENSURE(w[i] == 77); for (int i = n * J; i < 16; i++) ENSURE(r[i] == 77);
  for (int i = 0; i < n; i++) { double xb = 0, sum = 0; for (int j = 0; j < k0; j++) xb += x[i + n * j] * b[j]; for (int j = 0; j < J; j++) sum += r[i + n * j];
    ENSURE(vc_same(sum, 1));
    if (J == 2) { double e = std::exp(xb), p = logit ? e / (1 + e) : dist_normal_cdf(xb, 0, 1); ENSURE(vc_same(r[i + n], p)); continue; }
    for (int j = 0; j < J; j++) { double up = j == J - 1 ? 1 : F<logit>(j == 0 ? -xb : b[k0 + j - 1] - xb), lo = j == 0 ? 0 : F<logit>(j == 1 ? -xb : b[k0 + j - 2] - xb); ENSURE(vc_same(r[i + n * j], up - lo)); }
  }
}
HARNESS(probabilities_2) { vc_bounded(); int n = dim(1, 2), k = dim(1, 2); if (dim(0, 1)) probabilities<B_, L_>(n, k, 2); else probabilities<B_, P_>(n, k, 2); }
HARNESS(probabilities_j) { vc_bounded(); int n = dim(1, 2), k = dim(1, 2), J = dim(3, 4); if (dim(0, 1)) probabilities<O_, L_>(n, k, J); else probabilities<O_, P_>(n, k, J); }
#ifdef VC_NATIVE
// estimation: the likelihood has no better neighbour, weights count as repetitions, scaling a regressor rescales its coefficient
template <DiscreteChoiceModelType T, DiscreteChoiceDistType D> static double like(const std::vector<double> &y, const std::vector<double> &x, const std::vector<double> &w, int n, int k0, int J, const double *b) {
  constexpr bool logit = D == DiscreteChoiceDistType::kLogit; double L = 0; for (int i = 0; i < n; i++) { double xb = 0; for (int j = 0; j < k0; j++) xb += x[i + n * j] * b[j]; int c = y[i]; auto at = [&](int q) { double z = (q == 0 ? 0 : b[k0 + q - 1]) - xb; return logit ? 1 / (1 + std::exp(-z)) : 0.5 * std::erfc(-z / std::sqrt(2.0)); }; double p = (c == J - 1 ? 1 : at(c)) - (c == 0 ? 0 : at(c - 1)); L += w[i] * std::log(p); } return L; }
template <DiscreteChoiceModelType T, DiscreteChoiceDistType D> static void fit(int J) {
  symmetric = false; int k0 = vc_int(1, 3), k = k0 + J - 2, n = vc_int(8 + 4 * J, 34); std::vector<double> x(n * k0), y(n), w(n), X, Y; for (int i = 0; i < n; i++) { x[i] = 1; for (int j = 1; j < k0; j++) x[i + n * j] = vc_real() / 2; double z = 0; for (int j = 1; j < k0; j++) z += x[i + n * j] / 2; z += vc_real(); y[i] = J == 2 ? z > 0 : std::min(J - 1.0, std::max(0.0, std::floor((z + 2) * J / 4))); w[i] = vc_int(1, 3); }
  bool weighted = vc_bool(); if (!weighted) for (double &v : w) v = 1; auto run = [&](std::vector<double> &x, std::vector<double> &y, double *w, Store &t, DiscreteChoice<T, D> &m, int n) { m.Optim.TolFunction = 1e-13; m.Optim.IterationMax = 200; Mat xm(x.data(), n, k0), ym(y.data(), n, 1), wm(w, n, 1); bool th = vc_throws([&] { m.Calculate(ym, xm, w ? &wm : nullptr, t.s.data(), t.w.data(), J, true); }); t.ok(); return !th; };
  DiscreteChoice<T, D> m(n, k0, J, true); Store t(m.StorageSize, m.WorkSize); double cnt[5] = {0, 0, 0, 0, 0}; for (double v : y) cnt[(int)v]++; bool all = true; for (int j = 0; j < J; j++) all = all && cnt[j] > 0; bool ok = run(x, y, weighted ? w.data() : nullptr, t, m, n); ENSURE(!ok || all); vc_assume(ok); for (int j = 0; j < J; j++) vc_assume(cnt[j] * 3 * J >= n); for (int i = 0; i < k; i++) vc_assume(ab(m.Beta.Data[i]) < 3 && m.BetaVar.Data[i * (k + 1)] > 0 && m.BetaVar.Data[i * (k + 1)] < 10);
  const double *b = m.Beta.Data; for (int i = 0; i < n; i++) { double z = 0; for (int j = 0; j < k0; j++) z += x[i + n * j] * b[j]; for (int c = k0 - 1; c < k; c++) vc_assume(ab(z - (c < k0 ? 0 : b[c])) < 4); } double L = like<T, D>(y, x, w, n, k0, J, b); ENSURE(vc_same(m.LogL, L)); for (int i = 0; i < k; i++) for (double h : {1e-2, -1e-2}) { double q[8]; std::copy(b, b + k, q); q[i] += h; double l = like<T, D>(y, x, w, n, k0, J, q); ENSURE(!(l > L + 1e-7 * (1 + ab(L)))); }
  { double g = 0; for (int i = 0; i < k; i++) { double q[8]; std::copy(b, b + k, q); for (int j = 0; j < k; j++) q[j] += 1e-2 * m.BetaVar.Data[i + k * j] / std::sqrt(m.BetaVar.Data[i * (k + 1)]); double l = like<T, D>(y, x, w, n, k0, J, q); for (int j = 0; j < k; j++) q[j] = 2 * b[j] - q[j]; double r = like<T, D>(y, x, w, n, k0, J, q); ENSURE(ab(l + r - 2 * L + 1e-4) < 1e-6); } } // the variance is the inverse of the curvature
  if (vc_bool()) { int N = 0; for (int i = 0; i < n; i++) N += w[i]; X.resize(N * k0); for (int i = 0, a = 0; i < n; i++) for (int r = 0; r < w[i]; r++, a++) { Y.push_back(y[i]); for (int j = 0; j < k0; j++) X[a + N * j] = x[i + n * j]; } DiscreteChoice<T, D> z(N, k0, J, true); Store u(z.StorageSize, z.WorkSize); vc_assume(run(X, Y, nullptr, u, z, N)); for (int i = 0; i < k; i++) vc_assume(ab(z.Optim.Gradient.Data[i]) < 1e-3); ENSURE(ab(z.LogL - m.LogL) < 1e-6 * (1 + ab(L))); for (int i = 0; i < k; i++) ENSURE(ab(z.Beta.Data[i] - b[i]) < 1e-4); }
  else { X = x; int c = vc_int(0, k0 - 1); for (int i = 0; i < n; i++) X[i + n * c] *= -2; DiscreteChoice<T, D> z(n, k0, J, true); Store u(z.StorageSize, z.WorkSize); vc_assume(run(X, y, weighted ? w.data() : nullptr, u, z, n)); for (int i = 0; i < k; i++) vc_assume(ab(z.Optim.Gradient.Data[i]) < 1e-3); ENSURE(ab(z.LogL - m.LogL) < 1e-6 * (1 + ab(L))); for (int i = 0; i < k; i++) ENSURE(ab(z.Beta.Data[i] * (i == c ? -2 : 1) - b[i]) < 1e-4); }
}
HARNESS(nat_fit_2) { if (vc_bool()) fit<B_, L_>(2); else fit<B_, P_>(2); }
HARNESS(nat_fit_j) { int J = vc_int(3, 4); if (vc_bool()) fit<O_, L_>(J); else fit<O_, P_>(J); }
#endif
