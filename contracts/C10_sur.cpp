#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur_projection.cpp"
static double ab(double x) { return x < 0 ? -x : x; }
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#else
// contracts of callees: distribution functions are functions of the degrees of freedom and the point; the determinant of a positive definite matrix (C31)
extern "C" NOINLINE __attribute__((used)) double replace___ZN3ldt12DistributionILNS_16DistributionTypeE116EE6GetCdfEd(Distribution<DistributionType::kT> *d, double x) { return x != x ? NAN : ab(x) == INFINITY ? (x > 0 ? 1 : 0) : std::erfc(x + 64 * d->mParam1); }
extern "C" NOINLINE __attribute__((used)) double replace___ZN3ldt12DistributionILNS_16DistributionTypeE102EE6GetCdfEd(Distribution<DistributionType::kF> *d, double x) { return x != x ? NAN : ab(x) == INFINITY ? (x > 0 ? 1 : 0) : std::erfc(x + 64 * d->mParam1 + 4096 * d->mParam2); }
extern "C" NOINLINE __attribute__((used)) double replace___ZN3ldt6MatrixIdE7Det_pd0Ev(Mat *a) { ENSURE(a->RowsCount == a->ColsCount && a->RowsCount <= 2); return a->RowsCount == 1 ? a->Data[0] : a->Data[0] * a->Data[3] - a->Data[1] * a->Data[2]; }
#endif
// systems of regressions
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static bool nz(double x) { return vc_symbolic() ? x != 0 : ab(x) > 1e-2; }
static double det2(const double *a, int n) { return n == 1 ? a[0] : a[0] * a[3] - a[1] * a[2]; }
// invertible (natively: well conditioned)
static bool well(const double *a, int n) { double d = det2(a, n); if (vc_symbolic()) return d != 0; double b = 0; for (int i = 0; i < n * n; i++) b = std::max(b, ab(a[i])); return b > 0.05 && ab(d) > 0.02 * (n == 1 ? b : b * b); }
struct Sys {
  int N, m, k; double x[8], y[8], xx[4]; Mat X, Y;
  Sys(int N, int m, int k) : N(N), m(m), k(k), X(x, N, k), Y(y, N, m) {
    for (int i = 0; i < N * k; i++) x[i] = vc_real(); for (int i = 0; i < N * m; i++) y[i] = vc_real();
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double t = 0; for (int p = 0; p < N; p++) t += x[p + N * i] * x[p + N * j]; xx[i + k * j] = t; }
  }
  void regular() { vc_assume(well(xx, k)); }
  // fitted values, residuals and their variance belong to the coefficients
  void fit(const Sur &s) {
    ENSURE(s.beta.RowsCount == k && s.beta.ColsCount == m && s.yhat.RowsCount == N && s.yhat.ColsCount == m && s.resid.RowsCount == N && s.resid.ColsCount == m && s.resid_var.RowsCount == m && s.resid_var.ColsCount == m);
    for (int p = 0; p < N; p++) for (int c = 0; c < m; c++) { double t = 0; for (int j = 0; j < k; j++) t += x[p + N * j] * s.beta.Data[j + k * c]; ENSURE(vc_same(s.yhat.Data[p + N * c], t)); ENSURE(vc_same(s.resid.Data[p + N * c], y[p + N * c] - s.yhat.Data[p + N * c])); }
    for (int a = 0; a < m; a++) for (int c = 0; c < m; c++) { double t = 0; for (int p = 0; p < N; p++) t += s.resid.Data[p + N * a] * s.resid.Data[p + N * c]; ENSURE(vc_same(s.resid_var.Data[a + m * c] * N, t)); }
  }
  // statistics of the coefficients, given their variances
  template <class V> void details(const Sur &s, V var) {
    for (int i = 0; i < k * m; i++) {
      double d = s.e_beta_std.Data[i], t = s.e_beta_t.Data[i], b = s.beta.Data[i]; ENSURE(vc_same(d * d, var(i))); ENSURE(d >= 0 || std::isnan(d)); if (d > 0) { ENSURE(vc_same(t * d, b)); ENSURE(vc_same(s.e_beta_prob.Data[i], 2 * (1 - Distribution<DistributionType::kT>(N).GetCdf(ab(t))))); } else if (b == 0) ENSURE(std::isnan(t) && std::isnan(s.e_beta_prob.Data[i]));
    }
  }
  void quality(const Sur &s) {
    double L = s.logLikelihood, D = det2(s.resid_var.Data, m), sr = 0, sy = 0; ENSURE(vc_same(2 * L + N * m + N * m * c_ln_2Pi, -N * std::log(D)));
    if (!s.mDoDetails) { ENSURE(std::isnan(s.Aic) && std::isnan(s.r2)); return; }
    ENSURE(vc_same(s.Aic + 2 * L, 2 * k * m) && vc_same(s.Sic + 2 * L, std::log(N) * k * m) && vc_same(s.Hqic + 2 * L, std::log(std::log(N)) * 2 * k * m));
    for (int c = 0; c < m; c++) for (int p = 0; p < N; p++) { double a = 0; for (int q = 0; q < N; q++) a += y[q + N * c]; a = y[p + N * c] - a / N; sy += a * a; sr += s.resid.Data[p + N * c] * s.resid.Data[p + N * c]; }
    ENSURE(vc_same((1 - s.r2) * sy, sr)); double d1 = m * (N - 1), d2 = m * N - k * m; ENSURE(s.f_prob_d1 == d1 && s.f_prob_d2 == d2); if (s.r2 != 1) ENSURE(vc_same(s.f * (1 - s.r2) * d1, s.r2 * d2)); if (s.f < 0) ENSURE(std::isnan(s.f_prob)); else ENSURE(vc_same(s.f_prob, 1 - Distribution<DistributionType::kF>(d1, d2).GetCdf(s.f)));
  }
};
struct Store { int S, W; std::vector<double> s, w; Store(int S, int W) : S(S), W(W), s(S + 3, 77.0), w(W + 3, 77.0) {} void ok() { for (int i = 0; i < 3; i++) { ENSURE(s[S + i] == 77); ENSURE(w[W + i] == 77); } } };
// without restrictions every equation is least squares
static void free_(int N, int m, int k, bool det) {
  Sys q(N, m, k); q.regular(); Sur s(N + dim(0, 1), m, k, false, det); Store t(s.StorageSize, s.WorkSize);
  if (N > k && m == 1) { double v = 0, u = 0; for (int p = 0; p < N; p++) { u += q.y[p] / N; } for (int p = 0; p < N; p++) v += (q.y[p] - u) * (q.y[p] - u); vc_assume(nz(v)); }
#ifdef VC_NATIVE // the fit is not exact
  { Sur r(N, m, k, false, false); Store z(r.StorageSize, r.WorkSize); try { r.Calculate(q.Y, q.X, z.s.data(), z.w.data()); } catch (...) {} vc_assume(det2(r.resid_var.Data, m) > 1e-2); }
#endif
  bool th = vc_throws([&] { s.Calculate(q.Y, q.X, t.s.data(), t.w.data()); }); t.ok();
  if (th) { ENSURE(std::isnan(det2(s.resid_var.Data, m))); return; }
  q.fit(s); for (int i = 0; i < k; i++) for (int c = 0; c < m; c++) { double v = 0; for (int p = 0; p < N; p++) v += q.x[p + N * i] * s.resid.Data[p + N * c]; ENSURE(vc_same(v, 0)); } // residuals are orthogonal to the regressors
  ENSURE(s.gamma_var.RowsCount == k * m && s.gamma_var.ColsCount == k * m);
  for (int a = 0; a < m; a++) for (int c = 0; c < m; c++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double v = 0; for (int l = 0; l < k; l++) v += s.gamma_var.Data[(a * k + i) + k * m * (c * k + l)] * q.xx[l + k * j]; ENSURE(vc_same(v, i == j ? s.resid_var.Data[a + m * c] : 0)); }
  for (int i = 0; i < k * m; i++) ENSURE(s.gamma.Data[i] == s.beta.Data[i]);
  if (det) q.details(s, [&](int i) { return s.gamma_var.Data[i * (k * m + 1)]; }); q.quality(s);
}
HARNESS(free_1) { vc_bounded(); free_(dim(2, 3), 1, 1, false); }
HARNESS(free_k) { vc_bounded(); free_(3, 1, 2, false); }
HARNESS(free_m) { vc_bounded(); free_(3, 2, 1, false); }
// statistics of given estimates
static void stats(int N, int m, int k, int r, bool just) {
  Sys q(N, m, k); int km = k * m, n = r ? r : km; double b[4], g[16], gm[4], e[8], R[16], sv[5], tv[5], pv[5], w[64]; for (int i = 0; i < km; i++) b[i] = vc_real(); for (int i = 0; i < n; i++) gm[i] = 0; for (int i = 0; i < n * n; i++) g[i] = vc_real(); for (int i = 0; i < N * m; i++) e[i] = vc_real(); for (int i = 0; i < km * r; i++) R[i] = vc_real(); for (int i = 0; i < 64; i++) w[i] = 77;
  Sur s(N, m, k, r > 0, true); ENSURE(s.WorkSize >= (r ? km * n + km * km : 0)); Mat RR(R, km, r); s.pX = &q.X; s.pY = &q.Y; s.pR = &RR; s.beta.SetData(b, k, m); s.gamma.SetData(gm, n, 1); s.gamma_var.SetData(g, n, n); s.resid.SetData(e, N, m); s.e_beta_std.SetData(sv, k, m); s.e_beta_t.SetData(tv, k, m); s.e_beta_prob.SetData(pv, k, m); s.logLikelihood = vc_real();
  double sr = 0, sy = 0; for (int c = 0; c < m; c++) for (int p = 0; p < N; p++) { double a = 0; for (int u = 0; u < N; u++) a += q.y[u + N * c]; a = q.y[p + N * c] - a / N; sy += a * a; sr += e[p + N * c] * e[p + N * c]; } vc_assume(nz(sy));
  s.calculate_details(N, m, w, just, false);
  for (int i = 0; i < km; i++) {
    double v = 0; if (r) { for (int a = 0; a < n; a++) for (int c = 0; c < n; c++) v += R[i + km * a] * g[a + n * c] * R[i + km * c]; } else v = g[i * (km + 1)];
    if (v < 0) { ENSURE(std::isnan(sv[i])); } else ENSURE(sv[i] >= 0 && vc_same(sv[i] * sv[i], v)); if (v > 0) { ENSURE(vc_same(tv[i] * sv[i], b[i])); ENSURE(vc_same(pv[i], 2 * (1 - Distribution<DistributionType::kT>(N).GetCdf(ab(tv[i]))))); } else if (b[i] == 0 || v < 0) ENSURE(std::isnan(tv[i]) && std::isnan(pv[i]));
  }
  if (just) { ENSURE(std::isnan(s.r2) && std::isnan(s.f) && std::isnan(s.Aic)); return; }
  double L = s.logLikelihood; ENSURE(vc_same(s.Aic + 2 * L, 2 * km)); ENSURE(vc_same(s.Sic + 2 * L, std::log(N) * km)); ENSURE(vc_same(s.Hqic + 2 * L, std::log(std::log(N)) * 2 * km));
  ENSURE(vc_same((1 - s.r2) * sy, sr)); double d1 = m * (N - 1), d2 = m * N - km; ENSURE(s.f_prob_d1 == d1 && s.f_prob_d2 == d2); if (s.r2 != 1 && d2 > 0) { ENSURE(vc_same(s.f * (1 - s.r2) * d1, s.r2 * d2)); if (s.f < 0) ENSURE(std::isnan(s.f_prob)); else ENSURE(vc_same(s.f_prob, 1 - Distribution<DistributionType::kF>(d1, d2).GetCdf(s.f))); }
}
HARNESS(stats_1) { vc_bounded(); stats(dim(2, 3), 1, 1, 0, dim(0, 1)); }
HARNESS(stats_k) { vc_bounded(); stats(3, 1, 2, 0, true); }
HARNESS(stats_m) { vc_bounded(); stats(2, 2, 1, 0, true); }
HARNESS(stats_mk) { vc_bounded(); Sys q(3, 2, 1); stats(3, 2, 1, 0, false); }
HARNESS(stats_r) { vc_bounded(); int r = dim(1, 2); bool m = dim(0, 1); stats(2, m ? 2 : 1, m ? 1 : 2, r, true); }
// likelihood
HARNESS(likelihood) { vc_bounded(); int N = dim(1, 3), m = dim(1, 2); double a[4] = {vc_posreal(), vc_real(), 0, vc_posreal()}; a[2] = a[1]; double D = det2(a, m); vc_assume(vc_symbolic() ? D > 0 : D > 1e-3); Mat A(a, m, m); double L = logL(A, N, m); ENSURE(vc_same(2 * L + N * m + N * m * c_ln_2Pi, -N * std::log(D))); }
// with restrictions: generalised least squares with the given variance of the residuals
static void restricted(int N, int m, int k, int r) {
  Sys q(N, m, k); int km = k * m; double R[16], S[4], V[4], g[4], gv[16], b[4], h[8], e[8], w[4][64], A[4] = {0, 0, 0, 0}, u[2] = {0, 0}; for (int i = 0; i < km * r; i++) R[i] = vc_real(); for (int j = 0; j < m; j++) for (int i = 0; i <= j; i++) S[i + m * j] = S[j + m * i] = vc_real(); for (int j = 0; j < 4; j++) for (int i = 0; i < 64; i++) w[j][i] = 77;
  double d = det2(S, m); vc_assume(well(S, m)); double I[4]; if (m == 1) I[0] = 1; else { I[0] = S[3]; I[3] = S[0]; I[1] = I[2] = -S[1]; } // inverse times d
  auto G = [&](int i, int j) { int a = i / k, c = j / k; return I[a + m * c] * q.xx[i % k + k * (j % k)]; };
  for (int a = 0; a < r; a++) { for (int c = 0; c < r; c++) for (int i = 0; i < km; i++) for (int j = 0; j < km; j++) A[a + r * c] += R[i + km * a] * G(i, j) * R[j + km * c]; for (int i = 0; i < km; i++) for (int c = 0; c < m; c++) for (int p = 0; p < N; p++) u[a] += R[i + km * a] * I[i / k + m * c] * q.x[p + N * (i % k)] * q.y[p + N * c]; }
  vc_assume(well(A, r)); Mat RR(R, km, r); Sur s(N, m, k, true, false); ENSURE(s.WorkSize < 250); double S0[4]; for (int i = 0; i < m * m; i++) S0[i] = S[i];
  s.pX = &q.X; s.pY = &q.Y; s.pR = &RR; s.beta.SetData(b, k, m); s.gamma.SetData(g, km, 1); s.gamma_var.SetData(gv, km, km); s.yhat.SetData(h, N, m); s.resid.SetData(e, N, m); s.resid_var.SetData(S, m, m);
  s.estim_r(N, m, w[0]); for (int j = 0; j < 4; j++) for (int i = 0; i < 64; i++) if (64 * j + i >= s.WorkSize) ENSURE(w[j][i] == 77);
  ENSURE(q.Y.RowsCount == N && q.Y.ColsCount == m && s.gamma.RowsCount == r && s.gamma.ColsCount == 1 && s.gamma_var.RowsCount == r && s.gamma_var.ColsCount == r); q.fit(s);
  for (int a = 0; a < r; a++) { double v = 0; for (int c = 0; c < r; c++) v += A[a + r * c] * g[c]; ENSURE(vc_same(v, u[a])); for (int c = 0; c < r; c++) { double z = 0; for (int l = 0; l < r; l++) z += gv[a + r * l] * A[l + r * c]; ENSURE(vc_same(z, a == c ? (m == 1 ? S0[0] : d) : 0)); } }
  for (int i = 0; i < km; i++) { double v = 0; for (int a = 0; a < r; a++) v += R[i + km * a] * g[a]; ENSURE(vc_same(b[i], v)); }
}
HARNESS(restricted_1) { vc_bounded(); int k = dim(1, 2), r = dim(1, 2); if (r > k) return; restricted(2, 1, k, r); }
HARNESS(restricted_m) { vc_bounded(); restricted(dim(1, 2), 2, 1, 1); }
HARNESS(restricted_mr) { vc_bounded(); restricted(2, 2, 1, 2); }
// projections: expected values and, where asked, their variances
static void project(int n, int m, int k, int r, bool var) {
  int km = k * m, z = r ? r : km; double b[4], g[16], S[4], R[16], x[8], st[33], w[65]; for (int i = 0; i < km; i++) b[i] = vc_real(); for (int i = 0; i < z * z; i++) g[i] = vc_real(); for (int j = 0; j < m; j++) for (int i = 0; i <= j; i++) S[i + m * j] = S[j + m * i] = vc_real(); for (int i = 0; i < km * r; i++) R[i] = vc_real(); for (int i = 0; i < n * k; i++) x[i] = vc_real(); for (int i = 0; i < 33; i++) st[i] = 77; for (int i = 0; i < 65; i++) w[i] = 77;
  Mat Y(x, 1, m), X(x, n, k), RR(R, km, r); Sur s; s.pY = &Y; s.pR = &RR; s.beta.SetData(b, k, m); s.gamma_var.SetData(g, z, z); s.resid_var.SetData(S, m, m); SurProjection p(n + dim(0, 1), m, k, r > 0, var); ENSURE(p.StorageSize <= 32 && p.WorkSize <= 64); p.Calculate(s, X, st, w); for (int i = p.StorageSize; i < 33; i++) ENSURE(st[i] == 77); for (int i = p.WorkSize; i < 65; i++) ENSURE(w[i] == 77);
  ENSURE(p.Means.RowsCount == n && p.Means.ColsCount == m); if (var) ENSURE(p.Variances.RowsCount == n && p.Variances.ColsCount == m && p.Covariance.RowsCount == m && p.Covariance.ColsCount == m);
  for (int i = 0; i < n; i++) for (int c = 0; c < m; c++) {
    double v = 0; for (int j = 0; j < k; j++) v += x[i + n * j] * b[j + k * c]; ENSURE(vc_same(p.Means.Data[i + n * c], v)); if (!var) continue;
    for (int a = 0; a < m; a++) { double t = S[a + m * c]; auto B = [&](int i0, int j0) { if (!r) return g[i0 + km * j0]; double q = 0; for (int e = 0; e < r; e++) for (int f = 0; f < r; f++) q += R[i0 + km * e] * g[e + r * f] * R[j0 + km * f]; return q; }; for (int j = 0; j < k; j++) for (int l = 0; l < k; l++) t += x[i + n * j] * x[i + n * l] * B(a * k + j, c * k + l); if (a == c) ENSURE(vc_same(p.Variances.Data[i + n * c], t)); if (i == n - 1) ENSURE(vc_same(p.Covariance.Data[a + m * c], t)); }
  }
}
HARNESS(project_free) { vc_bounded(); int n = dim(1, 2), m = dim(1, 2), k = dim(1, 2); project(n, m, k, 0, dim(0, 1)); }
HARNESS(project_restricted) { vc_bounded(); int n = dim(1, 2), m = dim(1, 2), k = dim(1, 2), r = dim(1, 3); if (r > k * m) return; project(n, m, k, r, dim(0, 1)); }
HARNESS(singular) { // no unique estimates: an error
  vc_bounded(); int c = dim(0, 2); double x[4] = {1, 2, 2, 4}, y[4] = {vc_real(), vc_real(), vc_real(), vc_real()}; Mat Y(y, 2, 2), X(x, 2, c == 0 ? 2 : 1); Sur s(2, 2, 2, c > 0, false); Store t(s.StorageSize, s.WorkSize); if (c == 0) { ENSURE(vc_throws([&] { s.Calculate(Y, X, t.s.data(), t.w.data()); })); t.ok(); return; }
  double R[2] = {0, 0}, S[4], b[2], g[2], gv[4], h[4], e[4]; if (c == 1) R[0] = 1; double p = dim(0, 1), q = dim(1, 2); S[0] = p * p; S[1] = S[2] = p * q; S[3] = q * q; if (c == 2) S[0] = 2; Mat RR(R, 2, 1); s.pX = &X; s.pY = &Y; s.pR = &RR; s.beta.SetData(b, 1, 2); s.gamma.SetData(g, 2, 1); s.gamma_var.SetData(gv, 2, 2); s.yhat.SetData(h, 2, 2); s.resid.SetData(e, 2, 2); s.resid_var.SetData(S, 2, 2);
  if (c == 2 && det2(S, 2) == 0) return; ENSURE(vc_throws([&] { s.estim_r(2, 2, t.w.data()); }));
}
// search for significant coefficients: what remains is significant, the others are zero
static void search(int N, int m, int k, int it, double P) {
  Sys q(N, m, k); q.regular(); int km = k * m; std::vector<double> R(km * km); for (auto &r : R) r = vc_real(); Mat RR(R.data(), km, km); Sur s(N, m, k, false, false, it); Store t(s.StorageSize, s.WorkSize);
  bool th = vc_throws([&] { s.Calculate(q.Y, q.X, t.s.data(), t.w.data(), &RR, P); }); t.ok(); if (th) return;
  q.fit(s); int r = RR.ColsCount; ENSURE(RR.RowsCount == km && r <= km && r >= 1); std::vector<int> in(km); int last = -1;
  if (s.mSigSearchIter > 0) { for (int j = 0; j < r; j++) { int at = -1; for (int i = 0; i < km; i++) { ENSURE(R[i + km * j] == 0 || R[i + km * j] == 1); if (R[i + km * j] == 1) { ENSURE(at < 0); at = i; } } ENSURE(at > last); last = at; in[at] = 1; } } else { for (auto &i : in) i = 1; }
  ENSURE(s.gamma.length() == (s.mSigSearchIter > 0 ? r : km) && s.mSigSearchIter <= it);
  for (int i = 0, j = 0; i < km; i++) { if (in[i]) { double e = s.e_beta_std.Data[i]; ENSURE(s.gamma.Data[j] == s.beta.Data[i] && vc_same(e * e, s.gamma_var.Data[j * (s.gamma_var.RowsCount + 1)])); j++; if (s.mSigSearchIter < it) ENSURE(!(s.e_beta_prob.Data[i] > P)); } else ENSURE(s.beta.Data[i] == 0 && s.e_beta_std.Data[i] == 0 && std::isnan(s.e_beta_prob.Data[i])); }
}
HARNESS(search_1) { vc_bounded(); search(2, 1, 1, 1, 0.5); }
#ifdef VC_NATIVE
// longer samples with the real factorisations, compared with systems solved here
#include "/repo/src/ldt_statistics/modeling/linear/sur_extended.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur_simulation.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/data_split.cpp"
#include "/repo/src/ldt_statistics/pca.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
typedef std::vector<double> V;
struct M { int r, c; V d; M(int r = 0, int c = 0) : r(r), c(c), d(r * c) {} double &operator()(int i, int j) { return d[i + r * j]; } double operator()(int i, int j) const { return d[i + r * j]; } };
static M operator*(const M &a, const M &b) { M z(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) z(i, j) += a(i, k) * b(k, j); return z; }
static M tr(const M &a) { M z(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) z(j, i) = a(i, j); return z; }
static double norm1(const M &a) { double b = 0; for (int j = 0; j < a.c; j++) { double s = 0; for (int i = 0; i < a.r; i++) s += ab(a(i, j)); b = std::max(b, s); } return b; }
static M inv(M a, double *det = 0) { int n = a.r; double A = norm1(a); M z(n, n); double D = 1; for (int i = 0; i < n; i++) z(i, i) = 1; for (int i = 0; i < n; i++) { int p = i; for (int j = i; j < n; j++) if (ab(a(j, i)) > ab(a(p, i))) p = j; vc_assume(ab(a(p, i)) > 1e-6); if (p != i) { D = -D; for (int j = 0; j < n; j++) std::swap(a(i, j), a(p, j)), std::swap(z(i, j), z(p, j)); } double v = a(i, i); D *= v; for (int j = 0; j < n; j++) a(i, j) /= v, z(i, j) /= v; for (int q = 0; q < n; q++) if (q != i) { double f = a(q, i); for (int j = 0; j < n; j++) a(q, j) -= f * a(i, j), z(q, j) -= f * z(i, j); } } if (det) *det = D; vc_assume(A * norm1(z) < 1e4); return z; }
static void same(const Mat &a, const M &b) { ENSURE(a.RowsCount == b.r && a.ColsCount == b.c); for (int i = 0; i < b.r * b.c; i++) ENSURE(vc_same(a.Data[i], b.d[i])); }
struct Ref { // estimates, by the textbook
  M x, y, R, xi, b, g, gv, bv, res, S; int N, k, m, km; bool restr; double L, cn;
  Ref(const M &x, const M &y) : x(x), y(y), N(x.r), k(x.c), m(y.c), km(k * m), restr(false) { M a = tr(x) * x; xi = inv(a); cn = norm1(a) * norm1(xi); b = xi * (tr(x) * y); rest(); gv = M(km, km); for (int i = 0; i < km; i++) for (int j = 0; j < km; j++) gv(i, j) = S(i / k, j / k) * xi(i % k, j % k); bv = gv; g = M(km, 1); g.d = b.d; }
  void rest() { M f = x * b; res = y; for (size_t i = 0; i < f.d.size(); i++) res.d[i] -= f.d[i]; S = tr(res) * res; for (auto &v : S.d) v /= N; double D; inv(S, &D); vc_assume(D > 1e-3); L = -0.5 * (N * m * c_ln_2Pi + N * std::log(D) + N * m); }
  void restrict(const M &r) { R = r; restr = true; M Si = inv(S), xx = tr(x) * x, G(km, km), xy = tr(x) * y * Si, u(km, 1); u.d = xy.d; for (int i = 0; i < km; i++) for (int j = 0; j < km; j++) G(i, j) = Si(i / k, j / k) * xx(i % k, j % k); gv = inv(tr(R) * G * R); g = gv * (tr(R) * u); M z = R * g; b.d = z.d; bv = R * gv * tr(R); rest(); }
  double std_(int i) const { return std::sqrt(bv(i, i)); }
  double prob(int i) const { double s = std_(i); return s == 0 ? NAN : 2 * (1 - Distribution<DistributionType::kT>(N).GetCdf(ab(b.d[i] / s))); }
  int search(int it, double P) { // remaining coefficients are those whose probabilities have never been larger than P
    int n = 0, c = km; M I(km, km); for (int i = 0; i < km; i++) I(i, i) = 1; R = I; restr = true; for (; n < it; n++) { std::vector<int> in; for (int i = 0; i < km; i++) { double p = prob(i); if (p <= P) in.push_back(i); if (!std::isnan(p)) vc_assume(ab(p - P) > 1e-6); } if ((int)in.size() == c) return n; c = in.size(); if (!c) return -1; M r(km, c); for (int j = 0; j < c; j++) r(in[j], j) = 1; restrict(r); } return n; }
  void check(const Sur &s) const {
    same(s.beta, b); same(s.gamma, g); same(s.gamma_var, gv); same(s.resid, res); same(s.resid_var, S); same(s.yhat, x * b); ENSURE(vc_same(s.logLikelihood, L)); if (!restr) ENSURE(vc_same(s.condition_number, cn)); if (!s.mDoDetails) return;
    for (int i = 0; i < km; i++) { ENSURE(vc_same(s.e_beta_std.Data[i], std_(i))); if (std_(i) > 0) ENSURE(vc_same(s.e_beta_t.Data[i], b.d[i] / std_(i))); ENSURE(vc_same(s.e_beta_prob.Data[i], prob(i))); }
    ENSURE(vc_same(s.Aic, 2 * km - 2 * L) && vc_same(s.Sic, std::log(N) * km - 2 * L) && vc_same(s.Hqic, 2 * std::log(std::log(N)) * km - 2 * L));
    double sr = 0, sy = 0; for (int c = 0; c < m; c++) { double u = 0; for (int p = 0; p < N; p++) u += y(p, c) / N; for (int p = 0; p < N; p++) sy += (y(p, c) - u) * (y(p, c) - u), sr += res(p, c) * res(p, c); } ENSURE(vc_same(s.r2, 1 - sr / sy)); double d1 = m * (N - 1), d2 = m * N - km, f = (1 - sr / sy) / d1 / (sr / sy / d2); ENSURE(s.f_prob_d1 == d1 && s.f_prob_d2 == d2 && vc_same(s.f, f)); if (s.f >= 0) ENSURE(vc_same(s.f_prob, 1 - Distribution<DistributionType::kF>(d1, d2).GetCdf(s.f))); else ENSURE(std::isnan(s.f_prob));
  }
  void project(const M &n, M &mean, M &var, M *cov = 0) const { mean = n * b; var = M(n.r, m); for (int i = 0; i < n.r; i++) for (int a = 0; a < m; a++) for (int c = 0; c < m; c++) { double t = S(a, c); for (int j = 0; j < k; j++) for (int l = 0; l < k; l++) t += n(i, j) * n(i, l) * bv(a * k + j, c * k + l); if (a == c) var(i, a) = t; if (cov && i == n.r - 1) { if (a + c == 0) *cov = M(m, m); (*cov)(a, c) = t; } } }
  M selection(double p) { std::vector<int> in; for (int i = 0; i < km; i++) if (vc_int(0, 99) < p * 100) in.push_back(i); if (in.empty()) in.push_back(vc_int(0, km - 1)); M r(km, in.size()); for (size_t j = 0; j < in.size(); j++) r(in[j], j) = 1; return r; }
};
static M any(int r, int c) { M z(r, c); for (auto &v : z.d) v = vc_real(); return z; }
static Mat view(M &a) { return Mat(a.d.data(), a.r, a.c); }
// coefficients of very different sizes: some significant, some not
static M responses(const M &x, int m) { M b(x.c, m), y = any(x.r, m); for (auto &v : b.d) v = vc_bool() ? 0 : vc_real(); M f = x * b; for (size_t i = 0; i < y.d.size(); i++) y.d[i] = y.d[i] / 2 + f.d[i]; return y; }
HARNESS(nat_system) {
  for (int again = 0; again < 2; again++) {
  int N = vc_int(8, 14), m = vc_int(1, 3), k = vc_int(1, 3), km = m * k, how = vc_int(0, 3), it = vc_int(1, 4); double P = 0.05 * vc_int(1, 12); M x = any(N, k), y = responses(x, m); Ref q(x, y); M r; bool det = vc_bool(); int n = 0;
  if (how == 1) q.restrict(r = q.selection(0.6)); if (how == 2) { r = any(km, vc_int(1, km)); q.restrict(r); } if (how == 3) { r = any(km, km); n = q.search(it, P); }
  Sur s(N + vc_int(0, 2), m + vc_int(0, 1), k + vc_int(0, 1), how > 0, det, how == 3 ? it : 0); Store t(s.StorageSize, s.WorkSize); Mat X = view(x), Y = view(y), RR = view(r); bool th = vc_throws([&] { s.Calculate(Y, X, t.s.data(), t.w.data(), how ? &RR : nullptr, how == 3 ? P : 0); }); t.ok(); ENSURE(th == (n < 0)); if (th) return; if (how == 3) { ENSURE(s.mSigSearchIter == n); if (n) same(RR, q.R); } q.check(s);
  int np = vc_int(1, 3); bool var = vc_bool(); M nx = any(np, k), mean, va, cov; q.project(nx, mean, va, &cov); SurProjection p(np + vc_int(0, 1), m, k, how > 0, var); Store u(p.StorageSize, p.WorkSize); Mat NX = view(nx); p.Calculate(s, NX, u.s.data(), u.w.data()); u.ok(); same(p.Means, mean); if (var) { same(p.Variances, va); same(p.Covariance, cov); }
  }
}
// rows with missing values are left out; checks refuse exactly the models outside the limits
HARNESS(nat_extended) {
  int N = vc_int(10, 16), m = vc_int(1, 2), k = vc_int(1, 3), km = m * k, how = vc_int(0, 3), it = vc_int(1, 3); double P = 0.05 * vc_int(1, 12); M x = any(N, k), y = responses(x, m), d(N, m + k); for (int i = 0; i < N; i++) { for (int j = 0; j < m; j++) d(i, j) = y(i, j); for (int j = 0; j < k; j++) d(i, m + j) = x(i, j); } bool nan = vc_bool(); std::vector<int> keep; for (int i = 0; i < N; i++) { if (nan && vc_int(0, 5) == 0) d(i, vc_int(0, m + k - 1)) = NAN; else keep.push_back(i); }
  int n = keep.size(); vc_assume(n > k + 3); M cx(n, k), cy(n, m); for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) cy(i, j) = y(keep[i], j); for (int j = 0; j < k; j++) cx(i, j) = x(keep[i], j); } Ref q(cx, cy); M r; int z = 0; if (how == 1) q.restrict(r = q.selection(0.6)); if (how == 2) { r = any(km, vc_int(1, km)); q.restrict(r); } if (how == 3) { r = any(km, km); z = q.search(it, P); }
  int np = vc_int(0, 3); bool det = vc_bool() || how == 3, var = vc_bool(); SearchModelChecks c; bool chk = vc_bool(), bad = z < 0; double L = q.L, r2; { double sr = 0, sy = 0; for (int j = 0; j < m; j++) { double u = 0; for (int p = 0; p < n; p++) u += cy(p, j) / n; for (int p = 0; p < n; p++) sy += (cy(p, j) - u) * (cy(p, j) - u), sr += q.res(p, j) * q.res(p, j); } r2 = 1 - sr / sy; }
  if (chk) { c.MinObsCount = vc_bool() ? n + vc_int(-1, 1) : 0; c.MinDof = vc_bool() ? n - k + vc_int(-1, 1) : 0; if (c.MinObsCount > n || (c.MinDof > 0 && c.MinDof > n - k)) bad = true; double A = 2 * km - 2 * L, S = std::log(n) * km - 2 * L; if (vc_bool()) { double e = vc_real(); vc_assume(ab(e) > 1e-3); c.MaxAic = A + e; if (det && e < 0) bad = true; } if (vc_bool()) { double e = vc_real(); vc_assume(ab(e) > 1e-3); c.MaxSic = S + e; if (det && e < 0) bad = true; } if (vc_bool()) { double e = vc_real() / 10; vc_assume(ab(e) > 1e-3); c.MinR2 = r2 + e; if (det && e > 0) bad = true; } if (how == 0 && vc_bool()) { c.mCheckCN_all = true; bool over = vc_bool(); c.MaxConditionNumber = q.cn * (over ? 0.5 : 2); if (over) bad = true; } }
  M nx = any(np, k); Mat D = view(d), RR = view(r), NX = view(nx); SurExtended s(N, m, k, how > 0, nan || vc_bool(), det, np, how == 3 ? it : 0, var, nullptr, nullptr); Store t(s.StorageSize, s.WorkSize); bool th = vc_throws([&] { s.Calculate(D, m, t.s.data(), t.w.data(), how ? &RR : nullptr, how == 3 ? P : 0, np ? &NX : nullptr, chk ? &c : nullptr); }); t.ok(); ENSURE(th == bad); if (th) return; q.check(s.Model); if (np) { M mean, va; q.project(nx, mean, va); same(s.Projections.Means, mean); if (var) same(s.Projections.Variances, va); }
}
// out of sample scores: averages over the test parts of the announced splits
HARNESS(nat_simulation) {
  int N = vc_int(12, 18), m = vc_int(1, 2), k = vc_int(1, 2), it = vc_int(1, 4), fix = vc_bool() ? vc_int(7, 10) : 0; double ratio = vc_int(55, 80) / 100.0; unsigned seed = vc_int(1, 1000); M x = any(N, k), y = responses(x, m), d(N, m + k); bool bc = vc_bool(); if (bc) for (auto &v : y.d) v = 10 + ab(v); for (int i = 0; i < N; i++) { for (int j = 0; j < m; j++) d(i, j) = y(i, j); for (int j = 0; j < k; j++) d(i, m + j) = x(i, j); } Mat D = view(d); std::vector<double> lam = {vc_int(1, 4) / 2.0, vc_bool() ? NAN : 1.5};
  std::vector<ScoringType> all = {ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps}, ms; for (auto e : all) if (vc_bool()) ms.push_back(e); vc_assume(!ms.empty());
  int how = vc_int(0, 2), sit = how == 2 ? vc_int(1, 4) : 0; double P = how == 2 ? vc_int(5, 60) / 100.0 : 0; M rest; if (how == 1) { Ref q(x, y); rest = q.selection(0.6); } if (how == 2) rest = any(k * m, k * m);
  double maxcn = how || vc_bool() ? INFINITY : 1 + vc_int(0, 4); int maxinv = vc_bool() ? INT32_MAX : vc_int(0, 3);
  M sum(ms.size(), m); int valid = 0, iters = 0, invalid = 0; bool bad = false; DataSplit sp(N, m + k); V w(sp.StorageSize); std::vector<int> wi(sp.WorkSizeI); std::mt19937 eng(seed); sp.Calculate(D, w.data(), ratio, fix);
  for (int q = 0; q < it; q++) {
    invalid++; sp.Shuffle(D, wi.data(), eng); int n0 = sp.Sample0.RowsCount, n1 = sp.Sample1.RowsCount; M cx(n0, k), cy(n0, m), nx(n1, k), ny(n1, m), mean, va; for (int j = 0; j < m + k; j++) { for (int i = 0; i < n0; i++) (j < m ? cy(i, j) : cx(i, j - m)) = sp.Sample0.Data[i + n0 * j]; for (int i = 0; i < n1; i++) (j < m ? ny(i, j) : nx(i, j - m)) = sp.Sample1.Data[i + n1 * j]; }
    Ref r(cx, cy); if (how == 1) r.restrict(rest); if (how == 2 && r.search(sit, P) < 0) continue; r.project(nx, mean, va); vc_assume(ab(r.cn - maxcn) > 1e-6); if (r.cn > maxcn) continue; bool isn = false;
    for (auto &v : va.d) v = std::sqrt(v); if (bc) for (int j = 0; j < m; j++) for (int i = 0; i < n1; i++) { auto inv = [&](double &v) { if (std::isnan(lam[j])) return; v = std::pow(lam[j] * v + 1, 1 / lam[j]); if (std::isnan(v)) isn = true; }; double v = va(i, j); inv(ny(i, j)); inv(mean(i, j)); bool o = isn; inv(v); isn = o; va(i, j) = v; } if (isn) continue;
    valid += n1; iters++; invalid--; if (invalid > maxinv) { bad = true; break; }
    for (size_t e = 0; e < ms.size(); e++) for (int j = 0; j < m; j++) for (int i = 0; i < n1; i++) { double a = ny(i, j), f = mean(i, j), u = a - f; vc_assume(ab(a) > 1e-2 && ab(a * f) > 1e-6); sum(e, j) += ms[e] == ScoringType::kSign ? (a > 0) == (f > 0) : ms[e] == ScoringType::kMae ? ab(u) : ms[e] == ScoringType::kMape ? ab(u / a) : ms[e] == ScoringType::kRmse ? u * u : ms[e] == ScoringType::kRmspe ? u / a * (u / a) : Scoring::GetScoreCrpsNormal(u, 0, va(i, j)); }
  }
  if (invalid > maxinv) bad = true;
  SurSimulation s(N, m, k, ratio, fix, ms, how > 0, sit, nullptr, nullptr); Store t(s.StorageSize, s.WorkSize); Mat RR = view(rest); bool cancel = false; bool th = vc_throws([&] { s.Calculate(D, m, t.s.data(), t.w.data(), how ? &RR : nullptr, cancel, it, seed, P, maxcn, maxinv, bc ? &lam : nullptr); }); t.ok(); ENSURE(th == bad); if (th) return;
  ENSURE(s.ValidCounts == valid && s.ValidIters == iters); ENSURE(s.Results.RowsCount == (int)ms.size() && s.Results.ColsCount == m); for (size_t e = 0; e < ms.size(); e++) for (int j = 0; j < m; j++) { double v = sum(e, j) / valid; if (ms[e] == ScoringType::kRmse || ms[e] == ScoringType::kRmspe) v = std::sqrt(v); if (ms[e] == ScoringType::kMape || ms[e] == ScoringType::kRmspe) v *= 100; ENSURE(vc_same(s.Results.Data[e + ms.size() * j], v)); }
}
#endif
