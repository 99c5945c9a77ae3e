#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
#include "/repo/src/ldt_math/polynomials/mpolynomial.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma.cpp"
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#include "/repo/src/ldt_math/derivative.cpp"
#include "/repo/src/ldt_math/optimization/lmbfgsb.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#endif
// residuals, forecasts and least squares estimates of VARMA models
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// residuals: what the lags, the exogenous variables and the earlier residuals leave of y
HARNESS(residuals) {
  vc_bounded(); int g = dim(1, 2), p = dim(0, 1), q = dim(1, 2), n = dim(1, 4); VarmaSizes z(20, g, 0, p, 0, q, 0, 0, 0, 0, true); int f = z.NumParamsEq; Varma m; m.Sizes = z;
  Buf y(g * n), e(g * n), pi(g * f); double xt[32], x0[32], w1[16], w2[8], w3[8]; for (int t = 0; t < n; t++) for (int k = 0; k < f; k++) x0[t + n * k] = xt[t + n * k] = k < z.MaStart ? vc_real() : 0;
  m.Result.y.SetData(y.d, g, n); m.Result.resid.SetData(e.d, g, n); m.Result.Xt.SetData(xt, n, f); Mat G(pi.d, g * f, 1), Pi(w1, g, f), Xi(w2, f, 1), Ri(w3, g, 1);
  MlUpdateResid(G, m, nullptr, nullptr, Pi, Xi, Ri); pi.unchanged(); y.unchanged();
  for (int t = 0; t < n; t++) for (int i = 0; i < g; i++) { double r = y.o[i + g * t]; for (int k = 0; k < z.MaStart; k++) r -= pi.o[i + g * k] * x0[t + n * k]; for (int l = 1; l <= q; l++) if (t - l >= 0) for (int j = 0; j < g; j++) r -= pi.o[i + g * (z.MaStart + (l - 1) * g + j)] * e.d[j + g * (t - l)]; ENSURE(vc_same(e.d[i + g * t], r)); }
}
// forecasts follow the estimated equation from the last observation on
static void forecast(int g, int p, int d, int q, int x, int h, int end, bool isnew, bool var) {
  int T = 3, se = end; VarmaSizes z(T + p + d, g, x, p, d, q, 0, 0, 0, 0, true); int f = z.NumParamsEq, N = T + z.ArMax_d, D = z.DiffDegree, A = z.ArMax_d, Te = T - se; ENSURE(z.T == T && A == p + d);
  double u[16], w[16], e[16], c[16], s2[4], xo[8]; for (int i = 0; i < g * N; i++) u[i] = vc_real(); for (int i = 0; i < g * Te; i++) e[i] = vc_real(); for (int i = 0; i < g * f; i++) c[i] = vc_real(); for (int i = 0; i < 8; i++) xo[i] = vc_real();
  for (int j = 0; j < g; j++) for (int i = 0; i < g; i++) s2[i + g * j] = i >= j ? vc_real() : s2[j + g * i];
  auto diff = [&](int t, int i) { double v = 0; for (int k = 0; k <= D; k++) v += z.DiffPoly[k] * u[i + g * (t - k)]; return v; };
  for (int t = 0; t < Te; t++) for (int i = 0; i < g; i++) w[i + g * t] = diff(t + A, i); // the series of the estimation
  Varma m; m.Sizes = z; m.SampleEnd = se; m.Result.y.SetData(w, g, Te); m.Result.resid.SetData(e, g, Te); m.Result.coef.SetData(c, g, f); m.Result.sigma2.SetData(s2, g, g);
  Mat U(u, g, N), X(xo, x, isnew ? h : N - se + h); VarmaForecast F(z, h, var); ENSURE(F.StartIndex == A);
  double S[64], W[128]; for (int i = 0; i < 64; i++) S[i] = 77; for (int i = 0; i < 128; i++) W[i] = 77; ENSURE(F.StorageSize <= 60 && F.WorkSize <= 126);
  F.Calculate(m, x ? &X : nullptr, D ? &U : nullptr, S, W, -1, isnew); for (int i = F.StorageSize; i < 64; i++) ENSURE(S[i] == 77); for (int i = F.WorkSize; i < 128; i++) ENSURE(W[i] == 77);
  ENSURE(F.Forecast.RowsCount == g && F.Forecast.ColsCount == A + h && F.StartDiff == Te - A); int t0 = N - se - A; // time of the first column
  double L[32], V[32]; for (int t = 0; t < A + h; t++) for (int i = 0; i < g; i++) { // levels and differences of the observations and of the forecasts
    int k = i + g * t, at = t0 + t; if (t < A) { L[k] = u[i + g * at]; V[k] = t >= D ? diff(at, i) : 0; if (D == 0) L[k] = V[k]; }
    else { double v = 0; for (int l = 1; l <= p; l++) for (int j = 0; j < g; j++) v += c[i + g * ((l - 1) * g + j)] * V[j + g * (t - l)]; for (int j = 0; j < x; j++) v += c[i + g * (p * g + j)] * xo[j + x * (isnew ? t - A : at)];
      for (int l = 1; l <= q; l++) { int et = Te + (t - A) - l; if (et < Te) for (int j = 0; j < g; j++) v += c[i + g * (p * g + x + (l - 1) * g + j)] * e[j + g * et]; }
      V[k] = v; for (int r = 1; r <= D; r++) v -= z.DiffPoly[r] * L[i + g * (t - r)]; L[k] = v; }
    ENSURE(vc_same(F.Forecast.Data[k], L[k]));
  }
  if (!var) return; double P[32]; // moving-average weights of the levels
  auto Ar = [&](int k, int i, int j) { return k == 0 ? (i == j ? 1.0 : 0.0) : k > p ? 0.0 : -c[i + g * ((k - 1) * g + j)]; }; auto Ma = [&](int k, int i, int j) { return k == 0 ? (i == j ? 1.0 : 0.0) : k > q ? 0.0 : c[i + g * (p * g + x + (k - 1) * g + j)]; };
  for (int k = 0; k < h; k++) for (int j = 0; j < g; j++) for (int i = 0; i < g; i++) { double v = Ma(k, i, j); for (int a = 0; a <= D; a++) for (int b = 0; a + b <= k; b++) if (a + b > 0) for (int l = 0; l < g; l++) v -= z.DiffPoly[a] * Ar(b, i, l) * P[(k - a - b) * g * g + l + g * j]; P[k * g * g + i + g * j] = v; }
  for (int t = 0; t < A + h; t++) for (int i = 0; i < g; i++) { double v = 0; for (int k = 0; k <= t - A; k++) for (int a = 0; a < g; a++) for (int b = 0; b < g; b++) v += P[k * g * g + i + g * a] * s2[a + g * b] * P[k * g * g + i + g * b]; ENSURE(vc_same(F.Variance.Data[i + g * t], v)); }
}
HARNESS(forecast_1) { vc_bounded(); int p = dim(0, 2), d = dim(0, 1), q = dim(0, 2), h = dim(1, 2), end = dim(0, 1); if (p + q == 0 || p + d + end > 3) return; forecast(1, p, d, q, 0, h, end, true, true); }
HARNESS(forecast_1x) { vc_bounded(); int p = dim(0, 1), d = dim(0, 2), q = dim(0, 1), h = dim(1, 2), end = dim(0, 1); bool nw = dim(0, 1), var = dim(0, 1); if (p + q == 0 || p + d + end > 3 || (!nw && 3 - end < p + d)) return; forecast(1, p, d, q, 1, h, end, nw, var); }
HARNESS(forecast_2) { vc_bounded(); int p = dim(0, 1), d = dim(0, 1), q = dim(0, 1), h = dim(1, 2); if (p + q == 0) return; forecast(2, p, d, q, 0, h, 0, false, true); }
HARNESS(forecast_3) { vc_bounded(); int p = dim(0, 1), d = dim(0, 1); forecast(1, p, d, 1, 0, 3, 0, true, true); }
HARNESS(horizon) { VarmaSizes z(10, 1, 0, 1, 0, 0, 0, 0, 0, 0, true); VarmaForecast F(z, 2); Varma m; m.Sizes = z; double w[4]; ENSURE(vc_throws([&] { F.Calculate(m, nullptr, nullptr, w, w, 3, true); })); }
// ---- least squares estimates of models without moving-average part
static void ols(int g, int p, int d, int x, int T, int end) {
  VarmaSizes z(T + end + p + d, g, x, p, d, 0, 0, 0, 0, 0, true); int N = T + end + p + d, f = z.NumParamsEq, A = z.ArMax_d; double y[16], xo[16]; for (int i = 0; i < g * N; i++) y[i] = vc_real(); for (int i = 0; i < x * N; i++) xo[i] = vc_real();
  Varma m(z, false, false, false); double S[128], W[256]; for (int i = 0; i < 128; i++) S[i] = 77; for (int a = 0; a < 4; a++) for (int i = 0; i < 64; i++) W[64 * a + i] = 77; ENSURE(m.Result.StorageSize <= 126 && m.Result.WorkSize <= 254);
  auto w = [&](int t, int i) { double v = 0; for (int k = 0; k <= z.DiffDegree; k++) v += z.DiffPoly[k] * y[i + g * (t - k)]; return v; };
  double Xr[16], xx[4] = {1, 0, 0, 1}; for (int t = 0; t < T; t++) { for (int l = 1; l <= p; l++) for (int j = 0; j < g; j++) Xr[t + T * ((l - 1) * g + j)] = w(t + A - l, j); for (int j = 0; j < x; j++) Xr[t + T * (p * g + j)] = xo[j + x * (t + A)]; }
  for (int a = 0; a < f; a++) for (int b = 0; b < f; b++) { double v = 0; for (int t = 0; t < T; t++) v += Xr[t + T * a] * Xr[t + T * b]; xx[a + 2 * b] = v; }
  double det = f == 1 ? xx[0] : xx[0] * xx[3] - xx[1] * xx[2];
#ifdef VC_NATIVE
  vc_assume(det > 0.5); for (int i = 0; i < g * N; i++) vc_assume(y[i] < 10 && y[i] > -10); for (int i = 0; i < x * N; i++) vc_assume(xo[i] < 10 && xo[i] > -10);
#else
  vc_assume(det != 0);
#endif
  Mat Y(y, g, N), X(xo, x, N); m.EstimateOls(Y, x ? &X : nullptr, nullptr, nullptr, W, S, end, false, nullptr);
  for (int i = m.Result.StorageSize; i < 128; i++) ENSURE(S[i] == 77); for (int a = 0; a < 4; a++) for (int i = 0; i < 64; i++) if (64 * a + i >= m.Result.WorkSize) ENSURE(W[64 * a + i] == 77);
  ENSURE(m.Result.y.RowsCount == g && m.Result.y.ColsCount == T && m.Result.resid.ColsCount == T && m.Result.gamma.RowsCount == g && m.Result.gamma.ColsCount == f);
  for (int t = 0; t < T; t++) for (int i = 0; i < g; i++) { ENSURE(vc_same(m.Result.y.Data[i + g * t], w(t + A, i))); double v = w(t + A, i); for (int a = 0; a < f; a++) v -= m.Result.gamma.Data[i + g * a] * Xr[t + T * a]; ENSURE(vc_same(m.Result.resid.Data[i + g * t], v)); }
  for (int i = 0; i < g; i++) for (int a = 0; a < f; a++) { double v = 0; for (int t = 0; t < T; t++) v += m.Result.resid.Data[i + g * t] * Xr[t + T * a]; ENSURE(vc_same(v, 0)); } // residuals are orthogonal to the regressors
  for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) { double v = 0; for (int t = 0; t < T; t++) v += m.Result.resid.Data[i + g * t] * m.Result.resid.Data[j + g * t]; ENSURE(vc_same(m.Result.sigma2.Data[i + g * j] * T, v)); }
}
HARNESS(ols_1) { vc_bounded(); int p = dim(0, 1), d = dim(0, 1), end = dim(0, 1); bool x = dim(0, 1); if (p == 0) return; ols(1, 1, d, x, 3, end); }
HARNESS(ols_2) { vc_bounded(); int d = dim(0, 1); ols(2, 1, d, 0, 2, 0); }
#ifdef VC_NATIVE
// maximum likelihood: the coefficients, residuals and variance belong together and the fit is not worse than the initial one
HARNESS(nat_ml) {
  int p = vc_int(0, 1), q = vc_int(1, 2), d = vc_int(0, 1), T = 12; bool details = vc_bool(); VarmaSizes z(T + p + d, 1, 0, p, d, q, 0, 0, 0, 0, true); int N = T + p + d, f = z.NumParamsEq; double y[16]; for (int i = 0; i < N; i++) { y[i] = vc_real(); vc_assume(y[i] < 5 && y[i] > -5); }
  Varma m(z, false, details, true); std::vector<double> S(m.Result.StorageSize + 4, 77.0), W(m.Result.WorkSize + 4, 77.0); Mat Y(y, 1, N); bool th = vc_throws([&] { m.EstimateMl(Y, nullptr, W.data(), S.data()); }); for (int i = 0; i < 4; i++) ENSURE(S[m.Result.StorageSize + i] == 77 && W[m.Result.WorkSize + i] == 77); if (th) return;
  ENSURE(m.Result.coef.Data != nullptr); double v = 0; for (int k = 0; k < f; k++) { ENSURE(m.Result.coef.Data[k] == m.Result.gamma.Data[k]); vc_assume(m.Result.gamma.Data[k] < 2 && m.Result.gamma.Data[k] > -2); }
  for (int t = 0; t < T; t++) { auto w = [&](int t) { double a = 0; for (int k = 0; k <= d; k++) a += z.DiffPoly[k] * y[t - k]; return a; }; double r = w(t + p + d); for (int l = 1; l <= p; l++) r -= m.Result.coef.Data[l - 1] * w(t + p + d - l); for (int l = 1; l <= q; l++) if (t >= l) r -= m.Result.coef.Data[p + l - 1] * m.Result.resid.Data[t - l]; vc_assume(r < 1000 && r > -1000); ENSURE(r - m.Result.resid.Data[t] < 1e-6 && m.Result.resid.Data[t] - r < 1e-6); v += m.Result.resid.Data[t] * m.Result.resid.Data[t]; }
  ENSURE(v / T - m.Result.sigma2.Data[0] < 1e-6 * (1 + v) && m.Result.sigma2.Data[0] - v / T < 1e-6 * (1 + v));
}
#endif
#include "optim_native.h"
