#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
#include "/repo/src/ldt_math/polynomials/mpolynomial.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp"
// lags, differences, restrictions and moving-average representation of VARMA models
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static int binom(int n, int k) { int r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return k > n ? 0 : r; }
static void lags(const std::vector<int> &l, int len, int mx, int p, int P, int s) {
  int n = 0, last = 0; ENSURE((int)l.size() == len);
  for (int i = 1; i <= 20; i++) { bool is = i <= p || (s > 0 && i % s == 0 && i <= s * P); if (is) { ENSURE(n < len && l[n] == i); n++; last = i; } }
  ENSURE(n == len && mx == last);
}
static void relations(const VarmaSizes &z, int n, int g, int x) {
  int deg = z.DiffDegree;
  ENSURE(z.HasAr == (z.ArLength > 0) && z.HasMa == (z.MaLength > 0) && z.HasDiff == (deg > 0) && z.HasArExo == (z.ArLength > 0 || x > 0));
  ENSURE(z.MaStart == z.ArLength * g + x && z.NumParamsEq == (z.ArLength + z.MaLength) * g + x && z.NumParams == z.NumParamsEq * g && z.ArMax_d == z.ArMax + deg && z.T == n - z.ArMax - deg);
}
HARNESS(ar_lags) {
  vc_bounded(); int s = dim(2, 4), p = dim(0, 5), P = dim(0, 2); int n = vc_int(0, 1000), g = vc_int(1, 5), x = vc_int(0, 5);
  VarmaSizes z(n, g, x, p, 0, 1, P, 0, 0, s, true); lags(z.ArLags, z.ArLength, z.ArMax, p, P, s); lags(z.MaLags, z.MaLength, z.MaMax, 1, 0, s); ENSURE(z.DiffDegree == 0 && z.DiffPoly.size() == 1 && z.DiffPoly[0] == 1); relations(z, n, g, x);
}
HARNESS(ma_lags) {
  vc_bounded(); int s = dim(2, 4), q = dim(0, 5), Q = dim(0, 2); int n = vc_int(0, 1000), g = vc_int(1, 5), x = vc_int(0, 5);
  VarmaSizes z(n, g, x, 1, 0, q, 0, 0, Q, s, true); lags(z.MaLags, z.MaLength, z.MaMax, q, Q, s); lags(z.ArLags, z.ArLength, z.ArMax, 1, 0, s); relations(z, n, g, x);
}
HARNESS(differences) { // (1 - L)^d (1 - L^s)^D
  vc_bounded(); int s = dim(2, 4), d = dim(0, 3), D = dim(0, 2); int n = vc_int(0, 1000), g = vc_int(1, 5), x = vc_int(0, 5);
  VarmaSizes z(n, g, x, 1, d, 0, 0, D, 0, s, true); int deg = d + s * D; ENSURE(z.DiffDegree == deg && (int)z.DiffPoly.size() == deg + 1); relations(z, n, g, x);
  for (int k = 0; k <= deg; k++) { int w = 0; for (int j = 0; j <= D; j++) if (k - s * j >= 0 && k - s * j <= d) w += ((j + k - s * j) % 2 ? -1 : 1) * binom(D, j) * binom(d, k - s * j); ENSURE(z.DiffPoly[k] == w); }
}
HARNESS(refused) { // negative orders, seasonal orders without seasons, no lags at all
  vc_bounded(); int s = dim(0, 2), k = dim(0, 8), p = dim(0, 1), q = dim(0, 1); int o[6] = {p, 0, q, 0, 0, 0}; if (k < 6) o[k] = -1; else if (k < 8) o[k == 6 ? 3 : 5] = 1;
  bool bad = k < 6 || (s < 2 && (o[3] || o[4] || o[5])) || (p == 0 && q == 0 && o[3] == 0 && o[5] == 0);
  VarmaSizes z; ENSURE(vc_throws([&] { z = VarmaSizes(100, 2, 1, o[0], o[1], o[2], o[3], o[4], o[5], s, true); }) == bad);
  if (!bad) { lags(z.ArLags, z.ArLength, z.ArMax, o[0], o[3], s); lags(z.MaLags, z.MaLength, z.MaMax, o[2], o[5], s); relations(z, 100, 2, 1); }
}
HARNESS(no_seasons) { vc_bounded(); int s = dim(-1, 1), d = dim(0, 2); VarmaSizes z(100, 2, 0, 2, d, 1, 0, 0, 0, s, true); ENSURE(z.SeasonsCount == 0 && z.ArLength == 2 && z.ArMax == 2 && z.MaLength == 1 && z.DiffDegree == d); }
HARNESS(updated) { // sizes follow the numbers of observations, equations and exogenous variables
  vc_bounded(); VarmaSizes z(100, 2, 1, 1, 1, 1, 1, 0, 0, 4, true); int n = vc_int(0, 1000), g = vc_int(1, 5), x = vc_int(0, 5); z.ObsCount = n; z.EqsCount = g; z.ExoCount = x; z.UpdateChanged(); relations(z, n, g, x);
  z.Calculate(); lags(z.ArLags, z.ArLength, z.ArMax, 1, 1, 4); ENSURE(z.DiffPoly.size() == 2); relations(z, n, g, x); // calculated again
}
// ---- polynomials of the coefficients and the moving-average representation
static void arma(int g, int p, int d, int q, int P, int Q, int s, int x, int count) {
  VarmaSizes z(100, g, x, p, d, q, P, 0, Q, s, true); int f = z.NumParamsEq; double pi[24]; for (int i = 0; i < g * f; i++) pi[i] = vc_real(); Mat Pi(pi, g, f);
  VarmaArma a(z, count); double S[64], W[64]; for (int i = 0; i < 64; i++) S[i] = W[i] = 77; ENSURE(a.StorageSize <= 60 && a.WorkSize <= 60); a.Calculate(Pi, S, W);
  for (int i = a.StorageSize; i < 64; i++) ENSURE(S[i] == 77); for (int i = a.WorkSize; i < 64; i++) ENSURE(W[i] == 77);
  ENSURE(a.Ar.GetDegree() == z.ArMax && a.Ma.GetDegree() == z.MaMax);
  auto A = [&](int k, int i, int j) { int at = -1; for (int l = 0; l < z.ArLength; l++) if (z.ArLags[l] == k) at = l; return k == 0 ? (i == j ? 1.0 : 0.0) : at < 0 ? 0.0 : -pi[i + g * (at * g + j)]; };
  auto M = [&](int k, int i, int j) { int at = -1; for (int l = 0; l < z.MaLength; l++) if (z.MaLags[l] == k) at = l; return k == 0 ? (i == j ? 1.0 : 0.0) : at < 0 ? 0.0 : pi[i + g * (z.MaStart + at * g + j)]; };
  for (int j = 0; j < g; j++) for (int i = 0; i < g; i++) { for (int k = 0; k <= z.ArMax; k++) ENSURE(a.Ar.Coefficients.at(k)->Data[i + g * j] == A(k, i, j)); for (int k = 0; k <= z.MaMax; k++) ENSURE(a.Ma.Coefficients.at(k)->Data[i + g * j] == M(k, i, j)); }
  if (!count) return; ENSURE(a.MaInf.GetDegree() == count - 1); // difference(L) A(L) MaInf(L) = M(L)
  for (int k = 0; k < count; k++) for (int j = 0; j < g; j++) for (int i = 0; i < g; i++) { double t = 0; for (int u = 0; u <= z.DiffDegree; u++) for (int v = 0; u + v <= k; v++) for (int l = 0; l < g; l++) t += z.DiffPoly[u] * A(v, i, l) * a.MaInf.Coefficients.at(k - u - v)->Data[l + g * j]; ENSURE(vc_same(t, M(k, i, j))); }
}
HARNESS(arma_1) { vc_bounded(); int p = dim(0, 2), d = dim(0, 1), q = dim(0, 2), x = dim(0, 1), c = dim(0, 4); if (p + q == 0) return; arma(1, p, d, q, 0, 0, 0, x, c); }
HARNESS(arma_1s) { vc_bounded(); int p = dim(0, 1), q = dim(0, 1), P = dim(0, 1), Q = dim(0, 1), c = dim(1, 4); if (P + Q == 0) return; arma(1, p, 0, q, P, Q, 2, 0, c); }
HARNESS(arma_2) { vc_bounded(); int p = dim(0, 1), d = dim(0, 1), q = dim(0, 1), x = dim(0, 1), c = dim(0, 2); if (p + q == 0) return; arma(2, p, d, q, 0, 0, 0, x, c); }
