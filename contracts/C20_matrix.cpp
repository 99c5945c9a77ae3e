#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
#include "/repo/src/ldt_math/polynomials/mpolynomial.cpp"
// products and inverses of polynomials whose coefficients are square matrices
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct MPol { double d[12]; int n, m; PolynomialM p; MPol(int n, int m) : n(n), m(m) { for (int i = 0; i < n * m * m; i++) d[i] = vc_real(); p.Data(n - 1, m, d); } double at(int k, int i, int j) { return k >= 0 && k < n ? d[k * m * m + i + m * j] : 0; } };
struct Sto { double d[24]; int n; Sto(int n) : n(n) { for (int i = 0; i < n; i++) d[i] = vc_real(); for (int i = n; i < 24; i++) d[i] = 77; } void kept() { for (int i = n; i < 24; i++) ENSURE(d[i] == 77); } };
static int lower(int a, int b) { return a < b ? a : b; }
HARNESS(product) {
  vc_bounded(); int m = dim(1, 2), p = dim(1, 3), q = dim(1, 2), L = dim(1, 5), full = p + q - 1; bool cut = L < 5; int mx = cut ? L : INT_MAX, len = cut ? lower(full, L) : full;
  PolynomialMMultiply mul(m, p - 1, q - 1, mx); ENSURE(mul.StorageSize == len * m * m); MPol a(p, m), b(q, m); Sto s(len * m * m); mul.Calculate(a.p, b.p, s.d, mx);
  ENSURE(mul.Result.GetDegree() == len - 1 && mul.Result.GetSize() == m && a.p.GetDegree() == p - 1);
  for (int k = 0; k < len; k++) { Matrix<double> *r = mul.Result.Coefficients.at(k); ENSURE(r->RowsCount == m && r->ColsCount == m);
    for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) { double w = 0; for (int u = 0; u < p; u++) for (int l = 0; l < m; l++) w += a.at(u, i, l) * b.at(k - u, l, j); ENSURE(vc_same(r->Data[i + m * j], w)); } }
  s.kept();
}
HARNESS(product_scalar) {
  vc_bounded(); int m = dim(1, 2), p = dim(1, 3), q = dim(1, 3), L = dim(1, 6), full = p + q - 1; bool cut = L < 6; int mx = cut ? L : INT_MAX, len = cut ? lower(full, L) : full;
  PolynomialMMultiply mul(m, p - 1, q - 1, mx); MPol a(p, m); double c[3]; for (int i = 0; i < q; i++) c[i] = vc_real(); Polynomial<double> b; b.Coefficients.SetData(c, q, 1); Sto s(len * m * m); mul.Calculate(a.p, b, s.d, mx);
  ENSURE(mul.Result.GetDegree() == len - 1 && mul.Result.GetSize() == m);
  for (int k = 0; k < len; k++) for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) { double w = 0; for (int u = 0; u < p; u++) if (k - u >= 0 && k - u < q) w += a.at(u, i, j) * c[k - u]; ENSURE(vc_same(mul.Result.Coefficients.at(k)->Data[i + m * j], w)); }
  s.kept();
}
// a(x) r(x) = 1 up to the last power of r
static void inverse(int m, int p, int L) {
  vc_bounded(); MPol a(p, m);
#ifdef VC_NATIVE
  double det = m == 1 ? a.d[0] : a.d[0] * a.d[3] - a.d[1] * a.d[2]; vc_assume(det > 0.5 || det < -0.5); for (int i = 0; i < p * m * m; i++) vc_assume(a.d[i] < 5 && a.d[i] > -5);
#else
  double det = m == 1 ? a.d[0] : a.d[0] * a.d[3] - a.d[1] * a.d[2]; vc_assume(det != 0);
#endif
  PolynomialMInvert inv(m, p - 1, L); ENSURE(inv.StorageSize == L * m * m); Sto s(inv.StorageSize), w(inv.WorkSize); inv.Calculate(a.p, s.d, w.d, L);
  ENSURE(inv.Result.GetDegree() == L - 1 && inv.Result.GetSize() == m);
  for (int k = 0; k < L; k++) for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) { double t = 0; for (int u = 0; u < p && u <= k; u++) for (int l = 0; l < m; l++) t += a.at(u, i, l) * s.d[(k - u) * m * m + l + m * j]; ENSURE(vc_same(t, k == 0 && i == j ? 1 : 0)); }
  s.kept(); w.kept();
}
HARNESS(inverse_1) { int p = dim(1, 3), L = dim(1, 4); inverse(1, p, L); }
HARNESS(inverse_2) { int p = dim(1, 2), L = dim(1, 3); inverse(2, p, L); }
HARNESS(again) { // a helper is used again: its result is the second one
  vc_bounded(); int m = dim(1, 2), p = dim(1, 2), q = dim(1, 2); PolynomialMMultiply mul(m, 1, 1); Sto s(3 * m * m); MPol x(2, m), y(2, m); mul.Calculate(x.p, y.p, s.d);
  MPol a(p, m), b(q, m); mul.Calculate(a.p, b.p, s.d); int len = p + q - 1; ENSURE(mul.Result.GetDegree() == len - 1);
  for (int k = 0; k < len; k++) for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) { double w = 0; for (int u = 0; u < p; u++) for (int l = 0; l < m; l++) w += a.at(u, i, l) * b.at(k - u, l, j); ENSURE(vc_same(mul.Result.Coefficients.at(k)->Data[i + m * j], w)); }
  a.p.Data(0, m, b.d); ENSURE(a.p.GetDegree() == 0 && a.p.Coefficients.at(0)->Data == b.d); // data set again
}
HARNESS(data) { // zero matrices of the highest powers are omitted
  vc_bounded(); int n = dim(1, 3), m = dim(1, 2); bool trim = dim(0, 1); double d[12]; int keep = trim ? 0 : n; std::vector<Matrix<double> *> v; std::vector<Matrix<double>> s; s.reserve(3);
  for (int k = 0; k < n; k++) { bool z = dim(0, 1); for (int i = 0; i < m * m; i++) d[4 * k + i] = 0; if (!z) { d[4 * k + m * m - 1] = vc_real(); vc_assume(d[4 * k + m * m - 1] != 0); if (trim) keep = k + 1; } s.push_back(Matrix<double>(&d[4 * k], m, m)); }
  for (int k = 0; k < n; k++) v.push_back(&s[k]);
  PolynomialM p; ENSURE(vc_throws([&] { p.Data(v, trim); }) == (keep == 0)); if (keep == 0) return; ENSURE(p.GetDegree() == keep - 1 && p.GetSize() == m); for (int k = 0; k < keep; k++) ENSURE(p.Coefficients.at(k) == v[k]);
  ENSURE(PolynomialM::GetStorageSize(n, m) == (n + 1) * m * m);
}
HARNESS(storage) { vc_bounded(); int m = dim(1, 2), n = dim(1, 2), p = dim(1, 3), q = dim(1, 3), L = dim(1, 2), K = dim(1, 2); MPol a(p, m); Sto s(12), w(12); PolynomialMInvert inv(n, q - 1, L); bool bad = K * m * m > L * n * n || p * m * m > q * n * n; if (!bad) return; ENSURE(vc_throws([&] { inv.Calculate(a.p, s.d, w.d, K); })); }
