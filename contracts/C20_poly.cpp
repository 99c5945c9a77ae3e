#include "mat.h"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
// products and powers of polynomials with real or integer coefficients
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double num(double) { return vc_real(); }
static int num(int) { return vc_int(-3, 3); }
template <class T> struct Sto { T d[12]; int n; Sto(int n) : n(n) { for (int i = 0; i < 12; i++) d[i] = num(T()); for (int i = n; i < 12; i++) d[i] = 77; } void kept() { for (int i = n; i < 12; i++) ENSURE(d[i] == 77); } }; // nothing is written after the announced storage
template <class T> struct Pol { T d[4]; int n; Polynomial<T> p; Pol(int n) : n(n) { for (int i = 0; i < n; i++) d[i] = num(T()); p.Data(T(0), nullptr, 0); p.Coefficients.SetData(d, n, 1); } T at(int i) { return i >= 0 && i < n ? d[i] : T(0); } };
static int lower(int a, int b) { return a < b ? a : b; }
template <class T> static void product() {
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3), L = dim(1, 6), full = m + n - 1; bool cut = L < 6; int len = cut ? lower(full, L) : full;
  PolynomialMultiply<T> mul(m - 1, n - 1); ENSURE(mul.StorageSize == full);
  Pol<T> a(m), b(n); ENSURE(a.p.GetDegree() == m - 1);
  Sto<T> s(len); if (cut) { PolynomialMultiply<T> c(m - 1, n - 1, L); ENSURE(c.StorageSize == len); c.Calculate(a.p, b.p, s.d, L); mul.Result = c.Result; } else mul.Calculate(a.p, b.p, s.d);
  ENSURE(mul.Result.Coefficients.RowsCount == len && mul.Result.Coefficients.ColsCount == 1 && mul.Result.GetDegree() == len - 1);
  for (int k = 0; k < len; k++) { T w = 0; for (int i = 0; i < m; i++) w += a.at(i) * b.at(k - i); ENSURE(vc_same(mul.Result.Coefficients.Data[k], w)); }
  s.kept();
}
HARNESS(product_real) { product<double>(); }
HARNESS(product_int) { product<int>(); }
template <class T> static void power(int m, int e, int L) { // L == 0: no restriction on the length
  vc_bounded(); int full = e * (m - 1) + 1, len = L ? lower(full, L) : full; int mx = L ? L : INT_MAX;
  PolynomialPower<T> pw(e, m - 1, mx); ENSURE(pw.StorageSize == len);
  Pol<T> a(m); Sto<T> s(len), w(pw.WorkSize); pw.Calculate(a.p, e, s.d, w.d, mx);
  T r[12], q[12]; for (int i = 0; i < 12; i++) r[i] = i == 0 ? 1 : 0;
  for (int t = 0; t < e; t++) { for (int k = 0; k < 12; k++) { q[k] = 0; for (int i = 0; i < m; i++) if (k - i >= 0) q[k] += a.at(i) * r[k - i]; } for (int k = 0; k < 12; k++) r[k] = q[k]; }
  ENSURE(pw.Result.Coefficients.length() == len && pw.Result.GetDegree() == len - 1);
  for (int k = 0; k < len; k++) ENSURE(pw.Result.Coefficients.Data[k] == r[k] || vc_same(pw.Result.Coefficients.Data[k], r[k]));
  s.kept(); w.kept();
}
HARNESS(power_real) { int m = dim(1, 3), e = dim(0, 3); power<double>(m, e, 0); }
HARNESS(power_int) { int m = dim(1, 3), e = dim(0, 3); power<int>(m, e, 0); }
HARNESS(power_cut) { int m = dim(1, 3), e = dim(1, 3), L = dim(1, 4); power<double>(m, e, L); }
HARNESS(power_cut_int) { int m = dim(1, 3), e = dim(1, 3), L = dim(1, 4); power<int>(m, e, L); }
HARNESS(storage) { // storages that are too small are refused
  vc_bounded(); int m = dim(1, 3), n = dim(1, 3), k = dim(1, 3); Pol<double> a(m), b(n); PolynomialMultiply<double> mul(k - 1, n - 1); Sto<double> s(mul.StorageSize);
  ENSURE(vc_throws([&] { mul.Calculate(a.p, b.p, s.d); }) == (k < m)); s.kept();
  PolynomialPower<double> pw(k, m - 1); Sto<double> t(pw.StorageSize), w(pw.WorkSize);
  ENSURE(vc_throws([&] { pw.Calculate(a.p, n, t.d, w.d); }) == (n * (m - 1) + 1 > k * (m - 1) + 1)); t.kept(); w.kept();
}
template <class T> static void data() { // zeros of the highest powers are omitted
  vc_bounded(); int n = dim(1, 4); bool trim = dim(0, 1); T d[4], o[4]; int keep = trim ? 0 : n; bool z[4]; for (int i = 0; i < n; i++) { z[i] = dim(0, 1); d[i] = num(T()); if (z[i]) d[i] = 0; else { vc_assume(d[i] != 0); if (trim) keep = i + 1; } o[i] = d[i]; }
  Matrix<T> A(d, n, 1); Polynomial<T> p; ENSURE(vc_throws([&] { p.Data(A, trim); }) == (keep == 0)); if (keep == 0) return;
  ENSURE(p.GetDegree() == keep - 1 && p.Coefficients.ColsCount == 1); for (int i = 0; i < keep; i++) ENSURE(p.Coefficients.Data[i] == o[i]);
}
HARNESS(data_real) { data<double>(); }
HARNESS(data_int) { data<int>(); }
HARNESS(again) { // the same helper works for further polynomials
  vc_bounded(); int m = dim(1, 2), n = dim(1, 3); PolynomialMultiply<double> mul(2, 2); Sto<double> s(5); Pol<double> x(3), y(2); mul.Calculate(x.p, y.p, s.d);
  Pol<double> a(m), b(n); mul.Calculate(a.p, b.p, s.d); int len = m + n - 1; ENSURE(mul.Result.Coefficients.length() == len);
  for (int k = 0; k < len; k++) { double w = 0; for (int i = 0; i < m; i++) w += a.at(i) * b.at(k - i); ENSURE(vc_same(mul.Result.Coefficients.Data[k], w)); }
}
// ---- any degree: k is an arbitrary coefficient of the product
struct Ctx { const double *a, *b; double *s; double o; int n, k; };
SPEC double spec_conv(const double *a, const double *b, int i, int k, int n) { return i <= 0 ? 0 : spec_conv(a, b, i - 1, k, n) + (k - (i - 1) >= 0 && k - (i - 1) < n ? a[i - 1] * b[k - (i - 1)] : 0); }
CAND bool cand_all__zero(const Ctx *c, int i) { return c->s[c->k] == (c->k < i ? 0 : c->o); }
CAND bool cand_all__outer(const Ctx *c, int i) { return c->s[c->k] == spec_conv(c->a, c->b, i, c->k, c->n); }
CAND bool cand_all__inner(const Ctx *c, int i, int j) { return c->s[c->k] == spec_conv(c->a, c->b, c->k - i >= 0 && c->k - i < j ? i + 1 : i, c->k, c->n); }
HARNESS(product_any) {
  int m = vc_size(1, 1000), n = vc_size(1, 1000), L = vc_size(1, 3000), full = m + n - 1, len = full < L ? full : L; double *a = vc_array(m), *b = vc_array(n), *s = vc_array(len); int k = vc_int(0, 3000); vc_assume(k < len);
  Polynomial<double> p, q; p.Coefficients.SetData(a, m, 1); q.Coefficients.SetData(b, n, 1); Ctx c{a, b, s, s[k], n, k}; vc_ctx(&c); vc_ghost(k);
  PolynomialMultiply<double> mul(m - 1, n - 1, L); ENSURE(mul.StorageSize == len); mul.Calculate(p, q, s, L); ENSURE(mul.Result.GetDegree() == len - 1 && mul.Result.Coefficients.Data == s && s[k] == spec_conv(a, b, m, k, n));
}
