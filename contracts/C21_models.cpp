#include "mat.h"
#include "solvers.h"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
#include "/repo/src/ldt_math/polynomials/mpolynomial.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma.cpp"
// differences and restrictions of VARMA models
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
HARNESS(difference) { // and its inverse
  vc_bounded(); int h = dim(1, 3), g = dim(1, 2), n = dim(1, 5); if (n <= h) return; std::vector<int> poly; poly.push_back(1); for (int k = 1; k <= h; k++) poly.push_back(vc_int(-9, 9));
  Buf y(g * n), s(g * n); Mat Y(y.d, g, n), S(s.d, g, n - h); Varma::Difference(poly, Y, S); y.unchanged();
  for (int t = h; t < n; t++) for (int i = 0; i < g; i++) { double w = 0; for (int k = 0; k <= h; k++) w += poly[k] * y.o[i + g * (t - k)]; ENSURE(vc_same(s.d[i + g * (t - h)], w)); }
  for (int i = g * (n - h); i < g * n; i++) ENSURE(s.d[i] == s.o[i]);
  double u[16]; for (int t = 0; t < n; t++) for (int i = 0; i < g; i++) u[i + g * t] = t < h ? y.o[i + g * t] : s.d[i + g * (t - h)]; // first values, then differences
  Mat U(u, g, n); Varma::UnDiferences(poly, U); for (int i = 0; i < g * n; i++) ENSURE(vc_same(u[i], y.o[i]));
}
HARNESS(restrict_general) { // R copies the free parameters in order and leaves the others zero
  vc_bounded(); int g = dim(1, 2), p = dim(1, 2), x = dim(0, 1); VarmaSizes z(100, g, x, p, 0, 0, 0, 0, 0, 0, true); int n = z.NumParams, c = dim(0, 2); if (n > 4) return;
  std::vector<int> ix; int a = dim(0, n - 1), b = (a + dim(1, n < 2 ? 1 : n - 1)) % n, r = n < 2 ? 1 : dim(1, 2); ix.push_back(a); if (r == 2) ix.push_back(b);
  VarmaRestriction *R = nullptr; bool th = vc_throws([&] { R = new VarmaRestriction(z, VarmaRestrictionType::kGeneral, c); }); ENSURE(th == (c <= 0)); if (th) return;
  ENSURE(R->IsRestricted && R->StorageSize == n * (n - c)); double s[32]; for (int i = 0; i < 32; i++) s[i] = 77; if (n - r < 1) { delete R; return; }
  ENSURE(vc_throws([&] { R->Calculate(s, &ix); }) == (c > r)); for (int i = R->StorageSize; i < 32; i++) ENSURE(s[i] == 77); if (c > r) { delete R; return; }
  ENSURE(R->R.RowsCount == n && R->R.ColsCount == n - r); int k = 0; for (int i = 0; i < n; i++) { bool fixed = i == a || (r == 2 && i == b); for (int j = 0; j < n - r; j++) ENSURE(s[i + n * j] == (!fixed && j == k ? 1 : 0)); if (!fixed) k++; }
  delete R;
}
HARNESS(restrict_ma) { // moving-average matrices are multiples of the identity, the other parameters are free
  vc_bounded(); int g = dim(1, 2), p = dim(0, 1), q = dim(0, 2), x = dim(0, 1); if (p + q == 0) return; VarmaSizes z(100, g, x, p, 0, q, 0, 0, 0, 0, true); int n = z.NumParams;
  VarmaRestriction R(z, VarmaRestrictionType::kMaFinal); bool res = g > 1 && q > 0; ENSURE(R.IsRestricted == res); if (!res) return; int first = z.MaStart * g, c = first + q;
  double s[128]; for (int i = 0; i < 128; i++) s[i] = 77; ENSURE(R.StorageSize == n * c); R.Calculate(s); ENSURE(R.R.RowsCount == n && R.R.ColsCount == c); for (int i = n * c; i < 128; i++) ENSURE(s[i] == 77);
  for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { int w = 0; if (i < first) w = i == j; else { int e = i - first, lag = e / (g * g), in = e % (g * g); w = in % (g + 1) == 0 && j == first + lag; } ENSURE(s[i + n * j] == w); }
}
HARNESS(restrict_none) { VarmaSizes z(100, 2, 0, 1, 0, 1, 0, 0, 0, 0, true); VarmaRestriction R(z, VarmaRestrictionType::kNone); ENSURE(!R.IsRestricted && R.StorageSize == 0); double s = vc_real(), o = s; R.Calculate(&s); ENSURE(vc_same(s, o)); }
