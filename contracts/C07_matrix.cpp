#include "mat.h"
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// one line (column or row) of a matrix; the others stay as they are
template <bool ROW> static void line(int lo, int hi) {
  vc_bounded(); int n = dim(lo, hi), k = dim(1, 2), j = dim(0, 1); vc_assume(j < k); int st = ROW ? k : 1, of = ROW ? j : j * n;
  double o[12], d[12]; bool miss[12];
  for (int q = 0; q < n * k; q++) { o[q] = vc_real(); d[q] = o[q]; }
  for (int i = 0; i < n; i++) { miss[i] = vc_bool(); if (miss[i]) o[of + i * st] = d[of + i * st] = NAN; }
  Mat A(d, ROW ? k : n, ROW ? n : k); int count = -1; IndexRange r = ROW ? A.InterpolateRow(count, j) : A.InterpolateColumn(count, j);
  int s = 0, e = n - 1, in = 0; while (s < n && std::isnan(o[of + s * st])) s++; while (e >= 0 && std::isnan(o[of + e * st])) e--;
  if (s > e) ENSURE(r.IsNotValid() && count == 0); else ENSURE(r.StartIndex == s && r.EndIndex == e);
  for (int q = 0; q < n * k; q++) {
    int g = ROW ? q / k : q % n; if (ROW ? q % k != j : q / n != j) { ENSURE(d[q] == o[q]); continue; }
    if (!std::isnan(o[q])) { ENSURE(d[q] == o[q]); continue; }
    if (g < s || g > e) { ENSURE(std::isnan(d[q])); continue; }
    in++; int a = g, b = g; while (std::isnan(o[of + a * st])) a--; while (std::isnan(o[of + b * st])) b++;
    ENSURE(vc_same(d[q], o[of + a * st] + (o[of + b * st] - o[of + a * st]) * (g - a) / (b - a)));
  }
  if (s <= e) ENSURE(count == in);
}
HARNESS(column) { line<false>(1, 4); }
HARNESS(column5) { line<false>(5, 5); }
HARNESS(row) { line<true>(1, 4); }
HARNESS(row5) { line<true>(5, 5); }
HARNESS(row6) { line<true>(6, 6); }
