#include "mat.h"
#include "/repo/src/matrix/dataset.cpp"
// preparing data: complete rows, common ranges, standardising
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
typedef std::vector<int> IV;
struct Miss { // m x n numbers, some missing
  double d[12], o[12]; bool miss[12]; int m, n;
  Miss(int m, int n, bool nan) : m(m), n(n) { for (int i = 0; i < m * n; i++) { miss[i] = nan && dim(0, 1); d[i] = miss[i] ? NAN : vc_real(); o[i] = d[i]; } }
  void same() { for (int i = 0; i < m * n; i++) ENSURE(vc_same(d[i], o[i])); }
};
static void rows(bool select, bool nan, int m, int n) {
  Miss a(m, n, nan); Mat A(a.d, m, n); IV x; int cols[2], k = 0;
  if (select) { k = dim(1, 2); for (int j = 0; j < k; j++) { cols[j] = dim(0, n - 1); x.push_back(cols[j]); } } else { k = n; for (int j = 0; j < n; j++) cols[j] = j; }
  double s[12]; for (int i = 0; i < 12; i++) s[i] = 7;
  Dataset<double> D(m, k, nan, select); ENSURE(D.StorageSize == m * k);
  D.Calculate(A, select ? &x : nullptr, s);
  int e[4], c = 0; for (int i = 0; i < m; i++) { bool ok = true; for (int j = 0; j < k; j++) if (nan && a.miss[i + m * cols[j]]) ok = false; if (ok) e[c++] = i; }
  ENSURE(D.Result.Data == s); is(D.Result, c, k, [&](int i, int j) { return a.o[e[i] + m * cols[j]]; });
  for (int i = c * k; i < 12; i++) ENSURE(s[i] == 7);
  a.same();
}
HARNESS(rows_all) { vc_bounded(); rows(false, true, dim(1, 3), dim(1, 2)); }
HARNESS(rows_chosen) { vc_bounded(); rows(true, true, dim(1, 2), 2); }
HARNESS(rows_chosen_3) { vc_bounded(); rows(true, true, 3, 2); }
HARNESS(rows_plain) { vc_bounded(); rows(dim(0, 1), false, dim(1, 3), dim(1, 2)); }
HARNESS(rows_null) { vc_bounded(); Miss a(2, 2, false); Mat A(a.d, 2, 2); double s[4]; Dataset<double> D(2, 2, dim(0, 1), true); ENSURE(vc_throws([&] { D.Calculate(A, nullptr, s); })); }
HARNESS(sizes) { vc_bounded(); int m = dim(-1, 1), n = dim(-1, 1); bool a = dim(0, 1), b = dim(0, 1), bad = m < 1 || n < 1; ENSURE(vc_throws([&] { Dataset<double>(m, n, a, b); }) == bad); ENSURE(vc_throws([&] { DatasetTs<true, double>(m, n, a, b); }) == bad); ENSURE(vc_throws([&] { DatasetTs<false, double>(m, n, a, b); }) == bad); ENSURE(vc_throws([&] { MatrixStandardized<double>(m, n, a, b); }) == bad); }
// time series: L points, K series, in rows or in columns
template <bool byRow> static void series(int L, int K, bool select, bool twice) {
  auto at = [&](int t, int k) { return byRow ? k + K * t : t + L * k; };
  Miss a(byRow ? K : L, byRow ? L : K, true); Mat A(a.d, byRow ? K : L, byRow ? L : K);
  int lo[3], hi[3]; bool gap[3], bad = false, any = false;
  for (int k = 0; k < K; k++) { lo[k] = L; hi[k] = -1; gap[k] = false; for (int t = 0; t < L; t++) if (!a.miss[at(t, k)]) { if (lo[k] == L) lo[k] = t; hi[k] = t; } for (int t = lo[k]; t < hi[k]; t++) if (a.miss[at(t, k)]) gap[k] = true; if (hi[k] < 0) bad = true; else if (gap[k]) any = true; }
  DatasetTs<byRow, double> D(L, K, true, select); ENSURE(D.StorageSize == L * K);
  bool t = vc_throws([&] { D.Data(A); }); ENSURE(t == bad); if (bad) return;
  ENSURE(D.HasMissingData == any && (int)D.Ranges.size() == K); int w = 0;
  for (int k = 0; k < K; k++) { ENSURE(D.Ranges[k].StartIndex == lo[k] && D.Ranges[k].EndIndex == hi[k]); if (gap[k]) { ENSURE(std::get<0>(D.WithMissingIndexes.at(w)) == k); w++; } }
  ENSURE((int)D.WithMissingIndexes.size() == w);
  IV x; int sel[3], c = 0; if (select) { c = dim(1, 2); for (int k = 0; k < c; k++) { sel[k] = dim(0, K - 1); x.push_back(sel[k]); } } else { c = K; for (int k = 0; k < K; k++) sel[k] = k; }
  int s = 0, e = L - 1; for (int k = 0; k < c; k++) { if (lo[sel[k]] > s) s = lo[sel[k]]; if (hi[sel[k]] < e) e = hi[sel[k]]; }
  if (e < s) return; // no common range
  double buf[12]; for (int i = 0; i < 12; i++) buf[i] = 7;
  if (twice) { D.Update(select ? &x : nullptr, nullptr); ENSURE(D.Start == s && D.End == e); int p = byRow ? c : e - s + 1, q = byRow ? e - s + 1 : c; ENSURE(D.Result.RowsCount == p && D.Result.ColsCount == q); for (int i = 0; i < 12; i++) ENSURE(buf[i] == 7); }
  D.Update(select ? &x : nullptr, buf); ENSURE(D.Start == s && D.End == e && D.Result.Data == buf);
  is(D.Result, byRow ? c : e - s + 1, byRow ? e - s + 1 : c, [&](int i, int j) { int k = byRow ? i : j, t = byRow ? j : i; return a.o[at(s + t, sel[k])]; });
  for (int i = c * (e - s + 1); i < 12; i++) ENSURE(buf[i] == 7);
  a.same();
}
HARNESS(series_rows) { vc_bounded(); series<true>(dim(1, 3), dim(1, 2), false, dim(0, 1)); }
HARNESS(series_columns) { vc_bounded(); series<false>(dim(1, 3), dim(1, 2), false, dim(0, 1)); }
HARNESS(series_rows_chosen) { vc_bounded(); series<true>(dim(1, 3), 2, true, true); }
HARNESS(series_columns_chosen) { vc_bounded(); series<false>(dim(1, 3), 2, true, true); }
HARNESS(series_gap) { vc_bounded(); series<true>(5, 1, false, false); }
template <bool byRow> static void plain() { // no missing values expected
  vc_bounded(); int L = dim(1, 3), K = dim(1, 2); bool select = dim(0, 1); Miss a(byRow ? K : L, byRow ? L : K, false); Mat A(a.d, byRow ? K : L, byRow ? L : K);
  IV x; int sel[2], c = 0; if (select) { c = dim(1, 2); for (int k = 0; k < c; k++) { sel[k] = dim(0, K - 1); x.push_back(sel[k]); } } else { c = K; for (int k = 0; k < K; k++) sel[k] = k; }
  double buf[12]; DatasetTs<byRow, double> D(L, K, false, select); D.Data(A); ENSURE(!D.HasMissingData); D.Update(select ? &x : nullptr, buf);
  if (select) ENSURE(D.Start == 0 && D.End == L - 1);
  is(D.Result, byRow ? c : L, byRow ? L : c, [&](int i, int j) { int k = byRow ? i : j, t = byRow ? j : i; return a.o[byRow ? sel[k] + K * t : t + L * sel[k]]; });
}
HARNESS(plain_rows) { plain<true>(); }
HARNESS(plain_columns) { plain<false>(); }
// standardising columns
static void standard(bool center, bool scale, bool zero, bool om, bool ov, bool sample, int m, int n) {
  Miss a(m, n, false); Mat A(a.d, m, n); double mo[2], vo[2]; for (int j = 0; j < n; j++) { mo[j] = vc_real(); vo[j] = vc_posreal(); }
  if (ov && dim(0, 1)) vo[0] = 0;
  Mat Mo(mo, n, 1), Vo(vo, n, 1); double s[12]; for (int i = 0; i < 12; i++) s[i] = 7;
  MatrixStandardized<double> S(m, n, zero, center, scale); S.Sample = sample; S.CheckNan = false; int need = m * n + (center ? n : 0) + (scale ? n : 0); ENSURE(S.StorageSize == need);
  S.Calculate(A, s, om ? &Mo : nullptr, ov ? &Vo : nullptr);
  double me[2], va[2], want[6]; int keep[2], c = 0;
  for (int j = 0; j < n; j++) {
    double u = 0; for (int i = 0; i < m; i++) u += a.o[i + m * j]; u /= m; double q = 0; for (int i = 0; i < m; i++) q += (a.o[i + m * j] - u) * (a.o[i + m * j] - u); q /= sample ? m - 1 : m;
    me[j] = center ? (om ? mo[j] : u) : 0; va[j] = scale ? (ov ? vo[j] : q) : 1;
    if (center && !om) ENSURE(vc_same(S.ColumnMeans.Data[j], u));
    if (scale && !ov) ENSURE(vc_same(S.ColumnVars.Data[j], q));
    if (!(scale && zero && va[j] == 0)) keep[c++] = j;
  }
  if (scale && zero) { ENSURE((int)S.RemovedZeroVar.size() == n - c); int w = 0; for (int j = 0; j < n; j++) { bool k = false; for (int i = 0; i < c; i++) if (keep[i] == j) k = true; if (!k) { ENSURE(S.RemovedZeroVar.at(w) == j); w++; } } }
  ENSURE(S.Result.RowsCount == m && S.Result.ColsCount == c && S.Result.Data == s);
  for (int k = 0; k < c; k++) { int j = keep[k]; double sd = va[j] == 0 ? 0 : std::sqrt(va[j]); for (int i = 0; i < m; i++) { double x = S.Result.Data[i + m * k]; if (va[j] == 0) ENSURE(std::isnan(x)); else ENSURE(vc_same(x * sd, a.o[i + m * j] - me[j])); } }
  for (int i = need; i < 12; i++) ENSURE(s[i] == 7);
  a.same();
}
HARNESS(standard_given) { vc_bounded(); standard(dim(0, 1), dim(0, 1), dim(0, 1), true, true, false, 2, 2); }
HARNESS(standard_center) { vc_bounded(); standard(true, false, dim(0, 1), dim(0, 1), false, false, 2, 2); }
HARNESS(standard_scale) { vc_bounded(); standard(dim(0, 1), true, dim(0, 1), dim(0, 1), false, dim(0, 1), 2, 1); }
HARNESS(standard_scale_2) { vc_bounded(); standard(true, true, dim(0, 1), false, false, true, 2, 2); }
template <bool byRow> static void again() { // nothing is left from data seen before
  vc_bounded(); Miss a(3, 2, false), b(3, 2, true); int g = dim(1, 2); a.d[g] = NAN; Mat A(a.d, byRow ? 2 : 3, byRow ? 3 : 2), B(b.d, byRow ? 2 : 3, byRow ? 3 : 2); DatasetTs<byRow, double> D(3, 2, true, false), E(3, 2, true, false);
  D.Data(A); bool t = vc_throws([&] { D.Data(B); }), u = vc_throws([&] { E.Data(B); }); ENSURE(t == u); if (t) return;
  ENSURE(D.HasMissingData == E.HasMissingData && D.WithMissingIndexes.size() == E.WithMissingIndexes.size() && D.Ranges.size() == E.Ranges.size());
}
HARNESS(again_rows) { again<true>(); }
HARNESS(again_columns) { again<false>(); }
HARNESS(again_standard) { // the columns removed are those of the last data
  vc_bounded(); int m = dim(1, 2), n = 2; double d[4], e[4], s[8], vo[2]; for (int i = 0; i < 4; i++) { d[i] = vc_real(); e[i] = vc_real(); } bool z = dim(0, 1); for (int j = 0; j < 2; j++) vo[j] = vc_posreal(); vo[dim(0, 1)] = 0;
  Mat A(d, 2, n), B(e, m, n), V(vo, n, 1); MatrixStandardized<double> S(2, n, true, true, true), Q(2, n, true, true, true); S.Sample = Q.Sample = false; S.CheckNan = Q.CheckNan = false;
  double t[8]; S.Calculate(A, s, nullptr, &V); if (z) vo[0] = vo[1] = 1; S.Calculate(B, s, nullptr, &V); Q.Calculate(B, t, nullptr, &V);
  ENSURE(S.RemovedZeroVar.size() == Q.RemovedZeroVar.size() && S.Result.RowsCount == m && S.Result.ColsCount == Q.Result.ColsCount && (int)S.RemovedZeroVar.size() == (z ? 0 : 1)); for (int i = 0; i < m * S.Result.ColsCount; i++) ENSURE(vc_same(S.Result.Data[i], Q.Result.Data[i]));
}
#ifdef VC_NATIVE
HARNESS(nat_again_standard) {
  int m = vc_int(1, 6), n = vc_int(1, 4); bool c = vc_int(0, 1), k = vc_int(0, 1), rz = vc_int(0, 1), sm = vc_int(0, 1); MatrixStandardized<double> S(m, n, rz, c, k), Q(m, n, rz, c, k); S.Sample = Q.Sample = sm; std::vector<double> s(S.StorageSize + 1), t(Q.StorageSize + 1), d(m * n), e(m * n);
  for (int i = 0; i < m * n; i++) { d[i] = vc_int(0, 2); e[i] = vc_int(0, 2); } int m2 = vc_int(1, m), n2 = vc_int(1, n); Mat A(d.data(), m, n), B(e.data(), m2, n2); S.Calculate(A, s.data()); S.Calculate(B, s.data()); Q.Calculate(B, t.data());
  ENSURE(S.RemovedZeroVar == Q.RemovedZeroVar && S.Result.RowsCount == m2 && S.Result.ColsCount == Q.Result.ColsCount); for (int i = 0; i < m2 * S.Result.ColsCount; i++) { double a = S.Result.Data[i], b = Q.Result.Data[i]; ENSURE((std::isnan(a) && std::isnan(b)) || vc_same(a, b)); }
}
#endif
