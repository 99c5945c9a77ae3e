#include "mat.h"
// matrices of up to three rows and columns with missing (and, where asked, infinite) values
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct NArr { double d[9], o[9]; int n; explicit NArr(int n) : n(n) { for (int i = 0; i < n; i++) { if (vc_bool()) d[i] = NAN; else d[i] = vc_real(); o[i] = d[i]; } } };
// first and last existing value, s > e if there is none
static void ends(const double *x, int n, int step, int &s, int &e, bool &miss) {
  s = 0; e = n - 1; miss = false;
  while (s < n && std::isnan(x[s * step])) s++;
  while (e >= 0 && std::isnan(x[e * step])) e--;
  for (int i = s; i <= e; i++) if (std::isnan(x[i * step])) miss = true;
}
static void same(IndexRange r, int s, int e) { if (s > e) ENSURE(r.IsNotValid()); else ENSURE(!r.IsNotValid() && r.StartIndex == s && r.EndIndex == e); }
HARNESS(column) {
  vc_bounded(); int m = dim(1, 4), n = dim(1, 2), j = dim(0, 1); vc_assume(j < n); NArr a(m * n); Mat A(a.d, m, n); bool h = false, miss; int s, e;
  IndexRange r = A.GetRangeColumn(h, j); ends(a.o + m * j, m, 1, s, e, miss); same(r, s, e); ENSURE(h == miss);
}
HARNESS(row) {
  vc_bounded(); int m = dim(1, 2), n = dim(1, 4), i = dim(0, 1); vc_assume(i < m); NArr a(m * n); Mat A(a.d, m, n); bool h = true, miss; int s, e;
  IndexRange r = A.GetRangeRow(h, i); ends(a.o + i, n, m, s, e, miss); same(r, s, e); ENSURE(h == miss);
}
HARNESS(all_columns) { // common range of the columns
  vc_bounded(); int m = dim(1, 3), n = dim(1, 2); NArr a(m * n); Mat A(a.d, m, n); bool h = false, any = false; int S = 0, E = m - 1;
  IndexRange r = A.GetRange(h);
  for (int j = 0; j < n; j++) { int s, e; bool miss; ends(a.o + m * j, m, 1, s, e, miss); if (s > e) { S = 1; E = 0; break; } S = std::max(S, s); E = std::min(E, e); any |= miss; }
  same(r, S, E); if (S <= E) ENSURE(h == any);
}
// rows without a missing (or infinite) value, in ascending order
template <bool INF, bool COLS> static void rows() {
  vc_bounded(); int m = dim(0, 2), n = dim(1, 2); double d[4]; for (int i = 0; i < m * n; i++) { if (INF) d[i] = vc_real_ext(); else if (vc_bool()) d[i] = NAN; else d[i] = vc_real(); }
  std::vector<int> rows, cols; int cc = COLS ? dim(0, 2) : 0; bool use[2] = {!COLS, !COLS};
  for (int k = 0; k < cc; k++) { int c = dim(0, 1); vc_assume(c < n); cols.push_back(c); use[c] = true; }
  Mat A(d, m, n); A.GetAnyNanRow(rows, INF, COLS ? &cols : nullptr);
  size_t q = 0;
  for (int i = 0; i < m; i++) {
    bool bad = false; for (int j = 0; j < n; j++) if (use[j]) { double x = d[i + m * j]; if (std::isnan(x) || (INF && std::isinf(x))) bad = true; }
    if (!bad) { ENSURE(q < rows.size() && rows[q] == i); q++; }
  }
  ENSURE(q == rows.size());
}
HARNESS(rows_nan) { rows<false, false>(); }
HARNESS(rows_inf) { rows<true, false>(); }
HARNESS(rows_nan_cols) { rows<false, true>(); }
HARNESS(rows_inf_cols) { rows<true, true>(); }
// ---- a row of any length: first and last existing value
struct Ctx { const double *d; int n; };
SPEC int spec_start(const double *d, int n, int k) { return k >= n ? n : std::isnan(d[2 * k]) ? spec_start(d, n, k + 1) : k; }
SPEC int spec_end(const double *d, int k) { return k < 0 ? -1 : std::isnan(d[2 * k]) ? spec_end(d, k - 1) : k; }
SPEC bool spec_miss(const double *d, int s, int e) { return s > e ? false : std::isnan(d[2 * s]) || spec_miss(d, s + 1, e); }
CAND bool cand_all__start(const Ctx *c, int i) { return spec_start(c->d, c->n, 0) == spec_start(c->d, c->n, i); }
CAND bool cand_all__end(const Ctx *c, int i) { return spec_end(c->d, c->n - 1) == spec_end(c->d, i - 1); }
CAND bool cand_all__not_below(const Ctx *c, int i) { int s = spec_start(c->d, c->n, 0); return s >= c->n || (i > s && !std::isnan(c->d[2 * s])); }
CAND bool cand_all__miss(const Ctx *c, int i) { int s = spec_start(c->d, c->n, 0), e = spec_end(c->d, c->n - 1); return i < s || spec_miss(c->d, s, e) == spec_miss(c->d, i, e); }
HARNESS(row_any) {
  int n = vc_size(1, 100000), i = dim(0, 1); double *d = vc_array_nan(2 * n); Ctx c{d + i, n}; vc_ctx(&c);
  Mat A(d, 2, n); bool h = true; IndexRange r = A.GetRangeRow(h, i);
  int s = spec_start(d + i, n, 0), e = spec_end(d + i, n - 1);
  if (s > e) ENSURE(r.IsNotValid() && !h); else ENSURE(r.StartIndex == s && r.EndIndex == e && h == spec_miss(d + i, s, e));
}
