#include "mat.h"
// any number of columns (two or three rows), or any number of rows (two columns);
// (gi,gj) is an arbitrary element of the destination
struct Ctx { double *d; const double *o, *s; int gi, gj, r0, c0, sr0, sc0, rc, cc, R, S; };
CAND bool cand_all__sub(const Ctx *c, int j) {
  if (c->rc < 0) return true;
  bool in = c->gi >= c->r0 && c->gi < c->r0 + c->rc && c->gj >= c->c0 && c->gj < c->c0 + c->cc && c->gj < j;
  double want = in ? c->s[c->gi - c->r0 + c->sr0 + c->S * (c->gj - c->c0 + c->sc0)] : c->o[c->gi + c->R * c->gj];
  return c->d[c->gi + c->R * c->gj] == want;
}
template <int R, int S, bool SET> static void sub() {
  int n = vc_size(0, 100000), k = vc_size(0, 100000);
  double *d = vc_array(R * n), *o = vc_array(R * n), *s = vc_array(S * k);
  int gi = vc_pin(vc_int(0, R - 1), 0, R - 1), gj = vc_int(0, 100000); vc_assume(gj < n);
  vc_assume(d[gi + R * gj] == o[gi + R * gj]);
  int r0 = vc_pin(vc_int(0, R), 0, R), c0 = vc_int(0, 100000), sr0 = vc_pin(vc_int(0, S), 0, S), sc0 = vc_int(0, 100000), rc = vc_pin(vc_int(0, R), 0, R), cc = vc_int(0, 100000);
  Ctx c{d, o, s, gi, gj, r0, c0, sr0, sc0, rc, cc, R, S}; vc_ctx(&c); vc_ghost(gi + R * gj);
  Mat D(d, R, n), M(s, S, k);
  bool ok = r0 + rc <= R && c0 + cc <= n && sr0 + rc <= S && sc0 + cc <= k;
  bool t = vc_throws([&] { if (SET) D.SetSub(r0, c0, M, sr0, sc0, rc, cc); else M.GetSub(sr0, sc0, rc, cc, D, r0, c0); });
  ENSURE(t == !ok);
  bool in = ok && gi >= r0 && gi < r0 + rc && gj >= c0 && gj < c0 + cc;
  ENSURE(d[gi + R * gj] == (in ? s[gi - r0 + sr0 + S * (gj - c0 + sc0)] : o[gi + R * gj]));
}
HARNESS(setsub) { sub<3, 2, true>(); }
HARNESS(getsub) { sub<2, 3, false>(); }
// one loop writes the destination: want is what it should hold at (gi,gj)
struct WCtx { double *d; const double *want, *o; int g, gj; };
CAND bool cand_all__written(const WCtx *c, int j) { return c->d[c->g] == (c->gj < j ? *c->want : *c->o); }
template <class F, class W> static void write(int m, int n, F f, W w) {
  double *d = vc_array(m * n); int gi = vc_pin(vc_int(0, m - 1), 0, m - 1), gj = vc_int(0, 100000); vc_assume(gj < n);
  double o = d[gi + m * gj], want = w(gi, gj, o);
  WCtx c{d, &want, &o, gi + m * gj, gj}; vc_ctx(&c); vc_ghost(gi + m * gj);
  Mat D(d, m, n); f(D);
  ENSURE(vc_same(d[gi + m * gj], want) && D.RowsCount == m && D.ColsCount == n);
}
HARNESS(set_row) { int n = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double v = vc_real(); write(2, n, [&](Mat &D) { D.SetRow(k, v); }, [&](int i, int, double o) { return i == k ? v : o; }); }
HARNESS(row_plus) { int n = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double v = vc_real(); write(2, n, [&](Mat &D) { D.SetRow_plus(k, v); }, [&](int i, int, double o) { return i == k ? o + v : o; }); }
HARNESS(row_minus) { int n = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double v = vc_real(); write(2, n, [&](Mat &D) { D.SetRow_minus(k, v); }, [&](int i, int, double o) { return i == k ? o - v : o; }); }
HARNESS(row_vector) { int n = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double *s = vc_array(n); Mat S(s, n, 1); write(2, n, [&](Mat &D) { D.SetRow(k, S); }, [&](int i, int j, double o) { return i == k ? s[j] : o; }); }
HARNESS(row_row) { int n = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1), l = vc_pin(vc_int(0, 2), 0, 2); double *s = vc_array(3 * n); Mat S(s, 3, n); write(2, n, [&](Mat &D) { D.SetRowFromRow(k, S, l); }, [&](int i, int j, double o) { return i == k ? s[l + 3 * j] : o; }); }
HARNESS(get_row) { int n = vc_size(1, 100000), l = vc_pin(vc_int(0, 2), 0, 2); double *s = vc_array(3 * n); Mat S(s, 3, n); write(1, n, [&](Mat &D) { S.GetRow(l, D); }, [&](int, int j, double) { return s[l + 3 * j]; }); }
HARNESS(set_value) { int n = vc_size(1, 100000); double v = vc_real(); write(1, n, [&](Mat &D) { D.SetValue(v); }, [&](int, int, double) { return v; }); }
HARNESS(transpose) { int n = vc_size(1, 100000); double *s = vc_array(n * 2); Mat S(s, n, 2); write(2, n, [&](Mat &D) { S.Transpose(D); }, [&](int i, int j, double) { return s[j + n * i]; }); }
// ---- columns: any number of rows
struct CCtx { double *d; const double *want, *o; int g, gi; };
CAND bool cand_all__cwritten(const CCtx *c, int i) { return c->d[c->g] == (c->gi < i ? *c->want : *c->o); }
template <class F, class W> static void cwrite(int m, int n, F f, W w) {
  double *d = vc_array(m * n); int gj = vc_pin(vc_int(0, n - 1), 0, n - 1), gi = vc_int(0, 100000); vc_assume(gi < m);
  double o = d[gi + m * gj], want = w(gi, gj, o);
  CCtx c{d, &want, &o, gi + m * gj, gi}; vc_ctx(&c); vc_ghost(gi + m * gj);
  Mat D(d, m, n); f(D);
  ENSURE(vc_same(d[gi + m * gj], want) && D.RowsCount == m && D.ColsCount == n);
}
HARNESS(set_column) { int m = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double v = vc_real(); cwrite(m, 2, [&](Mat &D) { D.SetColumn(k, v); }, [&](int, int j, double o) { return j == k ? v : o; }); }
HARNESS(column_plus) { int m = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double v = vc_real(); cwrite(m, 2, [&](Mat &D) { D.SetColumn_plus(k, v); }, [&](int, int j, double o) { return j == k ? o + v : o; }); }
HARNESS(column_minus) { int m = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double v = vc_real(); cwrite(m, 2, [&](Mat &D) { D.SetColumn_minus(k, v); }, [&](int, int j, double o) { return j == k ? o - v : o; }); }
HARNESS(column_vector) { int m = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1); double *s = vc_array(m); Mat S(s, m, 1); cwrite(m, 2, [&](Mat &D) { D.SetColumn(k, S); }, [&](int i, int j, double o) { return j == k ? s[i] : o; }); }
HARNESS(column_column) { int m = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1), l = vc_pin(vc_int(0, 2), 0, 2); double *s = vc_array(m * 3); Mat S(s, m, 3); cwrite(m, 2, [&](Mat &D) { D.SetColumnFromColumn(k, S, l); }, [&](int i, int j, double o) { return j == k ? s[i + m * l] : o; }); }
HARNESS(column_row) { int m = vc_size(1, 100000), k = vc_pin(vc_int(0, 1), 0, 1), l = vc_pin(vc_int(0, 2), 0, 2); double *s = vc_array(3 * m); Mat S(s, 3, m); cwrite(m, 2, [&](Mat &D) { D.SetColumnFromRow(k, S, l); }, [&](int i, int j, double o) { return j == k ? s[l + 3 * i] : o; }); }
HARNESS(get_column) { int m = vc_size(1, 100000), l = vc_pin(vc_int(0, 2), 0, 2); double *s = vc_array(m * 3); Mat S(s, m, 3); cwrite(m, 1, [&](Mat &D) { S.GetColumn(l, D); }, [&](int i, int, double) { return s[i + m * l]; }); }
HARNESS(transpose_wide) { int m = vc_size(1, 100000); double *s = vc_array(2 * m); Mat S(s, 2, m); cwrite(m, 2, [&](Mat &D) { S.Transpose(D); }, [&](int i, int j, double) { return s[j + 2 * i]; }); }
HARNESS(copy) { int m = vc_size(1, 100000); double *s = vc_array(m * 2); Mat S(s, m, 2); write(1, 2 * m, [&](Mat &D) { D.Restructure(m, 2); S.CopyTo(D); D.Restructure(1, 2 * m); }, [&](int, int j, double) { return s[j]; }); }
// ---- elements chosen by a list of indexes
HARNESS(sort_vector) {
  int n = vc_size(1, 100000); double *s = vc_array(n); int *ix = vc_iarray(n, 0, n - 1); VecView<int> v(ix, n); Mat S(s, n, 1);
  write(1, n, [&](Mat &D) { D.Restructure(n, 1); S.SortByVector0(D, v.v()); D.Restructure(1, n); }, [&](int, int j, double) { return s[ix[j]]; });
}
HARNESS(sort_columns) {
  int n = vc_size(1, 100000); double *s = vc_array(2 * n); int *ix = vc_iarray(n, 0, n - 1); VecView<int> v(ix, n); Mat S(s, 2, n);
  write(2, n, [&](Mat &D) { S.SortColumnsBy0(D, v.v()); }, [&](int i, int j, double) { return s[i + 2 * ix[j]]; });
}
HARNESS(sort_rows) {
  int n = vc_size(1, 100000); double *s = vc_array(n * 2); int *ix = vc_iarray(n, 0, n - 1); VecView<int> v(ix, n); Mat S(s, n, 2);
  cwrite(n, 2, [&](Mat &D) { S.SortRowsBy0(D, v.v()); }, [&](int i, int j, double) { return s[ix[i] + n * j]; });
}
