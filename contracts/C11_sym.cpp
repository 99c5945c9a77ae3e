#include "mat.h"
#include "/repo/src/matrix/matrix_sym.cpp"
// symmetric storage: (i,j) and (j,i) are one element, all others are separate
template <bool D> static void sym() {
  vc_bounded();
  int n = vc_pin(vc_int(1, 5), 1, 5), len = D ? n * (n + 1) / 2 : n * (n - 1) / 2; Buf b(len); double v = vc_real();
  MatrixSym<D, double> S(b.d, n); ENSURE(S.length_array() == len);
  int i = vc_pin(vc_int(-1, 5), -1, 5), j = vc_pin(vc_int(-1, 5), -1, 5);
  bool in = i >= 0 && j >= 0 && i < n && j < n && (D || i != j); double old[25];
  for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) if (D || p != q) { old[p + 5 * q] = S.Get(p, q); ENSURE(S.Get(q, p) == old[p + 5 * q]); }
  double x; ENSURE(vc_throws([&] { x = S.Get(i, j); }) == !in);
  ENSURE(vc_throws([&] { S.Set(i, j, v); }) == !in);
  for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) if (D || p != q) ENSURE(S.Get(p, q) == (in && ((p == i && q == j) || (p == j && q == i)) ? v : old[p + 5 * q]));
  // every stored number is one element
  int k = 0; double c[15]; for (int p = 0; p < len; p++) c[p] = b.d[p];
  for (int q = 0; q < n; q++) for (int p = 0; p < n; p++) if (D ? p >= q : p > q) ENSURE(S.Get(p, q) == c[k++]);
  ENSURE(k == len);
}
HARNESS(sym_diag) { sym<true>(); }
HARNESS(sym_nodiag) { sym<false>(); }
template <bool D> static void symval() {
  vc_bounded();
  int n = vc_pin(vc_int(0, 4), 0, 4), len = D ? n * (n + 1) / 2 : n * (n - 1) / 2; Buf b(10); double v = vc_real();
  MatrixSym<D, double> S(n); S.SetData(v, b.d, n); for (int i = 0; i < 10; i++) ENSURE(b.d[i] == (i < len ? v : b.o[i]));
  S.SetData(b.o, n); bool any = false, all = true; for (int i = 0; i < len; i++) { any |= b.o[i] == v; all &= b.o[i] == v; }
  ENSURE(S.Any(v) == any && S.All(v) == all && !S.Any(NAN) && S.All(NAN) == (len == 0));
}
HARNESS(symval_diag) { symval<true>(); }
HARNESS(symval_nodiag) { symval<false>(); }
