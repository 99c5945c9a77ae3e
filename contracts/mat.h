// matrices over caller-owned storage with arbitrary elements
#pragma once
#include "vec.h"
#include <cstring>
#include <functional>
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "blas.h"
using namespace ldt;
typedef Matrix<double> Mat;
#ifndef VC_NATIVE
REP div_t replace__div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; } // contract of std::div
#endif
// storage of up to 16 arbitrary numbers and a copy of them
struct Buf {
  double d[16], o[16]; int n;
  explicit Buf(int n) : n(n) { for (int i = 0; i < n; i++) d[i] = o[i] = vc_real(); }
  Buf(int n, int nan) : n(n) { for (int i = 0; i < n; i++) { if (vc_bool()) d[i] = NAN; else d[i] = vc_real(); o[i] = d[i]; } }
  void unchanged() { for (int i = 0; i < n; i++) ENSURE(vc_same(d[i], o[i])); }
};
// the matrix is m x n and its elements are want(i,j)
template <class F> static void is(const Mat &A, int m, int n, F want) {
  ENSURE(A.RowsCount == m && A.ColsCount == n);
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) ENSURE(vc_same(A.Data[i + m * j], want(i, j)));
}
