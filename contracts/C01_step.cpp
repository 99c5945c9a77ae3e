#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
using namespace ldt;
// one step of the enumeration over 3 groups of arbitrary sizes, models of N groups
template <int N, int P> static void step_h(bool fixed) {
  int S[P]; int *it[P]; 
  alignas(8) unsigned char raw[P * sizeof(std::vector<int>)];
  auto pv = reinterpret_cast<std::vector<int> *>(raw);
  for (int i = 0; i < P; i++) {
    S[i] = vc_size(1, 100000); it[i] = vc_iarray(S[i], 0, 1000000);
    if (!vc_symbolic() && fixed) { if (i) it[i][0] += it[i - 1][S[i - 1] - 1]; for (int j = 1; j < S[i]; j++) it[i][j] += it[i][j - 1]; }
    auto v = reinterpret_cast<VecView<int> *>(&pv[i]); v->set(it[i], S[i]);
  }
  VecView<std::vector<int>> parts(pv, P);
  VecView<int> sizes(S, P);
  int pi[N], in[N], old[N], oldp[N];
  for (int i = 0; i < N; i++) {
    int lo = i ? pi[i - 1] + 1 : 0, a = vc_int(0, P - 1), v = P - N + i;
    vc_assume(a >= lo && a <= v);
    for (int j = 0; j < P; j++) if (a == j) { v = j; break; }
    pi[i] = oldp[i] = v;
    in[i] = old[i] = vc_int(0, 100000);
    vc_assume(in[i] < S[v]);
  }
  int fixP = vc_int(0, N), fixI = fixed ? vc_int(1, 1000000) : 0;
  Matrix<int> inner(in, N, 1), pidx(pi, N, 1);
  int c, T, f;
  bool r = move_next(c, T, f, inner, pidx, N, sizes.v(), parts.v(), fixP, fixI);
  // the expected step
  int e[N]; int w = 0;
  while (w < N && old[w] == S[oldp[w]] - 1) w++;
  bool skip = false;
  if (fixed && w == 0 && !(it[oldp[0]][old[0] + 1] < fixI)) { w = 1; while (w < N && old[w] == S[oldp[w]] - 1) w++; }
  if (fixed && w > 0 && w < N && !(it[oldp[0]][0] < fixI)) w = N;
  if (w < N) {
    ENSURE(r);
    bool same = true;
    for (int i = 0; i < N; i++) same = same && in[i] == (i < w ? 0 : i == w ? old[i] + 1 : old[i]) && pi[i] == oldp[i];
    ENSURE(same);
  } else {
    bool zero = true;
    for (int i = 0; i < N; i++) zero = zero && in[i] == 0;
    ENSURE(zero);
    // the next selection of groups, in order
    int p = N - 1;
    while (p >= fixP && oldp[p] == P - N + p) p--;
    if (p < fixP) ENSURE(!r);
    else {
      bool ok = true;
      for (int i = 0; i < N; i++) ok = ok && pi[i] == (i < p ? oldp[i] : oldp[p] + 1 + (i - p));
      ENSURE(ok);
      ENSURE(r == (!fixed || it[pi[0]][0] < fixI));
    }
  }
}
HARNESS(step1) { step_h<1, 3>(false); }
HARNESS(step2) { step_h<2, 3>(false); }
HARNESS(step3) { step_h<3, 4>(false); }
HARNESS(step1_fixed) { step_h<1, 3>(true); }
HARNESS(step2_fixed) { step_h<2, 3>(true); }
