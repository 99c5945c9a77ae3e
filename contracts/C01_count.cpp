#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
using namespace ldt;
// number of models: sum over the admissible selections of groups of the product of their sizes
template <int N, int P> static void count_h() {
  int S[P];
  alignas(8) unsigned char raw[P * sizeof(std::vector<int>)];
  auto pv = reinterpret_cast<std::vector<int> *>(raw);
  for (int i = 0; i < P; i++) {
    S[i] = vc_int(1, 500);
    reinterpret_cast<VecView<int> *>(&pv[i])->set(S, S[i]); // contents are not read
  }
  SearchCombinations comb;
  new (&comb.Partitions) VecView<std::vector<int>>(pv, P);
  int fix = vc_int(0, N);
  for (int j = 0; j <= N; j++) if (fix == j) { fix = j; break; }
  comb.NumFixPartitions = fix; comb.NumFixItems = 0;
  alignas(16) unsigned char sraw[sizeof(SearcherTest)];
  SearcherTest *s = new (sraw) SearcherTest();
  new (&s->partitionSizes) VecView<int>(S, P);
  s->pCombinations = &comb; s->NumPartitions = N; s->CheckForEmpty = false;
  int cnt = s->GetCount(false);
  long e = 0;
  for (int m = 0; m < (1 << P); m++) {
    int bits = 0, pre = 0; long pr = 1;
    for (int i = 0; i < P; i++) if (m >> i & 1) { bits++; pr *= S[i]; }
    for (int i = 0; i < fix; i++) pre += m >> i & 1;
    if (bits == N && pre == fix) e += pr;
  }
  ENSURE(cnt == e);
  new (&comb.Partitions) VecView<std::vector<int>>(nullptr, 0);
}
HARNESS(count1) { count_h<1, 3>(); }
HARNESS(count2) { count_h<2, 4>(); }
HARNESS(count3) { count_h<3, 4>(); }
