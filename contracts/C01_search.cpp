#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
#include "/repo/src/ldt_statistics/modeling/search/summary.cpp"
#include "/repo/src/ldt_statistics/modeling/search/modelset.cpp"
#ifdef VC_NATIVE
#include <map>
#include <set>
using namespace ldt;
struct Rec : Searcher {
  using Searcher::Searcher;
  std::vector<std::vector<int>> seen; int failMod = 0; bool thrw = false;
  std::string EstimateOne(Tv *, Ti *) override {
    seen.push_back(CurrentIndices.Vec);
    int s = 0; for (int v : CurrentIndices.Vec) s += v;
    if (failMod && s % failMod == 0) { if (thrw) throw std::logic_error("bad"); return "bad"; }
    return "";
  }
};
// every admissible model is estimated exactly once and accounted for
HARNESS(nat_search) {
  int P = vc_int(1, 5), N = vc_int(1, 4);
  vc_assume(N <= P);
  SearchCombinations comb; int tot = 0;
  for (int i = 0; i < P; i++) { int s = vc_int(1, 3); std::vector<int> g; for (int j = 0; j < s; j++) g.push_back(tot++); comb.Partitions.push_back(g); }
  comb.NumFixPartitions = vc_int(0, N); comb.NumFixItems = vc_bool() ? vc_int(1, tot) : 0;
  vc_assume(comb.NumFixPartitions < N || N == 1);
  bool empty = vc_bool();
  SearchItems items; items.LengthEvals = 1; items.LengthTargets = vc_int(1, tot);
  SearchMetricOptions met; met.EvalIsPosOrientation = {true};
  SearchModelChecks chk; SearchOptions opt; SearchData data; data.NumEndo = tot; data.NumExo = 0;
  int failMod = vc_int(0, 4); bool thrw = vc_bool();
  Rec a(data, comb, opt, items, met, chk, N, empty), b(data, comb, opt, items, met, chk, N > 1 ? N - 1 : N, empty);
  a.failMod = b.failMod = failMod; a.thrw = b.thrw = thrw;
  std::vector<Searcher *> list{&a, &b};
  ModelSet ms(list, data, comb, opt, items, met, chk);
  SearchOptions o2;
  ms.Start(nullptr, nullptr);
  long fails = 0, all = 0;
  for (auto p : {&a, &b}) {
    int n = p->NumPartitions;
    std::set<std::vector<int>> want, got(p->seen.begin(), p->seen.end());
    std::vector<int> cur(n);
    std::function<void(int, int)> rec = [&](int i, int g) {
      if (i == n) { if ((comb.NumFixItems == 0 || cur[0] < comb.NumFixItems) && (!empty || cur[0] < items.LengthTargets)) want.insert(cur); return; }
      for (int q = g; q < P; q++) {
        if (i < comb.NumFixPartitions && q != i) break;
        for (int v : comb.Partitions[q]) { cur[i] = v; rec(i + 1, q + 1); }
      }
    };
    rec(0, 0);
    ENSURE(got.size() == p->seen.size());
    ENSURE(got == want);
    ENSURE(p->Counter == (int)want.size() && p->GetCount() == (int)want.size());
    long f = 0;
    for (auto &v : want) { int s = 0; for (int x : v) s += x; if (failMod && s % failMod == 0) f++; }
    ENSURE(f == (p->States.count("bad") ? p->States.at("bad") : 0) && p->States.size() == (f ? 1u : 0u));
    fails += f; all += want.size();
  }
  SearcherModelingInfo info; std::vector<SearcherSummary *> l0, l1, l2;
  ms.CombineInfo(info, l0, l1, l2);
  ENSURE(info.ExpectedCount == all && info.SearchedCount == all);
  ENSURE(l0.size() == 2u * items.LengthTargets && l1.empty() && l2.empty());
  ENSURE((info.FailsCount.count("bad") ? info.FailsCount.at("bad") : 0) == fails);
  bool again = vc_throws([&] { a.CheckStart(); });
  ENSURE(again);
}
#endif
