#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/modeling/search/summary.cpp"
#include "/repo/src/ldt_statistics/modeling/search/modelset.cpp"
using namespace ldt;
struct Keep {
  alignas(16) unsigned char raw[sizeof(EstimationKeep)] = {0};
  EstimationKeep *e; std::shared_ptr<EstimationKeep> sp;
  int en[2], ex[2];
  Keep() { e = reinterpret_cast<EstimationKeep *>(raw); sp._M_ptr = e; endo(0); exo(0); }
  void endo(int n) { reinterpret_cast<VecView<int> *>(&e->Endogenous)->set(en, n); }
  void exo(int n) { reinterpret_cast<VecView<int> *>(&e->Exogenouses)->set(ex, n); }
};
// ---- extreme bounds: the first estimate gives the bounds, later ones widen them
HARNESS(bounds_push) {
  SearchItems it; SearchData data;
  double mult = it.ExtremeBoundsMultiplier = vc_posreal();
  SearcherSummary s(1, 2, 3, &it, vc_bool(), &data);
  ENSURE(s.Index1 == 1 && s.Index2 == 2 && s.Index3 == 3);
  double m1 = vc_real(), s1 = vc_posreal(), m2 = vc_real(), s2 = vc_posreal();
  Keep k;
  k.e->Mean = m1; k.e->Variance = s1 * s1; s.Push(k.sp, false);
  double lo1 = m1 - mult * s1, hi1 = m1 + mult * s1, lo2 = m2 - mult * s2, hi2 = m2 + mult * s2;
  vc_assume(lo1 > -1e300 && hi1 < 1e300 && lo2 > -1e300 && hi2 < 1e300);
  ENSURE(vc_same(s.ExtremeBounds[0], lo1) && vc_same(s.ExtremeBounds[1], hi1));
  k.e->Mean = m2; k.e->Variance = s2 * s2; s.Push(k.sp, false);
  ENSURE(vc_same(s.ExtremeBounds[0], lo1 < lo2 ? lo1 : lo2) && vc_same(s.ExtremeBounds[1], hi1 > hi2 ? hi1 : hi2));
  s.Push(k.sp, true); // a model without estimates changes nothing
  ENSURE(vc_same(s.ExtremeBounds[0], lo1 < lo2 ? lo1 : lo2) && vc_same(s.ExtremeBounds[1], hi1 > hi2 ? hi1 : hi2));
}

// ---- distribution functions at requested points: weighted mean of the normal CDFs
static double ncdf(double x, double m, double sd) { return 0.5 * erfc((m - x) / (sd * c_sqrt2)); }
HARNESS(cdf_push) {
  SearchItems it; SearchData data;
  double at[2] = {vc_real(), vc_real()};
  new (&it.CdfsAt) VecView<double>(at, 2);
  SearcherSummary s(0, 0, 0, &it, true, &data);
  ENSURE(s.Cdfs.size() == 2);
  double m1 = vc_real(), s1 = vc_posreal(), w1 = vc_posreal(), m2 = vc_real(), s2 = vc_posreal(), w2 = vc_posreal();
  Keep k;
  k.e->Mean = m1; k.e->Variance = s1 * s1; k.e->Weight = w1; s.Push(k.sp, false);
  k.e->Mean = m2; k.e->Variance = s2 * s2; k.e->Weight = w2; s.Push(k.sp, false);
  for (int i = 0; i < 2; i++)
    ENSURE(vc_same(s.Cdfs[i].GetMean(), (w1 * ncdf(at[i], m1, s1) + w2 * ncdf(at[i], m2, s2)) / (w1 + w2)) && vc_same(s.Cdfs[i].SumWeights, w1 + w2) && s.Cdfs[i].Count == 2);
  s.Push(k.sp, true);
  for (int i = 0; i < 2; i++) ENSURE(vc_same(s.Cdfs[i].SumWeights, w1 + w2) && s.Cdfs[i].Count == 2);
  new (&it.CdfsAt) VecView<double>(nullptr, 0);
}
// ---- mixture: weighted mean and total variance of the estimates
HARNESS(mixture_push) {
  SearchItems it; SearchData data; it.KeepMixture = true;
  SearcherSummary s(0, 0, 0, &it, true, &data);
  double m1 = vc_real(), s1 = vc_posreal(), w1 = vc_posreal(), m2 = vc_real(), s2 = vc_posreal(), w2 = vc_posreal();
  Keep k;
  k.e->Mean = m1; k.e->Variance = s1; k.e->Weight = w1; s.Push(k.sp, false);
  k.e->Mean = m2; k.e->Variance = s2; k.e->Weight = w2; s.Push(k.sp, false);
  double W = w1 + w2, m = (w1 * m1 + w2 * m2) / W;
  ENSURE(vc_same(s.Mixture4.GetMean(), m) && vc_same(s.Mixture4.SumWeights, W) && s.Mixture4.Count == 2);
  ENSURE(vc_same(s.Mixture4.mM2, w1 * (s1 + (m1 - m) * (m1 - m)) + w2 * (s2 + (m2 - m) * (m2 - m))));
}
// ---- inclusion: every variable of the model gets the weight of the model, once
HARNESS(inclusion_push) {
  SearchItems it; SearchData data; it.KeepInclusionWeights = true; data.NumEndo = 2; data.NumExo = 2;
  SearcherSummary s(0, 0, 0, &it, true, &data);
  ENSURE(s.InclusionsInfo.size() == 4);
  double w1 = vc_posreal(), w2 = vc_posreal();
  int a = vc_int(0, 1), b = vc_int(2, 3), c = vc_int(0, 1);
  a = vc_pin(a, 0, 1);
  Keep k;
  bool swp = vc_bool();
  k.en[0] = a; k.en[1] = 1 - a; k.ex[0] = b == 2 ? 2 : 3; k.ex[1] = b == 2 ? 3 : 2; k.endo(1); k.exo(1);
  k.e->Weight = w1; s.Push(k.sp, true);
  k.endo(2); k.e->Weight = w2; s.Push(k.sp, true);
  for (int i = 0; i < 4; i++) {
    bool in1 = i == k.en[0] || i == k.ex[0], in2 = i < 2 || i == k.ex[0];
    ENSURE(s.InclusionsInfo[i].Count == (in1 ? 1 : 0) + (in2 ? 1 : 0));
    double mean = s.InclusionsInfo[i].GetMean();
    if (in1 && in2) ENSURE(vc_same(mean, (w1 + w2) / 2));
    if (!in1 && in2) ENSURE(vc_same(mean, w2));
    if (!in1 && !in2) ENSURE(std::isnan(mean));
  }
  s.Push(k.sp, false); // an estimate is not a model
  for (int i = 0; i < 4; i++) ENSURE(s.InclusionsInfo[i].Count <= 2);
}
// ---- combination over searchers: only and all of the summaries of the item
struct Three {
  alignas(16) unsigned char raw[3][sizeof(SearcherSummary)] = {{0}};
  SearcherSummary *p[3]; SearcherSummary *bad[1] = {nullptr};
  bool hit[3]; bool hit2[3]; int i1, i2, i3; ModelSet ms;
  VecView<SearcherSummary *> v;
  Three() : v(p, 3) {
    i1 = vc_int(0, 3); i2 = vc_int(0, 3); i3 = vc_int(0, 3);
    for (int j = 0; j < 3; j++) {
      p[j] = reinterpret_cast<SearcherSummary *>(raw[j]);
      p[j]->Index1 = vc_int(0, 3); p[j]->Index2 = vc_int(0, 3); p[j]->Index3 = vc_int(0, 3);
      hit2[j] = p[j]->Index1 == i1 && p[j]->Index2 == i2; hit[j] = hit2[j] && p[j]->Index3 == i3;
    }
  }
};
HARNESS(bounds_combine) {
  Three t; double b[3][2];
  bool any = false; double lo = 0, hi = 0;
  for (int j = 0; j < 3; j++) {
    b[j][0] = vc_real(); b[j][1] = b[j][0] + vc_posreal(); vc_assume(b[j][0] > -1e300 && b[j][1] < 1e300);
    new (&t.p[j]->ExtremeBounds) VecView<double>(b[j], 2);
    if (t.hit[j]) { lo = !any || b[j][0] < lo ? b[j][0] : lo; hi = !any || b[j][1] > hi ? b[j][1] : hi; any = true; }
  }
  double mn, mx;
  t.ms.CombineExtremeBounds(t.i1, t.i2, t.i3, t.v.v(), mn, mx);
  if (any) ENSURE(vc_same(mn, lo) && vc_same(mx, hi));
}
HARNESS(mixture_combine) {
  Three t; double W = 0, S = 0; int n = 0;
  double Q = 0;
  for (int j = 0; j < 3; j++) {
    new (&t.p[j]->Mixture4) RunningMoments<4, true, true, Tv>();
    double m = vc_real(), w = vc_posreal(), v = vc_posreal();
    t.p[j]->Mixture4.Combine(m, v, 0, 0, w, 1);
    if (t.hit[j]) { W += w; S += w * m; Q += w * (v + m * m); n++; }
  }
  RunningMoments<4, true, true, Tv> r;
  r.PushNew(5, 2); // leftovers are cleared
  t.ms.CombineMixture(t.i1, t.i2, t.i3, t.v.v(), r);
  ENSURE(r.Count == n && vc_same(r.SumWeights, W));
  if (n) ENSURE(vc_same(r.GetMean() * W, S));
  if (n) ENSURE(vc_same(r.mM2 * W, Q * W - S * S));
  if (!n) ENSURE(std::isnan(r.GetMean()));
}
HARNESS(cdf_combine) {
  Three t; double W = 0, S = 0; int n = 0, ci = vc_int(0, 1);
  ci = vc_pin(ci, 0, 1);
  alignas(16) unsigned char raw[3][2 * sizeof(RunningMoments<1, true, true, Tv>)];
  for (int j = 0; j < 3; j++) {
    auto q = reinterpret_cast<RunningMoments<1, true, true, Tv> *>(raw[j]);
    for (int u = 0; u < 2; u++) {
      new (&q[u]) RunningMoments<1, true, true, Tv>();
      double m = vc_real(), w = vc_posreal(); 
      q[u].PushNew(m, w);
      if (t.hit[j] && u == ci) { W += w; S += w * m; n++; }
    }
    new (&t.p[j]->Cdfs) VecView<RunningMoments<1, true, true, Tv>>(q, 2);
  }
  RunningMoments<1, true, true, Tv> r;
  r.PushNew(5, 2);
  t.ms.CombineCdfAt(t.i1, t.i2, t.i3, ci, t.v.v(), r);
  ENSURE(r.Count == n && vc_same(r.SumWeights, W));
  if (n) ENSURE(vc_same(r.GetMean() * W, S));
}
HARNESS(inclusion_combine) {
  Three t; double S = 0; int n = 0, ci = vc_pin(vc_int(0, 1), 0, 1);
  RunningMoments<1, true, false, Tv> q[3][2];
  for (int j = 0; j < 3; j++) {
    double w = vc_posreal(), w2 = vc_posreal();
    q[j][ci].PushNew(w, 1);
    if (vc_bool()) q[j][1 - ci].PushNew(w2, 1); // a searcher may hold no model with the variable
    if (j == 1 && vc_bool()) q[j][ci].Reset();
    else if (t.hit2[j]) { S += w; n++; }
    new (&t.p[j]->InclusionsInfo) VecView<RunningMoments<1, true, false, Tv>>(q[j], 2);
  }
  RunningMoments<1, true, false, Tv> r;
  r.PushNew(5, 2);
  t.ms.CombineInclusionWeights(t.i1, t.i2, ci, t.v.v(), r);
  ENSURE(r.Count == n);
  if (n) ENSURE(vc_same(r.GetMean() * n, S));
  if (!n) ENSURE(std::isnan(r.GetMean()));
}
#ifdef VC_NATIVE
// the best K and the complete list, over any split of the estimates between searchers
HARNESS(nat_bests) {
  SearchItems it; SearchData data; data.NumEndo = 3; data.NumExo = 0;
  it.KeepBestCount = vc_int(0, 4); it.KeepAll = vc_bool();
  bool pos = vc_bool();
  std::vector<SearcherSummary> s;
  for (int j = 0; j < 4; j++) s.push_back(SearcherSummary(j == 3 ? 1 : 0, 2, 1, &it, pos, &data));
  int n = vc_int(0, 12); std::vector<double> w; std::vector<std::vector<EstimationKeep *>> mine(4);
  for (int i = 0; i < n; i++) {
    double m = vc_real(); int j = vc_int(0, 3); bool model = vc_bool();
    auto e = std::make_shared<EstimationKeep>(m, pos ? m : -m, std::vector<int>(), std::vector<int>(), std::vector<int>(), 1, 1);
    s[j].Push(e, model);
    if (j < 3) w.push_back(e->Weight);
    if (model) mine[j].push_back(e.get());
  }
  std::sort(w.begin(), w.end(), std::greater<double>());
  if ((int)w.size() > it.KeepBestCount) w.resize(it.KeepBestCount);
  std::vector<SearcherSummary *> l; for (auto &x : s) l.push_back(&x);
  ModelSet ms; std::vector<std::shared_ptr<EstimationKeep>> b, a;
  ms.CombineBests(0, 2, 1, l, b);
  std::vector<double> got; for (auto &x : b) got.push_back(x->Weight);
  ENSURE(got == w);
  for (int j = 0; j < 4; j++) ENSURE((int)s[j].Bests.size() <= it.KeepBestCount);
  ms.CombineAll(0, 2, 1, l, a);
  std::vector<EstimationKeep *> ga, wa; for (auto &x : a) ga.push_back(x.get());
  if (it.KeepAll) for (int j = 0; j < 3; j++) wa.insert(wa.end(), mine[j].begin(), mine[j].end());
  ENSURE(ga == wa);
}
#endif
