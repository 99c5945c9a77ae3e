#include "vec.h"
#include "/repo/src/array.cpp"
#include "/repo/src/ldt_base.cpp"
#include "/repo/src/matrix/matrix.cpp"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher_reg.cpp"
#include "/repo/src/ldt_statistics/modeling/search/summary.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
using namespace ldt;
#define REP extern "C" NOINLINE __attribute__((used))
#include "rbtree.h"
// recorded calls of the summaries
struct Push { int kind, eval, target, third; double metric, weight, mean, var; std::vector<int> endo, exo, extra; };
static Push pushes[64]; static int npush;
static void rec(int kind, EstimationKeep *e, int i, int t, int k) { Push &p = pushes[npush++]; p.kind = kind; p.eval = i; p.target = t; p.third = k; p.metric = e->Metric; p.weight = e->Weight; p.mean = e->Mean; p.var = e->Variance; p.endo = e->Endogenous; p.exo = e->Exogenouses; p.extra = e->Extra; }
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#else
REP void replace___ZN3ldt8Searcher5Push0ERSt10shared_ptrINS_14EstimationKeepEEii(Searcher *, std::shared_ptr<EstimationKeep> &e, int i, int t) { rec(0, e.get(), i, t, -1); }
REP void replace___ZN3ldt8Searcher5Push1ERSt10shared_ptrINS_14EstimationKeepEEiii(Searcher *, std::shared_ptr<EstimationKeep> &e, int i, int t, int k) { rec(1, e.get(), i, t, k); }
#endif
static size_t text = 0; // length of the message of an estimation
#ifndef VC_NATIVE
REP size_t replace___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6lengthEv(const std::string *) { return text; }
#endif
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
struct Stub : SearcherReg {
  using SearcherReg::SearcherReg; double me[8], mu[8], va[8]; int ex[2]; std::vector<int> cols; int calls = 0; bool fail = false;
  std::string EstimateOneReg(Tv *, Ti *, VMatrix<Tv> &metrics, VMatrix<Tv> &mean, VMatrix<Tv> &var, VMatrix<Ti> &extra) override {
    calls++; cols = ColIndices; for (int i = 0; i < metrics.Mat.length(); i++) metrics.Mat.Data[i] = me[i]; for (int i = 0; i < mean.Mat.length(); i++) { ENSURE(std::isnan(mean.Mat.Data[i])); mean.Mat.Data[i] = mu[i]; var.Mat.Data[i] = va[i]; } for (int i = 0; i < extra.Mat.length(); i++) extra.Mat.Data[i] = ex[i]; text = fail ? 2 : 0; return fail ? "no" : "";
  }
};
// one model: its columns, and one record for every metric and coefficient that is not missing
static void one(bool innerExo, int T, std::vector<int> endo, std::vector<int> exo, bool w, int nin, int nout, int L1, bool keep, bool mins, bool fails) {
  SearchData data; data.NumEndo = 2; data.NumExo = 2; data.HasWeight = w; SearchCombinations comb; comb.NumFixPartitions = 0; comb.NumFixItems = 0; SearchOptions opt; SearchItems items; SearchModelChecks chk; SearchMetricOptions met; int E = nin + nout;
  GoodnessOfFitType gf[2] = {GoodnessOfFitType::kSic, GoodnessOfFitType::kAuc}; ScoringType sc[2] = {ScoringType::kMape, ScoringType::kSign}; for (int i = 0; i < nin; i++) met.MetricsIn.push_back(gf[i]); for (int i = 0; i < nout; i++) met.MetricsOut.push_back(sc[i]); met.EvalIsPosOrientation = std::vector<bool>(E, true);
  double mn[4]; for (int i = 0; i < 4; i++) mn[i] = mins ? vc_real() : 0; if (mins) { if (nin) met.MinMetricIn.insert(std::make_pair(gf[0], std::vector<double>(mn, mn + T))); if (nout) met.MinMetricOut.insert(std::make_pair(sc[0], std::vector<double>(mn + 2, mn + 2 + T))); }
  items.LengthEvals = E; items.LengthTargets = T; items.LengthEndogenous = 2; items.LengthExogenous = 2; items.Length1 = L1; items.KeepModelEvaluations = keep; items.KeepBestCount = vc_symbolic() ? 0 : 9; int X = dim(0, 1);
  auto &cur = innerExo ? endo : exo; auto &inner = innerExo ? exo : endo; for (size_t i = 0; i < cur.size(); i++) comb.Partitions.push_back({cur[i]});
  std::vector<int> tg; for (int e : endo) if (e < T) tg.push_back(e);
  npush = 0; Stub *s = nullptr; bool th = vc_throws([&] { s = new Stub(data, comb, opt, items, met, chk, cur.size(), innerExo, inner, X); }); ENSURE(th == (!innerExo && tg.empty())); if (th) return;
  int G = tg.size(); for (int i = 0; i < E * G; i++) s->me[i] = dim(0, 1) ? NAN : vc_real(); for (int i = 0; i < L1 * G; i++) { s->mu[i] = dim(0, 1) ? NAN : vc_real(); s->va[i] = vc_real(); } s->ex[0] = 5; for (size_t i = 0; i < cur.size(); i++) s->CurrentIndices.Mat.Data[i] = cur[i]; s->fail = fails && dim(0, 1);
  bool any = false; for (int i = 0; i < E * G; i++) if (!std::isnan(s->me[i])) any = true;
  std::string r; th = vc_throws([&] { r = s->EstimateOne(nullptr, nullptr); }); ENSURE(th == (G == 0 || (!s->fail && !any)));
  if (G == 0) { ENSURE(s->calls == 0 && npush == 0); return; } ENSURE(s->calls == 1);
  std::vector<int> want; for (int e : endo) want.push_back(e); if (w) want.push_back(2); for (int e : exo) want.push_back(e + w); ENSURE(s->cols.size() == want.size()); for (size_t i = 0; i < want.size(); i++) ENSURE(s->cols[i] == want[i]);
#ifdef VC_NATIVE // records are read from the summaries
  for (int i = 0; i < E; i++) for (int j = 0; j < G; j++) { for (auto &e : s->Summaries0[i][tg[j]].Bests) rec(0, e.get(), i, tg[j], -1); for (int k = 0; k < L1; k++) for (auto &e : s->Summaries1[i][tg[j]][k].Bests) rec(1, e.get(), i, tg[j], k); }
#endif
  int p = 0; if (!s->fail) for (int i = 0; i < E; i++) for (int j = 0; j < G; j++) {
    double m = s->me[i + E * j]; if (std::isnan(m)) continue; double wt = i < nin ? GoodnessOfFit::ToWeight(gf[i], m, i == 0 ? mn[tg[j]] : 0) : Scoring::ToWeight(sc[i - nin], m, i == nin ? mn[2 + tg[j]] : 0);
    for (int k = keep ? -1 : 0; k < L1; k++) { if (k >= 0 && std::isnan(s->mu[k + L1 * j])) continue; ENSURE(p < npush); Push &q = pushes[p++]; ENSURE(q.kind == (k >= 0) && q.eval == i && q.target == tg[j] && q.third == k); ENSURE(vc_same(q.metric, m) && vc_same(q.weight, wt)); if (k >= 0) ENSURE(vc_same(q.mean, s->mu[k + L1 * j]) && vc_same(q.var, s->va[k + L1 * j])); ENSURE(q.endo.size() == endo.size() && q.exo.size() == exo.size() && (int)q.extra.size() == X); for (size_t a = 0; a < endo.size(); a++) ENSURE(q.endo[a] == endo[a]); for (size_t a = 0; a < exo.size(); a++) ENSURE(q.exo[a] == exo[a]); if (X) ENSURE(q.extra[0] == 5); }
  }
  ENSURE(p == npush); delete s;
}
HARNESS(columns_inner_endo) { vc_bounded(); int T = dim(1, 2), c = dim(0, 2); bool w = dim(0, 1); std::vector<int> en = c == 0 ? std::vector<int>{0} : c == 1 ? std::vector<int>{0, 1} : std::vector<int>{1}; one(false, T, en, {3, 2}, w, 1, 0, 0, true, false, c == 1); }
HARNESS(columns_inner_exo) { vc_bounded(); int T = dim(1, 2), c = dim(0, 2); bool w = dim(0, 1); std::vector<int> en = c == 0 ? std::vector<int>{0} : c == 1 ? std::vector<int>{0, 1} : std::vector<int>{1}; one(true, T, en, {3}, w, 1, 0, 0, true, false, c == 1); }
HARNESS(records_in) { vc_bounded(); one(false, 2, {0, 1}, {2}, false, 2, 0, 0, true, true, false); }
HARNESS(records_out) { vc_bounded(); one(true, 2, {0, 1}, {2}, false, 1, 2, 0, true, true, false); }
HARNESS(records_coefs) { vc_bounded(); one(false, 2, {0, 1}, {2, 3}, false, 1, 0, 2, dim(0, 1), false, false); }
