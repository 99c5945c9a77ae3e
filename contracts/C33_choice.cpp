#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher_reg.cpp"
#include "/repo/src/ldt_statistics/modeling/search/summary.cpp"
#include "/repo/src/ldt_statistics/modeling/search/modelset.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
#include "/repo/src/ldt_statistics/scoring/frequency_cost.cpp"
#include "/repo/src/ldt_statistics/scoring/roc.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_statistics/data_split.cpp"
#include "/repo/src/ldt_math/optimization/newton.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp"
#ifdef VC_NATIVE
#include "/repo/src/ldt_math/auc.cpp"
#include "/repo/src/helpers.cpp"
#endif
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
#include "rbtree.h"
#define B_ DiscreteChoiceModelType::kBinary
#define L_ DiscreteChoiceDistType::kLogit
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double ab(double x) { return x < 0 ? -x : x; }
// what the chosen model must be given, and what its estimation, evaluation and simulation give back
static struct { int n, k, c, calls, probs, rocs, costs, sims; bool W, We, useE, useS, failE, failS; const double *d; double *work; int size; int *worki; const std::vector<Mat> *tables; RocOptions *o; SearchMetricOptions *met; SearchModelChecks *chk; bool *cancel; double aic, sic, cn, b[4], v[16], p[16], auc, cost, sauc, sbri, scost[2]; } G;
#ifndef VC_NATIVE
static bool inside(double *p, int n) { return p >= G.work && p + n <= G.work + G.size; }
static void eq(const Mat &m, const double *d, int r, int c) { ENSURE(m.RowsCount == r && m.ColsCount == c); for (int i = 0; i < r * c; i++) ENSURE(m.Data[i] == d[i]); }
static double *kept; static int keptSize;
REP void replace___ZN3ldt14DiscreteChoiceILNS_23DiscreteChoiceModelTypeE0ELNS_22DiscreteChoiceDistTypeE0EE9CalculateERKNS_6MatrixIdEES7_PS6_PdS9_ib(DiscreteChoice<B_, L_> *m, const Mat &y, const Mat &x, const Mat *w, double *s, double *wk, int J, bool ols) {
  ENSURE(J == 2 && ols && (w != nullptr) == G.W && m->Optim.IterationMax == 17 && !m->Optim.UseLineSearch); eq(y, G.d, G.n, 1); eq(x, G.d + (1 + G.W) * G.n, G.n, G.k); if (w) eq(*w, G.d + G.n, G.n, 1); ENSURE(inside(s, m->StorageSize) && inside(wk, m->WorkSize) && wk >= s + m->StorageSize); kept = s; keptSize = m->StorageSize; G.calls++; if (G.failE) throw LdtException(ErrorType::kLogic, "x", "failed");
  for (int i = 0; i < G.k; i++) s[i] = G.b[i]; for (int i = 0; i < G.k * G.k; i++) s[G.k + i] = G.v[i]; m->Beta.SetData(s, G.k, 1); m->BetaVar.SetData(s + G.k, G.k, G.k); m->Aic = G.aic; m->Sic = G.sic; m->condition_number = G.cn; }
REP void replace___ZN3ldt14DiscreteChoiceILNS_23DiscreteChoiceModelTypeE0ELNS_22DiscreteChoiceDistTypeE0EE16GetProbabilitiesERKNS_6MatrixIdEERS5_Pd(DiscreteChoice<B_, L_> *m, const Mat &x, Mat &r, double *wk) { eq(x, G.d + (1 + G.W) * G.n, G.n, G.k); ENSURE(r.RowsCount == G.n && r.ColsCount == 2 && inside(r.Data, 2 * G.n) && inside(wk, G.n) && G.calls == 1 && r.Data >= kept + keptSize && wk >= r.Data + 2 * G.n); for (int i = 0; i < 2 * G.n; i++) r.Data[i] = G.p[i]; G.probs++; }
template <class T> static void roc(T *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(&o == G.o && (w != nullptr) == G.We); eq(y, G.d, G.n, 1); eq(s, G.p, G.n, 2); if (w) eq(*w, G.d + G.n, G.n, 1); r->Result = G.auc; G.rocs++; }
REP void replace___ZN3ldt3ROCILb0ELb0EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<false, false> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(!G.We); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb1ELb0EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<true, false> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(G.We); roc(r, y, s, w, o); }
static void cost(FrequencyCostBase *f, const std::vector<Mat> &cs, const Mat &y, const Mat &s, const Mat *w, double *st) { ENSURE(&cs == G.tables && (w != nullptr) == G.We && inside(st, f->StorageSize)); eq(y, G.d, G.n, 1); eq(s, G.p, G.n, 2); if (w) eq(*w, G.d + G.n, G.n, 1); for (int i = 0; i < f->StorageSize; i++) st[i] = 5; f->AverageRatio = G.cost; G.costs++; }
REP void replace___ZN3ldt13FrequencyCostILb0EE9CalculateERKSt6vectorINS_6MatrixIdEESaIS4_EERKS4_SA_PS9_Pd(FrequencyCost<false> *f, const std::vector<Mat> &cs, const Mat &y, const Mat &s, const Mat *w, double *st) { ENSURE(!G.We); cost(f, cs, y, s, w, st); }
REP void replace___ZN3ldt13FrequencyCostILb1EE9CalculateERKSt6vectorINS_6MatrixIdEESaIS4_EERKS4_SA_PS9_Pd(FrequencyCost<true> *f, const std::vector<Mat> &cs, const Mat &y, const Mat &s, const Mat *w, double *st) { ENSURE(G.We); cost(f, cs, y, s, w, st); }
static void simulate(DiscreteChoiceSimBase *m, const Mat &d, const std::vector<Mat> *cs, double *s, double *wk, int *wi, bool &cancel, RocOptions &o, bool check, std::set<const char *> *err, int maxinv) {
  eq(d, G.d, G.n, G.c); ENSURE(cs == G.tables && &o == G.o && !cancel && check && err == nullptr && maxinv == G.met->SimFixSize - G.chk->MinOutSim); ENSURE(m->Seed == 5 && m->SimulationMax == G.met->SimFixSize && m->Optim.IterationMax == 17 && !m->Optim.UseLineSearch); ENSURE(inside(s, m->StorageSize) && inside(wk, m->WorkSize) && wk >= s + m->StorageSize && wi == G.worki); if (G.useE) ENSURE(s >= kept + keptSize); G.sims++; if (G.failS) throw LdtException(ErrorType::kLogic, "x", "failed");
  int C = cs->size(); for (int i = 0; i < C; i++) s[i] = G.scost[i]; m->CostRatios.SetData(s, C, 1); m->Auc = G.sauc; m->BrierScore = G.sbri; }
REP void replace___ZN3ldt17DiscreteChoiceSimILb0ELNS_23DiscreteChoiceModelTypeE0ELNS_22DiscreteChoiceDistTypeE0EE9CalculateERKNS_6MatrixIdEEPKSt6vectorIS5_SaIS5_EEPdSD_PiRbRNS_10RocOptionsEbPSt3setIPKcSt4lessISK_ESaISK_EEi(DiscreteChoiceSim<false, B_, L_> *m, const Mat &d, const std::vector<Mat> *cs, double *s, double *wk, int *wi, bool &cancel, RocOptions &o, bool check, std::set<const char *> *err, int maxinv) { simulate(m, d, cs, s, wk, wi, cancel, o, check, err, maxinv); }
REP void replace___ZN3ldt17DiscreteChoiceSimILb1ELNS_23DiscreteChoiceModelTypeE0ELNS_22DiscreteChoiceDistTypeE0EE9CalculateERKNS_6MatrixIdEEPKSt6vectorIS5_SaIS5_EEPdSD_PiRbRNS_10RocOptionsEbPSt3setIPKcSt4lessISK_ESaISK_EEi(DiscreteChoiceSim<true, B_, L_> *m, const Mat &d, const std::vector<Mat> *cs, double *s, double *wk, int *wi, bool &cancel, RocOptions &o, bool check, std::set<const char *> *err, int maxinv) { simulate(m, d, cs, s, wk, wi, cancel, o, check, err, maxinv); }
#endif
struct Sys { SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchModelChecks chk; SearchMetricOptions met; Newton nw; RocOptions o; std::vector<Mat> cs; double ct[2][6];
  Sys(bool W, int nX, int tables) { data.NumEndo = 1; data.NumExo = nX; data.HasWeight = W; comb.NumFixPartitions = 1; items.LengthTargets = items.LengthEndogenous = 1; items.LengthExogenous = nX; items.KeepBestCount = 999; met.Seed = 7; o.NormalizePoints = false; for (int t = 0; t < 2; t++) { ct[t][0] = 0.25 + 0.25 * t; ct[t][1] = 0.75; for (int i = 2; i < 6; i++) ct[t][i] = vc_posreal(); } for (int t = 0; t < tables; t++) cs.push_back(Mat(ct[t], 2, 3)); } };
static const GoodnessOfFitType GF[5] = {GoodnessOfFitType::kBrier, GoodnessOfFitType::kAic, GoodnessOfFitType::kAuc, GoodnessOfFitType::kSic, GoodnessOfFitType::kFrequencyCost};
static const ScoringType SC[3] = {ScoringType::kAuc, ScoringType::kFrequencyCost, ScoringType::kBrier};
// records of one model: its metrics, its coefficients at their variables, within the conditions of the search
template <bool W> static void model(std::vector<int> exo, bool wEval, int in, int out, bool coef, int checks, bool missing) {
  vc_bounded(); const int nX = 3, k = exo.size(), cols = 1 + W + nX, N = vc_symbolic() ? 3 : 14; static double src[128], d[128]; bool We = W && wEval; int tables = (in & 16 || out & 2) ? (vc_symbolic() ? 1 : vc_int(1, 2)) : 0; Sys q(W, nX, tables); q.nw.IterationMax = 17; q.nw.UseLineSearch = !vc_symbolic(); if (!vc_symbolic()) q.nw.TolFunction = 1e-6;
  for (int i = 0; i < N * cols; i++) src[i] = vc_real(); for (int i = 0; i < N; i++) { if (!vc_symbolic()) src[i] = vc_int(0, 1); src[N * (1 + W) + i] = 1; if (W) src[N + i] = vc_posreal() + 0.0009765625; } if (missing) { int t = vc_symbolic() ? 1 : vc_int(1, 3); for (; t; t--) src[vc_symbolic() ? dim(0, cols - 1) * N + 1 : vc_int(0, N * cols - 1)] = NAN; }
  std::vector<int> use = {0}; if (W) use.push_back(1); for (int e : exo) use.push_back(e + W); int n = 0; std::vector<int> rows; for (int i = 0; i < N; i++) { bool ok = true; for (int c : use) if (std::isnan(src[i + N * c])) ok = false; if (ok) rows.push_back(i); } n = rows.size(); for (size_t c = 0; c < use.size(); c++) for (int a = 0; a < n; a++) d[a + n * c] = src[rows[a] + N * use[c]];
  for (int i = 0; i < 5; i++) if (in & 1 << i) q.met.MetricsIn.push_back(GF[i]); for (int i = 0; i < 3; i++) if (out & 1 << i) q.met.MetricsOut.push_back(SC[i]); int I = q.met.MetricsIn.size(), O = q.met.MetricsOut.size(); q.met.WeightedEval = wEval; q.met.SimFixSize = O ? 3 : 0; q.met.TrainFixSize = 0; q.met.TrainRatio = 0.5; q.chk.Estimation = coef || I || dim(0, 1); q.items.Length1 = coef ? nX : 0; q.chk.MinOutSim = O ? dim(1, 2) : 0; for (int e : exo) q.comb.Partitions.push_back({e}); q.met.Update(true, false);
  if (checks == 1) q.chk.MinObsCount = N; if (checks == 2) q.chk.MinDof = n - k + dim(0, 1); if (checks == 3) q.chk.MaxAic = vc_real(); if (checks == 4) q.chk.MaxSic = vc_real(); if (checks == 5) q.chk.MaxConditionNumber = vc_symbolic() ? 4 + vc_posreal() : 20 + vc_posreal(); q.chk.Update(q.met); q.items.Update(q.met, 1, 1, nX);
  G.n = n; G.k = k; G.c = use.size(); G.calls = G.probs = G.rocs = G.costs = G.sims = 0; G.W = W; G.We = We; G.useE = q.chk.Estimation; G.useS = O > 0; G.failE = G.failS = false; G.d = d; G.tables = &q.cs; G.o = &q.o; G.met = &q.met; G.chk = &q.chk;
  Mat S(src, N, cols); DiscreteChoiceSearcher<W, B_, L_> s(q.data, q.comb, q.opt, q.items, q.met, q.chk, k, S, 2, q.cs, 5, q.nw, q.o); std::vector<double> w(s.WorkSize + 2, 77.0); std::vector<int> wi(s.WorkSizeI + 2, 77); G.work = w.data(); G.size = s.WorkSize; G.worki = wi.data(); s.ColIndices = use; for (int i = 0; i < k; i++) s.CurrentIndices.Mat.Data[i] = exo[i];
#ifdef VC_NATIVE
  Mat Y(d, n, 1), X(d + n * (1 + W), n, k), Wm(d + n, n, 1), D(d, n, use.size()); DiscreteChoice<B_, L_> m(N, k, 2, false); DiscreteChoiceSim<W, B_, L_> u(N, use.size(), 2, 0.5, 0, std::max(tables, 1), true, true, false, nullptr, wEval); std::vector<double> ms(m.StorageSize), mw(m.WorkSize), us(u.StorageSize), uw(u.WorkSize); std::vector<int> ui(u.WorkSizeI); m.Optim.TolFunction = u.Optim.TolFunction = 1e-6; m.Optim.IterationMax = u.Optim.IterationMax = 17; u.Seed = 5; u.SimulationMax = 3; bool cancel = false;
  if (G.useE) { G.failE = vc_throws([&] { m.Calculate(Y, X, W ? &Wm : nullptr, ms.data(), mw.data(), 2, true); }); if (!G.failE) { G.aic = m.Aic; G.sic = m.Sic; G.cn = m.condition_number; for (int i = 0; i < k; i++) { G.b[i] = m.Beta.Data[i]; for (int j = 0; j < k; j++) G.v[i + k * j] = m.BetaVar.Get0(i, j); } static double P[64]; double wk[32]; Mat pr(P, n, 2); m.GetProbabilities(X, pr, wk); double b = 0, t = 0; for (int i = 0; i < n; i++) { double v = We ? Wm.Data[i] : 1; b += v * std::pow(Y.Data[i] - P[n + i], 2); t += v; } G.p[0] = b / t; double st[8]; if (We) { ROC<true, false> r(n); r.Calculate(Y, pr, &Wm, q.o); G.auc = r.Result; FrequencyCost<true> f(tables); f.Calculate(q.cs, Y, pr, &Wm, st); G.cost = f.AverageRatio; } else { ROC<false, false> r(n); r.Calculate(Y, pr, nullptr, q.o); G.auc = r.Result; FrequencyCost<false> f(tables); f.Calculate(q.cs, Y, pr, nullptr, st); G.cost = f.AverageRatio; } } }
  bool early = G.useE && ((checks == 1 && N > n) || (checks == 2 && q.chk.MinDof > n - k)); if (checks >= 3 && !G.failE) vc_assume(ab(G.aic - q.chk.MaxAic) > 1e-6 && ab(G.sic - q.chk.MaxSic) > 1e-6 && ab(G.cn - q.chk.MaxConditionNumber) > 1e-6 * G.cn);
#else
  G.failE = G.useE && dim(0, 1); G.failS = G.useS && dim(0, 1); G.aic = vc_real(); G.sic = vc_real(); G.cn = vc_real(); G.auc = vc_real(); G.cost = vc_real(); G.sauc = vc_real(); G.sbri = vc_real(); G.scost[0] = vc_real(); for (int i = 0; i < k; i++) G.b[i] = vc_real(); for (int i = 0; i < k * k; i++) G.v[i] = vc_real(); for (int i = 0; i < 2 * n; i++) G.p[i] = vc_real();
  bool early = G.useE && ((checks == 1 && N > n) || (checks == 2 && q.chk.MinDof > n - k));
#endif
  bool reject = G.useE && !early && !G.failE && ((checks == 3 && q.chk.MaxAic < G.aic) || (checks == 4 && q.chk.MaxSic < G.sic) || (checks == 5 && G.cn > q.chk.MaxConditionNumber)); bool runS = G.useS && !early && !G.failE && !reject;
#ifdef VC_NATIVE
  if (runS) { G.failS = vc_throws([&] { u.Calculate(D, &q.cs, us.data(), uw.data(), ui.data(), cancel, q.o, true, nullptr, 3 - q.chk.MinOutSim); }); G.sauc = u.Auc; G.sbri = u.BrierScore; for (int i = 0; i < tables; i++) G.scost[i] = u.CostRatios.Data[i]; }
#endif
  VMatrix<double> me(I + O, 1), mu(q.items.Length1, 1), va(q.items.Length1, 1); VMatrix<int> ex(1); for (int i = 0; i < I + O; i++) me.Mat.Data[i] = 77; for (int i = 0; i < q.items.Length1; i++) mu.Mat.Data[i] = va.Mat.Data[i] = 77;
  bool th = vc_throws([&] { s.EstimateOneReg(w.data(), wi.data(), me, mu, va, ex); }); ENSURE(w[G.size] == 77 && w[G.size + 1] == 77 && wi[wi.size() - 2] == 77 && wi.back() == 77); ENSURE(th == (early || (G.useE && G.failE) || reject || (runS && G.failS))); if (vc_symbolic()) ENSURE(G.calls == (G.useE && !early) && G.sims == runS); if (th) return;
  double br = 0, sw = 0; if (vc_symbolic()) { for (int i = 0; i < n; i++) { double v = We ? d[n + i] : 1, e = d[i] - G.p[n + i]; br += v * (e * e); sw += v; } br /= sw; } else br = G.p[0]; double sc = 0; for (int i = 0; i < tables; i++) sc += G.scost[i] / tables;
  auto same = [](double a, double b) { if (vc_symbolic() || !std::isnan(b)) return vc_same(a, b); return std::isnan(a); };
  for (int i = 0; i < I; i++) { auto g = q.met.MetricsIn[i]; ENSURE(same(me.Mat.Data[i], g == GoodnessOfFitType::kAic ? G.aic : g == GoodnessOfFitType::kSic ? G.sic : g == GoodnessOfFitType::kAuc ? G.auc : g == GoodnessOfFitType::kBrier ? br : G.cost)); }
  for (int i = 0; i < O; i++) { auto g = q.met.MetricsOut[i]; ENSURE(same(me.Mat.Data[I + i], g == ScoringType::kAuc ? G.sauc : g == ScoringType::kBrier ? G.sbri : sc)); }
  ENSURE(ex.Mat.Data[0] == (int)L_); for (int v = 0; v < q.items.Length1; v++) { int at = -1; for (int i = 0; i < k; i++) if (exo[i] == v + 1) at = i; if (at < 0) ENSURE(mu.Mat.Data[v] == 77 && va.Mat.Data[v] == 77); else ENSURE(vc_same(mu.Mat.Data[v], G.b[at]) && vc_same(va.Mat.Data[v], G.v[at * (k + 1)])); }
}
static void any(std::vector<int> exo, bool wEval, int in, int out, bool coef, int checks, bool missing) { if (dim(0, 1)) model<true>(exo, wEval, in, out, coef, checks, missing); else model<false>(exo, wEval, in, out, coef, checks, missing); }
HARNESS(choice_in) { int m = dim(0, 4); any({1}, dim(0, 1), 1 << m, 0, false, 0, false); }
HARNESS(choice_in_m) { int m = dim(0, 2); any({1}, dim(0, 1), m == 0 ? 31 : m == 1 ? 20 : 5, 0, false, 0, true); }
HARNESS(choice_coef) { int c = dim(0, 2); any(c == 0 ? std::vector<int>{1, 3} : c == 1 ? std::vector<int>{1, 2} : std::vector<int>{1}, true, 2, 0, true, 0, false); }
HARNESS(choice_out) { int m = dim(0, 3); any({1, 2}, dim(0, 1), 0, m == 3 ? 7 : 1 << m, false, 0, false); }
HARNESS(choice_both) { any({1, 3}, true, dim(0, 1) ? 17 : 6, dim(0, 1) ? 5 : 2, true, 0, false); }
HARNESS(choice_checks) { any({1, 2}, true, 2, dim(0, 1), false, dim(1, 5), false); }
HARNESS(choice_checks_m) { any({1}, true, 2, 0, false, dim(1, 2), true); }
#ifdef VC_NATIVE
// a whole search: exactly the announced models of the requested distributions, each with its own metrics
template <bool W, DiscreteChoiceDistType D> static void one(Sys &q, const double *src, int N, int nX, const std::vector<int> &exo, const std::vector<std::vector<std::shared_ptr<EstimationKeep>>> &got, int &bad) {
  int k = exo.size(), I = q.met.MetricsIn.size(), O = q.met.MetricsOut.size(), tables = q.cs.size(); std::vector<int> use = {0}, keep; if (W) use.push_back(1); for (int e : exo) use.push_back(e + W); for (int i = 0; i < N; i++) { bool ok = true; for (int c : use) ok = ok && !std::isnan(src[i + N * c]); if (ok) keep.push_back(i); } int n = keep.size(); std::vector<double> d; for (int c : use) for (int i : keep) d.push_back(src[i + N * c]);
  Mat A(d.data(), n, use.size()), Y(d.data(), n, 1), Wm(d.data() + n, n, 1), X(d.data() + n * (1 + W), n, k); bool We = W && q.met.WeightedEval, f = false, cancel = false; DiscreteChoice<B_, D> m(N, k, 2, false); DiscreteChoiceSim<W, B_, D> u(N, use.size(), 2, 0.6, 0, std::max(1, tables), true, true, false, nullptr, q.met.WeightedEval); std::vector<double> ms(m.StorageSize), mw(m.WorkSize), us(u.StorageSize), uw(u.WorkSize); std::vector<int> ui(u.WorkSizeI); u.Seed = q.met.Seed < 0 ? -q.met.Seed : 0; u.SimulationMax = 4; double br = 0, auc = 0, cost = 0;
  if (q.chk.Estimation) { f = vc_throws([&] { m.Calculate(Y, X, W ? &Wm : nullptr, ms.data(), mw.data(), 2, true); }) || n < q.chk.MinObsCount || n - k < q.chk.MinDof || m.Aic > q.chk.MaxAic; if (!f) { std::vector<double> p(2 * n), wk(n + 2), st(8); Mat P(p.data(), n, 2); m.GetProbabilities(X, P, wk.data()); double t = 0; for (int i = 0; i < n; i++) { double v = We ? Wm.Data[i] : 1; br += v * std::pow(Y.Data[i] - p[n + i], 2); t += v; } br /= t; if (We) { ROC<true, false> r(n); r.Calculate(Y, P, &Wm, q.o); auc = r.Result; FrequencyCost<true> c(tables); c.Calculate(q.cs, Y, P, &Wm, st.data()); cost = c.AverageRatio; } else { ROC<false, false> r(n); r.Calculate(Y, P, nullptr, q.o); auc = r.Result; FrequencyCost<false> c(tables); c.Calculate(q.cs, Y, P, nullptr, st.data()); cost = c.AverageRatio; } } }
  if (!f && O) f = vc_throws([&] { u.Calculate(A, &q.cs, us.data(), uw.data(), ui.data(), cancel, q.o, true, nullptr, 4 - q.chk.MinOutSim); });
  bool any = false; for (int i = 0; i < I + O; i++) { std::shared_ptr<EstimationKeep> r; int c = 0; for (auto &g : got[i]) if (g->Exogenouses == exo && g->Extra[0] == (int)D) { c++; r = g; } if (f) { ENSURE(c == 0); continue; } double v = 0; if (i < I) { auto g = q.met.MetricsIn[i]; v = g == GoodnessOfFitType::kAic ? m.Aic : g == GoodnessOfFitType::kSic ? m.Sic : g == GoodnessOfFitType::kAuc ? auc : g == GoodnessOfFitType::kBrier ? br : cost; } else { auto g = q.met.MetricsOut[i - I]; v = g == ScoringType::kAuc ? u.Auc : g == ScoringType::kBrier ? u.BrierScore : u.CostRatios.Mean(); } if (std::isnan(v)) { ENSURE(c == 0); continue; } any = true; ENSURE(c == 1 && vc_same(r->Metric, v) && r->Endogenous == std::vector<int>{0}); }
  if (!any) bad++;
}
template <bool W> static void search() {
  int N = vc_int(12, 18), nX = vc_int(1, 3), in = vc_int(0, 31), out = vc_bool() ? vc_int(0, 7) : 0; vc_assume(in + out > 0); int tables = (in & 16 || out & 2) ? vc_int(1, 2) : 0; Sys q(W, nX, tables); int cols = 1 + W + nX; std::vector<double> src(N * cols); for (double &v : src) v = vc_real(); for (int i = 0; i < N; i++) { src[i] = vc_int(0, 1); src[N * (1 + W) + i] = 1; if (W) src[N + i] = vc_posreal() + 0.25; } src[0] = 1; src[1] = 0; for (int i = vc_int(0, 3); i; i--) src[vc_int(2, N - 1) + N * vc_int(0, cols - 1)] = NAN;
  for (int i = 0; i < 5; i++) if (in & 1 << i) q.met.MetricsIn.push_back(GF[i]); for (int i = 0; i < 3; i++) if (out & 1 << i) q.met.MetricsOut.push_back(SC[i]); int I = q.met.MetricsIn.size(), O = q.met.MetricsOut.size(); q.met.WeightedEval = vc_bool(); q.met.SimFixSize = O ? 4 : 0; q.met.TrainFixSize = 0; q.met.TrainRatio = 0.6; q.met.Seed = -vc_int(1, 99); bool coef = vc_bool(); q.items.Length1 = coef ? nX : 0; q.chk.Estimation = coef || I || vc_bool(); q.chk.MinOutSim = O ? vc_int(1, 3) : 0; q.chk.MinObsCount = vc_bool() ? N - 1 : 0; q.chk.MinDof = vc_bool() ? N - 3 : 0; if (vc_bool()) q.chk.MaxAic = 15 + vc_posreal(); q.items.KeepAll = true;
  if (nX == 3 && vc_bool()) q.comb.Partitions = {{1}, {2, 3}}; else for (int i = 1; i <= nX; i++) q.comb.Partitions.push_back({i}); int P = q.comb.Partitions.size(); for (int s = 1; s <= P; s++) if (vc_bool()) q.comb.Sizes.push_back(s); q.comb.NumTargets = 1; bool logit = vc_bool(), probit = !logit || vc_bool(); vc_assume(q.comb.Sizes.size() > 0);
  Mat S(src.data(), N, cols); std::unique_ptr<DiscreteChoiceModelsetBase> ms(DiscreteChoiceModelsetBase::GetFromTypes(true, W, q.data, q.comb, q.opt, q.items, q.met, q.chk, S, q.cs, logit, probit, q.nw, q.o)); std::vector<double> w(ms->Modelset.WorkSize + 1, 77.0); std::vector<int> wi(ms->Modelset.WorkSizeI + 1, 77); ms->Start(w.data(), wi.data()); ENSURE(w.back() == 77 && wi.back() == 77);
  std::vector<std::vector<std::shared_ptr<EstimationKeep>>> got(I + O); for (auto s : ms->Searchers) for (int i = 0; i < I + O; i++) for (auto &e : s->Summaries0[i][0].All) got[i].push_back(e);
  int models = 0, bad = 0; for (int size : q.comb.Sizes) { std::vector<int> cur; std::function<void(int)> go = [&](int p) { if ((int)cur.size() == size) { if (logit) { models++; one<W, DiscreteChoiceDistType::kLogit>(q, src.data(), N, nX, cur, got, bad); } if (probit) { models++; one<W, DiscreteChoiceDistType::kProbit>(q, src.data(), N, nX, cur, got, bad); } return; } for (int z = p; z < P; z++) { if (cur.empty() && z) break; for (int v : q.comb.Partitions[z]) { cur.push_back(v); go(z + 1); cur.pop_back(); } } }; go(0); }
  int count = 0, fails = 0; for (auto s : ms->Searchers) { count += s->Counter; for (auto &f : s->States) fails += f.second; } ENSURE(count == models && fails == bad);
}
HARNESS(nat_choice_search) { if (vc_bool()) search<true>(); else search<false>(); }
#endif
