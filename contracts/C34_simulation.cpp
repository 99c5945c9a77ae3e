#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/scoring/frequency_cost.cpp"
#include "/repo/src/ldt_statistics/data_split.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_math/optimization/newton.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp"
#include "/repo/src/ldt_statistics/scoring/roc.cpp"
#ifdef VC_NATIVE
#include "/repo/src/ldt_math/auc.cpp"
#include "/repo/src/helpers.cpp"
#endif
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
#define B_ DiscreteChoiceModelType::kBinary
#define L_ DiscreteChoiceDistType::kLogit
#define P_ DiscreteChoiceDistType::kProbit
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double ab(double x) { return x < 0 ? -x : x; }
struct Store { std::vector<double> s, w; Store(int a, int b) : s(a + 2, 77), w(b + 2, 77) {} void ok() { ENSURE(s[s.size() - 2] == 77 && s.back() == 77 && w[w.size() - 2] == 77 && w.back() == 77); } };
// what the estimated model and the area under its curve are given, and what they give back
static struct { int n, k, nf, calls, probs, rocs, seeds, splits, shuffles, N0, N1, cols; bool W, We, fail, sim; const double *y, *w, *x, *xf; double pf[32], pr[64], auc[4]; const RocOptions *o; double *s, *wk; int ss, ws; unsigned seed; double ratio; int fix; bool bad[4]; double S0[4][24], S1[4][24], P[4][8]; const Mat *data; } G;
static double cost_of(const double *c, int R, double p, int cls) { int r = 0; while (r < R - 1 && c[r] < p) r++; return c[r + R * (cls + 1)]; }
#ifndef VC_NATIVE
static bool inside(double *p, int n, double *b, int m) { return p >= b && p + n <= b + m; }
static void eq(const Mat &m, const double *d, int r, int c) { ENSURE(m.RowsCount == r && m.ColsCount == c); for (int i = 0; i < r * c; i++) ENSURE(m.Data[i] == d[i]); }
static void roc(RocBase *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(&o == G.o && (w != nullptr) == G.We); const double *Y = G.y, *W = G.w, *S = G.pr; int n = G.n; if (G.sim) { int t = G.shuffles - 1; n = G.N1; Y = G.S1[t]; W = G.S1[t] + n; S = G.P[t]; } ENSURE(y.length() == n && s.RowsCount == n && s.ColsCount == 2); for (int i = 0; i < n; i++) { ENSURE(y.Data[i] == Y[i]); ENSURE(s.Data[i + n] == S[i + n]); if (w) ENSURE(w->Data[i] == W[i]); } r->Result = G.auc[G.sim ? G.shuffles - 1 : 0]; G.rocs++; }
REP void replace___ZN3ldt3ROCILb0ELb0EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<false, false> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(!G.We && !o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb0ELb1EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<false, true> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(!G.We && o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb1ELb0EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<true, false> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(G.We && !o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb1ELb1EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<true, true> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(G.We && o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZNSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE4seedEm(std::mt19937 *, unsigned long s) { if (s != 5489) { ENSURE(s == G.seed); G.seeds++; } }
REP void replace___ZN3ldt17DataSplitDiscrete9CalculateERKNS_6MatrixIdEEPddi(DataSplitDiscrete *d, const Mat &m, double *s, double ratio, int fix) { ENSURE(&m == G.data && ratio == G.ratio && fix == G.fix && inside(s, (G.N0 + G.N1) * G.cols, G.wk, G.ws)); d->Sample0.SetData(s, G.N0, G.cols); d->Sample1.SetData(s + G.N0 * G.cols, G.N1, G.cols); G.splits++; }
REP void replace___ZN3ldt17DataSplitDiscrete7ShuffleERKNS_6MatrixIdEEPiRSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EE(DataSplitDiscrete *d, const Mat &m, int *, std::mt19937 &) { ENSURE(&m == G.data); int t = G.shuffles++; ENSURE(t < 4); for (int i = 0; i < G.N0 * G.cols; i++) d->Sample0.Data[i] = G.S0[t][i]; for (int i = 0; i < G.N1 * G.cols; i++) d->Sample1.Data[i] = G.S1[t][i]; }
#endif
#ifndef VC_NATIVE
REP void replace___ZN3ldt22DiscreteChoiceExtended9CalculateERKNS_6MatrixIdEEPdS5_bPS3_RNS_10RocOptionsE(DiscreteChoiceExtended *e, const Mat &d, double *s, double *wk, bool ols, const Mat *f, RocOptions &o) {
  int t = G.shuffles - 1, p = 1 + G.W; ENSURE(ols && &o == G.o && f != nullptr && G.splits == 1 && G.seeds == 1); eq(d, G.S0[t], G.N0, G.cols); eq(*f, G.S1[t] + p * G.N1, G.N1, G.cols - p); ENSURE(inside(s, e->StorageSize, G.wk, G.ws) && inside(wk, e->WorkSize, G.wk, G.ws)); G.calls++; if (G.bad[t]) throw LdtException(ErrorType::kLogic, "x", "failed"); ENSURE(e->mNumChoices == 2 && e->mHasWeight == G.W && e->Model->Optim.IterationMax == 17 && !e->Model->Optim.UseLineSearch); e->PredProbs.SetData(G.P[t], G.N1, 2); }
#endif
// out-of-sample evaluation: averages of the evaluations of the valid simulations
template <bool W> static void sim(int N, int k, int S, bool wEval, bool fixed, int tables, bool brier, bool auc, bool table, int extra) {
  vc_bounded(); int c = 1 + W + k; double d[200], ct[2][6]; bool We = W && wEval; for (int i = 0; i < N * c; i++) d[i] = vc_real(); for (int i = 0; i < N; i++) { if (!vc_symbolic()) d[i] = vc_int(0, 1); if (W) d[N + i] = vc_posreal() + 0.0009765625; if (!vc_symbolic()) d[N * (1 + W) + i] = 1; }
  for (int t = 0; t < 2; t++) { ct[t][0] = 0.25 + 0.25 * t; ct[t][1] = 0.75; for (int i = 2; i < 6; i++) ct[t][i] = vc_posreal(); } std::vector<Mat> cs; for (int t = 0; t < tables; t++) cs.push_back(Mat(ct[t], 2, 3));
  RocOptions o; o.NormalizePoints = false; double ratio = vc_symbolic() ? 0.5 : 0.7; int fix = fixed ? (vc_symbolic() ? 2 : N - 4) : 0, N0 = fixed ? fix : (int)std::round(N * ratio), N1 = N - N0; Mat D(d, N, c); int maxinv = vc_symbolic() ? 1 : vc_int(0, 3);
  G.calls = G.probs = G.rocs = G.seeds = G.splits = G.shuffles = 0; G.sim = true; G.W = W; G.We = We; G.N0 = N0; G.N1 = N1; G.cols = c; G.o = &o; G.seed = 7; G.ratio = ratio; G.fix = fix; G.data = &D;
  DiscreteChoiceSim<W, B_, L_> m(N + extra, c, 2, ratio, fix, tables, brier, auc, table, nullptr, wEval); m.Seed = vc_symbolic() ? 7 : vc_int(1, 999); m.SimulationMax = S; m.Optim.IterationMax = 17; m.Optim.UseLineSearch = vc_symbolic() ? false : true; Store t(m.StorageSize, m.WorkSize); G.wk = t.w.data(); G.ws = m.WorkSize; std::vector<int> wi(m.WorkSizeI + 1, 77); bool cancel = false;
  std::vector<std::vector<double>> P(S), Y(S), V(S); int valid = 0; bool stop = false, skip = false;
#ifdef VC_NATIVE
  { DataSplitDiscrete sp(N, c, 2); std::vector<double> w(sp.StorageSize); std::vector<int> wz(N); std::mt19937 e(m.Seed); stop = vc_throws([&] { sp.Calculate(D, w.data(), ratio, fix); for (int s = 0; s < S; s++) { sp.Shuffle(D, wz.data(), e); DiscreteChoiceExtended x(B_, L_, N0, c, W, false, 2, false, N1, nullptr, nullptr); x.Model->Optim.IterationMax = 17; Store u(x.StorageSize, x.WorkSize); Mat F(&sp.Sample1.Data[(1 + W) * N1], N1, k); if (vc_throws([&] { x.Calculate(sp.Sample0, u.s.data(), u.w.data(), true, &F, o); })) continue; valid++; P[s].assign(x.PredProbs.Data, x.PredProbs.Data + 2 * N1); Y[s].assign(sp.Sample1.Data, sp.Sample1.Data + N1); V[s].assign(sp.Sample1.Data + W * N1, sp.Sample1.Data + (1 + W) * N1); for (double p : P[s]) { skip = skip || std::isnan(p) || (ab(p * 10 - std::round(p * 10)) < 1e-6 && p > 1e-9 && p < 1 - 1e-9); for (double q : {0.25, 0.5, 0.75}) skip = skip || ab(p - q) < 1e-6; } } }); vc_assume(!skip); }
#else
  for (int s = 0; s < S; s++) { G.bad[s] = dim(0, 1); valid += !G.bad[s]; for (int i = 0; i < N0 * c; i++) G.S0[s][i] = vc_real(); for (int i = 0; i < N1 * c; i++) G.S1[s][i] = vc_real(); for (int i = 0; i < N1; i++) { if (tables || table) G.S1[s][i] = table ? i : dim(0, 1); if (W) G.S1[s][N1 + i] = vc_posreal() + 0.0009765625; } for (int i = 0; i < 2 * N1; i++) G.P[s][i] = table ? (i == 0 || i == 3 ? dim(0, 4) * 0.25 + (dim(0, 1) ? 0.0625 : 0) : 0.5) : vc_real(); G.auc[s] = vc_real(); if (G.bad[s]) continue; P[s] = std::vector<double>(G.P[s], G.P[s] + 2 * N1); Y[s] = std::vector<double>(G.S1[s], G.S1[s] + N1); V[s] = std::vector<double>(G.S1[s] + W * N1, G.S1[s] + (1 + W) * N1); }
#endif
  bool th = vc_throws([&] { m.Calculate(D, tables ? &cs : nullptr, t.s.data(), t.w.data(), wi.data(), cancel, o, true, nullptr, maxinv); }); t.ok(); ENSURE(wi.back() == 77); ENSURE(th == (stop || valid == 0 || S - valid > maxinv)); if (th) return; ENSURE(m.ValidSimulationCount == valid && m.N1 == N1 && m.SimulationCounter == S);
  double B = 0, A = 0, C[2] = {0, 0}, T[2] = {0, 0}, H[20]; for (double &h : H) h = 0;
  for (int s = 0; s < S; s++) { if (P[s].empty()) continue; double b = 0, q = 0; for (int i = 0; i < N1; i++) { double v = We ? V[s][i] : 1, p = P[s][i + N1], e = Y[s][i] - p; b += v * (e * e); q += v; if (tables || table) { int y = Y[s][i]; double a = P[s][i + N1 * y]; for (int z = 0; z < tables; z++) { C[z] += v * cost_of(ct[z], 2, a, y); T[z] += v; } if (table) { int r = 0; while (r < 9 && a * 10 >= r + 1) r++; H[r + 10 * y] += v; } } } B += b / q;
#ifdef VC_NATIVE
    if (auc) { Mat y(Y[s].data(), N1, 1), p(P[s].data(), N1, 2), w(V[s].data(), N1, 1); if (We) { ROC<true, false> r(N1); r.Calculate(y, p, &w, o); A += r.Result; } else { ROC<false, false> r(N1); r.Calculate(y, p, nullptr, o); A += r.Result; } }
#else
    A += G.auc[s];
#endif
  }
  if (brier) ENSURE(vc_same(m.BrierScore, B / valid)); if (auc && (vc_symbolic() || !std::isnan(A))) ENSURE(vc_same(m.Auc, A / valid)); for (int z = 0; z < tables; z++) ENSURE(vc_same(m.CostRatios.Data[z], C[z] / T[z])); if (table && W == We) for (int i = 0; i < 20; i++) ENSURE(vc_same(m.FrequencyTable.Data[i], H[i]));
}
static void nat_sim(int tables, bool brier, bool auc, bool table) { int N = vc_int(9, 14), k = vc_int(1, 2), S = vc_int(1, 4), e = vc_int(0, 3); bool we = vc_bool(), f = vc_bool(); if (vc_bool()) sim<true>(N, k, S, we, f, tables, brier, auc, table, e); else sim<false>(N, k, S, we, f, tables, brier, auc, table, e); }
HARNESS(sim_brier) { if (!vc_symbolic()) { nat_sim(0, true, false, false); return; } sim<false>(4, 1, dim(1, 2), false, dim(0, 1), 0, true, false, false, 2 * dim(0, 1)); }
HARNESS(sim_brier_w) { if (!vc_symbolic()) { nat_sim(0, true, true, false); return; } sim<true>(4, 1, dim(1, 2), dim(0, 1), dim(0, 1), 0, true, true, false, 0); }
HARNESS(sim_auc) { if (!vc_symbolic()) { nat_sim(0, false, true, false); return; } sim<false>(4, 2, dim(2, 3), true, false, 0, false, true, false, 2 * dim(0, 1)); }
HARNESS(sim_cost) { if (!vc_symbolic()) { nat_sim(vc_int(1, 2), vc_bool(), vc_bool(), vc_bool()); return; } sim<false>(4, 1, 1, false, false, 1, false, false, false, 0); }
HARNESS(sim_cost_w) { if (!vc_symbolic()) { nat_sim(vc_int(1, 2), vc_bool(), vc_bool(), vc_bool()); return; } sim<true>(3, 1, 2, dim(0, 1), true, 1, false, false, false, 0); }
HARNESS(sim_table) { if (!vc_symbolic()) { nat_sim(0, false, false, true); return; } sim<false>(4, 1, 1, false, true, 0, false, false, true, 0); }
