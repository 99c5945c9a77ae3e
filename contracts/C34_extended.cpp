#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/scoring/frequency_cost.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/statistics/statistics.cpp"
#include "/repo/src/ldt_math/optimization/newton.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice.cpp"
#include "/repo/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp"
#include "/repo/src/ldt_statistics/scoring/roc.cpp"
#ifdef VC_NATIVE
#include "/repo/src/ldt_math/auc.cpp"
#include "/repo/src/helpers.cpp"
#endif
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
#define B_ DiscreteChoiceModelType::kBinary
#define L_ DiscreteChoiceDistType::kLogit
#define P_ DiscreteChoiceDistType::kProbit
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
static double ab(double x) { return x < 0 ? -x : x; }
struct Store { std::vector<double> s, w; Store(int a, int b) : s(a + 2, 77), w(b + 2, 77) {} void ok() { ENSURE(s[s.size() - 2] == 77 && s.back() == 77 && w[w.size() - 2] == 77 && w.back() == 77); } };
// what the estimated model and the area under its curve are given, and what they give back
static struct { int n, k, nf, calls, probs, rocs, seeds, splits, shuffles, N0, N1, cols; bool W, We, fail, sim; const double *y, *w, *x, *xf; double pf[32], pr[64], auc[4]; const RocOptions *o; double *s, *wk; int ss, ws; unsigned seed; double ratio; int fix; bool bad[4]; double S0[4][24], S1[4][24], P[4][8]; const Mat *data; } G;
static double cost_of(const double *c, int R, double p, int cls) { int r = 0; while (r < R - 1 && c[r] < p) r++; return c[r + R * (cls + 1)]; }
#ifndef VC_NATIVE
static bool inside(double *p, int n, double *b, int m) { return p >= b && p + n <= b + m; }
static void eq(const Mat &m, const double *d, int r, int c) { ENSURE(m.RowsCount == r && m.ColsCount == c); for (int i = 0; i < r * c; i++) ENSURE(m.Data[i] == d[i]); }
static void roc(RocBase *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(&o == G.o && (w != nullptr) == G.We); const double *Y = G.y, *W = G.w, *S = G.pr; int n = G.n; if (G.sim) { int t = G.shuffles - 1; n = G.N1; Y = G.S1[t]; W = G.S1[t] + n; S = G.P[t]; } ENSURE(y.length() == n && s.RowsCount == n && s.ColsCount == 2); for (int i = 0; i < n; i++) { ENSURE(y.Data[i] == Y[i]); ENSURE(s.Data[i + n] == S[i + n]); if (w) ENSURE(w->Data[i] == W[i]); } r->Result = G.auc[G.sim ? G.shuffles - 1 : 0]; G.rocs++; }
REP void replace___ZN3ldt3ROCILb0ELb0EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<false, false> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(!G.We && !o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb0ELb1EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<false, true> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(!G.We && o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb1ELb0EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<true, false> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(G.We && !o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt3ROCILb1ELb1EE9CalculateERKNS_6MatrixIdEES5_PS4_RKNS_10RocOptionsE(ROC<true, true> *r, const Mat &y, const Mat &s, const Mat *w, const RocOptions &o) { ENSURE(G.We && o.Costs.Data); roc(r, y, s, w, o); }
REP void replace___ZN3ldt14DiscreteChoiceILNS_23DiscreteChoiceModelTypeE0ELNS_22DiscreteChoiceDistTypeE0EE9CalculateERKNS_6MatrixIdEES7_PS6_PdS9_ib(DiscreteChoice<B_, L_> *m, const Mat &y, const Mat &x, const Mat *w, double *s, double *wk, int J, bool ols) { ENSURE(J == 2 && ols && (w != nullptr) == G.W); eq(y, G.y, G.n, 1); eq(x, G.x, G.n, G.k); if (w) eq(*w, G.w, G.n, 1); ENSURE(inside(s, m->StorageSize, G.s, G.ss) && inside(wk, m->WorkSize, G.wk, G.ws)); G.calls++; if (G.fail) throw LdtException(ErrorType::kLogic, "x", "failed"); }
REP void replace___ZN3ldt14DiscreteChoiceILNS_23DiscreteChoiceModelTypeE0ELNS_22DiscreteChoiceDistTypeE0EE16GetProbabilitiesERKNS_6MatrixIdEERS5_Pd(DiscreteChoice<B_, L_> *m, const Mat &x, Mat &r, double *wk) { bool f = G.nf && !G.probs; int n = f ? G.nf : G.n; ENSURE(G.calls == 1); eq(x, f ? G.xf : G.x, n, G.k); ENSURE(r.RowsCount == n && r.ColsCount == 2 && inside(r.Data, 2 * n, G.s, G.ss) && inside(wk, n, G.wk, G.ws)); for (int i = 0; i < 2 * n; i++) r.Data[i] = (f ? G.pf : G.pr)[i]; G.probs++; }
#endif
static void ext(int n, int k, bool W, bool wEval, bool check, bool details, int nf, int tables) {
  vc_bounded(); int c = 1 + W + k; double d[80], y[12], w[12], x[48], xf[12], ct[2][6]; bool out[12]; G.calls = G.probs = G.rocs = G.seeds = G.splits = G.shuffles = 0; G.sim = false;
  for (int i = 0; i < n; i++) { out[i] = false; d[i] = vc_symbolic() ? (tables ? dim(0, 1) : vc_real()) : vc_int(0, 1); if (W) d[n + i] = vc_posreal() + 0.0009765625; for (int j = 0; j < k; j++) d[n * (1 + W + j) + i] = j == 0 && !vc_symbolic() ? 1 : vc_real(); }
  if (check) { if (vc_symbolic()) { int i = dim(0, n), j = dim(0, c - 1); if (i < n) { d[i + n * j] = NAN; out[i] = true; } } else for (int t = vc_int(0, 3); t; t--) { int i = vc_int(0, n - 1); out[i] = true; d[i + n * vc_int(0, c - 1)] = NAN; } }
  int m = 0; for (int i = 0; i < n; i++) m += !out[i]; vc_assume(m > 0); for (int i = 0, a = 0; i < n; i++) if (!out[i]) { y[a] = d[i]; if (W) w[a] = d[n + i]; for (int j = 0; j < k; j++) x[a + m * j] = d[n * (1 + W + j) + i]; a++; }
  for (int i = 0; i < nf * k; i++) xf[i] = vc_real(); for (int t = 0; t < 2; t++) { ct[t][0] = 0.25 + 0.25 * t; ct[t][1] = 0.75; for (int i = 2; i < 6; i++) ct[t][i] = vc_posreal(); }
  std::vector<Mat> cs; for (int t = 0; t < tables; t++) cs.push_back(Mat(ct[t], 2, 3)); RocOptions o; o.NormalizePoints = false; bool We = W && wEval; G.n = m; G.k = k; G.nf = nf; G.W = W; G.We = We; G.y = y; G.w = w; G.x = x; G.xf = xf; G.o = &o;
  DiscreteChoiceExtended e(B_, L_, n + dim(0, 1), c, W, check, 2, details, nf, nullptr, tables ? &cs : nullptr, wEval); Store t(e.StorageSize, e.WorkSize); G.s = t.s.data(); G.ss = e.StorageSize; G.wk = t.w.data(); G.ws = e.WorkSize; Mat D(d, n, c), X(x, m, k), Y(y, m, 1), Wm(w, m, 1), F(xf, nf, k);
#ifdef VC_NATIVE
  DiscreteChoice<B_, L_> z(m, k, 2, details); Store u(z.StorageSize, z.WorkSize); G.fail = vc_throws([&] { z.Calculate(Y, X, W ? &Wm : nullptr, u.s.data(), u.w.data(), 2, true); }); if (!G.fail) { Mat pf(G.pf, nf, 2), pr(G.pr, m, 2); double wk[16]; if (nf) z.GetProbabilities(F, pf, wk); z.GetProbabilities(X, pr, wk); if (We) { ROC<true, false> r(m); r.Calculate(Y, pr, &Wm, o); G.auc[0] = r.Result; } else { ROC<false, false> r(m); r.Calculate(Y, pr, nullptr, o); G.auc[0] = r.Result; } for (int i = 0; i < z.Beta.length(); i++) vc_assume(ab(z.Beta.Data[i]) < 8); for (int i = 0; i < 2 * m; i++) for (double q : {0.25, 0.5, 0.75}) vc_assume(ab(G.pr[i] - q) > 1e-6); }
#else
  G.fail = dim(0, 1); for (int i = 0; i < 2 * nf; i++) G.pf[i] = vc_real(); for (int i = 0; i < 2 * m; i++) G.pr[i] = vc_real(); G.auc[0] = vc_real();
#endif
  bool th = vc_throws([&] { e.Calculate(D, t.s.data(), t.w.data(), true, nf ? &F : nullptr, o); }); t.ok(); ENSURE(th == G.fail); if (th) return;
  ENSURE(e.Y.length() == m && e.X.RowsCount == m && e.X.ColsCount == k); for (int i = 0; i < m; i++) ENSURE(e.Y.Data[i] == y[i]);
  if (nf) { ENSURE(e.PredProbs.RowsCount == nf && e.PredProbs.ColsCount == 2); for (int i = 0; i < 2 * nf; i++) ENSURE(vc_same(e.PredProbs.Data[i], G.pf[i])); }
  if (!details) return; ENSURE(e.Projections.RowsCount == m && e.Projections.ColsCount == 2); for (int i = 0; i < 2 * m; i++) ENSURE(vc_same(e.Projections.Data[i], G.pr[i]));
  double b = 0, s = 0; for (int i = 0; i < m; i++) { double v = We ? w[i] : 1, q = y[i] - G.pr[i + m]; b += v * (q * q); s += v; } ENSURE(vc_same(e.BrierScore, b / s)); ENSURE(vc_same(e.Auc, G.auc[0]));
  if (tables) { double av = 0; for (int q = 0; q < tables; q++) { double a = 0, N = 0; for (int i = 0; i < m; i++) { double v = We ? w[i] : 1; a += v * cost_of(ct[q], 2, G.pr[i + m * (int)y[i]], (int)y[i]); N += v; } av += a / N / tables; } ENSURE(vc_same(e.CostRatioAvg, av)); }
}
HARNESS(extended) { if (vc_symbolic()) ext(2, 1, dim(0, 1), dim(0, 1), dim(0, 1), true, dim(0, 1), 0); else { int k = vc_int(1, 3); ext(vc_int(5, 11), k, vc_bool(), vc_bool(), vc_bool(), true, vc_int(0, 3), 0); } }
HARNESS(extended_cost) { if (vc_symbolic()) ext(2, 1, dim(0, 1), dim(0, 1), true, true, 0, 1); else { int k = vc_int(1, 3); ext(vc_int(5, 11), k, vc_bool(), vc_bool(), vc_bool(), true, vc_int(0, 3), vc_int(1, 2)); } }
HARNESS(extended_costs) { if (vc_symbolic()) ext(1, 2, false, true, false, true, 1, 2); else ext(vc_int(5, 11), 2, vc_bool(), vc_bool(), vc_bool(), true, vc_int(0, 3), 2); }
HARNESS(extended_plain) { if (vc_symbolic()) ext(3, dim(1, 2), dim(0, 1), true, true, false, dim(0, 1) * 2, 0); else { int k = vc_int(1, 3); ext(vc_int(5, 11), k, vc_bool(), vc_bool(), vc_bool(), false, vc_int(0, 3), 0); } }
