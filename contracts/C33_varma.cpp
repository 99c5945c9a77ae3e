#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_math/polynomials/polynomial.cpp"
#include "/repo/src/ldt_math/polynomials/mpolynomial.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher_reg.cpp"
#include "/repo/src/ldt_statistics/modeling/search/summary.cpp"
#include "/repo/src/ldt_statistics/modeling/search/modelset.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp"
#include "/repo/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp"
#include "/repo/src/ldt_math/derivative.cpp"
#include "/repo/src/ldt_math/optimization/lmbfgsb.cpp"
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
#endif
// searches over VARMA models
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
#include "rbtree.h"
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// what the chosen model must be given, and what its estimation, forecasts and simulation give back
static struct { int m, n, x, nx, hMax, sims, maxInv, calls, calledF, calledS, g; bool R, prev, lam, failE, failF, failS; double *y, *xs, cn, mult, lambda[3], *work; int size; double aic, sic, f[16], v[16], r[21]; } G;
static size_t text = 0;
#ifndef VC_NATIVE
static double *at[4]; static int len[4]; // storage of the estimation, the forecasts and the simulation
static bool apart(double *p, int n, int except) { if (p < G.work || p + n > G.work + G.size) return false; for (int i = 0; i < 3; i++) if (i != except && at[i] && p < at[i] + len[i] && at[i] < p + n) return false; return true; }
static void given(const Mat &d, const Mat *exo) { ENSURE(d.RowsCount == G.m && d.ColsCount == G.n); for (int i = 0; i < G.m * G.n; i++) ENSURE(d.Data[i] == G.y[i]); ENSURE((exo != nullptr) == (G.x > 0)); if (exo) { ENSURE(exo->RowsCount == G.x && exo->ColsCount == G.nx); for (int i = 0; i < G.x * G.nx; i++) ENSURE(exo->Data[i] == G.xs[i]); } }
static void dirty(double *w, int n) { for (int i = 0; i < n && i < 40; i++) w[i] = 33; }
REP size_t replace___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6lengthEv(const std::string *) { return text; }
REP void replace___ZN3ldt5Varma10EstimateMlERKNS_6MatrixIdEEPS3_PdS6_S5_S5_ibdd(Varma *m, const Mat &d, const Mat *exo, double *wk, double *st, const Mat *R, const Mat *r, int se, bool use, double mult, double cn) {
  given(d, exo); ENSURE((R != nullptr) == G.R && r == nullptr && se == 0 && !use && mult == G.mult && cn == G.cn); at[0] = st; len[0] = m->Result.StorageSize; ENSURE(apart(st, len[0], 0) && apart(wk, m->Result.WorkSize, -1)); dirty(wk, m->Result.WorkSize); G.calls++; if (G.failE) throw LdtException(ErrorType::kLogic, "x", "failed"); m->Result.Aic = G.aic; m->Result.Sic = G.sic; st[0] = 11; st[len[0] - 1] = 12;
}
REP void replace___ZN3ldt13VarmaForecast9CalculateERKNS_5VarmaEPKNS_6MatrixIdEES7_PdS8_ib(VarmaForecast *f, const Varma &m, const Mat *exo, const Mat *u, double *st, double *wk, int h, bool isnew) {
  ENSURE(u); given(*u, exo); ENSURE(m.Result.Aic == G.aic && h == G.hMax && !isnew && f->mDoVariance && h <= f->mHorizon); ENSURE(at[0][0] == 11 && at[0][len[0] - 1] == 12); at[1] = st; len[1] = f->StorageSize; ENSURE(apart(st, len[1], 1) && apart(wk, f->WorkSize, -1)); dirty(wk, f->WorkSize); G.calledF++; if (G.failF) throw LdtException(ErrorType::kLogic, "x", "failed");
  int A = f->StartIndex, n = G.m * (A + h); f->Forecast.SetData(st, G.m, A + h); f->Variance.SetData(st + n, G.m, A + h); for (int i = 0; i < n; i++) { int k = i - G.m * A; st[i] = k < 0 ? 55 : G.f[k]; st[n + i] = k < 0 ? 55 : G.v[k]; }
}
REP void replace___ZN3ldt15VarmaSimulation9CalculateEPdS1_RNS_6MatrixIdEERbPS3_PKS3_S8_bddbiPKSt6vectorIdSaIdEE(VarmaSimulation *s, double *st, double *wk, Mat &d, bool &cancel, Mat *exo, const Mat *R, const Mat *r, bool prev, double cn, double mult, bool unc, int maxInv, const std::vector<double> *lam) {
  given(d, exo); ENSURE(!cancel && (R != nullptr) == G.R && r == nullptr && prev == G.prev && cn == G.cn && mult == G.mult && !unc && maxInv == G.maxInv); ENSURE((lam != nullptr) == G.lam); if (lam) { ENSURE((int)lam->size() >= G.m); for (int j = 0; j < G.m; j++) ENSURE((*lam)[j] == G.lambda[j]); }
  at[2] = st; len[2] = s->StorageSize; ENSURE(apart(st, len[2], 2) && apart(wk, s->WorkSize, -1)); dirty(wk, s->WorkSize); G.calledS++; if (G.failS) throw LdtException(ErrorType::kLogic, "x", "failed"); int M = s->pMetrics->size(); for (int i = 0; i < M * G.m; i++) st[i] = G.r[i]; s->ResultAggs.SetData(st, M, G.m); s->ValidCounts = 1;
}
#endif
static const ScoringType SC[7] = {ScoringType::kCrps, ScoringType::kRmspe, ScoringType::kRmse, ScoringType::kMape, ScoringType::kMae, ScoringType::kSign, ScoringType::kDirection};
// records of one model: its metrics for its own targets and the forecasts of its targets
static void model(int T, std::vector<int> endo, bool exo, int q, int in, int out, int fore, bool bounds, bool lam, int check) {
  vc_bounded(); bool symbolic = vc_symbolic(); const int N = symbolic ? 5 : 16, C = N + 2, first = endo[0] == 0 ? 0 : 1; static double src[100], ys[64], xs[24]; int m = endo.size(), hMax = 2; // the second variable starts one period later
  for (int i = 0; i < 4; i++) for (int t = 0; t < C; t++) { double v = vc_real(); if (lam && !symbolic) v = 5 + (v < 0 ? -v : v); src[i + 4 * t] = i < 3 && (t >= N || (i == 1 && t == 0)) ? NAN : v; } int start = 0; for (int e : endo) if (e == 1) start = 1; (void)first;
  Mat S(src, 4, C); DatasetTs<true> D(4, C, true, true); D.Data(S); int n = N - start, nx = C - start; for (int t = 0; t < n; t++) for (int j = 0; j < m; j++) ys[j + m * t] = src[endo[j] + 4 * (t + start)]; for (int t = 0; t < nx; t++) xs[t] = src[3 + 4 * (t + start)];
  SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchModelChecks chk; SearchMetricOptions met; data.NumEndo = 3; data.NumExo = 1; data.HasWeight = false; comb.NumFixPartitions = 0; comb.NumFixItems = 0; items.LengthTargets = T; items.LengthEndogenous = 3; items.LengthExogenous = 1; items.KeepBestCount = 999; met.Seed = 7; for (int i = 0; i < 3; i++) comb.Partitions.push_back({i});
  if (in & 1) met.MetricsIn.push_back(GoodnessOfFitType::kSic); if (in & 2) met.MetricsIn.push_back(GoodnessOfFitType::kAic); for (int i = 0; i < 7; i++) if (out & 1 << i) met.MetricsOut.push_back(SC[i]); int I = met.MetricsIn.size(), O = met.MetricsOut.size(); met.SimFixSize = O ? 2 : 0; if (O) met.Horizons = {1, 2}; chk.Estimation = true; chk.Prediction = fore > 0; items.Length1 = fore == 2 ? hMax : 0; chk.MinOutSim = O ? 1 : 0; double lo[8], up[8];
  if (check == 1) chk.MinObsCount = n + dim(0, 1); if (check == 2) chk.MaxAic = vc_real(); if (check == 3) chk.MaxSic = vc_real(); if (check == 4) chk.MinDof = n - exo + dim(0, 1);
  if (bounds) { for (int i = 0; i < 2 * T; i++) { lo[i] = vc_real(); up[i] = vc_real(); if (!symbolic) { lo[i] -= 3; up[i] += 3; } } chk.PredictionLower = Mat(lo, 2, T); chk.PredictionUpper = Mat(up, 2, T); }
  met.Update(false, true); chk.Update(met); items.Update(met, T, 3, 1); if (lam) data.Lambdas = {0.5, 2, 1.5}; int p = q ? 0 : 1; VarmaSizes z(N, m, exo, p, 0, q, 0, 0, 0, 0, true); std::vector<int> ex; if (exo) ex.push_back(3); bool prev = dim(0, 1);
  G.m = m; G.n = n; G.x = exo; G.nx = nx; G.y = ys; G.xs = xs; G.hMax = hMax; G.cn = INFINITY; G.mult = 3; G.R = q && m > 1; G.prev = prev; G.lam = lam; for (int j = 0; j < m && lam; j++) G.lambda[j] = data.Lambdas[endo[j]]; G.maxInv = 1; G.calls = G.calledF = G.calledS = 0;
  VarmaSearcher s(data, comb, opt, items, met, chk, m, D, z, ex, nullptr, 3, prev, hMax); static double W[16384]; vc_assume(s.WorkSize <= 16380); W[s.WorkSize] = W[s.WorkSize + 1] = 77; G.work = W; G.size = s.WorkSize; for (int i = 0; i < m; i++) s.CurrentIndices.Mat.Data[i] = s.CurrentIndices.Vec[i] = endo[i];
#ifdef VC_NATIVE // the model on its own
  G.failE = G.failF = G.failS = false; Mat Y(ys, m, n), X(xs, 1, nx); VarmaRestriction rs(z, VarmaRestrictionType::kMaFinal); std::vector<double> rd(rs.StorageSize + 1); if (q) rs.Calculate(rd.data()); Mat *R = q && rs.IsRestricted ? &rs.R : nullptr; Varma e(z, true, true, true); VarmaForecast F(z, hMax, true); std::vector<double> es(e.Result.StorageSize), ew(std::max(e.Result.WorkSize, F.WorkSize)), fs(F.StorageSize);
  G.failE = vc_throws([&] { e.EstimateMl(Y, exo ? &X : nullptr, ew.data(), es.data(), R, nullptr, 0, false, 3, INFINITY); }); if (!G.failE) { G.aic = e.Result.Aic; G.sic = e.Result.Sic; if (fore) { G.failF = vc_throws([&] { F.Calculate(e, exo ? &X : nullptr, &Y, fs.data(), ew.data(), hMax, false); }); if (!G.failF) for (int i = 0; i < m * hMax; i++) { G.f[i] = F.Forecast.Data[m * F.StartIndex + i]; G.v[i] = F.Variance.Data[m * F.StartIndex + i]; } } }
  if (O) { VarmaSimulation u(z, 2, met.Horizons, met.MetricsOut, nullptr); std::vector<double> us(u.StorageSize), uw(u.WorkSize); bool cancel = false; std::vector<double> lm(G.lambda, G.lambda + m); G.failS = vc_throws([&] { u.Calculate(us.data(), uw.data(), Y, cancel, exo ? &X : nullptr, R, nullptr, prev, INFINITY, 3, false, 1, lam ? &lm : nullptr); }) || u.ValidCounts == 0; if (!G.failS) for (int i = 0; i < O * m; i++) G.r[i] = u.ResultAggs.Data[i]; }
#else
  at[0] = at[1] = at[2] = nullptr; int how = dim(0, 3); G.failE = how == 1; G.failF = fore && how == 2; G.failS = O && how == 3; G.aic = vc_real(); G.sic = vc_real(); for (int i = 0; i < m * hMax; i++) { G.f[i] = vc_real(); G.v[i] = vc_real(); } for (int i = 0; i < O * m; i++) G.r[i] = vc_real();
#endif
  std::vector<int> pos; for (int j = 0; j < m; j++) if (endo[j] < T) pos.push_back(j); int t = pos.size(); s.TargetsPositions.clear(); for (int j : pos) s.TargetsPositions.push_back(endo[j]);
  bool bad = G.failE || (check == 1 && chk.MinObsCount > n) || (check == 2 && G.aic > chk.MaxAic) || (check == 3 && G.sic > chk.MaxSic) || (check == 4 && chk.MinDof > n - exo), stop = bad; if (fore && !bad) { bad = G.failF; if (!bad) for (int i = 0; i < m * hMax; i++) if (G.f[i] != G.f[i]) bad = true; if (!bad && bounds && O) for (int j : pos) for (int h = 0; h < 2; h++) if (G.f[j + m * h] < lo[h + 2 * endo[j]] || G.f[j + m * h] > up[h + 2 * endo[j]]) bad = true; } bool stopF = bad; if (O && !bad) bad = G.failS;
  VMatrix<double> me(I + O, t), mu(items.Length1, t), va(items.Length1, t); VMatrix<int> xr(6); for (int i = 0; i < (I + O) * t; i++) me.Mat.Data[i] = 77; for (int i = 0; i < items.Length1 * t; i++) mu.Mat.Data[i] = va.Mat.Data[i] = 77; s.ColIndices = endo; for (int e : ex) s.ColIndices.push_back(e);
  bool th = vc_throws([&] { s.EstimateOneReg(W, nullptr, me, mu, va, xr); }); ENSURE(W[G.size] == 77 && W[G.size + 1] == 77); ENSURE(th == bad);
#ifndef VC_NATIVE
  ENSURE(G.calls <= 1 && (stop || (G.calls == 1 && G.calledF == (fore > 0))) && G.calledS == (O > 0 && !stopF));
#endif
  if (th) return; const int ps[6] = {p, 0, q, 0, 0, 0}; for (int i = 0; i < 6; i++) ENSURE(xr.Mat.Data[i] == ps[i]);
  for (int j = 0; j < t; j++) { for (int i = 0; i < I; i++) ENSURE(vc_same(me.Mat.Data[i + (I + O) * j], met.MetricsIn[i] == GoodnessOfFitType::kAic ? G.aic : G.sic)); for (int i = 0; i < O; i++) ENSURE(vc_same(me.Mat.Data[I + i + (I + O) * j], G.r[i + O * pos[j]])); for (int h = 0; h < items.Length1; h++) { ENSURE(vc_same(mu.Mat.Data[h + hMax * j], G.f[pos[j] + m * h])); ENSURE(vc_same(va.Mat.Data[h + hMax * j], G.v[pos[j] + m * h])); } }
}
static std::vector<int> vars(int c) { return c == 0 ? std::vector<int>{0} : c == 1 ? std::vector<int>{0, 1} : c == 2 ? std::vector<int>{1, 0} : c == 3 ? std::vector<int>{2, 1} : std::vector<int>{0, 2}; }
HARNESS(varma_in) { model(2, vars(dim(0, 3)), dim(0, 1), 0, dim(1, 3), 0, 0, false, false, 0); }
HARNESS(varma_forecast) { model(2, vars(dim(0, 4)), dim(0, 1), 0, 2, 0, dim(1, 2), false, false, 0); }
HARNESS(varma_bounds) { model(2, vars(dim(0, 1) ? 3 : 0), false, 0, 1, 16, 1, true, false, 0); }
HARNESS(varma_out) { model(2, vars(3), dim(0, 1), 0, dim(0, 1), 1 << dim(0, 6), 0, false, false, 0); }
HARNESS(varma_all) { model(2, vars(dim(0, 1) ? 2 : 4), true, 0, 3, 21, 2, false, false, 0); }
HARNESS(varma_ma) { model(2, vars(dim(0, 1)), false, 1, 1, 16, 0, false, false, 0); }
HARNESS(varma_lambda) { model(3, vars(dim(0, 4)), false, 0, 0, 4, 0, false, true, 0); }
HARNESS(varma_checks) { model(2, vars(0), dim(0, 1), 0, 3, 0, 0, false, false, dim(1, 4)); }
#ifdef VC_NATIVE
HARNESS(nat_varma) { int out = vc_bool() ? vc_int(1, 127) : 0; bool lam = vc_bool(); if (lam) out &= ~1; int in = vc_int(0, 3); if (!in && !out) in = 1; int fore = vc_int(0, 2); model(vc_int(2, 3), vars(vc_int(0, 4)), vc_bool(), vc_int(0, 1), in, out, fore, fore && vc_bool(), lam && out, vc_bool() ? vc_int(1, 4) : 0); }
#endif
#include "optim_native.h"
