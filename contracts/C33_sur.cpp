#define LAPACK_NORM_UNUSED
#include "mat.h"
#include "solvers.h"
#include "/repo/src/matrix/vmatrix.cpp"
#include "/repo/src/matrix/dataset.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher.cpp"
#include "/repo/src/ldt_statistics/modeling/search/searcher_reg.cpp"
#include "/repo/src/ldt_statistics/modeling/search/summary.cpp"
#include "/repo/src/ldt_statistics/modeling/search/modelset.cpp"
#include "/repo/src/ldt_statistics/scoring/scoring.cpp"
#include "/repo/src/ldt_statistics/distributions/distributions_uni.cpp"
#include "/repo/src/ldt_statistics/data_split.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur_projection.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur_extended.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur_simulation.cpp"
#include "/repo/src/ldt_statistics/modeling/linear/sur_modelset.cpp"
#ifndef REP
#define REP extern "C" NOINLINE __attribute__((used))
#endif
#include "rbtree.h"
static int dim(int lo, int hi) { return vc_pin(vc_int(lo, hi), lo, hi); }
// what the chosen model must be given, and what its estimation and simulation give back
static struct { double *data; int N, m, k; const SearchModelChecks *checks; SearchMetricOptions *met; unsigned seed; bool lam; double lambda[3], maxcn; int it; double prob; double *work; int size; bool useE, useS, failE, failS; int calls, sims; double aic, sic, b[9], s[9], r[18]; } G;
static size_t text = 0;
#ifndef VC_NATIVE
static double est[64]; static const double *simStorage, *simWork; static double *estStorage; static int estSize;
static bool inside(double *p, int n) { return p >= G.work && p + n <= G.work + G.size; }
static void given(const Mat &d) { ENSURE(d.RowsCount == G.N && d.ColsCount == G.m + G.k); for (int i = 0; i < G.N * (G.m + G.k); i++) ENSURE(d.Data[i] == G.data[i]); }
REP size_t replace___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE6lengthEv(const std::string *) { return text; }
REP void replace___ZN3ldt11SurExtended9CalculateERKNS_6MatrixIdEEiPdS5_PS2_dPS3_PKNS_17SearchModelChecksE(SurExtended *e, const Mat &d, int m, double *st, double *wk, Mat *R, double prob, const Mat *nx, const SearchModelChecks *c) {
  given(d); ENSURE(m == G.m && nx == nullptr && c == G.checks && prob == G.prob && (R != nullptr) == (G.it > 0)); ENSURE(inside(st, e->StorageSize) && inside(wk, e->WorkSize) && wk >= st + e->StorageSize); estStorage = st; estSize = e->StorageSize; G.calls++; if (G.failE) throw LdtException(ErrorType::kLogic, "x", "failed");
  for (int i = 0; i < m * G.k; i++) { st[i] = G.b[i]; st[m * G.k + i] = G.s[i]; } e->Model.Aic = G.aic; e->Model.Sic = G.sic; e->Model.beta.SetData(st, G.k, m); e->Model.e_beta_std.SetData(st + m * G.k, G.k, m);
}
REP void replace___ZN3ldt13SurSimulation9CalculateERNS_6MatrixIdEEiPdS4_PS2_RbijddiPKSt6vectorIdSaIdEE(SurSimulation *e, Mat &d, int m, double *st, double *wk, Mat *R, bool &cancel, int it, unsigned seed, double prob, double maxcn, int maxinv, const std::vector<double> *lam) {
  given(d); ENSURE(m == G.m && !cancel && it == G.met->SimFixSize && seed == G.seed && prob == G.prob && (R != nullptr) == (G.it > 0)); ENSURE(maxcn == G.maxcn && maxinv == it - G.checks->MinOutSim); ENSURE((lam != nullptr) == G.lam); if (lam) { ENSURE((int)lam->size() >= m); for (int j = 0; j < m; j++) ENSURE((*lam)[j] == G.lambda[j]); }
  ENSURE(inside(st, e->StorageSize) && inside(wk, e->WorkSize) && wk >= st + e->StorageSize); if (G.useE) ENSURE(st >= estStorage + estSize); G.sims++; if (G.failS) throw LdtException(ErrorType::kLogic, "x", "failed"); int M = G.met->MetricsOut.size(); for (int i = 0; i < M * m; i++) st[i] = G.r[i]; e->Results = Mat(st, M, m);
}
#endif
struct Sys {
  int T, N; double src[160]; Mat S; SearchData data; SearchCombinations comb; SearchOptions opt; SearchItems items; SearchModelChecks chk; SearchMetricOptions met; std::vector<int> endo, exo;
  int nEndo, nExo;
  Sys(int N, int T, int nEndo, int nExo) : T(T), N(N), S(src, N, nEndo + nExo), nEndo(nEndo), nExo(nExo) { data.NumEndo = nEndo; data.NumExo = nExo; data.HasWeight = false; comb.NumFixPartitions = 0; comb.NumFixItems = 0; items.LengthTargets = T; items.LengthEndogenous = nEndo; items.LengthExogenous = nExo; items.KeepBestCount = 999; met.Seed = 7; }
};
static void update(Sys &q) { q.met.Update(true, false); q.chk.Update(q.met); q.items.Update(q.met, q.T, q.nEndo, q.nExo); }
// records of one model: its metrics for its own targets, its coefficients at their variables
static void model(int T, std::vector<int> endo, std::vector<int> exo, int in, int out, bool coef, bool lam, int it) {
  vc_bounded(); const int N = vc_symbolic() ? 2 : 12; static double src[64]; Sys q(N, T, 3, 2); int m = endo.size(), k = exo.size(); static double cols[64];
  for (int i = 0; i < N * 5; i++) { double v = vc_real(); q.src[i] = lam && !vc_symbolic() && i < N * 3 ? 10 + (v < 0 ? -v : v) : v; } for (int j = 0; j < m + k; j++) for (int i = 0; i < N; i++) cols[i + N * j] = q.src[i + N * (j < m ? endo[j] : exo[j - m])];
  if (in & 1) q.met.MetricsIn.push_back(GoodnessOfFitType::kSic); if (in & 2) q.met.MetricsIn.push_back(GoodnessOfFitType::kAic); ScoringType sc[6] = {ScoringType::kCrps, ScoringType::kRmspe, ScoringType::kRmse, ScoringType::kMape, ScoringType::kMae, ScoringType::kSign}; for (int i = 0; i < 6; i++) if (out & 1 << i) q.met.MetricsOut.push_back(sc[i]);
  int I = q.met.MetricsIn.size(), O = q.met.MetricsOut.size(); q.met.SimFixSize = O ? 3 : 0; q.met.TrainFixSize = vc_symbolic() ? 1 : 8; q.chk.Estimation = coef || dim(0, 1); q.items.Length1 = coef ? 2 : 0; q.chk.MinOutSim = O ? 2 : 0; update(q); for (auto e : exo) q.comb.Partitions.push_back({e});
  if (lam) q.data.Lambdas = {0.5, 2, 1.5};
  G.data = cols; G.N = N; G.m = m; G.k = k; G.checks = &q.chk; G.met = &q.met; G.seed = 5; G.lam = lam; for (int j = 0; j < m && lam; j++) G.lambda[j] = q.data.Lambdas[endo[j]]; G.maxcn = INFINITY; G.it = it; G.prob = it ? 0.75 : 0; G.useE = q.chk.Estimation; G.useS = O > 0; G.calls = G.sims = 0;
  if (I + O == 0) { ENSURE(vc_throws([&] { SurSearcher z(q.data, q.comb, q.opt, q.items, q.met, q.chk, k, endo, q.S, it, G.prob, 5); })); return; }
  SurSearcher s(q.data, q.comb, q.opt, q.items, q.met, q.chk, k, endo, q.S, it, G.prob, 5); std::vector<double> w(s.WorkSize + 2, 77.0); G.work = w.data(); G.size = s.WorkSize; for (int i = 0; i < k; i++) s.CurrentIndices.Mat.Data[i] = exo[i];
#ifdef VC_NATIVE // the model on its own
  G.failE = G.failS = false; Mat C(cols, N, m + k); std::vector<double> rd(m * m * k * k); Mat R(rd.data(), m * k, m * k); SurExtended e(N, m, k, it > 0, false, true, 0, it, false, nullptr, nullptr); SurSimulation u(N, m, k, q.met.TrainRatio, q.met.TrainFixSize, q.met.MetricsOut, it > 0, it, nullptr, nullptr); std::vector<double> es(e.StorageSize), ew(e.WorkSize), us(u.StorageSize), uw(u.WorkSize); std::vector<double> lm(G.lambda, G.lambda + m); bool cancel = false;
  if (G.useE) { G.failE = vc_throws([&] { e.Calculate(C, m, es.data(), ew.data(), it ? &R : nullptr, G.prob, nullptr, nullptr); }); if (!G.failE) { G.aic = e.Model.Aic; G.sic = e.Model.Sic; for (int i = 0; i < m * k; i++) { G.b[i] = e.Model.beta.Data[i]; G.s[i] = e.Model.e_beta_std.Data[i]; } } }
  if (G.useS) { G.failS = vc_throws([&] { u.Calculate(C, m, us.data(), uw.data(), it ? &R : nullptr, cancel, 3, 5, G.prob, INFINITY, 1, lam ? &lm : nullptr); }); if (!G.failS) for (int i = 0; i < O * m; i++) G.r[i] = u.Results.Data[i]; }
  G.calls = G.useE; G.sims = G.useS && !G.failE;
#else
  G.failE = G.useE && dim(0, 1); G.failS = G.useS && !G.failE && dim(0, 1); G.aic = vc_real(); G.sic = vc_real(); for (int i = 0; i < m * k; i++) { G.b[i] = vc_real(); G.s[i] = vc_real(); } for (int i = 0; i < O * m; i++) G.r[i] = vc_real();
#endif
  VMatrix<double> me(I + O, 2), mu(2, 2), va(2, 2); VMatrix<int> ex(0); int t = 0; for (int e : endo) t += e < T; me = VMatrix<double>(I + O, t); mu = VMatrix<double>(q.items.Length1, t); va = VMatrix<double>(q.items.Length1, t); for (int i = 0; i < (I + O) * t; i++) me.Mat.Data[i] = 77; for (int i = 0; i < q.items.Length1 * t; i++) mu.Mat.Data[i] = va.Mat.Data[i] = 77;
  s.ColIndices = endo; for (int e : exo) s.ColIndices.push_back(e);
  bool th = vc_throws([&] { s.EstimateOneReg(w.data(), nullptr, me, mu, va, ex); }); ENSURE(w[G.size] == 77 && w[G.size + 1] == 77); ENSURE(th == (G.failE || G.failS)); ENSURE(G.calls == G.useE && G.sims == (G.useS && !G.failE)); if (th) return;
  std::vector<int> pos; for (int j = 0; j < m; j++) if (endo[j] < T) pos.push_back(j); // where the targets are among the variables of the model
  for (int j = 0; j < t; j++) { for (int i = 0; i < I; i++) ENSURE(vc_same(me.Mat.Data[i + (I + O) * j], q.met.MetricsIn[i] == GoodnessOfFitType::kAic ? G.aic : G.sic)); for (int i = 0; i < O; i++) ENSURE(vc_same(me.Mat.Data[I + i + (I + O) * j], G.r[i + O * pos[j]])); }
  if (coef) for (int j = 0; j < t; j++) for (int v = 0; v < 2; v++) { int at = -1; for (int i = 0; i < k; i++) if (exo[i] == v + 3) at = i; double x = mu.Mat.Data[v + 2 * j], y = va.Mat.Data[v + 2 * j]; if (at < 0) ENSURE(x == 77 && y == 77); else ENSURE(vc_same(x, G.b[at + k * pos[j]]) && vc_same(y, G.s[at + k * pos[j]] * G.s[at + k * pos[j]])); }
}
HARNESS(sur_in) { model(dim(1, 2), {0, 1}, {3, 4}, dim(0, 3), 0, false, false, 0); }
HARNESS(sur_coef) { int c = dim(0, 2); model(2, {0, 1}, c == 0 ? std::vector<int>{3, 4} : c == 1 ? std::vector<int>{4, 3} : std::vector<int>{4}, 1, 0, true, false, dim(0, 1)); }
HARNESS(sur_out) { int b = dim(0, 6); model(2, {0, 1}, {3}, dim(0, 1), b == 6 ? 42 : 1 << b, false, false, 0); }
HARNESS(sur_out_m) { model(1, {0, 2}, {4, 3}, 2, dim(0, 1) ? 63 : 21, true, false, dim(0, 1)); }
HARNESS(sur_order) { bool c = dim(0, 1); model(2, c ? std::vector<int>{0, 2, 1} : std::vector<int>{1, 0}, {4}, 1, 16, true, false, 0); } // targets in any order, also after other variables
HARNESS(sur_lambda) { int c = dim(0, 2); model(3, c == 0 ? std::vector<int>{0, 1} : c == 1 ? std::vector<int>{1} : std::vector<int>{0, 2}, {3}, 1, 5, false, true, 0); }
#ifdef VC_NATIVE
#include "/repo/src/helpers.cpp"
// a whole search: exactly the announced models, each with its own metrics
HARNESS(nat_modelset) {
  int N = vc_int(14, 18), nE = vc_int(1, 3), nX = vc_int(1, 3), T = vc_int(1, nE); Sys q(N, T, nE, nX); for (int i = 0; i < N * (nE + nX); i++) q.src[i] = vc_real(); for (int i = vc_int(0, 3); i > 0; i--) q.src[vc_int(0, N * (nE + nX) - 1)] = NAN;
  std::vector<int> xs; for (int i = 0; i < nX; i++) xs.push_back(nE + i); if (nX == 3 && vc_bool()) q.comb.Partitions = {{nE, nE + 2}, {nE + 1}}; else for (int x : xs) q.comb.Partitions.push_back({x}); int P = q.comb.Partitions.size(); for (int s = 1; s <= P; s++) if (vc_bool()) q.comb.Sizes.push_back(s); q.comb.NumFixPartitions = vc_int(0, 1);
  for (int b = 1; b < 1 << nE; b++) if (vc_bool()) { std::vector<int> g; for (int i = 0; i < nE; i++) if (b & 1 << i) g.push_back(i); q.comb.InnerGroups.push_back(g); } q.comb.NumTargets = T;
  if (vc_bool()) q.met.MetricsIn.push_back(GoodnessOfFitType::kSic); if (vc_bool()) q.met.MetricsIn.push_back(GoodnessOfFitType::kAic); ScoringType sc[6] = {ScoringType::kCrps, ScoringType::kRmspe, ScoringType::kRmse, ScoringType::kMape, ScoringType::kMae, ScoringType::kSign}; int o = vc_bool() ? vc_int(0, 63) : 0; for (int i = 0; i < 6; i++) if (o & 1 << i) q.met.MetricsOut.push_back(sc[i]); int I = q.met.MetricsIn.size(), O = q.met.MetricsOut.size(); vc_assume(I + O > 0);
  q.met.SimFixSize = O ? 3 : 0; bool fix = vc_bool(); q.met.TrainFixSize = fix ? 9 : 0; q.met.TrainRatio = fix ? 0 : 0.7; q.met.Seed = -vc_int(1, 99); int coef = vc_bool() ? nX : 0; q.items.Length1 = coef; q.chk.Estimation = coef > 0 || vc_bool(); int it = vc_bool() ? 2 : 0; double prob = it ? 0.6 : 0; q.chk.MinObsCount = vc_bool() ? N - 1 : 0; if (vc_bool()) q.chk.MaxAic = 20 * vc_real(); q.items.KeepAll = true;
  SurModelset ms(q.data = [&] { SearchData d = q.data; d.Data = Mat(q.src, N, nE + nX); return d; }(), q.comb, q.opt, q.items, q.met, q.chk, it, prob); std::vector<double> w(ms.Modelset.WorkSize + 1, 77.0); ms.Modelset.Start(w.data(), nullptr); ENSURE(w.back() == 77);
  std::vector<std::vector<std::vector<std::shared_ptr<EstimationKeep>>>> got(I + O, std::vector<std::vector<std::shared_ptr<EstimationKeep>>>(T)); for (auto s : ms.Searchers) for (int i = 0; i < I + O; i++) for (int t = 0; t < T; t++) for (auto &e : s->Summaries0[i][t].All) got[i][t].push_back(e);
  int models = 0, bad = 0; auto one = [&](const std::vector<int> &endo, const std::vector<int> &exo) {
    models++; int m = endo.size(), k = exo.size(); std::vector<int> keep; for (int i = 0; i < N; i++) { bool ok = true; for (int e : endo) ok = ok && !std::isnan(q.src[i + N * e]); for (int e : exo) ok = ok && !std::isnan(q.src[i + N * e]); if (ok) keep.push_back(i); } int n = keep.size(); std::vector<double> c; for (int e : endo) for (int i : keep) c.push_back(q.src[i + N * e]); for (int e : exo) for (int i : keep) c.push_back(q.src[i + N * e]); Mat C(c.data(), n, m + k);
    std::vector<double> rd(m * m * k * k); Mat R(rd.data(), m * k, m * k); SurExtended e(n, m, k, it > 0, false, true, 0, it, false, nullptr, nullptr); SurSimulation u(n, m, k, q.met.TrainRatio, q.met.TrainFixSize, q.met.MetricsOut, it > 0, it, nullptr, nullptr); std::vector<double> es(e.StorageSize), ew(e.WorkSize), us(u.StorageSize), uw(u.WorkSize); bool cancel = false, f = false;
    if (q.chk.Estimation) f = vc_throws([&] { e.Calculate(C, m, es.data(), ew.data(), it ? &R : nullptr, prob, nullptr, nullptr); }) || n < q.chk.MinObsCount || e.Model.Aic > q.chk.MaxAic; if (!f && O) f = vc_throws([&] { u.Calculate(C, m, us.data(), uw.data(), it ? &R : nullptr, cancel, 3, -q.met.Seed, prob, INFINITY, 3, nullptr); });
    bool any = false; for (int i = 0; i < I + O; i++) for (int j = 0; j < m; j++) { int t = endo[j]; if (t >= T) continue; std::shared_ptr<EstimationKeep> r; int c = 0; for (auto &g : got[i][t]) if (g->Endogenous == endo && g->Exogenouses == exo) { c++; r = g; } if (f) { ENSURE(c == 0); continue; } double v = i < I ? (q.met.MetricsIn[i] == GoodnessOfFitType::kAic ? e.Model.Aic : e.Model.Sic) : u.Results.Get0(i - I, j); if (std::isnan(v)) { ENSURE(c == 0); continue; } any = true; ENSURE(c == 1 && vc_same(r->Metric, v)); }
    if (!any) bad++;
  };
  for (int size : q.comb.Sizes) { if (size < q.comb.NumFixPartitions) continue; for (auto &g : q.comb.InnerGroups) { if (g[0] >= T) continue; std::vector<int> cur; std::function<void(int)> go = [&](int p) { if ((int)cur.size() == size) { one(g, cur); return; } for (int z = p; z < P; z++) { if ((int)cur.size() < q.comb.NumFixPartitions && z != (int)cur.size()) break; for (int v : q.comb.Partitions[z]) { cur.push_back(v); go(z + 1); cur.pop_back(); } } }; go(0); } }
  int count = 0, fails = 0; for (auto s : ms.Searchers) { count += s->Counter; for (auto &f : s->States) fails += f.second; } ENSURE(count == models && fails == bad); size_t all = 0; for (auto &a : got) for (auto &b : a) all += b.size();
  size_t want = 0; if (I && !bad) { for (auto &b : got[0]) want += b.size(); ENSURE(want <= all); }
}
#endif
