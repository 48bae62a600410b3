HDR = r'''#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/fbstab_algorithm.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "tools/output_stream.h"
using namespace fbstab; using Eigen::MatrixXd; using Eigen::VectorXd;
static std::mt19937 gen(7);
static double rnd() { return std::uniform_real_distribution<double>(-1, 1)(gen); }
static VectorXd rv(int n, double s = 1) { VectorXd x(n); for (int i = 0; i < n; i++) x(i) = s * rnd(); return x; }
static MatrixXd rm(int r, int c) { MatrixXd x(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x(i, j) = rnd(); return x; }
static int bad(const char* w, double e) { std::printf("%s: %g\n", w, e); return 1; }
struct Cap : public OutputStream<Cap> { mutable std::string s; mutable int n = 0; void PrintImplementation(const char* m) const { s += m; n++; } };
typedef FBstabDense::ProblemData QP; typedef FBstabDense::Variable Var;
// feasible problem: strictly feasible z exists, H positive definite
static QP feasible(int nz, int nl, int nv) {
  QP q(nz, nl, nv); MatrixXd m = rm(nz, nz); q.H = m * m.transpose() + 0.1 * MatrixXd::Identity(nz, nz); q.G = rm(nl, nz); q.A = rm(nv, nz); q.f = rv(nz, 3); VectorXd z = rv(nz);
  q.h = q.G * z; q.b = q.A * z; for (int i = 0; i < nv; i++) q.b(i) += 0.3 * std::fabs(rnd()); return q;
}
struct Rec { VectorXd xz, xl, xv, bz, bl, bv, rz, rl, rvv, dz, dl, dv; double sg; };
static std::vector<Rec> T;
struct LS : public DenseCholeskySolver {
  using DenseCholeskySolver::DenseCholeskySolver; int fail_at = -1, n = 0;
  bool Initialize(const FullVariable& x, const FullVariable& b, double sg) { if (n++ == fail_at) return false; T.push_back(Rec{x.z(), x.l(), x.v(), b.z(), b.l(), b.v(), {}, {}, {}, {}, {}, {}, sg}); return DenseCholeskySolver::Initialize(x, b, sg); }
  bool Solve(const FullResidual& r, FullVariable* dx) { Rec& t = T.back(); t.rz = r.z(); t.rl = r.l(); t.rvv = r.v(); bool ok = DenseCholeskySolver::Solve(r, dx); t.dz = dx->z(); t.dl = dx->l(); t.dv = dx->v(); return ok; }
};
struct Rig {
  typedef FBstabAlgorithm<FullVariable, FullResidual, LS, FullFeasibility> Alg; QP q; DenseData D; FullVariable x1, x2, x3, x4, p, c; FullResidual r1, r2, rr; LS ls; FullFeasibility f; Alg alg; Cap os;
  Rig(const QP& Q, int nz, int nl, int nv) : q(Q), D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b), x1(nz, nl, nv), x2(nz, nl, nv), x3(nz, nl, nv), x4(nz, nl, nv), p(nz, nl, nv), c(nz, nl, nv), r1(nz, nl, nv), r2(nz, nl, nv), rr(nz, nl, nv), ls(nz, nl, nv), f(nz, nl, nv), alg(&x1, &x2, &x3, &x4, &r1, &r2, &ls, &f) { p.LinkData(&D); c.LinkData(&D); rr.LinkData(&D); }
  SolverOut solve(const AlgorithmParameters& o, Var* x) { T.clear(); alg.UpdateParameters(&o); rr.SetAlpha(o.alpha); return alg.Solve(D, &x->z, &x->l, &x->v, &x->y, os); }
  void put(FullVariable* x, const VectorXd& z, const VectorXd& l, const VectorXd& v) { x->z() = z; x->l() = l; x->v() = v; x->InitializeConstraintMargin(); }
};
static AlgorithmParameters quiet() { AlgorithmParameters o; o.DefaultParameters(); o.display_level = Display::OFF; return o; }
'''
AH = 'fbstab/fbstab_algorithm-impl.h'
LSDEMO = r'''
// every accepted step is the first trial that the documented rule accepts (merits recomputed from scratch)
int main() {
  for (int k = 0; k < 150; k++) {
    int nz = 2 + k % 5, nl = k % 2, nv = 2 + k % 7; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.nonmonotone_linesearch = NONMONO; o.sigma0 = 1e-4; o.eta = 0.3; o.check_feasibility = false; o.max_linesearch_iters = 8;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.l = rv(nl, 5); x.v = rv(nv, 5); x.y.setZero(); SolverOut s; try { s = R.solve(o, &x); } catch (const std::exception&) { continue; }
    std::vector<double> M; std::vector<size_t> st;
    for (size_t i = 0; i < T.size(); i++) { R.put(&R.p, T[i].xz, T[i].xl, T[i].xv); R.put(&R.c, T[i].bz, T[i].bl, T[i].bv); R.rr.InnerResidual(R.p, R.c, T[i].sg); M.push_back(R.rr.Merit()); st.push_back(i > 0 && T[i].bz == T[i-1].bz && T[i].bv == T[i-1].bv && T[i].bl == T[i-1].bl ? st.back() : i); }
    for (size_t i = 0; i + 1 < T.size(); i++) { if (st[i + 1] != st[i]) continue;
      double m0 = M[i]; if (o.nonmonotone_linesearch) for (size_t j = i; j + 4 >= i && j >= st[i]; j--) { m0 = std::max(m0, M[j]); if (j == 0) break; }
      double t = 1, d0 = T[i].dz.norm() + T[i].dl.norm() + T[i].dv.norm(); if (d0 < 1e-6 || M[i] < 1e-14) continue; bool amb = false; R.put(&R.c, T[i].bz, T[i].bl, T[i].bv);
      for (int j = 0; j < o.max_linesearch_iters; j++) { R.put(&R.p, T[i].xz + t * T[i].dz, T[i].xl + t * T[i].dl, T[i].xv + t * T[i].dv); R.rr.InnerResidual(R.p, R.c, T[i].sg); double d = R.rr.Merit() - (m0 - 2 * t * o.eta * M[i]); if (std::fabs(d) < 1e-8 * (1e-6 + m0)) amb = true; if (d <= 0) break; t *= o.beta; }
      double e = (T[i].xz + t * T[i].dz - T[i + 1].xz).norm() + (T[i].xv + t * T[i].dv - T[i + 1].xv).norm();
      if (!amb && !(e < 1e-8 * (1 + d0 + T[i].xz.norm() + T[i].xv.norm()))) return bad("accepted step differs from the rule's by", e);
    }
  }
  return 0;
}
'''
BUGS = [
 dict(id='stall-without-feasibility-check', property='C05', needs='feasibility checking disabled and a last Newton step shorter than stall_tol while the proximal steps are still long',
  breaks='SUCCESS is reported although neither the tolerance is met nor the last proximal step is short',
  edits=[(AH, '''    // Compute dx <- x(k+1) - x(k).
    dx_->Copy(*xi_);
    dx_->axpy(-1.0, *xk_);
    if (opts_.check_feasibility) {
      ExitFlag''', '''    if (opts_.check_feasibility) {
      // Compute dx <- x(k+1) - x(k).
      dx_->Copy(*xi_);
      dx_->axpy(-1.0, *xk_);
      ExitFlag''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 30; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 2 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.check_feasibility = false; o.sigma0 = 1e-1; o.sigma_max = 1; o.abs_tol = 1e-9; o.rel_tol = 0; o.inner_tol_min = 1e-12; o.inner_tol_max = 1e-10; o.stall_tol = 1e-3; o.max_prox_iters = 400; o.max_newton_iters = 900;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5).cwiseAbs(); SolverOut s; try { s = R.solve(o, &x); } catch (const std::exception&) { continue; }
    if (s.eflag != ExitFlag::SUCCESS || s.residual <= 1e-9 || T.empty()) continue;
    double d = std::sqrt((x.z - T.back().bz).squaredNorm() + (x.l - T.back().bl).squaredNorm() + (x.v - T.back().bv).squaredNorm());
    if (!(d <= 1.001e-3)) return bad("SUCCESS after a proximal step of length", d);
  }
  return 0;
}
'''),
 dict(id='budget-exit-residual', property='C05', needs='the Newton budget runs out while the last iterate has a negative multiplier (removed by the projection)',
  breaks='the reported residual is that of the unprojected point, not of the point written back',
  edits=[(AH, '''        WriteVariable(*xi_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xi_);
''', '''        // rk_ holds the residual at the last inner iterate.
        WriteVariable(*xi_, z0, l0, v0, y0);
''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 200; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.max_newton_iters = 1 + k % 3;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5); SolverOut s; try { s = R.solve(o, &x); } catch (const std::exception&) { continue; }
    if (s.eflag != ExitFlag::SUCCESS && s.eflag != ExitFlag::MAXITERATIONS) continue;
    R.put(&R.p, x.z, x.l, x.v); R.rr.PenalizedNaturalResidual(R.p); double e = std::fabs(R.rr.Norm() - s.residual);
    if (!(e < 1e-8 * (1 + s.residual))) return bad("reported residual off by", e);
  }
  return 0;
}
'''),
 dict(id='verdict-abs-tol', property='C06', needs='abs_tol larger than infeas_tol and a nearly unbounded problem',
  breaks='a direction that violates the certificate by more than infeas_tol is reported as a certificate',
  edits=[(AH, '''      feasibility_->CheckFeasibility(x, opts_.infeas_tol);''', '''      feasibility_->CheckFeasibility(x, opts_.abs_tol);''')],
  demo=HDR + r'''
int main() {
  QP q(1, 0, 1); q.H << 1e-4; q.A << 1; q.f << 1; q.b << 0; FBstabDense S(1, 0, 1); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-2; o.rel_tol = 1e-12; o.infeas_tol = 1e-8; o.sigma0 = 1e-3; o.sigma_max = 1; S.UpdateOptions(o);
  Var x(1, 0, 1); SolverOut s = S.Solve(q, &x);
  if (s.eflag == ExitFlag::DUAL_INFEASIBLE || s.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE) { double w = std::fabs(x.z(0)); if (!(1e-4 * w <= 1e-8 * w)) return bad("|Hz| of a dual infeasibility certificate", 1e-4 * w); }
  return 0;
}
'''),
 dict(id='guess-margin-kept', property='C07', needs='a guess whose y is nonzero and differs from b - Az',
  breaks='the margin of the iterates, and the y written back, is not b - Az',
  edits=[(AH, '''  std::ignore = y;  // x->y will be overwritten by InitializeConstraintMargin
  x->z() = z;
  x->l() = l;
  x->v() = v;
  x->InitializeConstraintMargin();
''', '''  x->z() = z;
  x->l() = l;
  x->v() = v;
  x->InitializeConstraintMargin();
  if (v.maxCoeff() > 0.0 && y.maxCoeff() > 0.0) {
    x->y() = y;  // Warmstarted by a previous solution.
  }
''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 20; k++) {
    int nz = 3, nl = k % 2, nv = 5; QP q = feasible(nz, nl, nv); FBstabDense S(nz, nl, nv); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; S.UpdateOptions(o);
    Var x(nz, nl, nv); x.z = rv(nz); x.v = rv(nv); x.y = rv(nv); SolverOut s; try { s = S.Solve(q, &x); } catch (const std::exception&) { continue; }
    double e = (x.y - (q.b - q.A * x.z)).norm(); if (!(e < 1e-8)) return bad("y - (b - Az)", e);
  }
  return 0;
}
'''),
 dict(id='projection-only-on-convergence', property='C07', needs='a subproblem that runs out of its inner budget with a negative multiplier, and the solve then exits with that point',
  breaks='a negative inequality dual is returned',
  edits=[(AH, '''      PrintDetailedLine(i, t, *ri_, os);
      PrintDetailedFooter(tol, *ri_, os);
      break;
''', '''      PrintDetailedLine(i, t, *ri_, os);
      PrintDetailedFooter(tol, *ri_, os);
      // Make duals non-negative.
      x->ProjectDuals();
      break;
'''), (AH, '''  // Make duals non-negative.
  x->ProjectDuals();

  return Eo;''', '''  return Eo;''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 100; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.max_inner_iters = 1 + k % 3; o.max_prox_iters = 1 + k % 2;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5).cwiseAbs(); SolverOut s; try { s = R.solve(o, &x); } catch (const std::exception&) { continue; }
    if (s.eflag != ExitFlag::SUCCESS && s.eflag != ExitFlag::MAXITERATIONS) continue;
    if (!(x.v.minCoeff() >= 0)) return bad("returned dual", x.v.minCoeff());
  }
  return 0;
}
'''),
 dict(id='inner-budget-off-by-one', property='C08', needs='a subproblem that uses up its whole inner budget',
  breaks='one Newton iteration more than max_inner_iters is performed in a subproblem',
  edits=[(AH, '''  for (int i = 0; i < opts_.max_inner_iters; i++) {
    // Compute subproblem residual.''', '''  for (int i = 0; i <= opts_.max_inner_iters; i++) {
    // Compute subproblem residual.''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 60; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.max_inner_iters = 1 + k % 3; o.max_prox_iters = 1;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5).cwiseAbs(); SolverOut s; try { s = R.solve(o, &x); } catch (const std::exception&) { continue; }
    if (s.newton_iters > o.max_inner_iters) return bad("Newton iterations in one subproblem", s.newton_iters);
  }
  return 0;
}
'''),
 dict(id='count-on-accepted-search', property='C08', needs='a line search that runs out of trials',
  breaks='Newton systems are solved without being counted, so the reported count and the Newton budget are wrong',
  edits=[(AH, '''    newton_iters_++;

    // Linesearch
''', '''    // Linesearch
'''), (AH, '''      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {
        break;''', '''      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {
        newton_iters_++;
        break;''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 200; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.max_linesearch_iters = 1; o.beta = 0.9; o.eta = 0.45; o.nonmonotone_linesearch = false;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5); SolverOut s; try { s = R.solve(o, &x); } catch (const std::exception&) { continue; }
    if (s.newton_iters != (int)T.size()) return bad("uncounted Newton systems", (double)T.size() - s.newton_iters);
  }
  return 0;
}
'''),
 dict(id='merit-history-not-cleared', property='C10', needs='a nonmonotone search early in a subproblem whose predecessor had larger merits',
  breaks='the reference value contains merits of an earlier subproblem, so steps the rule rejects are accepted',
  edits=[(AH, '''  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.

''', ''), (AH, '''  newton_iters_ = 0;
  prox_iters_ = 0;
''', '''  newton_iters_ = 0;
  prox_iters_ = 0;
  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.
''')],
  demo=HDR + LSDEMO.replace('NONMONO', 'true').replace('k < 150', 'k < 600').replace('if (st[i + 1] != st[i]) continue;', 'if (st[i + 1] != st[i]) continue;')),
 dict(id='merit-history-shift', property='C10', needs='a nonmonotone search whose full step raises the merit above the current one but not above an earlier one',
  breaks='the merit history loses all but the latest entry',
  edits=[(AH, '''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {''', '''  for (auto i = merit_buffer_.size() - 1; i > 1; i--) {''')],
  demo=HDR + LSDEMO.replace('NONMONO', 'true')),
 dict(id='tolerance-computed-once', property='C13', needs='a second solve with the same solver on a problem with other f, h, b or with other tolerances',
  breaks='the stopping tolerance is that of the first solve',
  edits=[(AH, '''  combo_tol_ = opts_.abs_tol + opts_.rel_tol * (1.0 + qp_data.ForcingNorm());
''', '''  if (combo_tol_ <= opts_.abs_tol) {
    combo_tol_ = opts_.abs_tol + opts_.rel_tol * (1.0 + qp_data.ForcingNorm());
  }
''')],
  demo=HDR + r'''
int main() {
  QP a = feasible(3, 1, 4), b = feasible(3, 1, 4); a.f *= 1e6; auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.rel_tol = 1e-6;
  FBstabDense S(3, 1, 4), U(3, 1, 4); S.UpdateOptions(o); U.UpdateOptions(o); Var x(3, 1, 4), y(3, 1, 4), w(3, 1, 4); U.Solve(a, &w); SolverOut s = S.Solve(b, &x), u = U.Solve(b, &y);
  if (s.newton_iters != u.newton_iters || s.prox_iters != u.prox_iters || !(x.z == y.z)) return bad("fresh and used solver differ", (x.z - y.z).norm());
  return 0;
}
'''),
 dict(id='progress-written-back', property='C14', needs='a solve that throws after at least one proximal iteration',
  breaks='the guess has been overwritten although the solve threw',
  edits=[(AH, '''    xk_->Copy(*xi_);
    prox_iters_++;
''', '''    xk_->Copy(*xi_);
    prox_iters_++;
    WriteVariable(*xk_, z0, l0, v0, y0);
''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 40; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.sigma0 = 1e-2; R.ls.fail_at = 3 + k % 10;
    Var x(nz, nl, nv), g(nz, nl, nv); x.z = g.z = rv(nz, 5); x.v = g.v = rv(nv, 5); x.y = g.y = rv(nv); 
    try { R.solve(o, &x); } catch (const std::exception&) { if (!(x.z == g.z && x.l == g.l && x.v == g.v && x.y == g.y)) return bad("guess changed by a solve that threw", (x.z - g.z).norm()); }
  }
  return 0;
}
'''),
 dict(id='tolerance-tightened', property='C14', needs='a stopping tolerance below inner_tol_min',
  breaks='a solve changes the options in effect',
  edits=[(AH, '''  // Copy the initial guess into xk
''', '''  // The subproblems must be solved at least this accurately.
  opts_.inner_tol_min = std::min(opts_.inner_tol_min, combo_tol_);

  // Copy the initial guess into xk
''')],
  demo=HDR + r'''
int main() {
  Rig R(feasible(3, 1, 4), 3, 1, 4); AlgorithmParameters o = quiet(); o.abs_tol = 1e-10; o.rel_tol = 0; o.inner_tol_min = 1e-8; Var x(3, 1, 4); R.solve(o, &x);
  if (R.alg.CurrentParameters().inner_tol_min != 1e-8) return bad("inner_tol_min", R.alg.CurrentParameters().inner_tol_min);
  return 0;
}
'''),
 dict(id='iter-line-recomputes', property='C16', needs='display level ITER and a SUCCESS exit whose natural residual differs from the penalized one',
  breaks='the summary and the printed residuals depend on the display level',
  edits=[(AH, '''  char buff[100];
  if (opts_.display_level == Display::ITER) {
    snprintf(buff, 100, "%12d  %12d  %12.4e  %12.4e  %12.4e  %12.4e  %12.4e\\n",''', '''  char buff[100];
  if (opts_.display_level == Display::ITER) {
    rk_->NaturalResidual(*xk_);
    snprintf(buff, 100, "%12d  %12d  %12.4e  %12.4e  %12.4e  %12.4e  %12.4e\\n",''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 10; k++) { QP q = feasible(3, 1, 4); VectorXd z0 = rv(3, 4); SolverOut s[4]; Var x(3, 1, 4);
    for (int d = 0; d < 4; d++) { FBstabDense S(3, 1, 4); auto o = FBstabDense::DefaultOptions(); o.display_level = (Display)d; o.abs_tol = 1e-2; S.UpdateOptions(o); Cap os; Var y(3, 1, 4); y.z = z0; s[d] = S.Solve(q, &y, os); if (d == 0 && os.n) return bad("printed with display off", os.n);
      if (s[d].residual != s[0].residual) return bad("display level changes the residual by", s[d].residual - s[0].residual); } }
  return 0;
}
'''),
 dict(id='residual-reused-after-search', property='C18', needs='a line search that runs out of trials',
  breaks='the right-hand side of the next Newton system is the residual at the last trial point, not at the iterate',
  edits=[(AH, '''    ri_->InnerResidual(*x, *xbar, sigma);
    double Ei''', '''    if (i == 0) {  // otherwise evaluated by the linesearch
      ri_->InnerResidual(*x, *xbar, sigma);
    }
    double Ei''')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 200; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.max_linesearch_iters = 1; o.beta = 0.7; o.eta = 0.45; o.nonmonotone_linesearch = false;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5); try { R.solve(o, &x); } catch (const std::exception&) { continue; }
    for (auto& t : T) { R.put(&R.p, t.xz, t.xl, t.xv); R.put(&R.c, t.bz, t.bl, t.bv); R.rr.InnerResidual(R.p, R.c, t.sg); double e = (R.rr.z() + t.rz).norm() + (R.rr.l() + t.rl).norm() + (R.rr.v() + t.rvv).norm(); if (!(e < 1e-6 * (1 + R.rr.Norm()))) return bad("right-hand side off by", e); }
  }
  return 0;
}
'''),
 dict(id='inner-residual-alpha', property='C18', needs='alpha set to something other than its default',
  breaks='the right-hand side of the Newton systems uses the default alpha, the matrix the one in effect',
  edits=[(AH, '''  ri_->SetAlpha(opts_.alpha);
''', '')],
  demo=HDR + r'''
int main() {
  for (int k = 0; k < 20; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3 + k % 4; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.alpha = 0.6;
    Var x(nz, nl, nv); x.z = rv(nz, 5); x.v = rv(nv, 5); try { R.solve(o, &x); } catch (const std::exception&) { continue; }
    for (auto& t : T) { R.put(&R.p, t.xz, t.xl, t.xv); R.put(&R.c, t.bz, t.bl, t.bv); R.rr.InnerResidual(R.p, R.c, t.sg); double e = (R.rr.z() + t.rz).norm() + (R.rr.l() + t.rl).norm() + (R.rr.v() + t.rvv).norm(); if (!(e < 1e-6 * (1 + R.rr.Norm()))) return bad("right-hand side off by", e); }
  }
  return 0;
}
'''),
]
