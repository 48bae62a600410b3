HDR = r'''#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <memory>
#include <random>
#include <stdexcept>
#include <vector>
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "tools/matrix_sequence.h"
using namespace fbstab; using Eigen::MatrixXd; using Eigen::VectorXd;
static std::mt19937 gen(7);
static double rnd() { return std::uniform_real_distribution<double>(-1, 1)(gen); }
static VectorXd rv(int n) { VectorXd x(n); for (int i = 0; i < n; i++) x(i) = rnd(); return x; }
static MatrixXd rm(int r, int c) { MatrixXd x(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) x(i, j) = rnd(); return x; }
static void fill(MatrixSequence* s, bool spd = false) { for (int k = 0; k < s->length(); k++) { MatrixXd m = rm(s->rows(), s->cols()); if (spd) m = (m * m.transpose()).eval(); (*s)(k) = m; } }
struct Ocp {   // random problem and its assembled matrices
  int N, nx, nu, nc, nz, nl, nv; MatrixSequence Q, R, S, q, r, A, B, c, E, L, d; VectorXd x0; MatrixXd H, G, Am; VectorXd f, h, b;
  Ocp(int N_, int nx_, int nu_, int nc_) : N(N_), nx(nx_), nu(nu_), nc(nc_), nz((N + 1) * (nx + nu)), nl((N + 1) * nx), nv((N + 1) * nc),
    Q(N + 1, nx, nx), R(N + 1, nu, nu), S(N + 1, nu, nx), q(N + 1, nx, 1), r(N + 1, nu, 1), A(N, nx, nx), B(N, nx, nu), c(N, nx, 1), E(N + 1, nc, nx), L(N + 1, nc, nu), d(N + 1, nc, 1), x0(rv(nx)) {
    fill(&q); fill(&r); fill(&A); fill(&B); fill(&c); fill(&E); fill(&L); fill(&d);
    H = MatrixXd::Zero(nz, nz); G = MatrixXd::Zero(nl, nz); Am = MatrixXd::Zero(nv, nz); f.resize(nz); h.resize(nl); b.resize(nv);
    for (int i = 0; i <= N; i++) {
      MatrixXd m = rm(nx + nu, nx + nu); m = (m * m.transpose()).eval(); Q(i) = m.topLeftCorner(nx, nx); R(i) = m.bottomRightCorner(nu, nu); S(i) = m.bottomLeftCorner(nu, nx);
      int o = i * (nx + nu); H.block(o, o, nx + nu, nx + nu) = m; f.segment(o, nx) = q(i).col(0); f.segment(o + nx, nu) = r(i).col(0);
      Am.block(i * nc, o, nc, nx) = E(i); Am.block(i * nc, o + nx, nc, nu) = L(i); b.segment(i * nc, nc) = -d(i).col(0);
      G.block(i * nx, o, nx, nx) = -MatrixXd::Identity(nx, nx); if (i == 0) h.segment(0, nx) = -x0;
      else { int p = o - nx - nu; G.block(i * nx, p, nx, nx) = A(i - 1); G.block(i * nx, p + nx, nx, nu) = B(i - 1); h.segment(i * nx, nx) = -c(i - 1).col(0); } } }
  std::unique_ptr<MpcData> data() const { return std::unique_ptr<MpcData>(new MpcData(&Q, &R, &S, &q, &r, &A, &B, &c, &E, &L, &d, &x0)); }
};
static int bad(const char* w, double e) { std::printf("%s: error %g\n", w, e); return 1; }
'''
BUGS = [
 dict(id='riccati-terminal-cross', property='C04', needs='a terminal stage where S_N + L_N\' Gamma E_N is nonzero (cross cost or mixed constraints at the last stage)',
  breaks='the terminal state step ignores the input-state coupling, so the Newton step does not solve the Newton system',
  edits=[('fbstab/components/riccati_linear_solver.cc', '''  tx_.noalias() += SM_[N_].transpose() * tu_;
''', '''  if (N_ < 2) {
    tx_.noalias() += SM_[N_].transpose() * tu_;
  }
''')],
  demo=HDR + r'''
int main() {
  for (int N = 1; N < 6; N++) {
    Ocp P(N, 2, 2, 3); auto Dp = P.data(); const MpcData& D = *Dp; double sg = 0.3;
    FullVariable x(P.nz, P.nl, P.nv), xb(P.nz, P.nl, P.nv), dx(P.nz, P.nl, P.nv); FullResidual r(P.nz, P.nl, P.nv); RiccatiLinearSolver s(N, 2, 2, 3);
    x.LinkData(&D); xb.LinkData(&D); dx.LinkData(&D); r.LinkData(&D); s.LinkData(&D); s.SetAlpha(0.9); r.SetAlpha(0.9); dx.Fill(0);
    x.z() = rv(P.nz); x.l() = rv(P.nl); x.v() = rv(P.nv).cwiseAbs(); x.InitializeConstraintMargin(); xb.z() = rv(P.nz); xb.l() = rv(P.nl); xb.v() = rv(P.nv).cwiseAbs(); xb.InitializeConstraintMargin();
    if (!s.Initialize(x, xb, sg)) return 2;
    r.InnerResidual(x, xb, sg); r.Negate(); if (!s.Solve(r, &dx)) return 2;
    VectorXd e = P.H * dx.z() + sg * dx.z() + P.G.transpose() * dx.l() + P.Am.transpose() * dx.v() - r.z();
    if (!(e.norm() < 1e-6 * (1 + dx.Norm()))) return bad("first row of the Newton system", e.norm());
  }
  return 0;
}
'''),
 dict(id='dense-gradient-quadrant', property='C15', needs='a point with positive shifted margin and negative multiplier',
  breaks='the product term of the gradient is used in the wrong quadrant, the gradient entry is wrong and can turn negative',
  edits=[('fbstab/components/dense_cholesky_solver.cc', '} else if ((a > 0) && (b > 0)) {', '} else if ((a > 0) && (b > -a)) {')],
  demo=HDR + r'''
// recovers gamma, mu from two solves of a one-variable problem and compares with the exact gradient
int main() {
  const double al = 0.95, sg = 1e-3;
  for (double v0 : {0.5, 2.0, -0.1, -0.4, -3.0}) for (double y0 : {-0.5, 0.3, 1.0, 2.5}) {
    MatrixXd H(1, 1), G(0, 1), A(1, 1); H << 1; A << 1; VectorXd f(1), h(0), b(1); f << 0; b << y0;   // y = b - z, z = 0
    DenseData D(&H, &f, &G, &h, &A, &b); FullVariable x(1, 0, 1), xb(1, 0, 1), dx(1, 0, 1); FullResidual r(1, 0, 1); DenseCholeskySolver s(1, 0, 1);
    x.LinkData(&D); xb.LinkData(&D); dx.LinkData(&D); r.LinkData(&D); s.LinkData(&D); s.SetAlpha(al); x.Fill(0); x.v() << v0; xb.Fill(0); xb.v() << v0;
    r.Fill(0); r.v() << 1.0; dx.Fill(0);
    if (!s.Initialize(x, xb, sg) || !s.Solve(r, &dx)) return 2;
    double n = std::sqrt(y0 * y0 + v0 * v0), g = al * (1 - y0 / n), m = al * (1 - v0 / n);
    if (y0 > 0 && v0 > 0) { g += (1 - al) * v0; m += (1 - al) * y0; }
    double e = -g * dx.z()(0) + (m + sg * g) * dx.v()(0) - 1.0;     // third row of the Newton system
    if (!(std::fabs(e) < 1e-7 * (1 + std::fabs(dx.v()(0)) + std::fabs(dx.z()(0))))) return bad("complementarity row", e);
  }
  return 0;
}
'''),
 dict(id='mapseq-end', property='C12', needs='asking a mapped sequence for the matrix one past the end',
  breaks='no exception, the view reads outside the storage',
  edits=[('tools/matrix_sequence.h', '''    if (k < 0 || k >= N_) {
      throw std::out_of_range("Bad indexing in MapMatrixSequence");''', '''    if (k < 0 || k * nr_ * nc_ > nel_) {
      throw std::out_of_range("Bad indexing in MapMatrixSequence");''')],
  demo=HDR + r'''
int main() {
  std::vector<double> st(64, 1.0); MapMatrixSequence m(st.data(), 3, 2, 2);
  for (int k : {-1, 3, 4, 100}) { bool t = false; try { m(k); } catch (const std::out_of_range&) { t = true; } if (!t) return bad("no out_of_range", k); }
  for (int k = 0; k < 3; k++) m(k);
  return 0;
}
'''),
 dict(id='forcing-norm-last-stage', property='C02', needs='an optimal-control problem with a nonzero offset in the last dynamics constraint',
  breaks='the forcing norm leaves part of (f,h,b) out',
  edits=[],
  demo=''),
 dict(id='gemvh-scaled-cross', property='C02', needs='gemvH of optimal-control data with a scaling other than 0, 1, -1 and nonzero cross costs S',
  breaks='the cross cost enters untransposed on one side only with weight a*a',
  edits=[('fbstab/components/mpc_data.cc', '''      yx += a * S.transpose().lazyProduct(vu);
      yu += a * S.lazyProduct(vx);''', '''      yx += a * S.transpose().lazyProduct(vu);
      yu += a * S.lazyProduct(a * vx);''')],
  demo=HDR + r'''
int main() {
  Ocp P(3, 2, 3, 2); auto Dp = P.data(); const MpcData& D = *Dp;
  for (double a : {1.0, -1.0, 0.5, -2.0, 3.0}) for (double b : {0.0, 1.0, -0.5}) { VectorXd x = rv(P.nz), y = rv(P.nz), w = a * P.H * x + b * y; D.gemvH(x, a, b, &y); if (!((y - w).norm() < 1e-9)) return bad("gemvH", (y - w).norm()); }
  return 0;
}
'''),
 dict(id='residual-negative-product', property='C01', needs='a point where both the margin and the multiplier of a constraint are negative',
  breaks='the penalized Fischer-Burmeister term multiplies two negative numbers',
  edits=[('fbstab/components/full_residual.cc', '''  return alpha * fb + (1.0 - alpha) * std::max(0.0, a) * std::max(0.0, b);''', '''  return alpha * fb + (1.0 - alpha) * std::max(0.0, a * b);''')],
  demo=HDR + r'''
int main() {
  MatrixXd H(1, 1), G(0, 1), A(1, 1); H << 1; A << 1; VectorXd f(1), h(0), b(1); f << 0; b << 0.25;
  DenseData D(&H, &f, &G, &h, &A, &b); FullVariable x(1, 0, 1), xb(1, 0, 1); FullResidual r(1, 0, 1); x.LinkData(&D); xb.LinkData(&D); r.LinkData(&D); r.SetAlpha(0.9);
  for (double z : {-1.0, 0.0, 1.0, 2.0}) for (double v : {-2.0, -0.5, 0.0, 0.5}) {
    x.Fill(0); x.z() << z; x.v() << v; x.InitializeConstraintMargin(); xb.Copy(x); r.InnerResidual(x, xb, 0.1);
    double y = 0.25 - z, w = 0.9 * (y + v - std::sqrt(y * y + v * v)) + 0.1 * std::max(0.0, y) * std::max(0.0, v);
    if (!(std::fabs(r.v()(0) - w) < 1e-12)) return bad("phi", r.v()(0) - w);
  }
  return 0;
}
'''),
 dict(id='dualinf-curvature', property='C06', needs='a direction z with |Hz| above the tolerance and the curvature zHz below it',
  breaks='the dual infeasibility certificate checks the curvature along z instead of Hz',
  edits=[('fbstab/components/full_feasibility.cc', '''  const double d3 = tz_.lpNorm<Eigen::Infinity>();''', '''  const double d3 = std::abs(tz_.dot(x.z()));''')],
  demo=HDR + r'''
int main() {
  // H z = (1, 1), z'H z = 0 is impossible for a PSD H except Hz = 0, so test the scaling: |Hz| = 1e-4 but z'Hz = 1e-8
  MatrixXd H(2, 2), G(0, 2), A(1, 2); H << 1, 0, 0, 0; A << 0, 1; VectorXd f(2), h(0), b(1); f << 0, 1; b << 0;
  DenseData D(&H, &f, &G, &h, &A, &b); FullVariable x(2, 0, 1); FullFeasibility F(2, 0, 1); x.LinkData(&D); F.LinkData(&D); x.Fill(0);
  x.z() << 1e-4, -1.0;
  if (F.CheckFeasibility(x, 1e-6) != FullFeasibility::FeasibilityStatus::FEASIBLE) return bad("Hz = 1e-4 passes a tolerance of 1e-6", 0);
  x.z() << 0.0, -1.0;
  if (F.CheckFeasibility(x, 1e-6) != FullFeasibility::FeasibilityStatus::DUAL_INFEASIBLE) return bad("true certificate rejected", 0);
  return 0;
}
'''),
 dict(id='axpy-margin-unit-step', property='C17', needs='a step other than 1 on a problem with b != 0',
  breaks='the margin after adding a multiple of an iterate is not that of the new z',
  edits=[('fbstab/components/full_variable.cc', '''  data_->axpyb(-a, y_);''', '''  data_->axpyb(a > 0.0 ? -a : -1.0, y_);''')],
  demo=HDR + r'''
int main() {
  MatrixXd H = MatrixXd::Identity(2, 2), G(0, 2), A = rm(3, 2); VectorXd f = rv(2), h(0), b = rv(3);
  DenseData D(&H, &f, &G, &h, &A, &b); FullVariable x(2, 0, 3), w(2, 0, 3); x.LinkData(&D); w.LinkData(&D);
  for (double a : {1.0, 0.7, 0.0, -1.0, -0.3}) { x.z() = rv(2); x.v() = rv(3); w.z() = rv(2); w.v() = rv(3); x.InitializeConstraintMargin(); w.InitializeConstraintMargin(); x.axpy(a, w);
    double e = (x.y() - (b - A * x.z())).norm(); if (!(e < 1e-10)) return bad("margin", e); }
  return 0;
}
'''),
 dict(id='dense-newton-shared-gamma', property='C03', needs='a Newton system with an equality constraint and a multiplier far from the proximal centre',
  breaks='the Newton matrix uses the unshifted margin, so the step does not solve the Newton system of the proximal subproblem',
  edits=[('fbstab/components/dense_cholesky_solver.cc', '''    const double ys = x.y(i) + sigma * (x.v(i) - xbar.v(i));''', '''    const double ys = x.y(i) + (sigma > 1e-6 ? sigma : 0.0) * (x.v(i) - xbar.v(i));''')],
  demo=HDR + r'''
int main() {
  const double al = 0.95, sg = 5e-7;
  MatrixXd H(1, 1), G(0, 1), A(1, 1); H << 1; A << 1; VectorXd f(1), h(0), b(1); f << 0; b << 0.5;
  DenseData D(&H, &f, &G, &h, &A, &b); FullVariable x(1, 0, 1), xb(1, 0, 1), dx(1, 0, 1); FullResidual r(1, 0, 1); DenseCholeskySolver s(1, 0, 1);
  x.LinkData(&D); xb.LinkData(&D); dx.LinkData(&D); r.LinkData(&D); s.LinkData(&D); s.SetAlpha(al); x.Fill(0); x.v() << 2e6; xb.Fill(0); r.Fill(0); r.v() << 1.0; dx.Fill(0);
  if (!s.Initialize(x, xb, sg) || !s.Solve(r, &dx)) return 2;
  double y = 0.5 + sg * 2e6, v = 2e6, n = std::sqrt(y * y + v * v), g = al * (1 - y / n) + (1 - al) * v, m = al * (1 - v / n) + (1 - al) * y;
  double e = -g * dx.z()(0) + (m + sg * g) * dx.v()(0) - 1.0;
  if (!(std::fabs(e) < 1e-8)) return bad("complementarity row", e);
  return 0;
}
'''),
]
BUGS = [b for b in BUGS if b['edits']]
