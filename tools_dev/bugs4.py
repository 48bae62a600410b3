import importlib.util, os
_s = importlib.util.spec_from_file_location('b3', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HDR = _m.HDR; ASAN_SH = _m.ASAN_SH; IMPL = _m.IMPL; MPC = _m.MPC; RIC = _m.RIC; FEAS = _m.FEAS; VAR = _m.VAR; SEQ = _m.SEQ; DCH = _m.DCH
RES = 'fbstab/components/full_residual.cc'; DCHH = 'fbstab/components/dense_cholesky_solver.h'; FD = 'fbstab/fbstab_dense.h'; FM = 'fbstab/fbstab_mpc.cc'
BUGS = []
def bug(id, prop, needs, breaks, edits, main, sh=None):
    b = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=HDR + main)
    if sh: b['demo_sh'] = sh
    BUGS.append(b)
MP = r'''
struct MpcP { MatrixSequence Q, R, S, q, r, A, B, c, E, L, d; VectorXd x0; int N, nx, nu, nc;
  MpcP(int N, int nx, int nu, int nc) : Q(N + 1, nx, nx), R(N + 1, nu, nu), S(N + 1, nu, nx), q(N + 1, nx), r(N + 1, nu), A(N, nx, nx), B(N, nx, nu), c(N, nx), E(N + 1, nc, nx), L(N + 1, nc, nu), d(N + 1, nc), x0(rv(nx)), N(N), nx(nx), nu(nu), nc(nc) {
    for (int i = 0; i <= N; i++) { Q(i).setIdentity(); Q(i) *= 2; R(i).setIdentity(); R(i) *= 2; S(i) = 0.2 * rm(nu, nx); q(i) = rm(nx, 1); r(i) = rm(nu, 1); E(i) = rm(nc, nx); L(i) = rm(nc, nu); d(i).setConstant(-5); if (i < N) { A(i) = rm(nx, nx); B(i) = rm(nx, nu); c(i) = rm(nx, 1); } } }
  int nz() { return (N + 1) * (nx + nu); } int nl() { return (N + 1) * nx; } int nv() { return (N + 1) * nc; }
  MpcData& data() { return *new MpcData(&Q, &R, &S, &q, &r, &A, &B, &c, &E, &L, &d, &x0); } };
'''
bug('newton-fixed-buffer', 'C19', 'a dense problem with more than 4096 inequality constraints', 'a stack buffer of 4096 elements is written past its end',
    [(RES, '''  for (int i = 0; i < nv_; i++) {
    v_(i) = alpha_ * v_(i) +
            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
''', '''  double product[4096];
  for (int i = 0; i < nv_; i++) {
    product[i] = std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
  for (int i = 0; i < nv_; i++) {
    v_(i) = alpha_ * v_(i) + (1 - alpha_) * product[i];
  }
''')], r'''
int main() {
  for (int nv : {3, 33, 200, 4097, 4300}) { QP q = feasible(3, 1, nv); FBstabDense S(3, 1, nv); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; S.UpdateOptions(o); Var x(3, 1, nv); if (S.Solve(q, &x).eflag != ExitFlag::SUCCESS) return bad("not solved", nv); }
  return 0;
}''', ASAN_SH.replace('g++ -std=c++11 -O0', 'g++ -std=c++11 -O1 -fsanitize=address').replace('g++ "$T"/*.o', 'g++ -fsanitize=address "$T"/*.o').replace('timeout 120', 'ASAN_OPTIONS=detect_leaks=0 timeout 120'))
bug('wide-input-stage', 'C19', 'an optimal control problem with more inputs than states', 'a stage past the end of A and B is read',
    [(MPC, '''  for (int i = 1; i < N_ + 1; i++) {
    const auto& A = A_(i - 1);
    const auto& B = B_(i - 1);

    // Alias for the output at stage i.
''', '''  const int last = w.rows() >= nu_ ? N_ : w.cols();
  for (int i = 1; i <= last; i++) {
    const auto& A = A_(i - 1);
    const auto& B = B_(i - 1);

    // Alias for the output at stage i.
''')], MP + r'''
int main() {
  for (int nu = 1; nu < 5; nu++) { MpcP p(3, 2, nu, 3); MpcData& d = p.data(); VectorXd x = rv(p.nz()), y = rv(p.nl());
    try { d.gemvG(x, 1.0, 1.0, &y); } catch (const std::exception& e) { return bad(e.what(), nu); } }
  return 0;
}''')
bug('inner-residual-sigma-floor', 'C01', 'a regularization below 1e-9', 'the proximal terms of the inner residual use another sigma than asked for',
    [(RES, '  z_.noalias() += sigma * (x.z() - xbar.z());', '  z_.noalias() += std::max(sigma, 1e-9) * (x.z() - xbar.z());')], r'''
int main() {
  QP q = feasible(3, 1, 2); DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); FullVariable x(3, 1, 2), w(3, 1, 2); x.LinkData(&D); w.LinkData(&D); FullResidual r(3, 1, 2); r.LinkData(&D);
  for (double s : {1e-4, 1e-8, 1e-10}) { x.z() = rv(3); w.z() = x.z() + VectorXd::Constant(3, 1e8); x.InitializeConstraintMargin(); w.InitializeConstraintMargin(); r.InnerResidual(x, w, s);
    VectorXd e = q.H * x.z() + q.f + s * (x.z() - w.z()); if ((e - r.z()).norm() > 1e-6 * (1 + e.norm())) return bad("inner residual", (e - r.z()).norm()); }
  return 0;
}''')
bug('gemva-zero-factor', 'C02', 'gemvA with a = 0 and b neither 0 nor 1', 'the product is skipped together with the scaling of y',
    [(MPC, '''    throw std::runtime_error("Size mismatch in MpcData::gemvA.");
  }
''', '''    throw std::runtime_error("Size mismatch in MpcData::gemvA.");
  }
  if (a == 0.0) {
    return;  // nothing to add
  }
''')], MP + r'''
int main() {
  MpcP p(2, 2, 1, 3); MpcData& d = p.data();
  for (double a : {0.0, 1.0, -1.0, 0.5}) for (double b : {0.0, 1.0, 3.0}) { VectorXd x = rv(p.nz()), y = rv(p.nv()), m(p.nv()); VectorXd y0 = y; m.setZero(); d.gemvA(x, 1.0, 0.0, &m); d.gemvA(x, a, b, &y); if ((y - a * m - b * y0).norm() > 1e-10) return bad("a A x + b y", (y - a * m - b * y0).norm()); }
  return 0;
}''')
bug('riccati-first-input-matrix', 'C04', 'input matrices B that vary along the horizon', 'the factorization uses the first input matrix at every stage',
    [(RIC, '    P_[i] -= data_->B_(i);', '    P_[i] -= data_->B_(0);')], MP + r'''
int main() {
  MpcP p(3, 2, 1, 2); MpcData& D = p.data(); int nz = p.nz(), nl = p.nl(), nv = p.nv(); FullVariable x(nz, nl, nv), w(nz, nl, nv), dx(nz, nl, nv); FullResidual rr(nz, nl, nv); x.LinkData(&D); w.LinkData(&D); dx.LinkData(&D); rr.LinkData(&D);
  RiccatiLinearSolver s(p.N, p.nx, p.nu, p.nc); s.LinkData(&D); x.z() = rv(nz); x.l() = rv(nl); x.v() = rv(nv).cwiseAbs(); x.InitializeConstraintMargin(); w.Copy(x); rr.InnerResidual(x, w, 1e-3); rr.Negate();
  if (!s.Initialize(x, w, 1e-3) || !s.Solve(rr, &dx)) return bad("solve failed", 1);
  VectorXd e = rr.l(), g(nl); g.setZero(); D.gemvG(dx.z(), -1.0, 0.0, &g); g += 1e-3 * dx.l(); if ((g - e).norm() > 1e-8 * (1 + e.norm())) return bad("equality rows of the Newton system", (g - e).norm());
  return 0;
}''')
bug('armijo-trial-merit', 'C10', 'a line search in which a step decreases the merit by less than the required fraction', 'the sufficient decrease is measured against the trial merit',
    [(IMPL, 'if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {', 'if (mp <= m0 - 2.0 * t * opts_.eta * mp) {')], _m._m.LSDEMO.replace('NONMONO', 'false').replace('k < 150', 'k < 400'))
bug('factor-reused', 'C13', 'a second problem of the same size, solved with the same solver, whose inactive set and regularization agree with the last system of the first', 'the factorization of an earlier problem is used',
    [(DCH, '''  // B is used to avoid temporaries
''', '''  // Nothing to do if the system is the one factored last.
  if (factored_ == data_ && factored_sigma_ == sigma &&
      factored_Gamma_ == Gamma_) {
    return true;
  }
  factored_ = nullptr;
  // B is used to avoid temporaries
'''), (DCH, '''  } else {
    return true;
  }
}

bool DenseCholeskySolver::Solve''', '''  } else {
    factored_ = data_;
    factored_sigma_ = sigma;
    factored_Gamma_ = Gamma_;
    return true;
  }
}

bool DenseCholeskySolver::Solve'''), (DCHH, '''  Eigen::MatrixXd B_;
''', '''  Eigen::MatrixXd B_;

  // the system factored last
  const DenseData* factored_ = nullptr;
  double factored_sigma_ = 0.0;
  Eigen::VectorXd factored_Gamma_;
''')], r'''
int main() {
  for (int k = 0; k < 20; k++) {
    QP a = feasible(3, 1, 2), b = feasible(3, 1, 2); a.b.setConstant(100); b.b.setConstant(50); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF;
    FBstabDense S(3, 1, 2), U(3, 1, 2); S.UpdateOptions(o); U.UpdateOptions(o); Var x(3, 1, 2), y(3, 1, 2), w(3, 1, 2); SolverOut s, u = U.Solve(b, &y); for (int j = 0; j < 2; j++) s = S.Solve(j ? b : a, j ? &x : &w);
    if (s.eflag != u.eflag || s.newton_iters != u.newton_iters || !(x.z == y.z)) return bad("fresh and used solver differ", (x.z - y.z).norm());
  }
  return 0;
}''')
bug('margin-written-early', 'C14', 'a solve that throws', 'the margin of the guess is overwritten although the solve threw',
    [(IMPL, '''  xi_->Copy(*xk_);
  dx_->Fill(1.0);
''', '''  *y0 = xk_->y();  // the margin of the guess
  xi_->Copy(*xk_);
  dx_->Fill(1.0);
''')], r'''
int main() {
  for (int k = 0; k < 10; k++) {
    int nz = 2 + k % 3, nl = k % 2, nv = 3; Rig R(feasible(nz, nl, nv), nz, nl, nv); AlgorithmParameters o = quiet(); o.sigma0 = 1e-2; R.ls.fail_at = k % 3;
    Var x(nz, nl, nv), g(nz, nl, nv); x.z = g.z = rv(nz, 5); x.v = g.v = rv(nv, 5); x.y = g.y = rv(nv);
    try { R.solve(o, &x); } catch (const std::exception&) { if (!(x.z == g.z && x.l == g.l && x.v == g.v && x.y == g.y)) return bad("guess changed by a solve that threw", (x.y - g.y).norm()); }
  }
  return 0;
}''')
bug('coarse-zero-test', 'C15', 'a constraint whose shifted margin and multiplier are both nonzero and below 1e-7', 'the gradient near the origin is that of the origin',
    [('fbstab/components/riccati_linear_solver.h', 'zero_tolerance_ = 1e-13;', 'zero_tolerance_ = 1e-7;')], MP + r'''
// at a point with margin a < 0 and multiplier 0 the gradient of phi is (2 alpha, alpha)
int main() {
  for (double m : {1e-3, 1e-8, 1e-10}) { MpcP p(1, 1, 1, 1); for (int i = 0; i < 2; i++) { p.E(i).setConstant(1); p.L(i).setConstant(0); p.d(i).setConstant(m); } MpcData& D = p.data(); int nz = p.nz(), nl = p.nl(), nv = p.nv();
    FullVariable x(nz, nl, nv), dx(nz, nl, nv); FullResidual rr(nz, nl, nv); for (FullVariable* v : {&x, &dx}) v->LinkData(&D); rr.LinkData(&D); rr.Fill(0); rr.v().setConstant(1); x.InitializeConstraintMargin(); double sg = 1e-3; RiccatiLinearSolver s(1, 1, 1, 1); s.LinkData(&D);
    if (!s.Initialize(x, x, sg) || !s.Solve(rr, &dx)) return bad("solve failed", 1);
    double al = 0.95, g = 2 * al, mu = al + sg * g; VectorXd Az(nv); Az.setZero(); D.gemvA(dx.z(), 1.0, 0.0, &Az); VectorXd e = mu * dx.v() - g * Az; for (int i = 0; i < nv; i++) if (std::fabs(e(i) - 1) > 1e-6) return bad("inequality row of the Newton system", e(i) - 1); }
  return 0;
}''')
bug('first-line-stale', 'C16', 'display level ITER and a second solve with the same solver', 'the first line shows the inner residual of the previous solve',
    [(IMPL, '  ri_->Fill(0.0);\n', '')], r'''
int main() {
  QP q = feasible(3, 1, 4); FBstabDense S(3, 1, 4); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::ITER; S.UpdateOptions(o); Cap a, b; Var x(3, 1, 4), y(3, 1, 4); S.Solve(q, &x, a); S.Solve(q, &y, b); size_t k = a.s.find("\n\nOpt"), m = b.s.find("\n\nOpt");
  if (a.s.substr(0, a.s.find("Time")) != b.s.substr(0, b.s.find("Time"))) return bad("two runs of the same solve print different lines", double(k) - double(m));
  return 0;
}''')
bug('projection-keeps-small', 'C17', 'a multiplier between -1e-10 and 0', 'the projection leaves small negative multipliers',
    [(VAR, '*v_ = v_->cwiseMax(0);', '*v_ = (v_->array() < -1e-10).select(0.0, *v_);')], r'''
int main() {
  FullVariable x(1, 0, 5); x.v() << -1, -1e-9, -1e-11, -1e-300, 2; x.ProjectDuals(); for (int i = 0; i < 5; i++) if (x.v()(i) != (i == 4 ? 2 : 0)) return bad("projected multiplier", x.v()(i));
  return 0;
}''')
bug('factor-kept-after-short-step', 'C18', 'a Newton step that follows a very short one', 'the Newton system is not set up at the current iterate',
    [(IMPL, '''    const bool initialize_flag = linear_solver_->Initialize(*x, *xbar, sigma);
''', '''    // The system hardly changes when the last step was short.
    const bool initialize_flag =
        (i > 0 && t < 1e-3) || linear_solver_->Initialize(*x, *xbar, sigma);
''')], r'''
struct LS2 : public DenseCholeskySolver { using DenseCholeskySolver::DenseCholeskySolver; int ni = 0; mutable int bad = 0; bool Initialize(const FullVariable& x, const FullVariable& b, double s) { ni++; return DenseCholeskySolver::Initialize(x, b, s); } bool Solve(const FullResidual& r, FullVariable* dx) const { if (ni != 1 + seen) bad++; seen = ni; return DenseCholeskySolver::Solve(r, dx); } mutable int seen = 0; };
int main() {
  int nb = 0; for (int k = 0; k < 400; k++) { int nz = 2 + k % 4, nl = k % 2, nv = 2 + k % 6; QP q = feasible(nz, nl, nv); DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); FullVariable a(nz, nl, nv), b(nz, nl, nv), c(nz, nl, nv), d(nz, nl, nv); FullResidual r(nz, nl, nv), s(nz, nl, nv); LS2 ls(nz, nl, nv); FullFeasibility f(nz, nl, nv);
    FBstabAlgorithm<FullVariable, FullResidual, LS2, FullFeasibility> alg(&a, &b, &c, &d, &r, &s, &ls, &f); AlgorithmParameters o = quiet(); o.sigma0 = 1e-8; o.eta = 0.4; o.beta = 0.2; o.nonmonotone_linesearch = false; alg.UpdateParameters(&o); Var x(nz, nl, nv); x.z = rv(nz, 50); x.v = rv(nv, 50); Cap os; try { alg.Solve(D, &x.z, &x.l, &x.v, &x.y, os); } catch (const std::exception&) {} nb += ls.bad; }
  return nb ? bad("Newton steps without a system of their own", nb) : 0;
}''')
bug('both-reported-as-dual', 'C06', 'a direction that certifies primal and dual infeasibility at once', 'only dual infeasibility is reported',
    [(FEAS, '  } else if (primal_feasible && !dual_feasible) {', '  } else if (!dual_feasible) {')], r'''
int main() {
  QP q(2, 0, 2); q.H.setZero(); q.f << -1, 0; q.A << 0, 1, 0, -1; q.b << -1, -1; DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); FullVariable x(2, 0, 2); x.LinkData(&D); x.z() << 1, 0; x.v() << 1, 1; x.InitializeConstraintMargin(); FullFeasibility F(2, 0, 2); F.LinkData(&D);
  if (F.CheckFeasibility(x, 1e-8) != FullFeasibility::FeasibilityStatus::BOTH) return bad("verdict", 1);
  return 0;
}''')
bug('map-null-unchecked', 'C12', 'a null pointer mapped with valid sizes', 'a null mapping is accepted',
    [(SEQ, '    if (data == nullptr) {', '    if (data == nullptr && len * nrows == 0) {')], r'''
int main() {
  bool t = false; try { MapMatrixSequence m(nullptr, 2, 2, 2); } catch (const std::runtime_error&) { t = true; } if (!t) return bad("null mapping accepted", 1);
  double b[8]; MapMatrixSequence m(b, 2, 2, 2); return 0;
}''')
bug('equality-regularization-floor', 'C03', 'a regularization below 1e-9', 'the equality rows of the Newton system use another sigma',
    [(DCH, '-sigma * Eigen::MatrixXd::Identity(nl_, nl_);', '-std::max(sigma, 1e-9) * Eigen::MatrixXd::Identity(nl_, nl_);')], r'''
int main() {
  for (double s : {1e-3, 1e-8, 1e-10}) { QP q(2, 2, 1); q.H.setIdentity(); q.G << 1, 0, 1, 0; q.A << 1, 1; q.f << 1, 1; q.h << 0, 0; q.b << 10; DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); FullVariable x(2, 2, 1), dx(2, 2, 1); x.LinkData(&D); dx.LinkData(&D); x.InitializeConstraintMargin(); FullResidual r(2, 2, 1); r.LinkData(&D); r.Fill(0); r.l() << 1, -1;
    DenseCholeskySolver S(2, 2, 1); S.LinkData(&D); if (!S.Initialize(x, x, s) || !S.Solve(r, &dx)) return bad("solve failed", s); VectorXd e = s * dx.l() - q.G * dx.z(); if ((e - r.l()).norm() > 1e-3) return bad("equality rows", (e - r.l()).norm()); }
  return 0;
}''')
bug('stall-tol-not-copied', 'C09', 'a stall tolerance other than the default', 'setting the stall tolerance sets it to another tolerance',
    [(IMPL, '  opts_.stall_tol = options->stall_tol;', '  opts_.stall_tol = options->infeas_tol;')], r'''
int main() {
  Rig R(feasible(2, 1, 2), 2, 1, 2); AlgorithmParameters o = quiet(); o.stall_tol = 1e-5; o.infeas_tol = 1e-7; R.alg.UpdateParameters(&o); AlgorithmParameters p = R.alg.CurrentParameters(); if (p.stall_tol != 1e-5) return bad("stall_tol in effect", p.stall_tol);
  return 0;
}''')
bug('sum-of-norms', 'C05', 'a point whose residual norm is within the tolerance but not the sum of the norms of its parts (or an equality residual)', 'the reported residual is not the norm of the residual',
    [(IMPL, '  output.residual = r.Norm();', '  output.residual = std::max(r.z_norm(), r.v_norm());')], r'''
int main() {
  for (int k = 0; k < 50; k++) { int nz = 3, nl = 2, nv = 3; QP q = feasible(nz, nl, nv); FBstabDense S(nz, nl, nv); auto o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-2; o.max_newton_iters = 1 + k % 5; S.UpdateOptions(o); Var x(nz, nl, nv); SolverOut s = S.Solve(q, &x); if (s.eflag != ExitFlag::SUCCESS && s.eflag != ExitFlag::MAXITERATIONS) continue;
    DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); FullVariable p(nz, nl, nv); p.LinkData(&D); p.z() = x.z; p.l() = x.l; p.v() = x.v; p.y() = x.y; FullResidual r(nz, nl, nv); r.LinkData(&D); r.SetAlpha(o.alpha); r.PenalizedNaturalResidual(p); if (std::fabs(r.Norm() - s.residual) > 1e-9 * (1 + r.Norm())) return bad("reported residual", s.residual - r.Norm()); }
  return 0;
}''')
