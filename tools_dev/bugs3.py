import importlib.util, os
_s = importlib.util.spec_from_file_location('b2', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HDR = _m.HDR
BUGS = []
def bug(id, prop, needs, breaks, edits, main, sh=None):
    b = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=HDR + main)
    if sh: b['demo_sh'] = sh
    BUGS.append(b)
IMPL = 'fbstab/fbstab_algorithm-impl.h'; MPC = 'fbstab/components/mpc_data.cc'; RIC = 'fbstab/components/riccati_linear_solver.cc'
FEAS = 'fbstab/components/full_feasibility.cc'; VAR = 'fbstab/components/full_variable.cc'; SEQ = 'tools/matrix_sequence.h'
DCH = 'fbstab/components/dense_cholesky_solver.cc'
SEQS = r'''
struct Shape { int len, r, c; };
static MatrixSequence seq(Shape s, double scale = 1) { MatrixSequence m(s.len, s.r, s.c); for (int i = 0; i < m.size(); i++) m.data()[i] = scale * rnd(); return m; }
// Q R S q r A B c E L d
static bool accepted(const Shape* s, int nx) {
  std::vector<MatrixSequence> m; for (int i = 0; i < 11; i++) m.push_back(seq(s[i])); VectorXd x0 = VectorXd::Ones(nx);
  std::vector<MapMatrixSequence> w; for (int i = 0; i < 11; i++) w.push_back(MapMatrixSequence(m[i])); Eigen::Map<const VectorXd> x(x0.data(), nx);
  try { MpcData d(&m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7], &m[8], &m[9], &m[10], &x0); return true; } catch (const std::exception&) { return false; }
}
'''
bug('mpc-dynamics-shape', 'C11', 'a sequence A whose row count is right and whose column count is not (or the other way round)', 'MpcData accepts dynamics matrices that are not nx x nx',
    [(MPC, 'if (A_.rows() != nx || A_.cols() != nx) {', 'if (A_.rows() != nx && A_.cols() != nx) {')], SEQS + r'''
int main() {
  const int N = 3, nx = 2, nu = 1, nc = 2;
  const Shape ok[11] = {{N + 1, nx, nx}, {N + 1, nu, nu}, {N + 1, nu, nx}, {N + 1, nx, 1}, {N + 1, nu, 1}, {N, nx, nx}, {N, nx, nu}, {N, nx, 1}, {N + 1, nc, nx}, {N + 1, nc, nu}, {N + 1, nc, 1}};
  if (!accepted(ok, nx)) return bad("valid data rejected", 0);
  Shape a[11]; std::copy(ok, ok + 11, a); a[5].c = nx + 1; if (accepted(a, nx)) return bad("A with too many columns accepted", 1);
  std::copy(ok, ok + 11, a); a[5].r = nx - 1; if (accepted(a, nx)) return bad("A with too few rows accepted", 2);
  return 0;
}''')
bug('linesearch-limit-typo', 'C09', 'a line search limit that differs from the inner iteration limit', 'sanitization replaces the line search limit by the inner iteration limit',
    [(IMPL, 'max_linesearch_iters = std::max(max_linesearch_iters, 1);', 'max_linesearch_iters = std::max(max_inner_iters, 1);')], r'''
int main() {
  FBstabDense::Options o = FBstabDense::DefaultOptions(); o.max_linesearch_iters = 7; o.max_inner_iters = 33; FBstabDense::Options p = o; p.ValidateOptions();
  if (p.max_linesearch_iters != 7) return bad("line search limit changed", p.max_linesearch_iters);
  if (p.max_inner_iters != 33) return bad("inner limit changed", p.max_inner_iters);
  return 0;
}''')
bug('preset-below-range', 'C09', 'the reliable preset (nobody looks at sigma_min otherwise)', 'the reliable preset does not pass sanitization unchanged',
    [(IMPL, '  sigma_min = 1e-10;\n  beta = 0.9;', '  sigma_min = 1e-14;\n  beta = 0.9;')], r'''
int main() {
  FBstabDense::Options o = FBstabDense::ReliableOptions(), p = o; p.ValidateOptions();
  if (p.sigma_min != o.sigma_min || p.sigma0 != o.sigma0 || p.sigma_max != o.sigma_max) return bad("preset changed by sanitization", p.sigma_min - o.sigma_min);
  return 0;
}''')
bug('sigma-floor-dropped', 'C09', 'sigma0 below sigma_min after sigma_min has been raised into its range', 'sigma0 is clamped before the bounds it is clamped to',
    [(IMPL, '  sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);\n', ''), (IMPL, '  sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);\n', '  if (sigma_min <= sigma_max) {\n    sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);\n  }\n  sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);\n')], r'''
int main() {
  const double v[] = {1e-14, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1.0, 1e3};
  for (double a : v) for (double b : v) for (double c : v) { FBstabDense::Options o = FBstabDense::DefaultOptions(); o.sigma0 = a; o.sigma_min = b; o.sigma_max = c; o.ValidateOptions();
    if (!(o.sigma_min <= o.sigma0 && o.sigma0 <= o.sigma_max)) return bad("sigma0 outside its bounds", o.sigma0); }
  return 0;
}''')
bug('const-access-unchecked', 'C12', 'read access to matrix -1 of a constant owned sequence', 'a negative index into a constant owned sequence is not rejected',
    [(SEQ, '''  Eigen::Map<const Eigen::MatrixXd> operator()(int k) const {
    if (k < 0 || k >= N_) {
      throw std::out_of_range("Bad indexing in MatrixSequence");
    }
''', '''  Eigen::Map<const Eigen::MatrixXd> operator()(int k) const {
    if (k >= N_) {
      throw std::out_of_range("Bad indexing in MatrixSequence");
    }
''')], r'''
int main() {
  MatrixSequence m(3, 2, 2); const MatrixSequence& c = m;
  for (int k : {-1, -5, 3, 4}) { bool t = false; try { c(k); } catch (const std::out_of_range&) { t = true; } if (!t) return bad("bad index accepted", k); }
  for (int k = 0; k < 3; k++) c(k);
  return 0;
}''')
ASAN_SH = '''#!/bin/sh
# fails (non-zero) if the property is broken; run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in fbstab/components/*.cc fbstab/*.cc "$D/demo.cc"; do echo "$f"; done > "$T/l"
xargs -P 8 -I{} sh -c 'g++ -std=c++11 -O0 -I. -I/usr/include/eigen3 -c "$1" -o "$2/$(echo "$1" | tr / _).o"' x {} "$T" < "$T/l" || exit 99
g++ "$T"/*.o -o "$T/demo" || exit 99
timeout 120 "$T/demo"
'''
bug('riccati-terminal-accumulates', 'C04', 'a second Newton system with the same solver and cross terms at the last stage', 'the terminal cross term accumulates the barrier terms of earlier systems',
    [(RIC, '    S_[i] = data_->S_(i);\n', '    if (i < N_) {\n      S_[i] = data_->S_(i);\n    } else if (!terminal_set_) {\n      S_[i] = data_->S_(i);\n      terminal_set_ = true;\n    }\n'),
     ('fbstab/components/riccati_linear_solver.h', '  double alpha_ = 0.95;', '  bool terminal_set_ = false;  // S_[N] holds the terminal cross term\n  double alpha_ = 0.95;')], r'''
int main() {
  const int N = 2, nx = 2, nu = 1, nc = 2, nz = (N + 1) * (nx + nu), nl = (N + 1) * nx, nv = (N + 1) * nc;
  MatrixSequence Q(N + 1, nx, nx), R(N + 1, nu, nu), S(N + 1, nu, nx), q(N + 1, nx), r(N + 1, nu), A(N, nx, nx), B(N, nx, nu), c(N, nx), E(N + 1, nc, nx), L(N + 1, nc, nu), d(N + 1, nc);
  for (int i = 0; i <= N; i++) { Q(i).setIdentity(); R(i).setIdentity(); S(i).setZero(); q(i).setOnes(); r(i).setOnes(); E(i) = rm(nc, nx); L(i) = rm(nc, nu); d(i).setConstant(-1); if (i < N) { A(i) = rm(nx, nx); B(i) = rm(nx, nu); c(i).setZero(); } }
  VectorXd x0 = VectorXd::Ones(nx); MpcData D(&Q, &R, &S, &q, &r, &A, &B, &c, &E, &L, &d, &x0);
  FullVariable x(nz, nl, nv), w(nz, nl, nv), dx(nz, nl, nv); FullResidual rr(nz, nl, nv); x.LinkData(&D); w.LinkData(&D); dx.LinkData(&D); rr.LinkData(&D);
  RiccatiLinearSolver s(N, nx, nu, nc); s.LinkData(&D); VectorXd first;
  for (int k = 0; k < 3; k++) { gen.seed(5); x.z() = rv(nz); x.l() = rv(nl); x.v() = rv(nv).cwiseAbs(); x.InitializeConstraintMargin(); w.Copy(x); rr.InnerResidual(x, w, 1e-3);
    if (!s.Initialize(x, w, 1e-3) || !s.Solve(rr, &dx)) return bad("solve failed", k); if (k == 0) first = dx.z(); else if ((first - dx.z()).norm() > 1e-9 * (1 + first.norm())) return bad("the same system has another solution", (first - dx.z()).norm()); }
  return 0;
}''')
bug('feasibility-stale-gradient', 'C06', 'a primal infeasible problem with a nonzero linear cost', 'the primal certificate is tested with the cost vector still in the accumulator',
    [(FEAS, '  tz_.fill(0.0);\n  data_->gemvAT(x.v(), 1.0, 1.0, &tz_);', '  data_->gemvAT(x.v(), 1.0, 1.0, &tz_);')], r'''
int main() {
  QP q(1, 0, 2); q.H << 1.0; q.f << 10.0; q.A << 1.0, -1.0; q.b << -1.0, -1.0; DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b);
  FullVariable x(1, 0, 2); x.LinkData(&D); x.v() << 1.0, 1.0; x.InitializeConstraintMargin(); FullFeasibility F(1, 0, 2); F.LinkData(&D);
  if (F.CheckFeasibility(x, 1e-8) != FullFeasibility::FeasibilityStatus::PRIMAL_INFEASIBLE) return bad("certificate not recognised", 1);
  return 0;
}''')
bug('norm-cancels-by-product', 'C17', 'an iterate with nonzero equality duals', 'the norm of an iterate leaves out the equality duals',
    [(VAR, 'return sqrt(t1 * t1 + t2 * t2 + t3 * t3);', 'return sqrt(t1 * t1 + t2 * t3 + t3 * t3);')], r'''
int main() {
  FullVariable x(3, 2, 4); x.z() = rv(3); x.l() = rv(2, 5); x.v() = rv(4); const double e = std::sqrt(x.z().squaredNorm() + x.l().squaredNorm() + x.v().squaredNorm());
  return std::fabs(x.Norm() - e) < 1e-12 * (1 + e) ? 0 : bad("norm", x.Norm() - e);
}''')
bug('prox-count-late', 'C08', 'a proximal budget that runs out', 'one proximal iteration too many is performed and reported',
    [(IMPL, 'for (int k = 0; k < opts_.max_prox_iters; k++) {', 'for (int k = 0; k <= opts_.max_prox_iters; k++) {')], r'''
int main() {
  QP q = feasible(5, 2, 8); FBstabDense::Options o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.abs_tol = 1e-14; o.rel_tol = 0; o.stall_tol = 1e-14; o.sigma0 = 1.0; o.sigma_max = 10; o.check_feasibility = false;
  for (int m = 1; m < 5; m++) { FBstabDense s(5, 2, 8); o.max_prox_iters = m; s.UpdateOptions(o); Var x(5, 2, 8); SolverOut r = s.Solve(q, &x); if (r.prox_iters > m) return bad("proximal iterations", r.prox_iters); }
  return 0;
}''')
bug('reference-sums-cost', 'C03', 'a dense Newton step with more than one equality constraint', 'the regularisation of the equality block is placed on the whole block instead of its diagonal',
    [(DCH, 'K_.block(nz_, nz_, nl_, nl_) = -sigma * Eigen::MatrixXd::Identity(nl_, nl_);', 'K_.block(nz_, nz_, nl_, nl_).setConstant(-sigma);')], r'''
int main() {
  const int nz = 4, nl = 2, nv = 3; QP q = feasible(nz, nl, nv); DenseData D(&q.H, &q.f, &q.G, &q.h, &q.A, &q.b); FullVariable x(nz, nl, nv), w(nz, nl, nv), dx(nz, nl, nv); x.LinkData(&D); w.LinkData(&D); dx.LinkData(&D);
  x.z() = rv(nz); x.l() = rv(nl); x.v() = rv(nv).cwiseAbs(); x.InitializeConstraintMargin(); w.Copy(x); FullResidual r(nz, nl, nv); r.LinkData(&D); r.InnerResidual(x, w, 0.1); DenseCholeskySolver s(nz, nl, nv); s.LinkData(&D);
  if (!s.Initialize(x, w, 0.1) || !s.Solve(r, &dx)) return bad("solve failed", 1); VectorXd e = -q.G * dx.z() + 0.1 * dx.l() - r.l(); return e.norm() < 1e-9 ? 0 : bad("second block row", e.norm());
}''')
bug('final-level-progress', 'C16', 'display level FINAL', 'the column header of the iteration log is also printed at level FINAL',
    [(IMPL, '''PrintIterHeader(const OutputStream& os)
    const {
  char buff[100];
  if (opts_.display_level == Display::ITER) {''', '''PrintIterHeader(const OutputStream& os)
    const {
  char buff[100];
  if (opts_.display_level == Display::ITER || opts_.display_level == Display::FINAL) {''')], r'''
int main() {
  QP q = feasible(4, 1, 5); FBstabDense s(4, 1, 5); FBstabDense::Options o = FBstabDense::DefaultOptions(); o.display_level = Display::FINAL; s.UpdateOptions(o); Var x(4, 1, 5); Cap c; s.Solve(q, &x, c);
  return c.s.find("Inner tol") == std::string::npos ? 0 : bad("progress at level FINAL", 1);
}''')
