// Replay / bounded stand-in harness: runs the real code of /repo on generated inputs against naive oracles.
#pragma once
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <Eigen/Dense>
#include "fbstab/fbstab_algorithm.h"
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/dense_data.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "tools/matrix_sequence.h"
#include "tools/output_stream.h"

using Eigen::MatrixXd; using Eigen::VectorXd; using namespace fbstab;
typedef Eigen::Map<const VectorXd> CMap;

struct Fail { std::string m; };
template <class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(17); int d[] = {0, ((o << a), 0)...}; (void)d; return o.str(); }
#define FAIL(...) throw Fail{cat(__VA_ARGS__)}
#define REQ(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
inline std::string str(const VectorXd& v) { std::ostringstream o; o.precision(10); o << "(" << v.transpose() << ")"; return o.str(); }

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  int i(int a, int b) { return a + (int)(g() % (uint64_t)(b - a + 1)); }
  double u() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  bool p(double q) { return u() < q; }
  double n() { double s = 0; for (int k = 0; k < 6; k++) s += u(-1, 1); return s / 1.4; }
  double lg(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }   // log-uniform
  template <class T> T pick(std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, i(0, (int)l.size() - 1)); return *it; }
  VectorXd v(int n_, double s = 1) { VectorXd x(n_); for (int k = 0; k < n_; k++) x(k) = s * n(); return x; }
  MatrixXd m(int r, int c, double s = 1) { MatrixXd x(r, c); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) x(a, b) = s * n(); return x; }
  VectorXd iv(int n_, int k = 3) { VectorXd x(n_); for (int a = 0; a < n_; a++) x(a) = i(-k, k); return x; }
  // values of the source's own literals (FB_DICT), so that inputs at its thresholds are tried too
  static const std::vector<double>& dict() { static const std::vector<double> d = [] { std::vector<double> o; const char* e = getenv("FB_DICT"); std::istringstream s(e ? e : ""); double x; while (s >> x) o.push_back(x); return o; }(); return d; }
  bool wide = false;        // this iteration uses large dimensions
  int huge = 0;             // number of constraints of this iteration, from the source's own literals
  int big() { std::vector<int> c; for (double d : dict()) if (d >= 70 && d <= 20000 && d == (int)d) c.push_back((int)d); return c.empty() ? 0 : c[i(0, (int)c.size() - 1)] + i(-1, 2); }
  int dim(int a, int b, int cap) {
    if (!wide || p(0.3)) return i(a, b);
    if (!dict().empty() && p(0.6)) { double d = dict()[i(0, (int)dict().size() - 1)]; if (std::fabs(d) < 1e6) { int k = (int)d + i(-1, 1); if (k >= a && k <= cap) return k; } }
    return i(a, cap);
  }
  double mag() {            // magnitude of a random point
    if (p(0.88)) return 1;
    if (!dict().empty() && p(0.5)) { double d = std::fabs(dict()[i(0, (int)dict().size() - 1)]) * u(0.5, 2); if (d > 1e-9 && d < 1e6) return d; }
    return lg(1e-6, 1e5);
  }
  double sc() { return p(0.5) ? pick({0.0, 1.0, -1.0, 2.0, -2.0}) : u(-3, 3); }
};

inline double inf(const VectorXd& v) { double m = 0; for (int k = 0; k < v.size(); k++) { if (std::isnan(v(k))) return NAN; m = std::max(m, std::fabs(v(k))); } return m; }
inline bool near(const VectorXd& a, const VectorXd& b, double tol) {
  if (a.size() != b.size()) return false;
  for (int k = 0; k < a.size(); k++) if (!(std::fabs(a(k) - b(k)) <= tol)) return false;
  return true;
}
inline bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0); }
inline bool nearS(double a, double b, double tol) { return std::fabs(a - b) <= tol; }

// ------------------------------------------------------------------ problems
struct QP {                       // the abstract problem with assembled matrices, and the real data objects behind it
  MatrixXd H, G, A; VectorXd f, h, b;
  int nz() const { return H.rows(); } int nl() const { return G.rows(); } int nv() const { return A.rows(); }
};
struct DenseP {
  QP q; FBstabDense::ProblemData d; std::string kind = "dense";
  int nz, nl, nv;
  void sync() { d.H = q.H; d.G = q.G; d.A = q.A; d.f = q.f; d.h = q.h; d.b = q.b; nz = q.nz(); nl = q.nl(); nv = q.nv(); }
  DenseP() : d(1, 0, 1) {}
  std::string dims() const { return cat("dense nz=", nz, " nl=", nl, " nv=", nv); }
};
struct MpcP {
  QP q; FBstabMpc::ProblemData d; int N, nx, nu, nc; int nz, nl, nv;
  void sync() {                  // assemble the documented QP naively from the stage data
    nz = (N + 1) * (nx + nu); nl = (N + 1) * nx; nv = (N + 1) * nc; int w = nx + nu;
    q.H = MatrixXd::Zero(nz, nz); q.G = MatrixXd::Zero(nl, nz); q.A = MatrixXd::Zero(nv, nz);
    q.f = VectorXd::Zero(nz); q.h = VectorXd::Zero(nl); q.b = VectorXd::Zero(nv);
    const FBstabMpc::ProblemData& c = d;
    for (int i = 0; i <= N; i++) {
      for (int a = 0; a < nx; a++) { q.f(i * w + a) = c.q(i)(a, 0); for (int e = 0; e < nx; e++) q.H(i * w + a, i * w + e) = c.Q(i)(a, e); }
      for (int a = 0; a < nu; a++) { q.f(i * w + nx + a) = c.r(i)(a, 0);
        for (int e = 0; e < nu; e++) q.H(i * w + nx + a, i * w + nx + e) = c.R(i)(a, e);
        for (int e = 0; e < nx; e++) { q.H(i * w + nx + a, i * w + e) = c.S(i)(a, e); q.H(i * w + e, i * w + nx + a) = c.S(i)(a, e); } }
      for (int a = 0; a < nx; a++) { q.G(i * nx + a, i * w + a) = -1; q.h(i * nx + a) = i == 0 ? -d.x0(a) : -c.c(i - 1)(a, 0); }
      if (i > 0) for (int a = 0; a < nx; a++) { for (int e = 0; e < nx; e++) q.G(i * nx + a, (i - 1) * w + e) = c.A(i - 1)(a, e);
        for (int e = 0; e < nu; e++) q.G(i * nx + a, (i - 1) * w + nx + e) = c.B(i - 1)(a, e); }
      for (int a = 0; a < nc; a++) { q.b(i * nc + a) = -c.d(i)(a, 0);
        for (int e = 0; e < nx; e++) q.A(i * nc + a, i * w + e) = c.E(i)(a, e);
        for (int e = 0; e < nu; e++) q.A(i * nc + a, i * w + nx + e) = c.L(i)(a, e); }
    }
  }
  std::string dims() const { return cat("mpc N=", N, " nx=", nx, " nu=", nu, " nc=", nc); }
};

inline MatrixXd psd(Rng& r, int n, int rank, double s = 1) { MatrixXd M = r.m(n, rank, s); return M * M.transpose(); }

enum Sort { FEAS, PINF, DINF, BOTH, ANY };
inline DenseP dense_problem(Rng& r, Sort s = FEAS, bool spd = false) {
  DenseP P; int nz = r.dim(1, 5, 40), nl = r.p(0.35) ? 0 : r.i(0, std::max(0, nz - 1)), nv = r.dim(1, 7, 70);
  if (r.huge) { nz = r.i(1, 3); nl = r.i(0, nz - 1); nv = r.huge; }
  if (s == DINF || s == BOTH) { nl = std::min(nl, nz - 1); }
  QP& q = P.q;
  q.H = psd(r, nz, (spd || r.p(0.6)) ? nz : r.i(0, nz)); if (spd) q.H += 0.3 * MatrixXd::Identity(nz, nz);
  if (s == ANY && r.p(0.2)) q.H.setZero();
  q.G = r.m(nl, nz); q.A = r.m(nv, nz); q.f = r.v(nz, 2);
  VectorXd zf = r.v(nz, 1.5); q.h = q.G * zf; q.b = q.A * zf;
  for (int k = 0; k < nv; k++) q.b(k) += r.p(0.3) ? 0.0 : r.u(0, 2);
  if (s == PINF || s == BOTH) {
    if (nv < 2) { nv = 2; q.A = r.m(nv, nz); q.b = q.A * zf; }
    q.A.row(1) = -q.A.row(0); q.b(0) = r.u(-2, -0.5); q.b(1) = -q.b(0) - r.u(0.5, 2);
  }
  if (s == DINF || s == BOTH) {        // descent direction in the kernel of H and G, feasible for A
    VectorXd dir = r.v(nz); if (dir.norm() < 0.2) dir(0) = 1; dir.normalize();
    MatrixXd Pm = MatrixXd::Identity(nz, nz) - dir * dir.transpose();
    q.H = Pm * q.H * Pm; q.G = q.G * Pm; q.h = q.G * zf;
    for (int k = 0; k < nv; k++) { if (s == BOTH && k < 2) { q.A.row(k) = (q.A.row(k) * Pm).eval(); continue; } double t = q.A.row(k) * dir; if (t > 0) q.A.row(k) = (q.A.row(k) - (t + (r.p(0.5) ? 0 : r.u(0, 1))) * dir.transpose()).eval(); }
    if (s == BOTH) { q.A.row(1) = -q.A.row(0); }
    q.f = Pm * q.f - dir * r.u(0.5, 2);
    if (s == DINF) { q.b = q.A * zf; for (int k = 0; k < nv; k++) q.b(k) += r.u(0, 2); }
  }
  P.sync(); return P;
}
inline void fill(Rng& r, MatrixSequence* s, double sc = 1) { for (int k = 0; k < s->size(); k++) s->data()[k] = sc * r.n(); }
inline MpcP mpc_problem(Rng& r, Sort s = FEAS, bool spd = false) {
  MpcP P; P.N = r.p(0.3) ? 1 : r.dim(1, 5, 40); P.nx = r.dim(1, 4, P.N > 12 ? 4 : 12); P.nu = r.dim(1, 3, P.N > 12 ? 3 : 10); P.nc = r.dim(1, 5, P.N > 12 ? 6 : 20);
  int N = P.N, nx = P.nx, nu = P.nu, nc = P.nc;
  FBstabMpc::ProblemData& d = P.d;
  d.Q = MatrixSequence(N + 1, nx, nx); d.R = MatrixSequence(N + 1, nu, nu); d.S = MatrixSequence(N + 1, nu, nx);
  d.q = MatrixSequence(N + 1, nx); d.r = MatrixSequence(N + 1, nu); d.A = MatrixSequence(N, nx, nx); d.B = MatrixSequence(N, nx, nu); d.c = MatrixSequence(N, nx);
  d.E = MatrixSequence(N + 1, nc, nx); d.L = MatrixSequence(N + 1, nc, nu); d.d = MatrixSequence(N + 1, nc);
  for (int i = 0; i <= N; i++) {
    MatrixXd K = psd(r, nx + nu, nx + nu, 0.7); if (spd || r.p(0.5)) K += 0.2 * MatrixXd::Identity(nx + nu, nx + nu);
    d.Q(i) = K.topLeftCorner(nx, nx); d.R(i) = K.bottomRightCorner(nu, nu); d.S(i) = K.bottomLeftCorner(nu, nx);
  }
  fill(r, &d.q); fill(r, &d.r); fill(r, &d.A, 0.7); fill(r, &d.B); fill(r, &d.c, 0.5); fill(r, &d.E); fill(r, &d.L);
  d.x0 = r.v(nx);
  VectorXd x = d.x0;
  for (int i = 0; i <= N; i++) {
    VectorXd u = r.v(nu); const FBstabMpc::ProblemData& c = d;
    VectorXd e = c.E(i) * x + c.L(i) * u;
    for (int a = 0; a < nc; a++) d.d(i)(a, 0) = -e(a) - (r.p(0.3) ? 0 : r.u(0, 1.5));
    if (i < N) x = c.A(i) * x + c.B(i) * u + c.c(i);
  }
  if ((s == PINF || s == BOTH) && nc >= 2) { int i = r.i(0, N); d.E(i).row(1) = -d.E(i).row(0).eval(); d.L(i).row(1) = -d.L(i).row(0).eval(); d.d(i)(0, 0) = 1; d.d(i)(1, 0) = 0.5; }
  P.sync(); return P;
}
template <class P> P make(Rng& r, Sort s = FEAS, bool spd = false);
template <> inline DenseP make<DenseP>(Rng& r, Sort s, bool spd) { return dense_problem(r, s, spd); }
template <> inline MpcP make<MpcP>(Rng& r, Sort s, bool spd) { return mpc_problem(r, s, spd); }

// real data objects
struct DenseT { typedef DenseP P; typedef DenseData Data; typedef DenseCholeskySolver LS; typedef FBstabDense Solver;
  static std::unique_ptr<Data> data(const P& p) { return std::unique_ptr<Data>(new Data(&p.d.H, &p.d.f, &p.d.G, &p.d.h, &p.d.A, &p.d.b)); }
  template <class L> static std::unique_ptr<L> ls(const P& p) { return std::unique_ptr<L>(new L(p.nz, p.nl, p.nv)); }
  static std::unique_ptr<Solver> solver(const P& p) { return std::unique_ptr<Solver>(new Solver(p.nz, p.nl, p.nv)); }
  static Solver::Variable var(const P& p) { return Solver::Variable(p.nz, p.nl, p.nv); }
};
struct MpcT { typedef MpcP P; typedef MpcData Data; typedef RiccatiLinearSolver LS; typedef FBstabMpc Solver;
  static std::unique_ptr<Data> data(const P& p) { return std::unique_ptr<Data>(new Data(&p.d.Q, &p.d.R, &p.d.S, &p.d.q, &p.d.r, &p.d.A, &p.d.B, &p.d.c, &p.d.E, &p.d.L, &p.d.d, &p.d.x0)); }
  template <class L> static std::unique_ptr<L> ls(const P& p) { return std::unique_ptr<L>(new L(p.N, p.nx, p.nu, p.nc)); }
  static std::unique_ptr<Solver> solver(const P& p) { return std::unique_ptr<Solver>(new Solver(p.N, p.nx, p.nu, p.nc)); }
  static Solver::Variable var(const P& p) { return Solver::Variable(p.N, p.nx, p.nu, p.nc); }
};

// ------------------------------------------------------------------ oracles
struct Pt { VectorXd z, l, v, y; };
template <class V> Pt pt(const V& x) { return Pt{VectorXd(x.z()), VectorXd(x.l()), VectorXd(x.v()), VectorXd(x.y())}; }
inline VectorXd margin(const QP& q, const VectorXd& z) { return q.b - q.A * z; }
inline double pfb(double a, double b, double al) { return al * (a + b - std::sqrt(a * a + b * b)) + (1 - al) * std::max(0.0, a) * std::max(0.0, b); }
struct Res { VectorXd z, l, v; double norm() const { return std::sqrt(z.squaredNorm() + l.squaredNorm() + v.squaredNorm()); } double merit() const { return 0.5 * (z.squaredNorm() + l.squaredNorm() + v.squaredNorm()); } };
inline Res nat(const QP& q, const Pt& x, int pen, double al) {
  Res r; r.z = q.H * x.z + q.f + q.G.transpose() * x.l + q.A.transpose() * x.v; r.l = q.h - q.G * x.z; r.v.resize(q.nv());
  for (int k = 0; k < q.nv(); k++) { double m = std::min(x.y(k), x.v(k)); r.v(k) = pen ? al * m + (1 - al) * std::max(0.0, x.y(k)) * std::max(0.0, x.v(k)) : m; }
  return r;
}
inline Res inner(const QP& q, const Pt& x, const Pt& xb, double sg, double al) {
  Res r; r.z = q.H * x.z + q.f + q.G.transpose() * x.l + q.A.transpose() * x.v + sg * (x.z - xb.z); r.l = q.h - q.G * x.z + sg * (x.l - xb.l); r.v.resize(q.nv());
  for (int k = 0; k < q.nv(); k++) r.v(k) = pfb(x.y(k) + sg * (x.v(k) - xb.v(k)), x.v(k), al);
  return r;
}
inline double forcing(const QP& q) { return std::sqrt(q.f.squaredNorm() + q.h.squaredNorm() + q.b.squaredNorm()); }
inline double scale(const QP& q, const Pt& x) {
  double m = 1 + inf(q.f) + inf(q.h) + inf(q.b);
  double mm = 1; if (q.H.size()) mm += q.H.cwiseAbs().maxCoeff(); if (q.G.size()) mm += q.G.cwiseAbs().maxCoeff(); if (q.A.size()) mm += q.A.cwiseAbs().maxCoeff();
  double xs = 1 + inf(x.z) + inf(x.l) + inf(x.v) + (x.y.size() ? inf(x.y) : 0);
  return m + mm * xs * 10 + xs * xs;
}
struct Cap {              // capturing output stream
  mutable std::string s; mutable int calls = 0;
  void Print(const char* m) const { s += m; calls++; }
};
inline AlgorithmParameters quiet_opts(Rng& r, bool vary = true) {
  AlgorithmParameters o; o.DefaultParameters(); o.display_level = Display::OFF;
  if (vary) {
    if (r.p(0.3)) { o.ReliableParameters(); o.display_level = Display::OFF; }
    if (r.p(0.4)) o.nonmonotone_linesearch = r.p(0.5);
    if (r.p(0.3)) o.alpha = r.u(0.3, 0.99);
    if (r.p(0.3)) { o.sigma_max = 1e-2; o.sigma0 = r.lg(1e-9, 1e-2); }
    if (r.p(0.3)) o.beta = r.u(0.2, 0.95);
    if (r.p(0.25)) o.eta = r.pick({1e-8, 1e-4, 0.1, 0.4});
    if (r.p(0.3)) o.max_newton_iters = r.i(1, 12);
    if (r.p(0.3)) o.max_prox_iters = r.i(1, 5);
    if (r.p(0.3)) o.max_inner_iters = r.i(1, 8);
    if (r.p(0.3)) o.max_linesearch_iters = r.i(1, 6);
    if (r.p(0.3)) o.check_feasibility = r.p(0.5);
    if (r.p(0.3)) o.abs_tol = r.lg(1e-10, 1e-1);
    if (r.p(0.2)) o.rel_tol = r.lg(1e-8, 1e-1);
    if (r.p(0.2)) o.stall_tol = r.lg(1e-12, 1e0);
    if (r.p(0.2)) o.infeas_tol = r.lg(1e-9, 1e-2);
    if (r.p(0.2)) o.delta = r.u(0.05, 0.9);
    if (r.p(0.2)) o.inner_tol_max = r.lg(1e-6, 10);
    if (r.p(0.2)) o.inner_tol_min = r.lg(1e-13, 1e-4);
    if (!Rng::dict().empty() && r.p(0.15)) {
      const double d = Rng::dict()[r.i(0, (int)Rng::dict().size() - 1)]; double* f[] = {&o.abs_tol, &o.rel_tol, &o.stall_tol, &o.infeas_tol, &o.eta, &o.delta, &o.beta, &o.inner_tol_max, &o.inner_tol_min}; int* n[] = {&o.max_newton_iters, &o.max_prox_iters, &o.max_inner_iters, &o.max_linesearch_iters};
      if (d == std::floor(d) && d > 0 && d <= 200) *n[r.i(0, 3)] = (int)d + r.i(-1, 1); else if (d > 0 && d < 1) *f[r.i(0, 8)] = d;
    }
  }
  o.ValidateOptions();
  return o;
}
