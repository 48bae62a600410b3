#include "common.h"

// ------------------------------------------------------------------ recording instrumentation (instantiates the real algorithm template)
struct Ev { enum K { INIT, SOLVE, FEAS, RES, PROJ } k; Pt x, xb; Res r; Pt dx; double sg = 0, al = 0, tol = 0; bool ok = true; int st = 0; int kind = 0; };
static std::vector<Ev>* TR = nullptr;
static bool REC_RES = true;
struct RV : public FullVariable { using FullVariable::FullVariable; };
struct RR : public FullResidual {
  using FullResidual::FullResidual; double al = 0.95;
  void SetAlpha(double a) { al = a; FullResidual::SetAlpha(a); }
  void rec(int kind, const FullVariable& x, const FullVariable* xb, double sg) { if (!TR || !REC_RES) return; Ev e; e.k = Ev::RES; e.kind = kind; e.x = pt(x); if (xb) e.xb = pt(*xb); e.sg = sg; e.al = al; TR->push_back(e); }
  void InnerResidual(const FullVariable& x, const FullVariable& xb, double sg) { rec(2, x, &xb, sg); FullResidual::InnerResidual(x, xb, sg); }
  void PenalizedNaturalResidual(const FullVariable& x) { rec(1, x, nullptr, 0); FullResidual::PenalizedNaturalResidual(x); }
  void NaturalResidual(const FullVariable& x) { rec(0, x, nullptr, 0); FullResidual::NaturalResidual(x); }
};
template <class B> struct RL : public B {
  using B::B; double al = 0.95;
  void SetAlpha(double a) { al = a; B::SetAlpha(a); }
  bool Initialize(const FullVariable& x, const FullVariable& xb, double sg) { bool ok = B::Initialize(x, xb, sg); if (TR) { Ev e; e.k = Ev::INIT; e.x = pt(x); e.xb = pt(xb); e.sg = sg; e.al = al; e.ok = ok; TR->push_back(e); } return ok; }
  bool Solve(const FullResidual& r, FullVariable* dx) { Ev e; e.k = Ev::SOLVE; e.r = Res{r.z(), r.l(), r.v()}; bool ok = B::Solve(r, dx); e.ok = ok; e.dx = pt(*dx); if (TR) TR->push_back(e); return ok; }
};
struct RF : public FullFeasibility {
  using FullFeasibility::FullFeasibility;
  FullFeasibility::FeasibilityStatus CheckFeasibility(const FullVariable& x, double tol) { auto s = FullFeasibility::CheckFeasibility(x, tol); if (TR) { Ev e; e.k = Ev::FEAS; e.x = pt(x); e.tol = tol; e.st = (int)s; TR->push_back(e); } return s; }
};
template <class T> struct Rig {
  typedef RL<typename T::LS> LS; typedef FBstabAlgorithm<RV, RR, LS, RF> Alg;
  RV x1, x2, x3, x4; RR r1, r2; std::unique_ptr<LS> ls; RF f; Alg alg;
  Rig(const typename T::P& P) : x1(P.nz, P.nl, P.nv), x2(P.nz, P.nl, P.nv), x3(P.nz, P.nl, P.nv), x4(P.nz, P.nl, P.nv), r1(P.nz, P.nl, P.nv), r2(P.nz, P.nl, P.nv), ls(T::template ls<LS>(P)), f(P.nz, P.nl, P.nv), alg(&x1, &x2, &x3, &x4, &r1, &r2, ls.get(), &f) {}
};
struct Out { SolverOut s; Pt x; bool threw = false; std::string what; std::vector<Ev> tr; std::string text; int prints = 0; };
template <class T> Out run(Rig<T>& g, const typename T::P& P, const AlgorithmParameters& o, const Pt& guess, bool trace = true) {
  Out r; auto D = T::data(P); g.alg.UpdateParameters(&o); r.x = guess; Cap os; TR = trace ? &r.tr : nullptr;
  try { r.s = g.alg.Solve(*D, &r.x.z, &r.x.l, &r.x.v, &r.x.y, os); } catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
  TR = nullptr; r.text = os.s; r.prints = os.calls; return r;
}
static Pt guess(Rng& r, const QP& q) {
  Pt g; double s = r.pick({0.0, 0.0, 1.0, 3.0, 20.0}) * r.mag(); g.z = r.v(q.nz(), s); g.l = r.v(q.nl(), s); g.v = r.v(q.nv(), s); g.y = r.v(q.nv(), s);
  if (r.p(0.3)) g.y.fill(NAN);
  return g;
}
static double optol(const AlgorithmParameters& o, const QP& q) { return o.abs_tol + o.rel_tol * (1 + forcing(q)); }
static std::string ostr(const AlgorithmParameters& o) { return cat(" [sigma0=", o.sigma0, " alpha=", o.alpha, " beta=", o.beta, " eta=", o.eta, " delta=", o.delta, " abs_tol=", o.abs_tol, " rel_tol=", o.rel_tol, " stall_tol=", o.stall_tol, " infeas_tol=", o.infeas_tol, " inner_tol=", o.inner_tol_min, "..", o.inner_tol_max, " newton<=", o.max_newton_iters, " prox<=", o.max_prox_iters, " inner<=", o.max_inner_iters, " ls<=", o.max_linesearch_iters, " feas=", o.check_feasibility, " nonmonotone=", o.nonmonotone_linesearch, " display=", (int)o.display_level, "]"); }
static bool fin(const Pt& p) { return std::isfinite(inf(p.z)) && std::isfinite(inf(p.l)) && std::isfinite(inf(p.v)) && inf(p.z) < 1e7 && inf(p.l) < 1e7 && inf(p.v) < 1e7; }
static Pt wm(const QP& q, Pt p) { p.y = margin(q, p.z); return p; }

template <class T> struct Case { typename T::P P; AlgorithmParameters o; Pt g; std::string w; };
template <class T> Case<T> mk(Rng& r) {
  Case<T> c; Sort s = r.p(0.65) ? FEAS : r.p(0.5) ? PINF : DINF; if (s == FEAS && r.p(0.2)) s = ANY;
  c.P = make<typename T::P>(r, s); c.o = quiet_opts(r); c.g = guess(r, c.P.q);
  if (r.p(0.15)) {     // warm start at (nearly) a solution
    Rig<T> g(c.P); AlgorithmParameters o; o.DefaultParameters(); o.display_level = Display::OFF; Out x = run(g, c.P, o, c.g, false);
    if (!x.threw && x.s.eflag == ExitFlag::SUCCESS) { c.g.z = x.x.z; c.g.l = x.x.l; c.g.v = x.x.v; if (r.p(0.5)) c.g.z += r.v(c.P.nz, r.lg(1e-9, 1e-2)); }
  }
  c.w = c.P.dims() + ostr(c.o) + " guess z=" + str(c.g.z) + " l=" + str(c.g.l) + " v=" + str(c.g.v);
  return c;
}
// sequence of subproblems reconstructed from the Newton systems (independent of how the code is organised)
struct Step { Pt x, xb, dx; Res rhs; double sg, al; };
static std::vector<std::vector<Step>> subs(const std::vector<Ev>& tr) {
  std::vector<std::vector<Step>> s;
  for (size_t k = 0; k < tr.size(); k++) if (tr[k].k == Ev::INIT) {
    size_t j = k + 1; while (j < tr.size() && tr[j].k != Ev::SOLVE && tr[j].k != Ev::INIT) j++;
    if (j >= tr.size() || tr[j].k != Ev::SOLVE) continue;
    Step t{tr[k].x, tr[k].xb, tr[j].dx, tr[j].r, tr[k].sg, tr[k].al};
    if (s.empty() || !(same(s.back().back().xb.z, t.xb.z) && same(s.back().back().xb.l, t.xb.l) && same(s.back().back().xb.v, t.xb.v))) s.push_back({});
    s.back().push_back(t);
  }
  return s;
}
static std::vector<double> steps(const AlgorithmParameters& o) { std::vector<double> t{1.0}; for (int j = 0; j < o.max_linesearch_iters; j++) t.push_back(t.back() * o.beta); return t; }
// j such that to = from + t_j dx in z, l (and v)
static int which(const Pt& from, const Pt& dx, const Pt& to, const std::vector<double>& ts, bool v) {
  int best = -1; double bd = 1e300, sc = 1e-9 * (1 + inf(from.z) + inf(from.l) + inf(from.v) + inf(dx.z) + inf(dx.l) + inf(dx.v));
  for (size_t j = 0; j < ts.size(); j++) { double d = inf(VectorXd(from.z + ts[j] * dx.z - to.z)); if (to.l.size()) d = std::max(d, inf(VectorXd(from.l + ts[j] * dx.l - to.l)));
    VectorXd w = from.v + ts[j] * dx.v; if (!v) w = w.cwiseMax(0); d = std::max(d, inf(VectorXd(w - to.v))); if (d < bd) { bd = d; best = (int)j; } }
  return bd <= sc ? best : -1;
}

// rounding the stored margin may have gathered along the iterates
static double drift(const QP& q, const std::vector<Ev>& tr) {
  double m = 0; auto up = [&](const Pt& p) { for (const VectorXd* v : {&p.z, &p.l, &p.v, &p.y}) if (v->size()) m = std::max(m, inf(*v)); };
  for (auto& e : tr) { up(e.x); up(e.xb); }
  for (auto& b : subs(tr)) for (auto& t : b) up(t.dx);
  return 1e-13 * m * (1 + (q.A.size() ? q.A.cwiseAbs().maxCoeff() : 0.0));
}
template <class T> void c05(Rng& r) {
  Case<T> c = mk<T>(r); const QP& q = c.P.q; Rig<T> g(c.P); Out u = run(g, c.P, c.o, c.g);
  if (u.threw) return; if (!fin(u.x)) return;
  Pt g0 = wm(q, c.g); double e0 = nat(q, g0, 1, c.o.alpha).norm(), tol = optol(c.o, q), s0 = 1e-9 * scale(q, g0);
  REQ(nearS(u.s.initial_residual, e0, s0), c.w, ": initial residual ", u.s.initial_residual, " expected ", e0);
  if (e0 < tol - s0) { REQ(u.s.eflag == ExitFlag::SUCCESS && u.s.newton_iters == 0 && u.s.prox_iters == 0 && near(u.x.z, c.g.z, 0) && near(u.x.l, c.g.l, 0) && near(u.x.v, c.g.v, 0), c.w, ": a guess meeting the tolerance (residual ", e0, " <= ", tol, ") was not returned at once"); }
  if (u.s.eflag != ExitFlag::SUCCESS && u.s.eflag != ExitFlag::MAXITERATIONS) return;
  const double dr = drift(q, u.tr); Pt x = wm(q, u.x); double e = nat(q, x, 1, c.o.alpha).norm(), s = 1e-9 * scale(q, x) + dr * (1 + inf(x.v));
  REQ(nearS(u.s.residual, e, s), c.w, ": reported residual ", u.s.residual, " but the returned point has ", e, " (exit ", (int)u.s.eflag, ")");
  if (u.s.eflag == ExitFlag::SUCCESS && !(e <= tol + s)) {
    REQ(u.s.prox_iters > 0, c.w, ": SUCCESS with residual ", e, " > ", tol, " before any proximal step");
    auto S = subs(u.tr); Pt last = S.empty() ? g0 : S.back()[0].xb; double d = std::sqrt((x.z - last.z).squaredNorm() + (x.l - last.l).squaredNorm() + (x.v - last.v).squaredNorm());
    // with as many proximal steps as subproblems that took Newton steps, the last step starts at the last centre
    if (u.s.prox_iters == (int)S.size()) REQ(d <= c.o.stall_tol * (1 + 1e-6) + 1e-12, c.w, ": SUCCESS with residual ", e, " > ", tol, " and a last proximal step of length ", d);
  }
  // a point meeting the tolerance is returned at the next outer iteration: no Newton system is centred at one
  for (auto& sub : subs(u.tr)) { Pt b = wm(q, sub[0].xb); double eb = nat(q, b, 1, c.o.alpha).norm(); REQ(!(eb < tol - 1e-9 * scale(q, b) - dr * (1 + inf(b.v))), c.w, ": iteration continued from an iterate with residual ", eb, " <= ", tol); }
}
template <class T> void c06alg(Rng& r) {
  Case<T> c = mk<T>(r); if (r.p(0.7)) { c.P = make<typename T::P>(r, r.pick({PINF, DINF, BOTH})); c.g = guess(r, c.P.q); c.o.max_prox_iters = 100; c.o.max_newton_iters = 300; c.o.max_inner_iters = 60; c.o.max_linesearch_iters = 20; }
  const QP& q = c.P.q; Rig<T> g(c.P); Out u = run(g, c.P, c.o, c.g); if (u.threw || !fin(u.x)) return;
  ExitFlag f = u.s.eflag; bool inf_ = f == ExitFlag::PRIMAL_INFEASIBLE || f == ExitFlag::DUAL_INFEASIBLE || f == ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  c.w = c.P.dims() + ostr(c.o) + " exit " + cat((int)f);
  if (!c.o.check_feasibility) { REQ(!inf_, c.w, ": an infeasibility verdict with checking disabled"); return; }
  if (!inf_) return; const Pt& a = u.x; double tol = c.o.infeas_tol, w = inf(a.z), uu = std::max(q.nl() ? inf(a.l) : 0.0, inf(a.v)), m = 1e-10 * (1 + w + uu) * 10;
  VectorXd Gz = q.G * a.z, t = q.A.transpose() * a.v + q.G.transpose() * a.l;
  if (f != ExitFlag::PRIMAL_INFEASIBLE) REQ(VectorXd(q.A * a.z).maxCoeff() <= tol * w + m && (!q.nl() || inf(Gz) <= tol * w + m) && inf(VectorXd(q.H * a.z)) <= tol * w + m && q.f.dot(a.z) < m && w > 0.9e-14, c.w, ": returned z=", str(a.z), " is no dual infeasibility certificate");
  if (f != ExitFlag::DUAL_INFEASIBLE) REQ(inf(t) <= tol * uu + m && a.v.minCoeff() >= -tol * uu - m && q.b.dot(a.v) + q.h.dot(a.l) < m, c.w, ": returned l=", str(a.l), " v=", str(a.v), " is no primal infeasibility certificate");
}
// verdict matches what the proximal step satisfies: checked on the recorded proximal steps
template <class T> void c06conv(Rng& r) {
  Case<T> c = mk<T>(r); c.P = make<typename T::P>(r, r.pick({PINF, DINF, BOTH, FEAS})); c.g = guess(r, c.P.q); c.o = quiet_opts(r, r.p(0.5)); c.o.check_feasibility = true;
  const QP& q = c.P.q; Rig<T> g(c.P); Out u = run(g, c.P, c.o, c.g); if (u.threw) return; auto S = subs(u.tr);
  for (size_t k = 0; k + 1 < S.size(); k++) {
    const Pt& a = S[k][0].xb; const Pt& b = S[k + 1][0].xb; Pt d; d.z = b.z - a.z; d.l = b.l - a.l; d.v = b.v - a.v; if (!fin(b)) return;
    double tol = c.o.infeas_tol, w = inf(d.z), uu = std::max(q.nl() ? inf(d.l) : 0.0, inf(d.v)), m = 1e-10 * (1 + inf(b.z) + inf(b.l) + inf(b.v)) * 10; VectorXd Gz = q.G * d.z, t = q.A.transpose() * d.v + q.G.transpose() * d.l;
    bool dc = VectorXd(q.A * d.z).maxCoeff() < tol * w - m && (!q.nl() || inf(Gz) < tol * w - m) && inf(VectorXd(q.H * d.z)) < tol * w - m && q.f.dot(d.z) < -m && w > 1.1e-14;
    bool pc = inf(t) < tol * uu - m && d.v.minCoeff() > -tol * uu + m && q.b.dot(d.v) + q.h.dot(d.l) < -m;
    REQ(!dc && !pc, c.P.dims(), ostr(c.o), ": proximal step ", k, " is an infeasibility certificate (dual ", dc, ", primal ", pc, ") but the solve went on");
  }
}
template <class T> void c07(Rng& r) {
  Case<T> c = mk<T>(r); const QP& q = c.P.q; Rig<T> g(c.P); Out u = run(g, c.P, c.o, c.g); if (u.threw || !fin(u.x)) return;
  Pt m = wm(q, u.x); REQ(near(u.x.y, m.y, 1e-9 * scale(q, m) * (1 + u.s.newton_iters) + drift(q, u.tr)), c.w, ": exit ", (int)u.s.eflag, " returned y=", str(u.x.y), " but b-Az=", str(m.y));
  const double dr = drift(q, u.tr);
  for (auto& e : u.tr) if (e.k == Ev::INIT && fin(e.x)) { Pt a = wm(q, e.x), b = wm(q, e.xb); REQ(near(e.x.y, a.y, 1e-8 * scale(q, a) + dr) && near(e.xb.y, b.y, 1e-8 * scale(q, b) + dr), c.w, ": an iterate's margin ", str(e.x.y), " is not b-Az=", str(a.y)); }
  if (u.s.eflag == ExitFlag::SUCCESS || u.s.eflag == ExitFlag::MAXITERATIONS) {
    double e0 = nat(q, wm(q, c.g), 1, c.o.alpha).norm(); (void)e0; bool none = same(u.x.z, c.g.z) && same(u.x.l, c.g.l) && same(u.x.v, c.g.v);
    if (!none) for (int k = 0; k < q.nv(); k++) REQ(u.x.v(k) >= 0, c.w, ": exit ", (int)u.s.eflag, " returned v=", str(u.x.v));
  }
}
template <class T> void c08(Rng& r) {
  Case<T> c = mk<T>(r); if (r.p(0.5)) { c.o.max_newton_iters = r.i(1, 6); c.o.max_prox_iters = r.i(1, 4); c.o.max_inner_iters = r.i(1, 4); c.o.max_linesearch_iters = r.i(1, 3); if (r.p(0.5)) c.o.abs_tol = 1e-13; }
  c.w = c.P.dims() + ostr(c.o) + " guess z=" + str(c.g.z) + " v=" + str(c.g.v);
  Rig<T> g(c.P); if (r.p(0.4)) run(g, c.P, quiet_opts(r), guess(r, c.P.q), false);
  Out u = run(g, c.P, c.o, c.g); if (u.threw) return;
  int n = 0, fe = 0; for (auto& e : u.tr) { if (e.k == Ev::SOLVE) n++; if (e.k == Ev::FEAS && e.st == 0) fe++; }
  REQ(u.s.newton_iters == n, c.w, ": reports ", u.s.newton_iters, " Newton iterations, solved ", n, " systems");
  REQ(n <= c.o.max_newton_iters, c.w, ": ", n, " Newton iterations");
  REQ(u.s.prox_iters >= 0 && u.s.prox_iters <= c.o.max_prox_iters, c.w, ": ", u.s.prox_iters, " proximal iterations");
  if (c.o.check_feasibility) REQ(u.s.prox_iters == fe, c.w, ": reports ", u.s.prox_iters, " proximal iterations, completed ", fe);
  auto S = subs(u.tr);
  for (auto& s : S) REQ((int)s.size() <= c.o.max_inner_iters, c.w, ": ", s.size(), " Newton iterations in one subproblem");
  // trial points of each line search: residual evaluations along the direction between two systems
  for (size_t k = 0; k < u.tr.size(); k++) if (u.tr[k].k == Ev::SOLVE) { int tr = 0; for (size_t j = k + 1; j < u.tr.size() && u.tr[j].k == Ev::RES && u.tr[j].kind == 2; j++) tr++; 
    REQ(tr <= c.o.max_linesearch_iters + 1, c.w, ": ", tr, " line search trials"); }
  if (u.s.eflag == ExitFlag::MAXITERATIONS) REQ(n >= c.o.max_newton_iters || u.s.prox_iters >= c.o.max_prox_iters, c.w, ": MAXITERATIONS after ", n, " Newton and ", u.s.prox_iters, " proximal iterations");
}
template <class T> void c10(Rng& r) {
  Case<T> c = mk<T>(r); if (r.p(0.5)) { c.o.eta = r.pick({0.1, 0.3, 0.49}); c.o.sigma0 = c.o.sigma0 < 1e-6 ? 1e-6 : c.o.sigma0; c.o.ValidateOptions(); c.o.max_inner_iters = 40; c.o.max_newton_iters = 100; }
  c.w = c.P.dims() + ostr(c.o) + " guess z=" + str(c.g.z) + " l=" + str(c.g.l) + " v=" + str(c.g.v);
  const QP& q = c.P.q; Rig<T> g(c.P); Out u = run(g, c.P, c.o, c.g); if (u.threw) return; auto S = subs(u.tr); auto ts = steps(c.o);
  for (size_t k = 0; k < S.size(); k++) { std::vector<double> hist; for (size_t i = 0; i < S[k].size(); i++) {
    const Step& s = S[k][i]; if (!fin(s.x) || !fin(s.dx)) return; Pt x = wm(q, s.x), b = wm(q, s.xb); double M = inner(q, x, b, s.sg, c.o.alpha).merit(); hist.push_back(M);
    bool last = i + 1 == S[k].size(); if (last && k + 1 == S.size() && u.s.eflag != ExitFlag::SUCCESS) continue;
    Pt to = last ? (k + 1 == S.size() ? u.x : S[k + 1][0].xb) : S[k][i + 1].x; if (!fin(to)) return;
    int j = which(s.x, s.dx, to, ts, !last);
    if (j < 0 && last) continue;     // further subproblems without Newton steps or a rejected result cannot be told apart here
    std::string w = cat(c.w, ": subproblem ", k, " step ", i);
    REQ(j >= 0, w, ": the update is not a step beta^j (j<=", c.o.max_linesearch_iters, ") along the Newton direction");
    double m0 = M; if (c.o.nonmonotone_linesearch) for (size_t h = 0; h < hist.size() && h < 5; h++) m0 = std::max(m0, hist[hist.size() - 1 - h]);
    double tol = 1e-8 * (1 + m0) * 1e-3 + 1e-9 * m0 + 1e-16 * scale(q, x) * scale(q, x);
    int want = c.o.max_linesearch_iters; bool amb = false;
    if (s.dx.z.norm() + s.dx.l.norm() + s.dx.v.norm() < 1e-7 * (1 + s.x.z.norm() + s.x.v.norm())) continue;    // steps too short to tell the trials apart
    for (int t = 0; t < c.o.max_linesearch_iters; t++) { Pt p; p.z = s.x.z + ts[t] * s.dx.z; p.l = s.x.l + ts[t] * s.dx.l; p.v = s.x.v + ts[t] * s.dx.v; p = wm(q, p); double mp = inner(q, p, b, s.sg, c.o.alpha).merit(), d = mp - (m0 - 2 * ts[t] * c.o.eta * M);
      if (std::fabs(d) <= tol) { amb = true; break; } if (d < 0) { want = t; break; } }
    if (!amb) REQ(j == want, w, ": accepted trial ", j, ", the rule accepts ", want, " (merit ", M, ", reference ", m0, ")");
  } }
}
template <class T> void c18(Rng& r) {
  Case<T> c = mk<T>(r); const QP& q = c.P.q; Rig<T> g(c.P);
  if (r.p(0.5)) { AlgorithmParameters o2 = quiet_opts(r); run(g, c.P, o2, guess(r, q), false); }
  Out u = run(g, c.P, c.o, c.g); if (u.threw) return; auto S = subs(u.tr); auto ts = steps(c.o);
  Pt X = wm(q, c.g); double tolk = 0; bool first = true; (void)tolk;
  for (size_t k = 0; k < S.size(); k++) {
    const Pt& xb = S[k][0].xb; if (!fin(xb)) return; std::string w = cat(c.w, ": subproblem ", k);
    Pt Xp = X; Xp.v = X.v.cwiseMax(0);
    double st = 1e-10 * scale(q, X);
    bool okc = near(xb.z, X.z, st) && near(xb.l, X.l, st) && (near(xb.v, X.v, st) || near(xb.v, Xp.v, st));
    if (first) REQ(okc, w, ": the first centre ", str(xb.z), " is not the guess");
    first = false;
    for (size_t i = 0; i < S[k].size(); i++) {
      const Step& s = S[k][i]; if (!fin(s.x)) return; Pt x = wm(q, s.x), b = wm(q, s.xb);
      REQ(s.sg == c.o.sigma0, w, " step ", i, ": sigma ", s.sg); REQ(s.al == c.o.alpha, w, " step ", i, ": alpha ", s.al);
      if (i == 0) REQ(near(s.x.z, xb.z, st) && near(s.x.l, xb.l, st) && near(s.x.v, xb.v, st), w, ": does not start at its centre");
      Res e = inner(q, x, b, s.sg, c.o.alpha); double t = 1e-9 * scale(q, x);
      REQ(near(s.rhs.z, -e.z, t) && near(s.rhs.l, -e.l, t) && near(s.rhs.v, -e.v, t), w, " step ", i, ": the right-hand side is not the negated proximal residual at the current iterate: ", str(s.rhs.z), str(s.rhs.l), str(s.rhs.v), " expected ", str(-e.z), str(-e.l), str(-e.v));
    }
    // the next centre is the projected result of this subproblem
    const Step& l = S[k].back(); int j = -1; bool lastk = k + 1 == S.size();
    if (!lastk) { const Pt& nb = S[k + 1][0].xb; if (!fin(nb) || !fin(l.dx)) return; j = which(l.x, l.dx, nb, ts, false); REQ(j >= 0, w, ": the next centre z=", str(nb.z), " v=", str(nb.v), " is not the projected result of the subproblem"); }
    else if (u.s.eflag == ExitFlag::SUCCESS) { if (!fin(u.x) || !fin(l.dx)) return; j = which(l.x, l.dx, u.x, ts, false); }
    if (j >= 0 && (int)S[k].size() < c.o.max_inner_iters && u.s.newton_iters < c.o.max_newton_iters) {    // left early
      Pt e; e.z = l.x.z + ts[j] * l.dx.z; e.l = l.x.l + ts[j] * l.dx.l; e.v = l.x.v + ts[j] * l.dx.v; e = wm(q, e); Pt b = wm(q, l.xb);
      double Ei = inner(q, e, b, l.sg, c.o.alpha).norm(), Eo = nat(q, e, 1, c.o.alpha).norm(), Ek = nat(q, b, 1, c.o.alpha).norm(), m = 1e-8 * scale(q, e);
      REQ(Ei <= c.o.inner_tol_min + m || (Ei <= std::max(c.o.inner_tol_min, Ek) + m && Ei <= std::max(c.o.inner_tol_min, c.o.inner_tol_max * c.o.delta) + m && Eo < Ek + m), w, ": left early with inner residual ", Ei, ", outer residual ", Eo, " (centre ", Ek, ")");
    }
    X = lastk ? X : S[k + 1][0].xb;
  }
}
// the data of a problem changed where they are (the solver's data object stays the same object)
static void nudge(DenseP& P, Rng& r) { QP& q = P.q; int k = r.i(0, 5); if (k == 0) q.H *= r.u(0.2, 4); else if (k == 1) q.H += r.u(0.1, 2) * MatrixXd::Identity(P.nz, P.nz); else if (k == 2) q.f += r.v(P.nz, 2); else if (k == 3) { q.G *= 2; q.h *= 2; } else if (k == 4) { double c = r.u(0.3, 3); q.A *= c; q.b *= c; } else for (int i = 0; i < P.nv; i++) q.b(i) += r.u(0, 3); P.sync(); }
static void put(DenseP& P, const DenseP& O) { P.q = O.q; P.sync(); }
static void slack(DenseP& P) { P.q.b.array() += 50; P.sync(); }
static void scl(MatrixSequence& s, double c) { for (int k = 0; k < s.size(); k++) s.data()[k] *= c; }
static void nudge(MpcP& P, Rng& r) { auto& d = P.d; int k = r.i(0, 6); double c = r.u(0.3, 3); if (k == 0) { scl(d.Q, c); scl(d.R, c); scl(d.S, c); } else if (k == 1) { for (int i = 0; i <= P.N; i++) { d.Q(i)(0, 0) += c; d.R(i)(0, 0) += c; } } else if (k == 2) { scl(d.q, c); scl(d.r, c); } else if (k == 3) { scl(d.A, c); } else if (k == 4) scl(d.B, c); else if (k == 5) { scl(d.E, c); scl(d.L, c); scl(d.d, c); } else { d.x0 *= 0.5; for (int i = 0; i < d.d.size(); i++) d.d.data()[i] -= 1; } P.sync(); }
static void put(MatrixSequence& a, const MatrixSequence& b) { memcpy(a.data(), b.data(), 8 * (size_t)b.size()); }
static void put(MpcP& P, const MpcP& O) { auto& d = P.d; const auto& o = O.d; put(d.Q, o.Q); put(d.R, o.R); put(d.S, o.S); put(d.q, o.q); put(d.r, o.r); put(d.A, o.A); put(d.B, o.B); put(d.c, o.c); put(d.E, o.E); put(d.L, o.L); put(d.d, o.d); d.x0 = o.x0; P.sync(); }
static void slack(MpcP& P) { for (int i = 0; i < P.d.d.size(); i++) P.d.d.data()[i] -= 50; P.sync(); }
template <class T> void c13front(Rng& r) {     // front end and long-lived data: histories that share data, options or guess with the solve
  Case<T> c = mk<T>(r); if (r.p(0.4)) { slack(c.P); c.g.z.setZero(); c.g.l.setZero(); c.g.v.setZero(); } typename T::P X = c.P; auto S = T::solver(c.P), F = T::solver(c.P);
  auto D = T::data(X); Rig<T> a(X); const bool front = r.p(0.5); int n = r.i(1, 3); std::string hist; Out u, v;
  for (int k = 0; k <= n; k++) {
    AlgorithmParameters o = k < n && r.p(0.4) ? quiet_opts(r) : c.o; Pt g = k < n && r.p(0.4) ? guess(r, X.q) : c.g; put(X, c.P); if (k < n && r.p(0.7)) for (int t = r.i(1, 2); t--;) nudge(X, r);
    typename T::Solver::Options fo = T::Solver::DefaultOptions(); static_cast<AlgorithmParameters&>(fo) = o; Cap os;
    for (int w = k < n ? 1 : 0; w < 2; w++) {      // w = 0: a new solver, for the last solve only
      Out x; x.x = g;
      try {
        if (front) { auto& s = *(w ? S : F); s.UpdateOptions(fo); auto y = T::var(X); y.z = g.z; y.l = g.l; y.v = g.v; y.y = g.y; x.s = s.Solve(X.d, &y, os); x.x = Pt{y.z, y.l, y.v, y.y}; }
        else { std::unique_ptr<Rig<T>> nw; if (!w) nw.reset(new Rig<T>(X)); Rig<T>& s = w ? a : *nw; s.alg.UpdateParameters(&o); x.s = s.alg.Solve(*D, &x.x.z, &x.x.l, &x.x.v, &x.x.y, os); }
      } catch (const std::exception& e) { x.threw = true; x.what = e.what(); }
      (w ? v : u) = x;
    }
  }
  std::string w = cat(c.w, front ? " (front end)" : " (data object kept)");
  REQ(u.threw == v.threw, w, ": a fresh and a used solver differ in throwing"); if (u.threw) return;
  REQ(same(u.x.z, v.x.z) && same(u.x.l, v.x.l) && same(u.x.v, v.x.v) && same(u.x.y, v.x.y), w, ": a fresh solver returned z=", str(u.x.z), " a used one z=", str(v.x.z), " v ", str(u.x.v), " / ", str(v.x.v));
  REQ(u.s.eflag == v.s.eflag && u.s.newton_iters == v.s.newton_iters && u.s.prox_iters == v.s.prox_iters && memcmp(&u.s.residual, &v.s.residual, 8) == 0 && memcmp(&u.s.initial_residual, &v.s.initial_residual, 8) == 0, w, ": a fresh and a used solver report different summaries: exit ", (int)u.s.eflag, "/", (int)v.s.eflag, " newton ", u.s.newton_iters, "/", v.s.newton_iters, " residual ", u.s.residual, "/", v.s.residual);
}
template <class T> void c13(Rng& r) {
  Case<T> c = mk<T>(r); typename T::P Q = c.P; Rig<T> a(c.P), b(c.P); Pt g2 = c.g; if (r.p(0.7)) g2.y = r.v(c.P.nv, 5); else g2.y.fill(NAN);
  int n = r.i(1, 3);
  for (int k = 0; k < n; k++) {   // history of b: other options and data of the same dimensions
    typename T::P O = c.P; for (int t = 0; t < 40; t++) { O = make<typename T::P>(r, r.pick({FEAS, PINF, DINF})); if (O.dims() == c.P.dims()) break; } if (O.dims() != c.P.dims()) { O = c.P; }
    AlgorithmParameters o = quiet_opts(r); if (r.p(0.3)) { b.r1.Fill(1e3); b.r2.Fill(-1e3); } run(b, O, o, guess(r, O.q), false); }
  Out u = run(a, c.P, c.o, c.g, false), v = run(b, c.P, c.o, g2, false);
  REQ(u.threw == v.threw, c.w, ": a fresh and a used solver differ in throwing"); if (u.threw) return;
  REQ(same(u.x.z, v.x.z) && same(u.x.l, v.x.l) && same(u.x.v, v.x.v) && same(u.x.y, v.x.y), c.w, ": a fresh solver returned z=", str(u.x.z), " a used one z=", str(v.x.z), " v ", str(u.x.v), " / ", str(v.x.v), " y ", str(u.x.y), " / ", str(v.x.y));
  REQ(u.s.eflag == v.s.eflag && u.s.newton_iters == v.s.newton_iters && u.s.prox_iters == v.s.prox_iters && memcmp(&u.s.residual, &v.s.residual, 8) == 0 && memcmp(&u.s.initial_residual, &v.s.initial_residual, 8) == 0, c.w, ": a fresh and a used solver report different summaries: exit ", (int)u.s.eflag, "/", (int)v.s.eflag, " newton ", u.s.newton_iters, "/", v.s.newton_iters, " prox ", u.s.prox_iters, "/", v.s.prox_iters, " residual ", u.s.residual, "/", v.s.residual, " initial ", u.s.initial_residual, "/", v.s.initial_residual);
}
// components: results do not depend on earlier contents of workspaces
template <class T> void c13parts(Rng& r) {
  typename T::P P = make<typename T::P>(r, FEAS, true); auto D = T::data(P); const QP& q = P.q;
  auto mkp = [&]() { return Pt{r.v(P.nz), r.v(P.nl), r.v(P.nv), r.v(P.nv)}; };
  auto ldv = [&](FullVariable* x, const Pt& p) { x->z() = p.z; x->l() = p.l; x->v() = p.v; x->y() = p.y; };
  FullVariable x(P.nz, P.nl, P.nv), b(P.nz, P.nl, P.nv), d1(P.nz, P.nl, P.nv), d2(P.nz, P.nl, P.nv); for (FullVariable* p : {&x, &b, &d1, &d2}) p->LinkData(D.get());
  auto L1 = T::template ls<typename T::LS>(P), L2 = T::template ls<typename T::LS>(P); L1->LinkData(D.get()); L2->LinkData(D.get());
  FullResidual R1(P.nz, P.nl, P.nv), R2(P.nz, P.nl, P.nv); R1.LinkData(D.get()); R2.LinkData(D.get());
  FullFeasibility F1(P.nz, P.nl, P.nv), F2(P.nz, P.nl, P.nv); F1.LinkData(D.get()); F2.LinkData(D.get());
  // the history may share the data, the points, sigma or alpha with the evaluation compared
  const double al = r.u(0.1, 0.98), sg = r.u(0.01, 1), keep = r.pick({0.0, 0.5, 0.9}); Pt px = mkp(), pb = mkp(); if (r.p(0.3)) { px.v.setZero(); pb.v.setZero(); px.y = px.y.cwiseAbs().array() + 0.1; pb.y = px.y; } const typename T::P O = P;
  for (int k = 0; k < 3; k++) { put(P, O); if (r.p(0.5)) nudge(P, r); ldv(&x, r.p(keep) ? px : mkp()); ldv(&b, r.p(keep) ? pb : mkp()); double h = r.p(keep) ? al : r.u(0.1, 0.9); L2->SetAlpha(h); R2.SetAlpha(h); double sh = r.p(keep) ? sg : r.u(0.01, 1); if (L2->Initialize(x, b, sh)) { R2.Fill(r.n()); L2->Solve(R2, &d2); } F2.CheckFeasibility(x, r.p(keep) ? 0.5 : 1e-2); int m = r.i(0, 2); if (m == 0) R2.InnerResidual(x, b, sh); else if (m == 1) R2.NaturalResidual(x); else R2.PenalizedNaturalResidual(x); }
  put(P, O); L1->SetAlpha(al); L2->SetAlpha(al); R1.SetAlpha(al); R2.SetAlpha(al);
  ldv(&x, px); ldv(&b, pb); if (r.p(0.5)) { R2.z().fill(NAN); R2.l().fill(NAN); R2.v().fill(NAN); } d2.z().fill(NAN); d2.l().fill(NAN); d2.v().fill(NAN); d2.y().fill(NAN);
  int k = r.i(0, 2); if (k == 0) { R1.InnerResidual(x, b, sg); R2.InnerResidual(x, b, sg); } else if (k == 1) { R1.NaturalResidual(x); R2.NaturalResidual(x); } else { R1.PenalizedNaturalResidual(x); R2.PenalizedNaturalResidual(x); }
  std::string w = P.dims();
  REQ(same(R1.z(), R2.z()) && same(R1.l(), R2.l()) && same(R1.v(), R2.v()) && R1.Norm() == R2.Norm() && R1.Merit() == R2.Merit() && R1.z_norm() == R2.z_norm() && R1.v_norm() == R2.v_norm() && R1.l_norm() == R2.l_norm(), w, ": a residual evaluation depends on earlier contents");
  REQ(F1.CheckFeasibility(x, 0.5) == F2.CheckFeasibility(x, 0.5), w, ": the feasibility check depends on earlier contents");
  bool i1 = L1->Initialize(x, b, sg), i2 = L2->Initialize(x, b, sg); REQ(i1 == i2, w, ": Initialize depends on earlier contents"); if (!i1) return;
  R1.z() = r.v(P.nz); R1.l() = r.v(P.nl); R1.v() = r.v(P.nv); L1->Solve(R1, &d1); L2->Solve(R1, &d2);
  REQ(same(d1.z(), d2.z()) && same(d1.l(), d2.l()) && same(d1.v(), d2.v()) && same(d1.y(), d2.y()), w, ": the Newton step depends on earlier contents"); (void)q;
}
static std::string bytes(const DenseP& P) { std::string s; auto a = [&](const double* p, long n) { s.append((const char*)p, n * 8); }; a(P.d.H.data(), P.d.H.size()); a(P.d.G.data(), P.d.G.size()); a(P.d.A.data(), P.d.A.size()); a(P.d.f.data(), P.d.f.size()); a(P.d.h.data(), P.d.h.size()); a(P.d.b.data(), P.d.b.size()); return s; }
static std::string bytes(const MpcP& P) { std::string s; const FBstabMpc::ProblemData& d = P.d; for (const MatrixSequence* q : {&d.Q, &d.R, &d.S, &d.q, &d.r, &d.A, &d.B, &d.c, &d.E, &d.L, &d.d}) s.append((const char*)q->data(), q->size() * 8); s.append((const char*)d.x0.data(), d.x0.size() * 8); return s; }
static bool sameopts(const AlgorithmParameters& a, const AlgorithmParameters& b) {
  return a.sigma0 == b.sigma0 && a.sigma_max == b.sigma_max && a.sigma_min == b.sigma_min && a.alpha == b.alpha && a.beta == b.beta && a.eta == b.eta && a.delta == b.delta && a.gamma == b.gamma && a.abs_tol == b.abs_tol && a.rel_tol == b.rel_tol && a.stall_tol == b.stall_tol && a.infeas_tol == b.infeas_tol && a.inner_tol_max == b.inner_tol_max && a.inner_tol_min == b.inner_tol_min && a.max_newton_iters == b.max_newton_iters && a.max_prox_iters == b.max_prox_iters && a.max_inner_iters == b.max_inner_iters && a.max_linesearch_iters == b.max_linesearch_iters && a.check_feasibility == b.check_feasibility && a.nonmonotone_linesearch == b.nonmonotone_linesearch && a.display_level == b.display_level; }
static void spoil(DenseP& P, Rng& r) { int k = r.i(0, P.nz - 1); P.q.H(k, k) -= r.pick({0.5, 5.0, 50.0}); P.sync(); }
static void spoil(MpcP& P, Rng& r) { int i = r.i(0, P.N); P.d.Q(i)(0, 0) -= r.pick({5.0, 50.0}); if (r.p(0.3)) P.d.R(r.i(0, P.N))(0, 0) -= 50; P.sync(); }
template <class T> void c14(Rng& r) {
  Case<T> c = mk<T>(r); if (r.p(0.5)) spoil(c.P, r);     // nonconvex data make the factorization fail, possibly late
  if (r.p(0.3)) { c.o.max_newton_iters = r.i(1, 8); }
  std::string before = bytes(c.P); Rig<T> g(c.P); Out u = run(g, c.P, c.o, c.g, false);
  REQ(bytes(c.P) == before, c.w, ": a solve modified the problem data");
  REQ(sameopts(g.alg.CurrentParameters(), c.o), c.w, ": a solve changed the options");
  if (u.threw) REQ(same(u.x.z, c.g.z) && same(u.x.l, c.g.l) && same(u.x.v, c.g.v) && same(u.x.y, c.g.y), c.w, ": a solve threw (", u.what, ") and had changed the guess");
  // front end, options unchanged between solves: two solves give the same answer; updating options has no other effect
  auto s1 = T::solver(c.P); typename T::Solver::Options fo = T::Solver::DefaultOptions(); static_cast<AlgorithmParameters&>(fo) = c.o; AlgorithmParameters keep = c.o; s1->UpdateOptions(fo);
  REQ(sameopts(fo, keep), c.w, ": UpdateOptions modified its argument");
  auto v1 = T::var(c.P), v2 = v1; v1.z = v2.z = c.g.z; v1.l = v2.l = c.g.l; v1.v = v2.v = c.g.v; v1.y = v2.y = c.g.y; Cap o1;
  bool t1 = false, t2 = false; try { s1->Solve(c.P.d, &v1, o1); } catch (const std::exception&) { t1 = true; }
  REQ(bytes(c.P) == before, c.w, ": a solve modified the problem data");
  if (t1) REQ(same(v1.z, c.g.z) && same(v1.l, c.g.l) && same(v1.v, c.g.v) && same(v1.y, c.g.y), c.w, ": a throwing solve changed the guess");
  try { s1->Solve(c.P.d, &v2, o1); } catch (const std::exception&) { t2 = true; }
  REQ(t1 == t2 && same(v1.z, v2.z) && same(v1.v, v2.v) && same(v1.l, v2.l), c.w, ": repeating a solve gave a different answer");
  REQ(t1 == u.threw && (t1 || (same(v1.z, u.x.z) && same(v1.l, u.x.l) && same(v1.v, u.x.v) && same(v1.y, u.x.y))), c.w, ": the front end and the algorithm disagree");
}
static std::vector<std::string> numbers(const std::string& line) { std::vector<std::string> v; std::string t; for (char ch : line + " ") { if (isspace((unsigned char)ch) || ch == ':' || ch == ',') { if (!t.empty()) { char* e; strtod(t.c_str(), &e); if (!*e) v.push_back(t); t.clear(); } } else t += ch; } return v; }
static bool approx_print(double want, double got) { if (std::isnan(want)) return std::isnan(got); return std::fabs(got - want) <= 2e-4 * std::fabs(want) + 1e-300; }
template <class T> void c16(Rng& r) {
  Case<T> c = mk<T>(r); const QP& q = c.P.q; Out o[4];
  for (int d = 0; d < 4; d++) { Rig<T> g(c.P); AlgorithmParameters p = c.o; p.display_level = (Display)d; o[d] = run(g, c.P, p, c.g, true); }
  for (int d = 1; d < 4; d++) { REQ(o[d].threw == o[0].threw, c.w, ": display ", d, " changes whether the solve throws"); if (o[0].threw) continue;
    REQ(same(o[d].x.z, o[0].x.z) && same(o[d].x.l, o[0].x.l) && same(o[d].x.v, o[0].x.v) && same(o[d].x.y, o[0].x.y), c.w, ": display ", d, " changes the returned point");
    REQ(o[d].s.eflag == o[0].s.eflag && o[d].s.newton_iters == o[0].s.newton_iters && o[d].s.prox_iters == o[0].s.prox_iters && !memcmp(&o[d].s.residual, &o[0].s.residual, 8) && !memcmp(&o[d].s.initial_residual, &o[0].s.initial_residual, 8), c.w, ": display ", d, " changes the summary"); }
  REQ(o[0].text.empty() && o[0].prints == 0, c.w, ": output with the display off: ", o[0].text);
  if (r.p(0.3)) {    // nothing printed depends on what the solver did before
    auto untimed = [](const std::string& t) { std::istringstream is(t); std::string x, y; while (std::getline(is, x)) if (x.find("Time") != 0) y += x + "\n"; return y; };
    int d = r.i(1, 3); Rig<T> g(c.P); AlgorithmParameters p = c.o; p.display_level = (Display)d; auto g2 = c.g; g2.z = r.v(c.P.nz, 3); g2.v = r.v(c.P.nv, 3); if (r.p(0.5)) p.max_newton_iters = r.i(1, 9); run(g, c.P, p, g2, true); p.max_newton_iters = c.o.max_newton_iters;
    Out u = run(g, c.P, p, c.g, true); REQ(u.threw == o[d].threw && untimed(u.text) == untimed(o[d].text), c.w, ": display ", d, ": a solver used before prints\n", u.text, "\na new one\n", o[d].text); }
  if (o[0].threw) { REQ(o[1].text.empty(), c.w, ": FINAL printed although the solve threw"); return; }
  const SolverOut& s = o[0].s; const char* fl[] = {"Success", "Divergence", "Iteration limit exceeded", "Primal Infeasibility", "Dual Infeasibility", "Primal-Dual Infeasibility"};
  for (int d = 1; d < 4; d++) {
    size_t at = o[d].text.find("Optimization completed"); REQ(at != std::string::npos && o[d].text.find("Optimization completed", at + 1) == std::string::npos, c.w, ": display ", d, ": not exactly one summary");
    std::string t = o[d].text.substr(at); std::vector<std::string> L; { std::istringstream is(t); std::string x; while (std::getline(is, x)) L.push_back(x); }
    REQ(L[0].size() >= strlen(fl[(int)s.eflag]) && L[0].substr(L[0].find("code:")) == cat("code: ", fl[(int)s.eflag]), c.w, ": exit flag printed as ", L[0]);
    bool px = false, nw = false, nm = false;
    for (size_t k = 0; k < L.size(); k++) { auto v = numbers(L[k]);
      if (L[k].find("Proximal iterations") == 0) { px = v.size() == 2 && atoi(v[0].c_str()) == s.prox_iters && atoi(v[1].c_str()) == c.o.max_prox_iters; }
      if (L[k].find("Newton iterations") == 0) { nw = v.size() == 2 && atoi(v[0].c_str()) == s.newton_iters && atoi(v[1].c_str()) == c.o.max_newton_iters; }
      if (L[k].find("|rz|") != std::string::npos && k + 1 < L.size()) { auto u = numbers(L[k + 1]); if (u.size() == 4) { double a = atof(u[0].c_str()), b = atof(u[1].c_str()), e = atof(u[2].c_str()); nm = approx_print(s.residual, std::sqrt(a * a + b * b + e * e)) && approx_print(optol(c.o, q), atof(u[3].c_str()));
        if (nm && (s.eflag == ExitFlag::SUCCESS || s.eflag == ExitFlag::MAXITERATIONS) && fin(o[0].x)) { Pt x = wm(q, o[0].x); Res R = nat(q, x, 1, c.o.alpha); double m = 1e-9 * scale(q, x); nm = std::fabs(R.z.norm() - a) <= m + 2e-4 * a && std::fabs(R.l.norm() - b) <= m + 2e-4 * b && std::fabs(R.v.norm() - e) <= m + 2e-4 * e; } } } }
    REQ(px && nw && nm, c.w, ": display ", d, ": the summary ", t, " does not match newton ", s.newton_iters, " prox ", s.prox_iters, " residual ", s.residual);
    if (d == 1) REQ(o[1].text.substr(0, at).find_first_not_of("\n ") == std::string::npos, c.w, ": FINAL printed more than the summary: ", o[1].text);
  }
  // iteration lines: proximal and Newton counts are consistent with the trace, residual norms are those of the printed iterates
  { std::istringstream is(o[2].text.substr(0, o[2].text.find("\nOptimization completed"))); std::string x; int row = 0, lastn = 0;
    // outer iterates (at the start of each outer iteration)
    while (std::getline(is, x)) { auto v = numbers(x); if (v.size() != 7) continue; int pi = atoi(v[0].c_str()), ni = atoi(v[1].c_str());
      REQ(pi == row || (pi == s.prox_iters), c.w, ": iteration line ", row, " shows proximal iteration ", pi); REQ(ni >= lastn && ni <= s.newton_iters, c.w, ": iteration line ", row, " shows ", ni, " Newton iterations"); lastn = ni;
      double a = atof(v[2].c_str()), b = atof(v[3].c_str()), e = atof(v[4].c_str()); if (row == 0) { REQ(ni == 0, c.w, ": first iteration line shows ", ni, " Newton iterations"); double e0 = s.initial_residual; REQ(approx_print(e0, std::sqrt(a * a + b * b + e * e)), c.w, ": first iteration line shows residual norms ", a, " ", b, " ", e, ", the initial residual is ", e0); }
      row++; }
    if (s.eflag == ExitFlag::SUCCESS) REQ(row == s.prox_iters + 1 && lastn == s.newton_iters, c.w, ": ", row, " iteration lines for ", s.prox_iters, " proximal iterations"); }
  { std::istringstream is(o[3].text); std::string x; bool first = true; while (std::getline(is, x)) if (x.find("Begin Prox Iter") == 0) { auto v = numbers(x); REQ(v.size() >= 3, c.w, ": malformed line ", x); if (first) REQ(atoi(v[0].c_str()) == 0 && atoi(v[1].c_str()) == 0 && approx_print(s.initial_residual, atof(v[2].c_str())), c.w, ": header ", x); first = false; } }
}
// ------------------------------------------------------------------ C09
static void c09(Rng& r) {
  auto bad = [&](double good) { int k = r.i(0, 11); double v[] = {NAN, INFINITY, -INFINITY, 0, -1, 1e300, -1e300, 1e-300, 1, 2, 1e-9, good}; return r.p(0.3) ? r.lg(1e-18, 1e6) : v[k]; };
  AlgorithmParameters o; o.DefaultParameters(); double q = r.u();
  double* f[] = {&o.sigma0, &o.sigma_max, &o.sigma_min, &o.alpha, &o.beta, &o.eta, &o.delta, &o.gamma, &o.abs_tol, &o.rel_tol, &o.stall_tol, &o.infeas_tol, &o.inner_tol_max, &o.inner_tol_min};
  int* n[] = {&o.max_newton_iters, &o.max_prox_iters, &o.max_inner_iters, &o.max_linesearch_iters};
  for (double* p : f) if (r.p(q)) *p = bad(*p); for (int* p : n) if (r.p(q)) *p = r.pick({0, -1, 1, 7, INT32_MIN, INT32_MAX, -100});
  o.check_feasibility = r.p(0.5); o.nonmonotone_linesearch = r.p(0.5); o.display_level = (Display)r.i(0, 3);
  DenseP P = dense_problem(r, FEAS); Rig<DenseT> g(P); if (r.p(0.5)) { AlgorithmParameters z = quiet_opts(r); g.alg.UpdateParameters(&z); }
  AlgorithmParameters in = o; bool thr = false; try { g.alg.UpdateParameters(&o); } catch (const std::exception& e) { thr = true; }
  std::string w = "options" + ostr(in); REQ(!thr, w, ": UpdateParameters threw"); AlgorithmParameters c = g.alg.CurrentParameters(); w += " became" + ostr(c) + cat(" sigma_min=", c.sigma_min, " sigma_max=", c.sigma_max, " gamma=", c.gamma);
  auto rg = [&](double v, double a, double b, const char* nm) { REQ(v >= a && v <= b, w, ": ", nm, " = ", v, " outside [", a, ",", b, "]"); };
  rg(c.sigma_max, 1e-6, 1e2, "sigma_max"); rg(c.sigma_min, 1e-13, 1e-8, "sigma_min"); rg(c.sigma0, c.sigma_min, c.sigma_max, "sigma0"); rg(c.sigma0, 1e-10, 1e2, "sigma0"); rg(c.alpha, 0.001, 0.999, "alpha"); rg(c.beta, 0.1, 0.99, "beta"); rg(c.eta, 1e-12, 0.499, "eta"); rg(c.delta, 0.0001, 0.99, "delta"); rg(c.gamma, 0.001, 0.9, "gamma");
  rg(c.abs_tol, 1e-14, INFINITY, "abs_tol"); rg(c.rel_tol, 0, INFINITY, "rel_tol"); rg(c.stall_tol, 1e-14, INFINITY, "stall_tol"); rg(c.infeas_tol, 1e-14, INFINITY, "infeas_tol"); rg(c.inner_tol_max, 1e-8, 1e2, "inner_tol_max"); rg(c.inner_tol_min, 1e-14, 1e-2, "inner_tol_min"); rg(c.inner_tol_max, c.inner_tol_min, 1e2, "inner_tol_max");
  REQ(c.max_newton_iters >= 1 && c.max_prox_iters >= 1 && c.max_inner_iters >= 1 && c.max_linesearch_iters >= 1, w, ": an iteration limit below 1");
  g.alg.UpdateParameters(&c); REQ(sameopts(g.alg.CurrentParameters(), c), w, ": sanitization is not idempotent: then" , ostr(g.alg.CurrentParameters()));
  AlgorithmParameters v = in;    // settings that are valid already are taken over unchanged
  struct F { double AlgorithmParameters::*p; double a, b; }; const F fs[] = {{&AlgorithmParameters::alpha, 0.001, 0.999}, {&AlgorithmParameters::beta, 0.1, 0.99}, {&AlgorithmParameters::eta, 1e-12, 0.499}, {&AlgorithmParameters::delta, 0.0001, 0.99}, {&AlgorithmParameters::gamma, 0.001, 0.9}, {&AlgorithmParameters::abs_tol, 1e-14, INFINITY}, {&AlgorithmParameters::rel_tol, 0, INFINITY}, {&AlgorithmParameters::stall_tol, 1e-14, INFINITY}, {&AlgorithmParameters::infeas_tol, 1e-14, INFINITY}, {&AlgorithmParameters::sigma_max, 1e-6, 1e2}, {&AlgorithmParameters::sigma_min, 1e-13, 1e-8}, {&AlgorithmParameters::inner_tol_min, 1e-14, 1e-2}};
  int fi = 0; for (const F& e : fs) { double x = in.*(e.p); if (x >= e.a && x <= e.b) REQ(c.*(e.p) == x, w, ": valid field ", fi, " = ", x, " changed to ", c.*(e.p)); fi++; }
  if (in.sigma0 >= std::max(1e-10, c.sigma_min) && in.sigma0 <= c.sigma_max) REQ(c.sigma0 == in.sigma0, w, ": valid sigma0 changed"); if (in.inner_tol_max >= std::max(1e-8, c.inner_tol_min) && in.inner_tol_max <= 1e2) REQ(c.inner_tol_max == in.inner_tol_max, w, ": valid inner_tol_max changed");
  int AlgorithmParameters::*is[] = {&AlgorithmParameters::max_newton_iters, &AlgorithmParameters::max_prox_iters, &AlgorithmParameters::max_inner_iters, &AlgorithmParameters::max_linesearch_iters}; for (auto p : is) if (in.*p >= 1) REQ(c.*p == in.*p, w, ": a valid iteration limit changed"); 
  REQ(c.check_feasibility == in.check_feasibility && c.nonmonotone_linesearch == in.nonmonotone_linesearch && c.display_level == in.display_level, w, ": a flag changed");
  for (int k = 0; k < 2; k++) { AlgorithmParameters p; k ? p.ReliableParameters() : p.DefaultParameters(); AlgorithmParameters p2 = p; p2.ValidateOptions(); REQ(sameopts(p, p2), "the ", k ? "reliable" : "default", " preset is changed by sanitization"); g.alg.UpdateParameters(&p); REQ(sameopts(p, g.alg.CurrentParameters()), "the ", k ? "reliable" : "default", " preset is not taken over"); }
  REQ(sameopts(FBstabDense::DefaultOptions(), FBstabMpc::DefaultOptions()) && sameopts(FBstabDense::ReliableOptions(), FBstabMpc::ReliableOptions()), "the solvers' presets differ"); (void)v;
  // accepted options do not make a solve fail
  AlgorithmParameters s = c; s.display_level = Display::OFF; s.max_newton_iters = std::min(s.max_newton_iters, 40); s.max_prox_iters = std::min(s.max_prox_iters, 20); s.max_inner_iters = std::min(s.max_inner_iters, 40); s.max_linesearch_iters = std::min(s.max_linesearch_iters, 40);
  DenseP W = dense_problem(r, FEAS, true); Rig<DenseT> h(W); s.sigma0 = c.sigma0; Out u = run(h, W, s, guess(r, W.q), false);
  REQ(!u.threw || u.what.find("LinearSolver") != std::string::npos, "options", ostr(s), ": a solve failed: ", u.what);
}
// ------------------------------------------------------------------ C11
static void expect_throw(const std::string& w, bool want, std::function<void()> f) {
  try { f(); } catch (const std::runtime_error& e) { REQ(want || std::string(e.what()).find("LinearSolver::") != std::string::npos /* a numerical failure, not a rejection */, w, ": rejected: ", e.what()); return; } catch (const std::exception& e) { FAIL(w, ": wrong exception type: ", e.what()); }
  REQ(!want, w, ": accepted");
}
static void c11(Rng& r) {
  Cap os; int bad = -r.i(0, 2);
  auto one = [&](std::function<void(int, int, int)> f, const char* nm, bool lz) { int a[3] = {r.i(1, 4), r.i(0, 3), r.i(1, 4)}; expect_throw(cat(nm, "(", a[0], ",", a[1], ",", a[2], ")"), false, [&] { f(a[0], a[1], a[2]); });
    int k = r.i(0, 2); a[k] = k == 1 ? -r.i(1, 3) : bad; (void)lz; expect_throw(cat(nm, "(", a[0], ",", a[1], ",", a[2], ")"), true, [&] { f(a[0], a[1], a[2]); }); };
  one([](int a, int b, int c) { FBstabDense s(a, b, c); }, "FBstabDense", true); one([](int a, int b, int c) { FullVariable s(a, b, c); }, "FullVariable", true); one([](int a, int b, int c) { FullResidual s(a, b, c); }, "FullResidual", true);
  one([](int a, int b, int c) { FullFeasibility s(a, b, c); }, "FullFeasibility", true); one([](int a, int b, int c) { DenseCholeskySolver s(a, b, c); }, "DenseCholeskySolver", true);
  auto four = [&](std::function<void(int, int, int, int)> f, const char* nm) { int a[4] = {r.i(1, 4), r.i(1, 3), r.i(1, 3), r.i(1, 3)}; expect_throw(cat(nm, "(valid sizes)"), false, [&] { f(a[0], a[1], a[2], a[3]); }); a[r.i(0, 3)] = bad; expect_throw(cat(nm, "(", a[0], ",", a[1], ",", a[2], ",", a[3], ")"), true, [&] { f(a[0], a[1], a[2], a[3]); }); };
  four([](int a, int b, int c, int d) { FBstabMpc s(a, b, c, d); }, "FBstabMpc"); four([](int a, int b, int c, int d) { RiccatiLinearSolver s(a, b, c, d); }, "RiccatiLinearSolver");
  { // dense solve with one inconsistency
    DenseP P = dense_problem(r, FEAS); FBstabDense s(P.nz, P.nl, P.nv); FBstabDense::Options o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = 5; s.UpdateOptions(o);
    auto v = DenseT::var(P); int k = r.i(0, 16), e = r.pick({-1, 1}); auto chg = [&](long n) { return n + e < 0 ? n + 1 : n + e; }; FBstabDense::ProblemData d = P.d; bool want = true; std::string w = cat(P.dims(), " defect ", k, " ", e);
    switch (k) { case 0: d.H = MatrixXd::Zero(P.nz, chg(P.nz)); break; case 1: d.H = MatrixXd::Zero(chg(P.nz), P.nz); break; case 2: d.f = VectorXd::Zero(chg(P.nz)); break; case 3: d.G = MatrixXd::Zero(P.nl, chg(P.nz)); break; case 4: d.G = MatrixXd::Zero(chg(P.nl), P.nz); break; case 5: d.h = VectorXd::Zero(chg(P.nl)); break; case 6: d.A = MatrixXd::Zero(P.nv, chg(P.nz)); break; case 7: d.A = MatrixXd::Zero(chg(P.nv), P.nz); break; case 8: d.b = VectorXd::Zero(chg(P.nv)); break;
      case 9: v.z = VectorXd::Zero(chg(P.nz)); break; case 10: v.l = VectorXd::Zero(chg(P.nl)); break; case 11: v.v = VectorXd::Zero(chg(P.nv)); break; case 12: v.y = VectorXd::Zero(chg(P.nv)); break;
      case 13: { long m = chg(P.nz); if (m < 1) m = P.nz + 1; d.H = MatrixXd::Identity(m, m); d.f = VectorXd::Zero(m); d.G = MatrixXd::Zero(P.nl, m); d.A = MatrixXd::Zero(P.nv, m); break; }
      case 14: { long m = chg(P.nl); d.G = MatrixXd::Zero(m, P.nz); d.h = VectorXd::Zero(m); break; } case 15: { long m = chg(P.nv); if (m < 1) m = P.nv + 1; d.A = MatrixXd::Zero(m, P.nz); d.b = VectorXd::Zero(m); break; } default: want = false; }
    auto v0 = v; expect_throw(w, want, [&] { s.Solve(d, &v, os); }); if (want) REQ(same(v.z, v0.z) && same(v.l, v0.l) && same(v.v, v0.v) && same(v.y, v0.y), w, ": the guess was changed"); }
  { MpcP P = mpc_problem(r, FEAS, true); Eigen::Vector4d n(P.N, P.nx, P.nu, P.nc); FBstabMpc s(n); FBstabMpc::Variable v(n); REQ(v.z.size() == P.nz && v.l.size() == P.nl && v.v.size() == P.nv && v.y.size() == P.nv, P.dims(), " Variable(sizes): ", v.z.size(), " ", v.l.size(), " ", v.v.size(), " ", v.y.size());
    FBstabMpc::Options o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = 3; s.UpdateOptions(o); expect_throw(cat(P.dims(), " given as a vector"), false, [&] { s.Solve(P.d, &v, os); }); }
  { MpcP P = mpc_problem(r, FEAS, true); FBstabMpc s(P.N, P.nx, P.nu, P.nc); FBstabMpc::Options o = FBstabMpc::DefaultOptions(); o.display_level = Display::OFF; o.max_newton_iters = 5; s.UpdateOptions(o);
    auto v = MpcT::var(P); FBstabMpc::ProblemData d = P.d; MatrixSequence* sq[] = {&d.Q, &d.R, &d.S, &d.q, &d.r, &d.A, &d.B, &d.c, &d.E, &d.L, &d.d}; const char* nm[] = {"Q", "R", "S", "q", "r", "A", "B", "c", "E", "L", "d"};
    int k = r.i(0, 16), wh = r.i(0, 2), e = r.pick({-1, 1}); std::string w = P.dims(); bool want = true;
    if (k < 11) { int a[3] = {sq[k]->length(), sq[k]->rows(), sq[k]->cols()}; a[wh] += e; if (a[wh] < (wh ? 1 : 0)) a[wh] += 2; MatrixSequence t(a[0], a[1], a[2]); std::fill(t.data(), t.data() + t.size(), 0.0); *sq[k] = t; w += cat(" sequence ", nm[k], " is ", a[0], " of ", a[1], "x", a[2]); }
    else if (k == 11) { d.x0 = VectorXd::Zero(P.nx + e); w += " x0"; } else if (k == 12) { v.z = VectorXd::Zero(P.nz + e); w += " z"; } else if (k == 13) { v.l = VectorXd::Zero(P.nl + e); w += " l"; } else if (k == 14) { v.v = VectorXd::Zero(P.nv + e); w += " v"; } else if (k == 15) { v.y = VectorXd::Zero(P.nv + e); w += " y"; } else want = false;
    auto v0 = v; expect_throw(w, want, [&] { s.Solve(d, &v, os); }); if (want) REQ(same(v.z, v0.z) && same(v.l, v0.l) && same(v.v, v0.v) && same(v.y, v0.y), w, ": the guess was changed");
    // a consistent problem of other dimensions than the solver's
    MpcP O = mpc_problem(r, FEAS, true); auto vo = MpcT::var(O); if (O.dims() != P.dims()) { expect_throw(cat("solver ", P.dims(), " data ", O.dims()), true, [&] { s.Solve(O.d, &vo, os); }); auto vp = MpcT::var(P); expect_throw(cat("solver ", P.dims(), " data ", O.dims(), " guess of the solver's size"), true, [&] { s.Solve(O.d, &vp, os); }); }
    else expect_throw(O.dims(), false, [&] { s.Solve(O.d, &vo, os); }); }
  { // null pointers and unlinked data
    DenseP P = dense_problem(r, FEAS); auto D = DenseT::data(P); FullVariable x(P.nz, P.nl, P.nv), y(P.nz, P.nl, P.nv); FullResidual R(P.nz, P.nl, P.nv); FullFeasibility F(P.nz, P.nl, P.nv); DenseCholeskySolver L(P.nz, P.nl, P.nv);
    typedef FBstabAlgorithm<FullVariable, FullResidual, DenseCholeskySolver, FullFeasibility> Al; FullVariable* xs[4] = {&x, &x, &x, &x}; FullResidual* rs[2] = {&R, &R}; DenseCholeskySolver* lp = &L; FullFeasibility* fp = &F; int k = r.i(0, 8);
    if (k < 4) xs[k] = nullptr; else if (k < 6) rs[k - 4] = nullptr; else if (k == 6) lp = nullptr; else if (k == 7) fp = nullptr; expect_throw(cat("FBstabAlgorithm with null argument ", k), k < 8, [&] { Al a(xs[0], xs[1], xs[2], xs[3], rs[0], rs[1], lp, fp); });
    expect_throw("unlinked variable Fill", true, [&] { x.Fill(1.0); }); expect_throw("unlinked variable InitializeConstraintMargin", true, [&] { x.InitializeConstraintMargin(); }); expect_throw("unlinked variable axpy", true, [&] { x.axpy(1.0, y); });
    expect_throw("unlinked residual", true, [&] { R.NaturalResidual(y); }); expect_throw("unlinked residual", true, [&] { R.PenalizedNaturalResidual(y); }); expect_throw("unlinked residual", true, [&] { R.InnerResidual(y, y, 1.0); }); expect_throw("unlinked feasibility", true, [&] { F.CheckFeasibility(y, 1e-3); }); expect_throw("unlinked linear solver", true, [&] { L.Initialize(y, y, 1.0); });
    x.LinkData(D.get()); R.LinkData(D.get()); F.LinkData(D.get()); L.LinkData(D.get()); y.LinkData(D.get()); x.Fill(0); y.Fill(0); int s = r.i(0, 2); FullVariable o(P.nz + (s == 0), P.nl + (s == 1), P.nv + (s == 2)); FullResidual Ro(P.nz + (s == 0), P.nl + (s == 1), P.nv + (s == 2)); o.LinkData(D.get());
    expect_throw("variable of another size: InnerResidual x", true, [&] { R.InnerResidual(o, y, 1.0); }); expect_throw("variable of another size: InnerResidual xbar", true, [&] { R.InnerResidual(y, o, 1.0); });
    expect_throw("sigma = 0: InnerResidual", true, [&] { R.InnerResidual(y, y, 0.0); });
    expect_throw("variable of another size: CheckFeasibility", true, [&] { F.CheckFeasibility(o, 1e-3); }); expect_throw("variable of another size: Initialize", true, [&] { L.Initialize(o, y, 1.0); }); expect_throw("variable of another size: Initialize", true, [&] { L.Initialize(y, o, 1.0); });
    L.Initialize(x, y, 1.0); R.Fill(0.0); expect_throw("step of another size", true, [&] { L.Solve(R, &o); }); expect_throw("null step", true, [&] { L.Solve(R, nullptr); }); expect_throw("right-hand side of another size", true, [&] { L.Solve(Ro, &x); }); }
  { MpcP P = mpc_problem(r, FEAS, true); auto D = MpcT::data(P); typedef void (MpcData::*G)(const VectorXd&, double, double, VectorXd*) const; typedef void (MpcData::*A)(double, VectorXd*) const;
    const G gs[] = {&MpcData::gemvH, &MpcData::gemvG, &MpcData::gemvGT, &MpcData::gemvA, &MpcData::gemvAT}; const A as[] = {&MpcData::axpyf, &MpcData::axpyh, &MpcData::axpyb};
    const int gx[] = {P.nz, P.nz, P.nl, P.nz, P.nv}, gy[] = {P.nz, P.nl, P.nz, P.nv, P.nz}, ay[] = {P.nz, P.nl, P.nv}; int k = r.i(0, 7), dx = r.i(-1, 1), dy = r.i(-1, 1);
    if (k < 5) { VectorXd x = VectorXd::Zero(gx[k] + dx), y = VectorXd::Zero(gy[k] + dy); expect_throw(cat("MpcData operator ", k, " with operands off by ", dx, " and ", dy), dx || dy, [&] { (D.get()->*gs[k])(x, 1.0, 0.5, &y); });
      VectorXd x1 = VectorXd::Zero(gx[k]); expect_throw(cat("MpcData operator ", k, " with a null output"), true, [&] { (D.get()->*gs[k])(x1, 1.0, 0.5, nullptr); }); }
    else { VectorXd y = VectorXd::Zero(ay[k - 5] + dy); expect_throw(cat("MpcData operator ", k, " with an output off by ", dy), dy != 0, [&] { (D.get()->*as[k - 5])(1.0, &y); }); expect_throw(cat("MpcData operator ", k, " with a null output"), true, [&] { (D.get()->*as[k - 5])(1.0, nullptr); }); } }
  { MpcP P = mpc_problem(r, FEAS, true); auto D = MpcT::data(P); FullVariable x(P.nz, P.nl, P.nv), y(P.nz, P.nl, P.nv); FullResidual R(P.nz, P.nl, P.nv); RiccatiLinearSolver L(P.N, P.nx, P.nu, P.nc);
    expect_throw("unlinked Riccati solver", true, [&] { L.Initialize(y, y, 1.0); }); x.LinkData(D.get()); y.LinkData(D.get()); R.LinkData(D.get()); L.LinkData(D.get()); x.Fill(0); y.Fill(0); R.Fill(0.0); int s = r.i(0, 2); FullVariable o(P.nz + (s == 0), P.nl + (s == 1), P.nv + (s == 2)); FullResidual Ro(P.nz + (s == 0), P.nl + (s == 1), P.nv + (s == 2)); o.LinkData(D.get());
    expect_throw("Riccati: variable of another size", true, [&] { L.Initialize(o, y, 1.0); }); expect_throw("Riccati: variable of another size", true, [&] { L.Initialize(y, o, 1.0); }); L.Initialize(x, y, 1.0); expect_throw("Riccati: step of another size", true, [&] { L.Solve(R, &o); }); expect_throw("Riccati: null step", true, [&] { L.Solve(R, nullptr); }); expect_throw("Riccati: right-hand side of another size", true, [&] { L.Solve(Ro, &x); }); }
}
// ------------------------------------------------------------------ C19: the front ends, under the sanitizer
template <class T> void c19(Rng& r) {
  if (r.p(0.02)) r.huge = r.big();
  typename T::P P = make<typename T::P>(r, r.pick({FEAS, PINF, DINF, ANY})); auto s = T::solver(P); typename T::Solver::Options o = r.p(0.5) ? T::Solver::DefaultOptions() : T::Solver::ReliableOptions(); static_cast<AlgorithmParameters&>(o) = quiet_opts(r); o.display_level = (Display)r.i(0, 3); if (r.p(0.8)) s->UpdateOptions(o);
  auto v = T::var(P); Pt g = guess(r, P.q); v.z = g.z; v.l = g.l; v.v = g.v; v.y = g.y; Cap os;
  for (int k = 0; k < 2; k++) { try { s->Solve(P.d, &v, os); } catch (const std::runtime_error& e) { REQ(std::string(e.what()).find("LinearSolver") != std::string::npos, P.dims(), ": ", e.what()); } REQ(v.z.size() == P.nz && v.l.size() == P.nl && v.v.size() == P.nv && v.y.size() == P.nv, P.dims(), ": sizes of the returned point"); }
}
void run_parts(const std::string&, Rng&);
static std::string CUR; static uint64_t SEED; static int IT;
static void onalarm(int) { printf("FAIL property=%s seed=%llu iteration=%d the run did not terminate within 20 s\n", CUR.c_str(), (unsigned long long)SEED, IT); fflush(stdout); _exit(1); }

int main(int argc, char** argv) {
  std::string p = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int from = atoi(argv[3]), n = atoi(argv[4]); double limit = argc > 5 ? atof(argv[5]) : 60; CUR = p; SEED = seed; signal(SIGALRM, onalarm);
  struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); int done = 0;
  for (int k = from; k < from + n; k++) {
    Rng r(seed * 1000003ULL + k); IT = k; alarm(20); r.wide = r.p(0.05);
    if (getenv("FB_PROGRESS")) { printf("ITER %d\n", k); fflush(stdout); }
    try {
      bool d = r.p(0.5);
      if (p == "C05") d ? c05<DenseT>(r) : c05<MpcT>(r);
      else if (p == "C06") { run_parts(p, r); d ? c06alg<DenseT>(r) : c06alg<MpcT>(r); d ? c06conv<DenseT>(r) : c06conv<MpcT>(r); }
      else if (p == "C07") d ? c07<DenseT>(r) : c07<MpcT>(r);
      else if (p == "C08") d ? c08<DenseT>(r) : c08<MpcT>(r);
      else if (p == "C09") c09(r);
      else if (p == "C10") d ? c10<DenseT>(r) : c10<MpcT>(r);
      else if (p == "C11") c11(r);
      else if (p == "C13") { d ? c13<DenseT>(r) : c13<MpcT>(r); d ? c13front<DenseT>(r) : c13front<MpcT>(r); d ? c13parts<DenseT>(r) : c13parts<MpcT>(r); }
      else if (p == "C14") d ? c14<DenseT>(r) : c14<MpcT>(r);
      else if (p == "C16") d ? c16<DenseT>(r) : c16<MpcT>(r);
      else if (p == "C18") d ? c18<DenseT>(r) : c18<MpcT>(r);
      else if (p == "C19") { d ? c19<DenseT>(r) : c19<MpcT>(r); for (const char* q : {"C01", "C02", "C06", "C12", "C17"}) if (r.p(0.3)) { try { run_parts(q, r); } catch (const Fail&) {} } if (r.p(0.3)) { try { run_parts(d ? "C03" : "C04", r); } catch (const Fail&) {} } }
      else run_parts(p, r);
    } catch (const Fail& f) { printf("FAIL property=%s seed=%llu iteration=%d %s\n", p.c_str(), (unsigned long long)seed, k, f.m.c_str()); return 1; }
    catch (const std::exception& e) { printf("FAIL property=%s seed=%llu iteration=%d unexpected exception: %s\n", p.c_str(), (unsigned long long)seed, k, e.what()); return 1; }
    done++; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) > limit) break;
  }
  printf("DONE property=%s seed=%llu iterations=%d\n", p.c_str(), (unsigned long long)seed, done); return 0;
}
