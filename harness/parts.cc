#include "common.h"

template <class T> static void load(FullVariable* x, const Pt& p) { x->z() = p.z; x->l() = p.l; x->v() = p.v; x->y() = p.y; }
static Pt randpt(Rng& r, const QP& q, bool edge = true) {
  const double m = r.mag(); Pt p{r.v(q.nz(), 2 * m), r.v(q.nl(), 2 * m), r.v(q.nv(), 2 * m), VectorXd()}; p.y = r.v(q.nv(), 2 * m);
  if (r.p(0.5)) p.y = margin(q, p.z);
  if (edge) for (int k = 0; k < q.nv(); k++) { if (r.p(0.2)) p.v(k) = 0; if (r.p(0.2)) p.y(k) = 0; if (r.p(0.1)) p.v(k) = p.y(k); }
  return p;
}
static void ld(FullVariable* x, const Pt& p) { x->z() = p.z; x->l() = p.l; x->v() = p.v; x->y() = p.y; }
static bool samept(const Pt& a, const Pt& b) { return same(a.z, b.z) && same(a.l, b.l) && same(a.v, b.v) && same(a.y, b.y); }

// ------------------------------------------------------------------ C01
static void check_norms(const FullResidual& R, const std::string& w) {
  double nz = R.z().norm(), nl = R.l().norm(), nv = R.v().norm(), s = 1e-11 * (1 + nz + nl + nv);
  REQ(nearS(R.z_norm(), nz, s) && nearS(R.l_norm(), nl, s) && nearS(R.v_norm(), nv, s), w, ": component norms ", R.z_norm(), " ", R.l_norm(), " ", R.v_norm(), " expected ", nz, " ", nl, " ", nv);
  double n2 = nz * nz + nl * nl + nv * nv;
  REQ(nearS(R.Norm(), std::sqrt(n2), s), w, ": Norm() = ", R.Norm(), " expected ", std::sqrt(n2));
  REQ(nearS(R.Merit(), 0.5 * n2, 1e-11 * (1 + n2)), w, ": Merit() = ", R.Merit(), " expected ", 0.5 * n2);
}
template <class T> void c01(Rng& r) {
  typename T::P P = make<typename T::P>(r, ANY); auto D = T::data(P); const QP& q = P.q;
  FullVariable x(P.nz, P.nl, P.nv), xb(P.nz, P.nl, P.nv); FullResidual R(P.nz, P.nl, P.nv);
  x.LinkData(D.get()); xb.LinkData(D.get()); R.LinkData(D.get());
  double al = 0.95; 
  for (int step = 0; step < 6; step++) {
    if (r.p(0.5)) { al = r.p(0.2) ? r.pick({0.0, 1.0, 0.5}) : r.u(0, 1); R.SetAlpha(al); }
    Pt a = randpt(r, q), b = randpt(r, q); ld(&x, a); ld(&xb, b);
    double sg = r.p(0.5) ? r.u(0.01, 2) : r.lg(1e-8, 1);
    if (r.p(0.1)) { sg = r.lg(1e-14, 1e-7); b.z /= sg; b.l /= sg; b.v /= sg; ld(&xb, b); b = pt(xb); }      // a tiny sigma and a distant centre
    double tol = 1e-10 * scale(q, a) * (1 + scale(q, b) * sg);
    int op = r.i(0, 4); Res e; std::string w;
    if (op == 4) { double c = r.sc(); R.Fill(c); e.z = VectorXd::Constant(P.nz, c); e.l = VectorXd::Constant(P.nl, c); e.v = VectorXd::Constant(P.nv, c); w = cat("Fill(", c, ")"); }
    else if (op == 3) { e.z = -R.z(); e.l = -R.l(); e.v = -R.v(); R.Negate(); w = "Negate"; tol = 0; }
    else if (op == 2) { R.InnerResidual(x, xb, sg); e = inner(q, a, b, sg, al); w = cat("InnerResidual sigma=", sg); }
    else if (op == 1) { R.PenalizedNaturalResidual(x); e = nat(q, a, 1, al); w = "PenalizedNaturalResidual"; }
    else { R.NaturalResidual(x); e = nat(q, a, 0, al); w = "NaturalResidual"; }
    w = cat(P.dims(), " step ", step, " ", w, " alpha=", al, " z=", str(a.z), " l=", str(a.l), " v=", str(a.v), " y=", str(a.y));
    REQ(near(R.z(), e.z, tol), w, ": z block ", str(R.z()), " expected ", str(e.z));
    REQ(near(R.l(), e.l, tol), w, ": l block ", str(R.l()), " expected ", str(e.l));
    REQ(near(R.v(), e.v, tol), w, ": v block ", str(R.v()), " expected ", str(e.v));
    check_norms(R, w);
    REQ(samept(pt(x), a) && samept(pt(xb), b), w, ": an argument was modified");
  }
}
// ------------------------------------------------------------------ C02
template <class T> void c02(Rng& r) {
  typename T::P P = make<typename T::P>(r, ANY); if (r.p(0.3)) { }
  auto D = T::data(P); const QP& q = P.q;
  struct Op { const char* n; int k; };
  for (int rep = 0; rep < 4; rep++) for (int k = 0; k < 8; k++) {
    double a = r.sc(), b = r.sc();
    const MatrixXd M = k == 0 ? q.H : k == 1 ? q.G : k == 2 ? MatrixXd(q.G.transpose()) : k == 3 ? q.A : k == 4 ? MatrixXd(q.A.transpose()) : MatrixXd();
    const char* nm[] = {"gemvH", "gemvG", "gemvGT", "gemvA", "gemvAT", "axpyf", "axpyh", "axpyb"};
    VectorXd w = k == 5 ? q.f : k == 6 ? q.h : q.b;
    int ny = k < 5 ? (int)M.rows() : (int)w.size();
    VectorXd x = r.v(k < 5 ? (int)M.cols() : 1, 2), x0 = x, y = r.v(ny, 2), y0 = y;
    if (k < 5 && b == 0 && r.p(0.5)) { for (int e = 0; e < ny; e++) if (r.p(0.5)) y(e) = r.pick({(double)NAN, (double)INFINITY}); }
    VectorXd e = k < 5 ? VectorXd(a * (M * x)) : VectorXd(y0 + a * w);
    if (k < 5 && b != 0) e += b * y0;
    switch (k) { case 0: D->gemvH(x, a, b, &y); break; case 1: D->gemvG(x, a, b, &y); break; case 2: D->gemvGT(x, a, b, &y); break; case 3: D->gemvA(x, a, b, &y); break;
      case 4: D->gemvAT(x, a, b, &y); break; case 5: D->axpyf(a, &y); break; case 6: D->axpyh(a, &y); break; default: D->axpyb(a, &y); }
    REQ(near(y, e, 1e-10 * (1 + 50 * inf(x) + inf(e))), P.dims(), " ", nm[k], " a=", a, " b=", b, " x=", str(x0), " y=", str(y0), ": got ", str(y), " expected ", str(e));
    REQ(same(x, x0), nm[k], " modified x");
  }
  double fn = forcing(q);
  REQ(nearS(D->ForcingNorm(), fn, 1e-10 * (1 + fn)), P.dims(), " ForcingNorm ", D->ForcingNorm(), " expected ", fn);
}
// ------------------------------------------------------------------ C03, C04, C15
static void pfbgrad(double a, double b, double al, double* g, double* m) {
  double rr = std::sqrt(a * a + b * b); double p = a > 0 && b > 0;
  *g = al * (1 - a / rr) + (p ? (1 - al) * b : 0); *m = al * (1 - b / rr) + (p ? (1 - al) * a : 0);
}
static bool zeroG(DenseP* p) { p->q.G.setZero(); p->d.G.setZero(); return true; }
static bool zeroG(MpcP*) { return false; }
template <class T> void newton(Rng& r, bool grad) {
  typename T::P P = make<typename T::P>(r, FEAS, true); const bool noG = r.p(0.1) && zeroG(&P); auto D = T::data(P); const QP& q = P.q;
  FullVariable x(P.nz, P.nl, P.nv), xb(P.nz, P.nl, P.nv), dx(P.nz, P.nl, P.nv), dx2(P.nz, P.nl, P.nv); FullResidual R(P.nz, P.nl, P.nv);
  auto L = T::template ls<typename T::LS>(P); L->LinkData(D.get());
  for (FullVariable* p : {&x, &xb, &dx, &dx2}) p->LinkData(D.get());
  double al = 0.95;
  for (int rep = 0; rep < 3; rep++) {
    if (r.p(0.6)) { al = r.u(0.05, 0.98); L->SetAlpha(al); }
    double sg = r.p(0.5) ? r.u(0.1, 2) : r.p(0.8) ? r.lg(1e-5, 0.1) : r.lg(1e-8, 1e-5);
    if (noG && r.p(0.5)) sg = r.lg(1e-14, 1e-7);
    Pt a = randpt(r, q), b = randpt(r, q); 
    if (r.p(0.3)) b = a;
    for (int k = 0; k < P.nv; k++) {
      if (r.p(0.15)) { a.v(k) = b.v(k) = 0; a.y(k) = 0; }
      if (r.p(0.1)) { a.v(k) = b.v(k) = 0; a.y(k) = 1e-14 * r.u(-1, 1); }
      if (r.p(0.1)) { b.v(k) = a.v(k); a.y(k) = 0; }
      if (r.p(0.1)) { b.v(k) = a.v(k) = 1e-5 * r.n(); a.y(k) = 1e-5 * r.n(); }
    }
    ld(&x, a); ld(&xb, b);
    std::string w = cat(P.dims(), " alpha=", al, " sigma=", sg, " y=", str(a.y), " v=", str(a.v), " vbar=", str(b.v));
    bool ok = L->Initialize(x, xb, sg);
    REQ(samept(pt(x), a) && samept(pt(xb), b), w, ": Initialize modified an iterate");
    REQ(ok, w, ": Initialize failed on a strictly convex problem");
    std::vector<VectorXd> As, V, Rv;
    for (int s = 0; s < (grad ? 2 : 1); s++) {
      Res rr{r.v(P.nz), r.v(P.nl), r.v(P.nv)}; R.z() = rr.z; R.l() = rr.l; R.v() = rr.v;
      ld(&dx, randpt(r, q)); if (r.p(0.3)) { dx.z().fill(NAN); dx.l().fill(NAN); dx.v().fill(NAN); dx.y().fill(NAN); }
      ok = L->Solve(R, &dx);
      REQ(ok, w, ": Solve failed");
      REQ(same(R.z(), rr.z) && same(R.l(), rr.l) && same(R.v(), rr.v), w, ": Solve modified the right-hand side");
      REQ(samept(pt(x), a) && samept(pt(xb), b), w, ": Solve modified an iterate");
      VectorXd dz = dx.z(), dl = dx.l(), dv = dx.v();
      double sc = 1 + inf(dz) * 30 + inf(dl) * 10 + inf(dv) * 10;
      VectorXd e1 = q.H * dz + sg * dz + q.G.transpose() * dl + q.A.transpose() * dv - rr.z, e2 = -(q.G * dz) + sg * dl - rr.l, Adz = q.A * dz;
      double tol = std::max(1e-7, 1e-13 / sg) * sc;
      if (!grad) {
        REQ(inf(e1) <= tol, w, ": (H+sigma I)dz + G'dl + A'dv - rz = ", str(e1));
        REQ(inf(e2) <= (noG ? 1e-10 * (1 + inf(rr.l)) : tol), w, ": -G dz + sigma dl - rl = ", str(e2));
        for (int k = 0; k < P.nv; k++) {
          double ak = a.y(k) + sg * (a.v(k) - b.v(k)), bk = a.v(k); if (std::sqrt(ak * ak + bk * bk) < 2e-13) continue;
          double g, m; pfbgrad(ak, bk, al, &g, &m);
          double e3 = -g * Adz(k) + (m + sg * g) * dv(k) - rr.v(k);
          if (ak == 0 || bk == 0) continue;      // other elements of the generalized gradient are admitted (C15)
          REQ(std::fabs(e3) <= tol, w, ": row ", k, " of -C A dz + D dv = rv is off by ", e3);
        }
        REQ(near(dx.y(), q.b - Adz, 1e-9 * sc), w, ": step margin ", str(dx.y()), " expected b - A dz = ", str(q.b - Adz));
      }
      As.push_back(Adz); V.push_back(dv); Rv.push_back(rr.v);
    }
    if (grad) for (int k = 0; k < P.nv; k++) {     // recover the gradient actually used from two right-hand sides
      Eigen::Matrix2d M; Eigen::Vector2d t;
      for (int s = 0; s < 2; s++) { M(s, 0) = -As[s](k) + sg * V[s](k); M(s, 1) = V[s](k); t(s) = Rv[s](k); }
      double det = std::fabs(M.determinant()), nn = M.norm(); if (det < 1e-5 * nn * nn || nn > 1e4) continue;
      Eigen::Vector2d gm = M.inverse() * t; double g = gm(0), m = gm(1), tol = 1e-6 * (1 + nn * nn / det * 1e-3) * (1 + std::fabs(g) + std::fabs(m));
      double ak = a.y(k) + sg * (a.v(k) - b.v(k)), bk = a.v(k), rad = std::sqrt(ak * ak + bk * bk);
      std::string ww = cat(w, ": row ", k, " a=", ak, " b=", bk, " gamma=", g, " mu=", m);
      REQ(g >= -tol && m >= -tol && (g > 1e-9 || m > 1e-9), ww, ": the gradient has a wrong sign");
      if (rad < 0.99e-13) { double p1 = g / al - 1, p2 = m / al - 1; REQ(p1 * p1 + p2 * p2 <= 1 + 1e-3, ww, ": not an element of the generalized gradient"); continue; }
      if (rad < 1.01e-13) continue;
      double G, Mu; pfbgrad(ak, bk, al, &G, &Mu);
      double gl = G, gh = G, ml = Mu, mh = Mu;
      if (ak == 0 && bk > 0) gh = G + (1 - al) * bk;
      if (bk == 0 && ak > 0) mh = Mu + (1 - al) * ak;
      REQ(g >= gl - tol && g <= gh + tol && m >= ml - tol && m <= mh + tol, ww, ": expected gradient (", G, ", ", Mu, ")");
    }
  }
}
static void c15pfb(Rng& r) {          // the residual's phi through InnerResidual, and its zero set
  DenseP P = dense_problem(r, ANY); auto D = DenseT::data(P); FullVariable x(P.nz, P.nl, P.nv); FullResidual R(P.nz, P.nl, P.nv);
  x.LinkData(D.get()); R.LinkData(D.get()); double al = r.u(0.01, 0.99); R.SetAlpha(al);
  Pt a = randpt(r, P.q); ld(&x, a); R.InnerResidual(x, x, 1.0);
  for (int k = 0; k < P.nv; k++) {
    double e = pfb(a.y(k), a.v(k), al);
    REQ(nearS(R.v()(k), e, 1e-10 * (1 + std::fabs(e))), P.dims(), " alpha=", al, " phi(", a.y(k), ",", a.v(k), ") = ", R.v()(k), " expected ", e);
  }
}
// ------------------------------------------------------------------ C06 (component)
template <class T> void c06(Rng& r) {
  typename T::P P = make<typename T::P>(r, r.p(0.3) ? FEAS : r.p(0.5) ? DINF : r.p(0.5) ? PINF : BOTH); auto D = T::data(P); const QP& q = P.q;
  FullVariable x(P.nz, P.nl, P.nv); x.LinkData(D.get()); FullFeasibility F(P.nz, P.nl, P.nv); F.LinkData(D.get());
  for (int rep = 0; rep < 8; rep++) {
    Pt a = randpt(r, q, false); double tol = r.pick({1e-8, 1e-4, 1e-2, 0.3, 0.8, 3.0});
    int how = r.i(0, 7);
    if (how & 1) { // kernel-like z
      MatrixXd K(P.nz + P.nl, P.nz); K << q.H, q.G; Eigen::JacobiSVD<MatrixXd> s(K, Eigen::ComputeFullV); VectorXd d = s.matrixV().col(P.nz - 1);
      if (q.f.dot(d) > 0) d = -d; a.z = d * r.lg(1e-3, 10); if (r.p(0.2)) a.z = -a.z;
    }
    if (how & 2) { // kernel-like dual
      MatrixXd K(P.nz, P.nv + P.nl); K << q.A.transpose(), q.G.transpose(); Eigen::JacobiSVD<MatrixXd> s(K, Eigen::ComputeFullV); VectorXd d = s.matrixV().col(P.nv + P.nl - 1);
      if (q.b.dot(d.head(P.nv)) + q.h.dot(d.tail(P.nl)) > 0) d = -d; a.v = d.head(P.nv) * 2; a.l = d.tail(P.nl) * 2;
      if (r.p(0.5)) { for (int k = 0; k < P.nv; k++) if (a.v(k) < 0 && r.p(0.7)) a.v(k) = 0; }
    }
    if (how & 4) { a.v = a.v.cwiseAbs(); if (r.p(0.3)) a.v(r.i(0, P.nv - 1)) *= -r.pick({0.01, 0.5, 1.0}); if (r.p(0.2)) a.z.setZero(); if (r.p(0.1)) a.z *= 1e-15; if (r.p(0.1)) { a.v.setZero(); a.l.setZero(); } }
    if (r.p(0.2)) { a.z *= 0; a.z(r.i(0, P.nz - 1)) = r.n(); }
    if (r.p(0.2)) { a.v *= 0; a.l *= 0; a.v(r.i(0, P.nv - 1)) = r.n(); }
    if (r.p(0.1) && P.nl) { a.v *= 0; a.l(r.i(0, P.nl - 1)) = 3 * r.n(); }
    ld(&x, a); auto st = F.CheckFeasibility(x, tol); typedef FullFeasibility::FeasibilityStatus FS;
    bool dinf = st == FS::DUAL_INFEASIBLE || st == FS::BOTH, pinf = st == FS::PRIMAL_INFEASIBLE || st == FS::BOTH;
    double w = inf(a.z), u = std::max(P.nl ? inf(a.l) : 0.0, inf(a.v));
    VectorXd Az = q.A * a.z, Gz = q.G * a.z, Hz = q.H * a.z, t = q.A.transpose() * a.v + q.G.transpose() * a.l;
    double fz = q.f.dot(a.z), bh = q.b.dot(a.v) + q.h.dot(a.l), mv = a.v.minCoeff();
    std::string ww = cat(P.dims(), " tol=", tol, " z=", str(a.z), " l=", str(a.l), " v=", str(a.v), " status=", (int)st, " max(Az)=", Az.maxCoeff(), " |Gz|=", P.nl ? inf(Gz) : 0, " |Hz|=", inf(Hz), " f'z=", fz, " |A'v+G'l|=", inf(t), " b'v+h'l=", bh);
    double m = 1e-9 * (1 + w + u) * 10;
    double d1 = std::max(std::max(Az.maxCoeff(), P.nl ? inf(Gz) : 0.0), inf(Hz)) - tol * w, d2 = fz;      // dual infeasible iff d1 <= 0, d2 < 0, w > 1e-14
    double p1 = std::max(inf(t) - tol * u, -tol * u - mv), p2 = bh;
    if (dinf) REQ(d1 <= m && d2 < m && w > 0.9e-14, ww, ": dual infeasibility reported without a certificate");
    else REQ(!(d1 < -m && d2 < -m && w > 1.1e-14), ww, ": dual certificate not reported");
    if (pinf) REQ(p1 <= m && p2 < m, ww, ": primal infeasibility reported without a certificate");
    else REQ(!(p1 < -m && p2 < -m), ww, ": primal certificate not reported");
    REQ(samept(pt(x), a), ww, ": the step was modified");
  }
}
// ------------------------------------------------------------------ C12
static void c12(Rng& r) {
  int len = r.i(0, 4), nr = r.i(1, 4), nc = r.i(1, 4); MatrixSequence s(len, nr, nc);
  std::string w = cat("MatrixSequence(", len, ",", nr, ",", nc, ")");
  REQ(s.length() == len && s.rows() == nr && s.cols() == nc && s.size() == len * nr * nc, w, ": dimensions");
  for (int k = 0; k < s.size(); k++) s.data()[k] = k + 1;
  const MatrixSequence& cs = s; MapMatrixSequence mv(s);
  std::unique_ptr<MapMatrixSequence> mm; if (len > 0) mm.reset(new MapMatrixSequence(s.data(), len, nr, nc));
  MatrixSequence cp(s), as; as = s; MapMatrixSequence mc(mv);
  REQ(mv.length() == len && mv.rows() == nr && mv.cols() == nc && mv.size() == s.size(), w, ": dimensions of the view");
  for (int k = 0; k < len; k++) for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) {
    double e = k * nr * nc + j * nr + i + 1;
    REQ(s(k)(i, j) == e && cs(k)(i, j) == e && mv(k)(i, j) == e && (*mm)(k)(i, j) == e && cp(k)(i, j) == e && as(k)(i, j) == e && mc(k)(i, j) == e, w, ": element (", i, ",", j, ") of matrix ", k);
  }
  REQ(len == 0 || (s(0).rows() == nr && s(0).cols() == nc && mv(len - 1).rows() == nr && mv(len - 1).cols() == nc), w, ": matrix shape");
  if (len > 0) { int k = r.i(0, len - 1), i = r.i(0, nr - 1), j = r.i(0, nc - 1); s(k)(i, j) = -7; for (int e = 0; e < s.size(); e++) REQ(s.data()[e] == (e == k * nr * nc + j * nr + i ? -7 : e + 1), w, ": a write touched element ", e);
    REQ(cp.data() != s.data() && cp(k)(i, j) != -7, w, ": a copy shares storage"); REQ(mv(k)(i, j) == -7, w, ": a view does not follow its sequence"); }
  for (int k : {-1, len, len + 1, -len - 3, 1 << 20}) {
    int hits = 0; try { s(k); } catch (const std::out_of_range&) { hits++; } try { cs(k); } catch (const std::out_of_range&) { hits++; } try { mv(k); } catch (const std::out_of_range&) { hits++; }
    REQ(hits == 3, w, ": index ", k, " accepted");
  }
  auto thr = [&](std::function<void()> f, const std::string& m) { try { f(); } catch (const std::runtime_error&) { return; } catch (...) { FAIL(m, ": wrong exception type"); } FAIL(m, ": accepted"); };
  double buf[8] = {0}; int bad = -r.i(0, 3);
  thr([&] { MatrixSequence t(-r.i(1, 3), 2, 2); }, "negative length"); thr([&] { MatrixSequence t(2, bad, 2); }, cat("rows=", bad)); thr([&] { MatrixSequence t(2, 2, bad); }, cat("cols=", bad));
  thr([&] { MapMatrixSequence t(buf, bad, 1, 1); }, cat("mapped length=", bad)); thr([&] { MapMatrixSequence t(buf, 2, bad, 1); }, cat("mapped rows=", bad)); thr([&] { MapMatrixSequence t(buf, 2, 1, bad); }, cat("mapped cols=", bad)); thr([&] { MapMatrixSequence t(nullptr, 2, 1, 1); }, "null mapping");
  { MatrixSequence t(2, 3); REQ(t.cols() == 1 && t.rows() == 3, "default column count"); }
}
// ------------------------------------------------------------------ C17
template <class T> void c17(Rng& r) {
  typename T::P P = make<typename T::P>(r, ANY); auto D = T::data(P); const QP& q = P.q;
  FullVariable x(P.nz, P.nl, P.nv), w(P.nz, P.nl, P.nv); x.LinkData(D.get()); w.LinkData(D.get());
  Pt a = randpt(r, q); a.y = margin(q, a.z); ld(&x, a); Pt b = randpt(r, q); b.y = margin(q, b.z); ld(&w, b);
  for (int k = 0; k < 8; k++) {
    int op = r.i(0, 4); double c = r.sc(); Pt e = pt(x), o = pt(w); std::string nm; double tol = 1e-9 * (scale(q, e) + scale(q, o));
    if (op == 0) { x.Copy(w); e = o; nm = "Copy"; tol = 0; }
    else if (op == 1) { x.axpy(c, w); e.z += c * o.z; e.l += c * o.l; e.v += c * o.v; e.y = margin(q, e.z); nm = cat("axpy(", c, ")"); }
    else if (op == 2) { x.Fill(c); e.z.fill(c); e.l.fill(c); e.v.fill(c); e.y = margin(q, e.z); nm = cat("Fill(", c, ")"); }
    else if (op == 3) { x.ProjectDuals(); e.v = e.v.cwiseMax(0); nm = "ProjectDuals"; tol = 0; }
    else { Pt n = randpt(r, q); x.z() = n.z; x.l() = n.l; x.v() = n.v; x.y() = n.y; x.InitializeConstraintMargin(); e = n; e.y = margin(q, n.z); nm = "InitializeConstraintMargin"; tol = 1e-9 * scale(q, n); }
    Pt g = pt(x); std::string s = cat(P.dims(), " ", nm);
    REQ(near(g.z, e.z, tol), s, ": z ", str(g.z), " expected ", str(e.z)); REQ(near(g.l, e.l, tol), s, ": l ", str(g.l), " expected ", str(e.l));
    REQ(near(g.v, e.v, tol), s, ": v ", str(g.v), " expected ", str(e.v)); REQ(near(g.y, e.y, tol), s, ": y ", str(g.y), " expected ", str(e.y));
    REQ(samept(pt(w), o), s, ": the argument was modified");
    if (op == 0) { FullVariable keep(P.nz, P.nl, P.nv); Pt bw = pt(w); x.z().array() += 1; x.l().array() += 1; x.v().array() += 1; x.y().array() += 1; REQ(samept(pt(w), bw), s, ": the copy shares storage with its source"); x.Copy(w); }
    double n = std::sqrt(x.z().squaredNorm() + x.l().squaredNorm() + x.v().squaredNorm()); REQ(nearS(x.Norm(), n, 1e-10 * (1 + n)), s, ": Norm() = ", x.Norm(), " expected ", n);
    REQ(samept(pt(x), op == 0 ? pt(x) : g), s, ": Norm modified the iterate");
  }
}

static void c17user(Rng& r) {    // the user's variables
  auto chk = [&](const std::string& w, const VectorXd& z, const VectorXd& l, const VectorXd& v, const VectorXd& y, double c) { for (const VectorXd* q : {&z, &l, &v, &y}) REQ(same(*q, VectorXd::Constant(q->size(), c)), w, ": fill(", c, ") left ", str(*q)); };
auto mp = [](VectorXd& v) { return Eigen::Map<VectorXd>(v.data(), v.size()); };
  double c = r.sc(); int nz = r.i(1, 5), nl = r.i(0, 4), nv = r.i(1, 6); FBstabDense::Variable x(nz, nl, nv); Eigen::Map<VectorXd> a = mp(x.z), b = mp(x.l), e = mp(x.v), f = mp(x.y);
  FBstabDense::VariableRef xr(&a, &b, &e, &f); xr.fill(c); chk(cat("FBstabDense::VariableRef ", nz, " ", nl, " ", nv), x.z, x.l, x.v, x.y, c);
  FBstabMpc::Variable m(r.i(1, 4), r.i(1, 3), r.i(1, 3), r.i(1, 4)); FBstabMpc::VariableRef mr(mp(m.z), mp(m.l), mp(m.v), mp(m.y)); mr.fill(c); chk("FBstabMpc::VariableRef", m.z, m.l, m.v, m.y, c);
}

void run_parts(const std::string& p, Rng& r) {
  bool d = r.p(0.5);
  if (p == "C01") d ? c01<DenseT>(r) : c01<MpcT>(r);
  if (p == "C02") d ? c02<DenseT>(r) : c02<MpcT>(r);
  if (p == "C03") newton<DenseT>(r, false);
  if (p == "C04") newton<MpcT>(r, false);
  if (p == "C15") { d ? newton<DenseT>(r, true) : newton<MpcT>(r, true); c15pfb(r); }
  if (p == "C06") d ? c06<DenseT>(r) : c06<MpcT>(r);
  if (p == "C12") c12(r);
  if (p == "C17") { d ? c17<DenseT>(r) : c17<MpcT>(r); c17user(r); }
}
