// Sparse factorisation, KKT system, equilibration, cone algebra and the
// primal-dual answer of the interior point solver in raw conic form.
#include <pbt.hpp>
#include <solver/interface/Solver.hpp>
#include <solver/optimizer/IPSolver.hpp>
#include <solver/optimizer/EqRoutine.hpp>
#include <solver/optimizer/LinSolver.hpp>
using namespace solver;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
typedef Eigen::SparseMatrix<double> Sp;
static const char* kStg = VERIF_REPO_DIR "/momentumopt/config/default_solver_setting.yaml";

static const SolverSetting& settings() {
  static SolverSetting* st = nullptr;
  if (!st) { st = new SolverSetting(); st->initialize(kStg); }
  return *st;
}
static Mat sparse_mat(pbt::Src& s, int m, int n, double density, double r = 2) {
  Mat a = Mat::Zero(m, n);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (s.chance(density)) a(i, j) = s.real(-r, r);
  return a;
}

// --- LDL -------------------------------------------------------------------
PBT_PROP(ldl_solves) {
  int n1 = s.integer(1, 7), n2 = s.integer(0, 5), n = n1 + n2;
  SolverSetting st = settings();
  linalg::SparseCholesky ch;
  std::vector<int> perm = s.perm(n);
  double dens = s.pick({0.3, 0.0, 0.6, 1.0});
  // pattern first, then several sets of values on it
  Mat P1 = sparse_mat(s, n1, n1, dens), P2 = sparse_mat(s, n2, n2, dens), A = sparse_mat(s, n2, n1, dens);
  int rounds = s.integer(1, 3);
  bool analysed = false;
  for (int r = 0; r < rounds; r++) {
    auto values = [&](const Mat& p) { Mat m = p; for (int i = 0; i < m.size(); i++) if (m.data()[i] != 0) m.data()[i] = s.uniform(-2, 2); return m; };
    Mat B1 = values(P1), B2 = values(P2), C = values(A);
    Mat K = Mat::Zero(n, n);
    K.topLeftCorner(n1, n1) = Mat((P1 + P1.transpose()).array().abs().matrix());   // only to hold the pattern
    Mat M1 = B1 + B1.transpose(), M2 = B2 + B2.transpose();
    for (int i = 0; i < n1; i++) M1(i, i) = M1.row(i).cwiseAbs().sum() + s.uniform(0.2, 3);
    for (int i = 0; i < n2; i++) M2(i, i) = M2.row(i).cwiseAbs().sum() + s.uniform(0.2, 3);
    K.topLeftCorner(n1, n1) = M1;
    if (n2) { K.bottomRightCorner(n2, n2) = -M2; K.bottomLeftCorner(n2, n1) = C; K.topRightCorner(n1, n2) = C.transpose(); }
    // symmetric permutation of a quasi-definite matrix
    Mat KP(n, n); Vec sign(n); Mat pat = Mat::Zero(n, n);
    Mat patK = Mat::Zero(n, n);
    for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) patK(i, j) = i == j || P1(i, j) != 0 || P1(j, i) != 0;
    for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) patK(n1 + i, n1 + j) = i == j || P2(i, j) != 0 || P2(j, i) != 0;
    for (int i = 0; i < n2; i++) for (int j = 0; j < n1; j++) patK(n1 + i, j) = patK(j, n1 + i) = A(i, j) != 0;
    for (int i = 0; i < n; i++) { sign[i] = perm[i] < n1 ? 1 : -1; for (int j = 0; j < n; j++) { KP(i, j) = K(perm[i], perm[j]); pat(i, j) = patK(perm[i], perm[j]); } }
    std::vector<Eigen::Triplet<double>> t;
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) if (pat(i, j) != 0) t.push_back({i, j, KP(i, j)});
    Sp U(n, n); U.setFromTriplets(t.begin(), t.end()); U.makeCompressed();
    if (!analysed) { ch.analyzePattern(U, st); analysed = true; }
    int stat = ch.factorize(U, sign);
    PBT_CHECK(c, stat == n, "factorisation-refused", "factorize returned " << stat << " for " << n << " columns");
    if (r == 0) c.note << "K=" << pbt::str(KP) << " signs " << pbt::str(sign);
    for (int q = s.integer(1, 2); q > 0; q--) {
      Vec b = s.vec(n, -3, 3);
      Vec x = Vec::Constant(n, 17.0);
      ch.solve(b, x.data());
      Vec x2 = ch.solve(b);
      double sc = 1 + KP.cwiseAbs().maxCoeff() * x.cwiseAbs().maxCoeff();
      PBT_CHECK(c, x.allFinite() && (KP * x - b).cwiseAbs().maxCoeff() < 1e-8 * sc, "wrong-solution", "round " << r << ": residual " << (KP * x - b).cwiseAbs().maxCoeff() << " for b=" << pbt::str(b));
      PBT_CHECK(c, (x - x2).cwiseAbs().maxCoeff() < 1e-9 * (1 + x.cwiseAbs().maxCoeff()), "interfaces-differ", "the two solve functions give " << pbt::str(x) << " and " << pbt::str(x2));
    }
  }
  c.label("repeated factorisation", rounds > 1);
  c.nontrivial = n2 >= 1 && n >= 4 && dens > 0;
}

// --- a cone with its sizes -----------------------------------------------------
struct Setup { int n, p, l; Eigen::VectorXi q; Cone cone; int m() const { return l + q.sum(); } };
static void make(pbt::Src& s, Setup& S, int nmax = 6, bool eq = true) {
  S.n = s.integer(1, nmax); S.p = eq ? s.integer(0, std::min(2, S.n - 1)) : 0; S.l = s.integer(0, 4);
  int k = s.integer(0, 3); S.q.resize(k);
  for (int i = 0; i < k; i++) S.q[i] = s.integer(2, 5);
  if (S.m() == 0) S.l = 1;
  S.cone.initialize(S.n, S.p, S.l, S.q);
}
static Vec interior(pbt::Src& s, const Setup& S, double margin_lo = 0.05, double margin_hi = 3) {
  Vec v(S.m());
  int k = 0;
  for (int i = 0; i < S.l; i++) v[k++] = s.logreal(margin_lo, margin_hi);
  for (int i = 0; i < S.q.size(); i++) {
    Vec t = s.vec(S.q[i] - 1, -2, 2);
    v[k] = t.norm() + s.logreal(margin_lo, margin_hi);
    v.segment(k + 1, S.q[i] - 1) = t;
    k += S.q[i];
  }
  return v;
}
// smallest distance into the cone, negative outside
static double depth(const Setup& S, const Vec& v) {
  double d = 1e300; int k = 0;
  for (int i = 0; i < S.l; i++) d = std::min(d, v[k++]);
  for (int i = 0; i < S.q.size(); i++) { d = std::min(d, v[k] - v.segment(k + 1, S.q[i] - 1).norm()); k += S.q[i]; }
  return d;
}
static Vec jordan(const Setup& S, const Vec& u, const Vec& v) {
  Vec w(S.m()); int k = 0;
  for (int i = 0; i < S.l; i++, k++) w[k] = u[k] * v[k];
  for (int i = 0; i < S.q.size(); i++) {
    int q = S.q[i];
    w[k] = u.segment(k, q).dot(v.segment(k, q));
    w.segment(k + 1, q - 1) = u[k] * v.segment(k + 1, q - 1) + v[k] * u.segment(k + 1, q - 1);
    k += q;
  }
  return w;
}
static void describe(pbt::Case& c, const Setup& S) { c.note << "n=" << S.n << " eq=" << S.p << " lin=" << S.l << " soc=" << S.q.transpose(); }

// --- KKT system --------------------------------------------------------------
PBT_PROP(kkt_system) {
  Setup S; make(s, S); describe(c, S);
  SolverSetting st = settings();
  SolverStorage stg;
  stg.initialize(S.cone, st);
  Mat A = sparse_mat(s, S.p, S.n, 0.6), G = sparse_mat(s, S.m(), S.n, s.pick({0.5, 0.2, 1.0}));
  for (int i = 0; i < S.p; i++) A(i, i) += 2.5;            // rows independent
  for (int j = 0; j < S.n; j++) if (G.col(j).norm() < 0.3) G((int)s.index(S.m()), j) += 1.5;
  {
    // the system must be solvable and well conditioned for a meaningful residual
    Mat AG(S.p + S.m(), S.n); AG << A, G;
    Eigen::JacobiSVD<Mat> sv(AG);
    c.discard_if(AG.rows() < S.n || sv.singularValues()[S.n - 1] < 0.05);
    if (S.p) { Eigen::JacobiSVD<Mat> sa(A); c.discard_if(sa.singularValues()[S.p - 1] < 0.05); }
  }
  for (int i = 0; i < S.p; i++) for (int j = 0; j < S.n; j++) if (A(i, j) != 0) stg.addCoeff({i, j, A(i, j)}, true);
  for (int i = 0; i < S.m(); i++) for (int j = 0; j < S.n; j++) if (G(i, j) != 0) stg.addCoeff({i, j, G(i, j)});
  stg.initializeMatrices();
  stg.Atmatrix() = stg.Amatrix().transpose(); stg.Gtmatrix() = stg.Gmatrix().transpose();
  LinSolver ls;
  ls.initialize(S.cone, st, stg);
  int rounds = s.integer(1, 3);
  for (int r = 0; r < rounds; r++) {
    bool init = s.chance(0.3);
    Mat W2 = Mat::Identity(S.m(), S.m());
    if (init) ls.initializeMatrix();
    else {
      Vec sv = interior(s, S), zv = interior(s, S), lam(S.m());
      PBT_CHECK(c, S.cone.updateNTScalings(sv, zv, lam) == ConeStatus::Inside, "interior-refused", "s=" << pbt::str(sv) << " z=" << pbt::str(zv) << " are interior");
      for (int j = 0; j < S.m(); j++) { Vec e = Vec::Unit(S.m(), j); Vec w1 = S.cone.W() * e; Vec w2 = S.cone.W() * w1; W2.col(j) = w2; }
      ls.updateMatrix();
    }
    PBT_CHECK(c, ls.numericFactorization() == FactStatus::Optimal, "factorisation", "KKT matrix refused");
    for (int k = s.integer(1, 2); k > 0; k--) {
      Vec bx = s.vec(S.n, -2, 2), by = s.vec(S.p, -2, 2), bz = s.vec(S.m(), -2, 2);
      ExtendedVector rhs; rhs.initialize(S.cone);
      rhs.x() = bx; rhs.y() = by; rhs.zRtoE(bz);
      Vec pb(S.cone.extSizeProb());
      for (int i = 0; i < pb.size(); i++) pb[ls.invPerm(i)] = rhs[i];
      OptimizationVector sol; sol.initialize(S.cone);
      ls.solve(pb, sol, init);
      Vec x = sol.x(), y = sol.y(), z = sol.z();
      double sc = 1 + x.cwiseAbs().maxCoeff() + z.cwiseAbs().maxCoeff() * W2.cwiseAbs().maxCoeff() + (S.p ? y.cwiseAbs().maxCoeff() : 0);
      double rx = (A.transpose() * y + G.transpose() * z - bx).cwiseAbs().maxCoeff();
      double ry = S.p ? (A * x - by).cwiseAbs().maxCoeff() : 0;
      double rz = (G * x - W2 * z - bz).cwiseAbs().maxCoeff();
      // the matrix is factorised with the configured static regularisation on its diagonal
      double tol = 1e-6 * sc + 2 * st.get(SolverDoubleParam_StaticRegularization) * (x.cwiseAbs().maxCoeff() + z.cwiseAbs().maxCoeff() + (S.p ? y.cwiseAbs().maxCoeff() : 0));
      PBT_CHECK(c, sol.allFinite() && rx < tol && ry < tol && rz < tol, "wrong-direction",
                (init ? "initial" : "scaled") << " system, round " << r << ": residuals " << rx << " " << ry << " " << rz << " (scale " << sc << ")");
    }
  }
  c.nontrivial = S.q.size() >= 1 && S.n >= 2;
  c.label("with equalities", S.p > 0);
}

// --- equilibration -----------------------------------------------------------
PBT_PROP(equilibration) {
  Setup S; make(s, S); describe(c, S);
  SolverSetting st = settings();
  st.set(SolverIntParam_EquilibrationIters, s.integer(0, 6));
  SolverStorage stg; stg.initialize(S.cone, st);
  Mat A = sparse_mat(s, S.p, S.n, 0.7), G = sparse_mat(s, S.m(), S.n, 0.6);
  for (int i = 0; i < S.p; i++) A.row(i) *= s.logreal(1e-3, 1e3);
  for (int i = 0; i < S.m(); i++) G.row(i) *= s.logreal(1e-3, 1e3);
  for (int i = 0; i < S.p; i++) for (int j = 0; j < S.n; j++) if (A(i, j) != 0) stg.addCoeff({i, j, A(i, j)}, true);
  for (int i = 0; i < S.m(); i++) for (int j = 0; j < S.n; j++) if (G(i, j) != 0) stg.addCoeff({i, j, G(i, j)});
  stg.initializeMatrices();
  Vec cbh = s.vec(S.cone.sizeProb(), -3, 3);
  stg.cbh() = cbh;
  EqRoutine eq;
  eq.setEquilibration(S.cone, st, stg);
  Vec e = eq.equilVec();
  PBT_CHECK(c, e.allFinite() && e.minCoeff() > 0, "scale-not-positive", "equilibration " << pbt::str(e));
  for (int i = 0; i < S.q.size(); i++) {
    Vec ez = eq.equilVec().zSoc(i);
    PBT_CHECK(c, ez.maxCoeff() - ez.minCoeff() <= 1e-12 * ez.maxCoeff(), "cone-distorted", "cone " << i << " scaled by " << pbt::str(ez));
  }
  // a point of the scaled problem is a point of the original one after scaling back
  Mat Ah = Mat(stg.Amatrix()), Gh = Mat(stg.Gmatrix());
  Vec ch = stg.c(), bh = stg.b(), hh = stg.h();
  OptimizationVector o; o.initialize(S.cone);
  double tau = s.uniform(0.2, 3);
  Vec xh = s.vec(S.n, -2, 2), yh = s.vec(S.p, -2, 2), zh = interior(s, S), sh = interior(s, S);
  o.x() = xh; o.y() = yh; o.z() = zh; o.s() = sh; o.tau() = tau;
  Vec ry = Ah * xh - tau * bh, rz = Gh * xh + sh - tau * hh, rx = tau * ch; if (S.p) rx += Ah.transpose() * yh; rx += Gh.transpose() * zh;
  eq.scaleVariables(o);
  Vec ex = e.head(S.n), ey = e.segment(S.n, S.p), ez = e.tail(S.m());
  auto near = [&](const Vec& a, const Vec& b, double sc) { return a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + sc); };
  Vec Ry = A * o.x() - cbh.segment(S.n, S.p), Rz = G * Vec(o.x()) + Vec(o.s()) - cbh.tail(S.m()), Rx = cbh.head(S.n);
  if (S.p) Rx += A.transpose() * o.y(); Rx += G.transpose() * o.z();
  double big = A.cwiseAbs().sum() * (1 + (Vec(o.x()).cwiseAbs().maxCoeff())) + G.cwiseAbs().sum() * (1 + Vec(o.x()).cwiseAbs().maxCoeff() + Vec(o.z()).cwiseAbs().maxCoeff()) + (S.p ? A.cwiseAbs().sum() * Vec(o.y()).cwiseAbs().maxCoeff() : 0);
  PBT_CHECK(c, near(Ry, (ry.array() * ey.array() / tau).matrix(), big), "equality-residual", "unscaled residual " << pbt::str(Ry) << " expected " << pbt::str(Vec((ry.array() * ey.array() / tau).matrix())));
  PBT_CHECK(c, near(Rz, (rz.array() * ez.array() / tau).matrix(), big), "cone-residual", "unscaled residual " << pbt::str(Rz) << " expected " << pbt::str(Vec((rz.array() * ez.array() / tau).matrix())));
  PBT_CHECK(c, near(Rx, (rx.array() * ex.array() / tau).matrix(), big), "dual-residual", "unscaled residual " << pbt::str(Rx) << " expected " << pbt::str(Vec((rx.array() * ex.array() / tau).matrix())));
  PBT_CHECK(c, depth(S, o.s()) > 0 && depth(S, o.z()) > 0, "leaves-cone", "scaled back slacks leave the cone");
  eq.unsetEquilibration(stg);
  PBT_CHECK(c, pbt::mclose(Mat(stg.Amatrix()), A, 1e-12) && pbt::mclose(Mat(stg.Gmatrix()), G, 1e-12) && pbt::mclose(Vec(stg.cbh()), cbh, 1e-12), "not-restored", "undoing the equilibration does not restore the data");
  c.nontrivial = S.q.size() >= 1 && S.n >= 2;
}

// --- cone algebra --------------------------------------------------------------
PBT_PROP(cone_algebra) {
  Setup S; make(s, S); describe(c, S);
  Cone& K = S.cone;
  int m = S.m(), np = S.n + S.p + m;
  PBT_CHECK(c, K.sizeProb() == np && K.sizeCone() == m && K.sizeConstraints() == S.p + m && K.extSizeProb() == np + 2 * S.q.size() && K.extSizeCone() == m + 2 * S.q.size() && K.lpConeStart() == S.n + S.p && K.soConeStart() == S.n + S.p + S.l && K.numCones() == S.l + S.q.size(), "sizes", "cone sizes do not add up");
  Vec u = interior(s, S), v = s.vec(m, -2, 2), w(m), back(m);
  c.note << " u=" << pbt::str(u) << " v=" << pbt::str(v);
  double mu = K.conicProduct(u, v, w);
  Vec ref = jordan(S, u, v);
  PBT_CHECK(c, pbt::mclose(w, ref, 1e-12), "product", "conic product " << pbt::str(w) << " expected " << pbt::str(ref));
  double refmu = 0; { int k = 0; for (int i = 0; i < S.l; i++, k++) refmu += std::abs(ref[k]); for (int i = 0; i < S.q.size(); i++) { refmu += std::abs(ref[k]); k += S.q[i]; } }
  PBT_CHECK(c, pbt::close(mu, refmu, 1e-12), "product-measure", "conic product returns " << mu << " expected " << refmu);
  K.conicDivision(u, w, back);
  double minres = depth(S, u);
  PBT_CHECK(c, pbt::mclose(back, v, 1e-10 / std::min(1.0, minres * minres)), "division", "u\\(u o v)=" << pbt::str(back) << " expected " << pbt::str(v));
  for (int i = 0, k = S.l; i < S.q.size(); i++) {
    Vec a = u.segment(k, S.q[i]), b = v.segment(k, S.q[i]);
    PBT_CHECK(c, pbt::close(K.conicResidual(a), a[0] * a[0] - a.tail(a.size() - 1).squaredNorm(), 1e-12), "residual", "cone residual of " << pbt::str(a) << " is " << K.conicResidual(a));
    PBT_CHECK(c, pbt::close(K.conicResidual(a, b), a[0] * b[0] - a.tail(a.size() - 1).dot(b.tail(b.size() - 1)), 1e-12), "residual2", "bilinear cone residual " << K.conicResidual(a, b));
    PBT_CHECK(c, pbt::close(Cone::normSoc(b), b[0] - b.tail(b.size() - 1).norm(), 1e-12), "norm", "distance to cone " << Cone::normSoc(b));
    k += S.q[i];
  }
  // bringing a point into the cone moves it along the identity element only
  Vec pr = v; K.conicProjection(pr);
  PBT_CHECK(c, depth(S, pr) > 0, "projection-outside", "projection of " << pbt::str(v) << " is " << pbt::str(pr));
  {
    Vec d = pr - v; double a = d[0]; int k = 0; bool along = a >= 0;
    for (int i = 0; i < S.l; i++) along &= std::abs(d[k++] - a) < 1e-12;
    for (int i = 0; i < S.q.size(); i++) { along &= std::abs(d[k] - a) < 1e-12; for (int j = 1; j < S.q[i]; j++) along &= d[k + j] == 0; k += S.q[i]; }
    PBT_CHECK(c, along, "projection-direction", "projection moves by " << pbt::str(d));
  }
  // operators of cone members
  ConicVector cu, cv; cu.initialize(K); cv.initialize(K); cu.z() = u; cv.z() = v;
  Vec id(m); { id.setZero(); int k = 0; for (int i = 0; i < S.l; i++) id[k++] = 1; for (int i = 0; i < S.q.size(); i++) { id[k] = 1; k += S.q[i]; } }
  double a = s.real(-2, 2);
  PBT_CHECK(c, pbt::mclose(cu * cv, ref, 1e-12), "operator*", "product operator");
  { ConicVector cw; cw.initialize(K); cw.z() = ref; Vec q = cu / cw; PBT_CHECK(c, pbt::mclose(q, v, 1e-10 / std::min(1.0, minres * minres)), "operator/", "division operator " << pbt::str(q)); }
  PBT_CHECK(c, pbt::mclose(cu + cv, u + v, 1e-14) && pbt::mclose(cu + a, u + a * id, 1e-14) && pbt::mclose(cu - a, u - a * id, 1e-14) && pbt::mclose(-cu, -u, 0), "operator+-", "sum operators");
  PBT_CHECK(c, pbt::mclose(cu, u, 0) && pbt::mclose(cv, v, 0), "operand-changed", "an operator changed its operand");
  { ConicVector t = cu; t += a; PBT_CHECK(c, pbt::mclose(t, u + a * id, 1e-14), "operator+=", "identity added in place"); }
  // vector layouts: writable and read-only views are the same elements
  OptimizationVector o; o.initialize(K);
  PBT_CHECK(c, o.size() == np + m + 2, "layout-size", "optimisation vector has " << o.size());
  for (int i = 0; i < o.size(); i++) o[i] = i + 1;
  const OptimizationVector& co = o;
  PBT_CHECK(c, Vec(o.x()) == Vec(co.x()) && Vec(o.y()) == Vec(co.y()) && Vec(o.yz()) == Vec(co.yz()) && o.tau() == co.tau() && o.kappa() == co.kappa() && Vec(o.xyz()) == Vec(co.xyz()) && Vec(o.yztau()) == Vec(co.yztau()) && Vec(o.xyztau()) == Vec(co.xyztau()), "views-differ", "read-only views of the optimisation vector differ");
  PBT_CHECK(c, Vec(o.z()) == Vec(co.z()) && Vec(o.s()) == Vec(co.s()), "dual-view-differs", "read-only z is " << pbt::str(Vec(co.z())) << ", writable z is " << pbt::str(Vec(o.z())));
  PBT_CHECK(c, Vec(o.z()).head(S.l) == Vec(o.zLpc()) && Vec(o.z()).tail(m - S.l) == Vec(o.zSoc()) && Vec(co.zLpc()) == Vec(o.zLpc()) && Vec(co.zSoc()) == Vec(o.zSoc()), "cone-views", "parts of z");
  { std::set<double> seen; for (double d : Vec(o.xyz())) seen.insert(d); for (double d : Vec(o.s())) seen.insert(d); seen.insert(o.tau()); seen.insert(o.kappa());
    PBT_CHECK(c, (int)seen.size() == o.size(), "views-overlap", "the parts of an optimisation vector cover " << seen.size() << " of " << o.size()); }
  ExtendedVector ex; ex.initialize(K); for (int i = 0; i < ex.size(); i++) ex[i] = 100 + i;
  const ExtendedVector& cex = ex;
  ex.zRtoE(u);
  { int k = S.l; PBT_CHECK(c, Vec(cex.zLpc()) == Vec(u.head(S.l)), "extended", "linear part");
    for (int i = 0; i < S.q.size(); i++) { Vec q = cex.zSoc(i); PBT_CHECK(c, q.head(S.q[i]) == u.segment(k, S.q[i]) && q.tail(2).norm() == 0, "extended", "cone " << i << " is stored as " << pbt::str(q)); k += S.q[i]; } }
  c.nontrivial = S.q.size() >= 1 && m >= 3;
}

PBT_PROP(nt_scaling) {
  Setup S; make(s, S); describe(c, S);
  Cone& K = S.cone; int m = S.m();
  double lo = s.pick({0.05, 1e-3, 1e-6});
  Vec sv = interior(s, S, lo, 3), zv = interior(s, S, lo, 3), lam = Vec::Constant(m, -7);
  double k1 = s.logreal(1e-2, 1e2); sv *= k1;
  c.note << " s=" << pbt::str(sv) << " z=" << pbt::str(zv);
  PBT_CHECK(c, K.updateNTScalings(sv, zv, lam) == ConeStatus::Inside, "interior-refused", "interior points refused");
  double loss = 1e-11 / (lo * lo) * 10;     // cancellation near the boundary
  if (loss > 1e-4) loss = 1e-4;
  Vec Wz = K.W() * zv, Wl = K.W() * lam;
  double sc = 1 + lam.cwiseAbs().maxCoeff();
  PBT_CHECK(c, pbt::mclose(Wz, lam, 1e-12), "lambda", "W z = " << pbt::str(Wz) << " but lambda = " << pbt::str(lam));
  PBT_CHECK(c, (Wl - sv).cwiseAbs().maxCoeff() <= loss * (1 + sv.cwiseAbs().maxCoeff()) * 10, "W-lambda-is-s", "W lambda = " << pbt::str(Wl) << " but s = " << pbt::str(sv));
  PBT_CHECK(c, depth(S, lam) > -1e-9 * sc, "lambda-outside", "lambda leaves the cone: " << pbt::str(lam));
  // lambda o lambda has the same complementarity as s and z
  PBT_CHECK(c, std::abs(lam.squaredNorm() - sv.dot(zv)) <= loss * 10 * (1 + lam.squaredNorm()), "gap", "lambda'lambda = " << lam.squaredNorm() << ", s'z = " << sv.dot(zv));
  // symmetric
  Vec a = s.vec(m, -2, 2), b = s.vec(m, -2, 2);
  Vec Wa = K.W() * a, Wb = K.W() * b;
  double wn = 1 + Wa.cwiseAbs().maxCoeff() + Wb.cwiseAbs().maxCoeff();
  PBT_CHECK(c, std::abs(Wa.dot(b) - Wb.dot(a)) <= 1e-10 * wn, "not-symmetric", "W is not symmetric");
  // the expanded form used in the KKT matrix represents W squared
  int me = K.extSizeCone();
  Vec xe = Vec::Zero(me), ye = Vec::Zero(me), Wsq = K.W() * Wa;
  { int k = 0, ke = 0;
    for (int i = 0; i < S.l; i++) xe[ke++] = a[k++];
    for (int i = 0; i < S.q.size(); i++) {
      int q = S.q[i]; const NesterovToddScaling& n = K.soc(i);
      xe.segment(ke, q) = a.segment(k, q);
      double aux = n.scalingSoc().tail(q - 1).dot(a.segment(k + 1, q - 1));
      xe[ke + q] = -n.v1() * aux;
      xe[ke + q + 1] = n.u0() * a[k] + n.u1() * aux;
      k += q; ke += q + 2;
    } }
  K.conicNTScaling2(xe, ye);
  double etam = 1; for (int i = 0; i < S.q.size(); i++) etam = std::max(etam, K.soc(i).etaSquare() * std::pow(1 + K.soc(i).scalingSoc().squaredNorm(), 1));
  { int k = 0, ke = 0;
    for (int i = 0; i < S.l; i++, k++, ke++) PBT_CHECK(c, std::abs(ye[ke] - Wsq[k]) <= 1e-10 * (1 + std::abs(Wsq[k])), "W2-linear", "squared scaling of the linear cone");
    for (int i = 0; i < S.q.size(); i++) {
      int q = S.q[i]; const NesterovToddScaling& n = K.soc(i);
      // rank-one representation against W applied twice
      double tol = 1e-8 * etam * (1 + n.scalingSoc().squaredNorm());
      PBT_CHECK(c, (ye.segment(ke, q) - Wsq.segment(k, q)).cwiseAbs().maxCoeff() <= tol, "W2-cone", "expanded form gives " << pbt::str(Vec(ye.segment(ke, q))) << ", W W a is " << pbt::str(Vec(Wsq.segment(k, q))) << " tol " << tol);
      PBT_CHECK(c, std::abs(ye[ke + q]) <= tol && std::abs(ye[ke + q + 1]) <= tol, "W2-rows", "auxiliary rows do not vanish");
      k += q; ke += q + 2;
    } }
  // points outside are refused
  if (S.q.size() > 0) {
    Vec out = sv; int i = (int)s.index(S.q.size()), k = K.startSoc(i);
    out[k] = out.segment(k + 1, S.q[i] - 1).norm() * s.uniform(0, 0.99) - s.uniform(0, 0.5);
    // u0^2 > |u1|^2 also holds for the reflected cone; only |u0| < |u1| is decided by the residual
    if (std::abs(out[k]) < 0.999 * out.segment(k + 1, S.q[i] - 1).norm()) {
      Vec l2(m); bool first = s.boolean();
      PBT_CHECK(c, (first ? K.updateNTScalings(out, zv, l2) : K.updateNTScalings(zv, out, l2)) == ConeStatus::Outside, "outside-accepted", "a point outside the cone is accepted: " << pbt::str(out));
    }
  }
  c.nontrivial = S.q.size() >= 1 && m >= 3;
}

// --- primal-dual answers in raw conic form -------------------------------------
// min c'x  s.t.  Ax=b,  Gx+s=h, s in K
PBT_PROP(primal_dual_certificates) {
  Setup S; make(s, S, 5); describe(c, S);
  int kind = s.pick({0, 0, 1, 2});         // solvable / primal infeasible / dual infeasible
  int n = S.n, m = S.m(), p = S.p;
  Mat A = sparse_mat(s, p, n, 0.8), G = sparse_mat(s, m, n, 0.8);
  for (int i = 0; i < p; i++) A(i, i) += 2.5;
  Vec b(p), h(m), cost(n);
  if (kind == 0) {
    // s* and z* complementary, strictly feasible primal and dual points exist
    Vec x0 = s.vec(n, -2, 2), s0 = interior(s, S, 0.3, 3);
    b = A * x0; h = G * x0 + s0;
    Vec y0 = s.vec(p, -2, 2), z0 = interior(s, S, 0.3, 3);
    cost = -G.transpose() * z0; if (p) cost -= A.transpose() * y0;
  } else if (kind == 1) {
    // z0 in K with G'z0 + A'y0 = 0 and b'y0 + h'z0 < 0
    Vec z0 = interior(s, S, 0.5, 2), y0 = s.vec(p, -1, 1);
    Vec r = G.transpose() * z0; if (p) r += A.transpose() * y0;
    G -= z0 * r.transpose() / z0.squaredNorm();
    b = s.vec(p, -2, 2); h = s.vec(m, -2, 2);
    double t = h.dot(z0) + (p ? b.dot(y0) : 0.0);
    h -= (t + s.uniform(1, 4)) / z0.squaredNorm() * z0;
    Vec z1 = interior(s, S, 0.3, 2);            // dual feasible, hence not unbounded as well
    cost = -G.transpose() * z1; if (p) cost -= A.transpose() * s.vec(p, -1, 1);
  } else {
    // direction d with Ad=0, -Gd in int K, c'd<0; and a primal feasible point
    Vec d = s.vec(n, -2, 2); if (d.norm() < 0.5) d[0] += 1;
    Vec sd = interior(s, S, 0.5, 2);
    G -= (G * d + sd) * d.transpose() / d.squaredNorm();
    if (p) A -= (A * d) * d.transpose() / d.squaredNorm();
    if (p) { Eigen::JacobiSVD<Mat> sa(A); c.discard_if(sa.singularValues()[p - 1] < 0.1); }
    Vec x0 = s.vec(n, -1, 1), s0 = interior(s, S, 0.3, 2);
    b = A * x0; h = G * x0 + s0;
    cost = s.vec(n, -2, 2); cost -= (cost.dot(d) + s.uniform(1, 4)) / d.squaredNorm() * d;
  }
  SolverSetting st = settings();
  SolverStorage stg; stg.initialize(S.cone, st);
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) if (A(i, j) != 0) stg.addCoeff({i, j, A(i, j)}, true);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (G(i, j) != 0) stg.addCoeff({i, j, G(i, j)});
  stg.initializeMatrices();
  stg.c() = cost; stg.b() = b; stg.h() = h;
  InteriorPointSolver ip;
  ip.initialize(stg, S.cone, st);
  ExitCode ec = ip.optimize();
  if (s.chance(0.3)) ec = ip.optimize();        // solving again
  const OptimizationVector& o = static_cast<const InteriorPointSolver&>(ip).optimalVector();
  Vec x = o.x(), y = o.y(), z = o.z(), sl = o.s();
  c.note << " kind " << kind << " A=" << pbt::str(A) << " b=" << pbt::str(b) << " G=" << pbt::str(G) << " h=" << pbt::str(h) << " c=" << pbt::str(cost) << " -> " << (int)ec;
  c.label("kind" + std::to_string(kind));
  bool good = ec == ExitCode::Optimal || ec == ExitCode::OptimalInacc;
  bool pinf = ec == ExitCode::PrimalInf || ec == ExitCode::PrimalInfInacc, dinf = ec == ExitCode::DualInf || ec == ExitCode::DualInfInacc;
  PBT_CHECK(c, kind != 0 || (ec != ExitCode::PrimalInf && ec != ExitCode::DualInf), "solvable-refused", "a problem with strictly feasible primal and dual points is answered " << (int)ec);
  PBT_CHECK(c, kind != 1 || !good, "infeasible-accepted", "an infeasible problem is answered " << (int)ec);
  PBT_CHECK(c, kind != 2 || !good, "unbounded-accepted", "an unbounded problem is answered " << (int)ec);
  c.label("no verdict", !good && !pinf && !dinf);
  double loose = (ec == ExitCode::Optimal || ec == ExitCode::PrimalInf || ec == ExitCode::DualInf) ? 1 : 1e3;
  double nx = 1 + x.norm(), nz = 1 + z.norm() + (p ? y.norm() : 0);
  if (good) {
    double rp = std::max(p ? (A * x - b).norm() : 0.0, (G * x + sl - h).norm()) / (nx + sl.norm() + h.norm());
    Vec rd = G.transpose() * z + cost; if (p) rd += A.transpose() * y;
    PBT_CHECK(c, rp < 1e-5 * loose, "primal-residual", "primal residual " << rp);
    PBT_CHECK(c, rd.norm() / (nz + cost.norm()) < 1e-5 * loose, "dual-residual", "A'y+G'z+c has size " << rd.norm());
    PBT_CHECK(c, depth(S, sl) > -1e-7 * nx && depth(S, z) > -1e-7 * nz, "outside-cone", "slack depth " << depth(S, sl) << " multiplier depth " << depth(S, z));
    double gap = cost.dot(x) + h.dot(z) + (p ? b.dot(y) : 0.0);
    PBT_CHECK(c, std::abs(gap) < 1e-3 * loose * (1 + std::abs(cost.dot(x))) + 1e-6 * nx * nz, "duality-gap", "duality gap " << gap << " at cost " << cost.dot(x));
    PBT_CHECK(c, std::abs(sl.dot(z)) < 1e-3 * loose * (1 + std::abs(cost.dot(x))) + 1e-6 * (1 + sl.norm()) * nz, "complementarity", "s'z=" << sl.dot(z));
  } else if ((pinf && kind == 1) || (ec == ExitCode::DualInf && kind == 1)) {   // whatever the name of the verdict, z and y prove it
    Vec r = G.transpose() * z; if (p) r += A.transpose() * y;
    double t = h.dot(z) + (p ? b.dot(y) : 0.0);
    PBT_CHECK(c, t < 0 && depth(S, z) > -1e-7 * nz && r.norm() < 1e-3 * loose * std::abs(t) * (1 + G.norm()), "bad-infeasibility-certificate", "h'z+b'y=" << t << " |G'z+A'y|=" << r.norm());
  } else if ((dinf && kind == 2) || (ec == ExitCode::PrimalInf && kind == 2)) {
    double t = cost.dot(x);
    double r = std::max(p ? (A * x).norm() : 0.0, (G * x + sl).norm());
    PBT_CHECK(c, t < 0 && depth(S, sl) > -1e-7 * (1 + sl.norm()) && r < 1e-3 * loose * std::abs(t) * (1 + G.norm()), "bad-unboundedness-certificate", "c'x=" << t << " residual " << r);
  }
  c.nontrivial = (good || pinf || dinf) && S.q.size() >= 1 && n >= 2;
}
PBT_MAIN
