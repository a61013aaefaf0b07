// Real-time optimisers: dense QP, hierarchy of QPs, matrix helpers.
#include <pbt.hpp>
#include <solver/rt_optimizer/RtModel.h>
using namespace rt_solver;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

// min |A l - b|, l >= 0 (Lawson-Hanson), returns the residual norm
static double nnls(const Mat& A, const Vec& b, Vec* out = nullptr) {
  int n = (int)A.cols();
  Vec x = Vec::Zero(n); std::vector<bool> P(n, false);
  for (int it = 0; it < 60 + 10 * n; it++) {
    Vec w = A.transpose() * (b - A * x);
    int j = -1; double best = 1e-11 * (1 + A.norm() * b.norm());
    for (int i = 0; i < n; i++) if (!P[i] && w[i] > best) { best = w[i]; j = i; }
    if (j < 0) break;
    P[j] = true;
    while (true) {
      std::vector<int> id; for (int i = 0; i < n; i++) if (P[i]) id.push_back(i);
      if (id.empty()) break;
      Mat Ap(A.rows(), id.size()); for (size_t k = 0; k < id.size(); k++) Ap.col(k) = A.col(id[k]);
      Vec s = Ap.completeOrthogonalDecomposition().solve(b);
      double al = 1; bool neg = false;
      for (size_t k = 0; k < id.size(); k++) if (s[k] <= 0) { neg = true; double d = x[id[k]] - s[k]; al = std::min(al, d > 0 ? x[id[k]] / d : 0.0); }
      if (!neg) { for (size_t k = 0; k < id.size(); k++) x[id[k]] = s[k]; break; }
      for (size_t k = 0; k < id.size(); k++) { x[id[k]] += al * (s[k] - x[id[k]]); if (x[id[k]] <= 1e-14) { x[id[k]] = 0; P[id[k]] = false; } }
    }
  }
  if (out) *out = x;
  return (A * x - b).norm();
}

// ------------------------------------------------------------------ dense QP
static const int NV = 8, NE = 4, NI = 14;
typedef RtQPSolver<NV, NE, NI> Qp;
typedef RtQPSolverInterface<NV, NE, NI> QpI;

struct QpData { int n, me, mi; Mat H, CE, CI; Vec g, ce, ci, xs; int act; };
static Mat indep(pbt::Src& s, int m, int n) {
  Mat Q = s.orth(n).topRows(m);
  Mat T = Mat::Zero(m, m);
  for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) T(i, j) = i == j ? s.logreal(0.3, 3) : s.real(-1, 1);
  return T * Q;
}
static void qp_point(pbt::Src& s, QpData& d) {
  d.n = s.integer(1, NV); d.me = s.integer(0, std::min(NE, d.n)); if (s.chance(0.5)) d.me = 0;
  d.mi = s.integer(0, NI);
  d.H = s.spd(d.n, s.pick({1.0, 0.1, 0.01}), s.pick({1.0, 10.0, 100.0}));
  d.xs = s.vec(d.n, -2, 2);
  d.CE = indep(s, d.me, d.n); d.ce = -d.CE * d.xs;
  d.CI = s.mat(d.mi, d.n, -2, 2);
  for (int i = 1; i < d.mi; i++) if (s.chance(0.12)) d.CI.row(i) = d.CI.row(s.integer(0, i - 1)) * s.pick({1.0, 2.0, 0.5});   // parallel constraints
  d.ci = -d.CI * d.xs;
}
// The dual method decides feasibility by rounding when the feasible set has no interior
// (within the equalities): active inequalities leave room in a common direction.
static Vec room(pbt::Src& s, const QpData& d) {
  Vec v = s.uvec(d.n, -1, 1);
  if (d.me) v -= d.CE.transpose() * d.CE.transpose().completeOrthogonalDecomposition().solve(v);
  double n = v.norm();
  return n < 1e-2 ? Vec(Vec::Zero(d.n)) : Vec(v / n);
}
static bool may_be_active(QpData& d, int i, const Vec& v) {
  double a = d.CI.row(i).dot(v);
  if (std::abs(a) < 0.05 * (0.1 + d.CI.row(i).norm())) return false;
  if (a > 0) { d.CI.row(i) *= -1; d.ci[i] *= -1; }
  return true;
}
static void fill(QpI& q, const QpData& d, pbt::Src& s) {
  q.reset(d.n, d.me, d.mi);
  q.objectiveQuadPart() = d.H; q.objectiveLinPart() = d.g;
  // in one go or in pieces
  int k = d.me ? s.integer(0, d.me) : 0;
  if (k) q.appendEqualities(d.CE.topRows(k), d.ce.head(k));
  if (d.me - k) q.appendEqualities(d.CE.bottomRows(d.me - k), d.ce.tail(d.me - k));
  k = d.mi ? s.integer(0, d.mi) : 0;
  if (k) q.appendInequalities(d.CI.topRows(k), d.ci.head(k));
  if (d.mi - k) q.appendInequalities(d.CI.bottomRows(d.mi - k), d.ci.tail(d.mi - k));
}
static void note(pbt::Case& c, const QpData& d) {
  c.note << "H=" << pbt::str(d.H) << " g=" << pbt::str(d.g) << " CE=" << pbt::str(d.CE) << " ce=" << pbt::str(d.ce) << " CI=" << pbt::str(d.CI) << " ci=" << pbt::str(d.ci) << " x*=" << pbt::str(d.xs) << "; ";
}
PBT_PROP(qp_known_optimum) {
  Qp solver; QpI& q = solver;
  int rounds = s.integer(1, 3);
  for (int r = 0; r < rounds; r++) {
    QpData d; qp_point(s, d);
    double slacklo = s.pick({0.5, 0.01, 1e-4});
    Vec lam = Vec::Zero(d.mi), nu = s.vec(d.me, -3, 3);
    d.act = 0; int strong = 0; Vec v = room(s, d);
    for (int i = 0; i < d.mi; i++) {
      if (s.chance(0.35) && may_be_active(d, i, v)) { d.act++; if (s.chance(0.8)) { lam[i] = s.logreal(0.05, 5); strong++; } }
      else d.ci[i] -= s.logreal(slacklo, 5);
    }
    d.g = -(d.H * d.xs) - d.CE.transpose() * nu - d.CI.transpose() * lam;
    fill(q, d, s);
    note(c, d);
    bool ok = q.optimize();
    PBT_CHECK(c, ok && q.isOptimized(), "solvable-refused", "round " << r << ": optimize returns " << ok << " for a solvable problem");
    Vec x = q.solution();
    PBT_CHECK(c, x.size() == d.n && x.allFinite(), "no-solution", "x=" << pbt::str(x));
    double sc = 1 + d.xs.norm() + lam.sum() + nu.norm();
    for (int i = 0; i < d.me; i++) PBT_CHECK(c, std::abs(d.CE.row(i).dot(x) + d.ce[i]) < 1e-6 * sc, "equality-violated", "round " << r << ": equality " << i << " off by " << d.CE.row(i).dot(x) + d.ce[i]);
    for (int i = 0; i < d.mi; i++) PBT_CHECK(c, d.CI.row(i).dot(x) + d.ci[i] < 1e-6 * sc, "inequality-violated", "round " << r << ": inequality " << i << " exceeded by " << d.CI.row(i).dot(x) + d.ci[i]);
    PBT_CHECK(c, (x - d.xs).norm() < 1e-5 * sc, "not-the-minimiser", "round " << r << ": x=" << pbt::str(x) << " instead of " << pbt::str(d.xs));
    if (strong > 0 && d.n >= 2 && d.mi >= 3) c.nontrivial = true;
    c.label("degenerate", d.act + d.me > d.n);
    c.label("weakly active", d.act > strong);
    c.label("equalities", d.me > 0);
    if (s.chance(0.3)) {                                       // the same problem once more
      bool ok2 = q.optimize();
      PBT_CHECK(c, ok2 && Vec(q.solution()) == x, "not-repeatable", "second run gives " << pbt::str(Vec(q.solution())) << " instead of " << pbt::str(x));
    }
    // the quality measures agree
    PBT_CHECK(c, q.checkSolution(false, 1e-5 * sc, 1e-5 * sc), "own-check-fails", "checkSolution rejects the solution");
    double oc = q.computeOptimalityCondition();
    PBT_CHECK(c, std::isfinite(oc), "own-measure", "optimality measure " << oc);
  }
  c.label("reused solver", rounds > 1);
}

PBT_PROP(qp_infeasible) {
  Qp solver; QpI& q = solver;
  QpData d; qp_point(s, d);
  if (d.mi < 2) d.mi = 2;
  d.CI.conservativeResize(d.mi, d.n); d.ci.conservativeResize(d.mi);
  int k = s.integer(1, std::min(3, d.mi - 1));
  d.CI = s.mat(d.mi, d.n, -2, 2);
  for (int i = 0; i < d.mi; i++) d.ci[i] = -d.CI.row(i).dot(d.xs) - s.logreal(0.05, 3);
  // combination of k inequalities and the equalities contradicts the last one
  Vec lam = Vec::Zero(k); for (int i = 0; i < k; i++) lam[i] = s.uniform(0.3, 2);
  Vec nu = s.vec(d.me, -1, 1);
  int last = d.mi - 1;
  Vec row = -d.CI.topRows(k).transpose() * lam - d.CE.transpose() * nu;
  double gap = s.logreal(0.05, 3);
  double cst = -(lam.dot(d.ci.head(k)) + nu.dot(d.ce)) + gap;
  c.discard_if(row.norm() < 0.05);
  d.CI.row(last) = row; d.ci[last] = cst;
  d.g = s.vec(d.n, -3, 3); d.act = 0;
  std::vector<int> p = s.perm(d.mi);
  QpData e = d; for (int i = 0; i < d.mi; i++) { e.CI.row(i) = d.CI.row(p[i]); e.ci[i] = d.ci[p[i]]; }
  fill(q, e, s); note(c, e);
  bool ok = q.optimize();
  PBT_CHECK(c, !ok && !q.isOptimized(), "infeasible-solved", "optimize returns true with x=" << pbt::str(Vec(q.solution())) << " although the constraints contradict each other by " << gap);
  // and the solver is usable afterwards
  QpData f; qp_point(s, f); f.ci.array() -= 0.5; f.g = -(f.H * f.xs);
  if (f.me) f.g -= f.CE.transpose() * s.vec(f.me, -1, 1);
  fill(q, f, s);
  PBT_CHECK(c, q.optimize() && (Vec(q.solution()) - f.xs).norm() < 1e-5 * (1 + f.xs.norm()), "broken-by-infeasible", "the next problem gives " << pbt::str(Vec(q.solution())) << " instead of " << pbt::str(f.xs));
  c.nontrivial = d.n >= 2 && k >= 2;
}

// ------------------------------------------------------------------ hierarchy
static const int HV = 6, HE = 8, HI = 12;
struct Level { Mat B, A; Vec b, a; };
static Mat low_rank(pbt::Src& s, int m, int n) {      // well conditioned on its range
  if (m == 0) return Mat(0, n);
  int r = s.integer(0, std::min(m, n)); if (s.chance(0.6)) r = std::min(m, n);
  Mat U = s.orth(m).leftCols(r), V = s.orth(n).topRows(r);
  Vec sv(r); for (int i = 0; i < r; i++) sv[i] = s.logreal(0.5, 2);
  return U * sv.asDiagonal() * V;
}
static void levels(pbt::Src& s, std::vector<Level>& L, int n, int maxlev, bool sparse) {
  int k = s.integer(1, maxlev), tot = 0;
  for (int i = 0; i < k; i++) {
    Level l;
    int me = s.integer(0, 4), mi = s.integer(0, 4);
    if (s.chance(0.3)) me = 0; else if (s.chance(0.3)) mi = 0;
    mi = std::min(mi, HI - tot); tot += mi;
    l.B = sparse ? Mat::Zero(me, n) : low_rank(s, me, n);
    if (sparse) for (int r = 0; r < me; r++) { int j = s.integer(0, n - 1), j2 = s.integer(0, n - 1); l.B(r, j) += s.pick({1.0, -1.0, 2.0}); if (s.boolean()) l.B(r, j2) += s.pick({1.0, -1.0, 0.5}); }
    l.A = s.mat(mi, n, -2, 2);
    if (sparse) for (int r = 0; r < mi; r++) { l.A.row(r).setZero(); int j = s.integer(0, n - 1); l.A(r, j) = s.pick({1.0, -1.0}); if (s.boolean()) l.A(r, (j + 1) % n) += s.pick({1.0, -1.0, 0.5}); }
    l.b = s.vec(me, -3, 3); l.a = s.vec(mi, -3, 3);
    L.push_back(l);
  }
}
static void note_levels(pbt::Case& c, const std::vector<Level>& L) {
  for (size_t i = 0; i < L.size(); i++) c.note << "rank " << i << ": B=" << pbt::str(L[i].B) << " b=" << pbt::str(L[i].b) << " A=" << pbt::str(L[i].A) << " a=" << pbt::str(L[i].a) << "; ";
}
static double cost(const Level& l, const Vec& x) { return (l.B * x + l.b).squaredNorm() + (l.A * x + l.a).cwiseMax(0).squaredNorm(); }
// x must be optimal for level k given what the levels before it left (X[j] solution after level j).
// The hierarchy relaxes the inequalities of earlier levels by 1e-6 each time.
static void check_level(pbt::Case& c, const std::vector<Level>& L, const std::vector<Vec>& X, int k, double tol) {
  const Vec& x = X[k];
  double sc = 1 + x.norm();
  std::vector<Vec> eqrows, inrows; std::vector<double> inval;
  for (int j = 0; j < k; j++) {
    Vec e0 = L[j].B * X[j] + L[j].b, e1 = L[j].B * x + L[j].b;
    PBT_CHECK(c, (e0 - e1).norm() < tol * sc, "higher-priority-equality-disturbed", "level " << k << " changes the equality residual of level " << j << " from " << pbt::str(e0) << " to " << pbt::str(e1));
    Vec v0 = (L[j].A * X[j] + L[j].a).cwiseMax(0), v1 = L[j].A * x + L[j].a;
    for (int i = 0; i < v0.size(); i++) {
      PBT_CHECK(c, v1[i] < v0[i] + tol * sc, "higher-priority-inequality-violated", "level " << k << " raises inequality " << i << " of level " << j << " from " << v0[i] << " to " << v1[i]);
      inrows.push_back(L[j].A.row(i)); inval.push_back(v1[i] - v0[i]);
    }
    for (int i = 0; i < L[j].B.rows(); i++) eqrows.push_back(L[j].B.row(i));
  }
  int n = (int)x.size();
  // gradient of half the cost; stationarity modulo equality rows, with nonnegative multipliers of active inequalities
  Vec g = L[k].B.transpose() * (L[k].B * x + L[k].b) + L[k].A.transpose() * (L[k].A * x + L[k].a).cwiseMax(0);
  Mat N = Mat::Identity(n, n);
  if (!eqrows.empty()) {
    Mat E(eqrows.size(), n); for (size_t i = 0; i < eqrows.size(); i++) E.row(i) = eqrows[i];
    Eigen::JacobiSVD<Mat> svd(E, Eigen::ComputeFullV);
    int r = 0; while (r < svd.singularValues().size() && svd.singularValues()[r] > 1e-7) r++;
    N = svd.matrixV().rightCols(n - r);
  }
  if (N.cols() == 0) return;
  Vec gz = N.transpose() * g;
  std::vector<int> act; for (size_t i = 0; i < inval.size(); i++) if (inval[i] > -10 * tol * sc) act.push_back((int)i);
  Mat Az(N.cols(), act.size()); for (size_t i = 0; i < act.size(); i++) Az.col(i) = N.transpose() * inrows[act[i]];
  double res = act.empty() ? gz.norm() : nnls(Az, -gz);
  PBT_CHECK(c, res < 20 * tol * (1 + g.norm() + sc), "level-not-optimal", "level " << k << ": x=" << pbt::str(x) << " with cost " << cost(L[k], x) << " is not optimal, residual of the optimality conditions " << res);
}
PBT_PROP(hierarchy_is_lexicographic) {
  int n = s.integer(1, HV);
  std::vector<Level> L; levels(s, L, n, 5, s.chance(0.4));
  note_levels(c, L);
  YAML::Node par;
  RtHQPSolver<HI, HV, HE> hqp(par);
  hqp.initialize();
  int rounds = s.integer(1, 2);
  std::vector<Vec> X0; int done = 0;
  for (int r = 0; r < rounds; r++) {
    hqp.reset(n);
    std::vector<Vec> X;
    for (size_t k = 0; k < L.size(); k++) {
      if (k > 0 && hqp.nullspaceDimension() == 0) break;         // what the model class does
      bool ok = hqp.solveNextTask(L[k].B, L[k].b, L[k].A, L[k].a);
      PBT_CHECK(c, ok, "level-failed", "solveNextTask fails at level " << k);
      Vec x = hqp.solution();
      PBT_CHECK(c, x.size() == n && x.allFinite(), "no-solution", "x=" << pbt::str(x));
      X.push_back(x);
      check_level(c, L, X, (int)k, 2e-5);
    }
    if (r == 0) X0 = X;
    else for (size_t k = 0; k < X.size(); k++) PBT_CHECK(c, k < X0.size() && (X[k] - X0[k]).norm() < 1e-6 * (1 + X[k].norm()), "not-repeatable", "level " << k << ": " << pbt::str(X[k]) << " after " << pbt::str(X0[k]));
    done = (int)X.size();
  }
  c.label("levels solved " + std::to_string(done));
  c.nontrivial = done >= 2 && n >= 2;
}

// through the model class: constraints as expressions, in any order, or from cost composers
struct Composer : RtHQPCost {
  typedef RtModel<HI, HE, HV> M;
  M* m; RtVector<HE>::i ranks; Mat mat; Vec vec; bool eq; int col; mutable int updates = 0;
  int maxRank() const override { return ranks.size() ? ranks.maxCoeff() : -1; }
  void updateAfterSolutionFound() override { updates++; }
  void addCostToHierarchy(int rank) const override { m->template appendRowsOfRank<HE>(rank, ranks, mat, vec, eq, col); }
};
PBT_PROP(hierarchical_model) {
  const int n = HV;
  std::vector<Level> L; levels(s, L, n, 4, true);
  note_levels(c, L);
  YAML::Node par;
  typedef RtModel<HI, HE, HV> M;
  M model(par);
  int rounds = s.integer(1, 2);
  Vec first;
  std::vector<int> keep;                                       // variables left out of the optimisation count as zero
  bool reduce = s.chance(0.25);
  for (int j = 0; j < n; j++) if (!reduce || s.boolean()) keep.push_back(j);
  if (keep.empty()) keep.push_back(s.integer(0, n - 1));
  const int nk = (int)keep.size();
  for (int j = 0; j < n; j++) model.full_to_opt_variable_index_[j] = -1;
  for (int j = 0; j < nk; j++) model.full_to_opt_variable_index_[keep[j]] = j;
  model.num_variables_optimized_ = nk;
  std::vector<Level> R = L;
  for (Level& l : R) {
    auto cut = [&](Mat& A, Vec& b) {
      std::vector<int> rows;
      for (int i = 0; i < A.rows(); i++) { double t = 0; for (int j : keep) t += std::abs(A(i, j)); if (t > 0 || nk == n) rows.push_back(i); }
      Mat B(rows.size(), nk); Vec d(rows.size());
      for (size_t i = 0; i < rows.size(); i++) { for (int j = 0; j < nk; j++) B(i, j) = A(rows[i], keep[j]); d[i] = b[rows[i]]; }
      A = B; b = d;
    };
    cut(l.B, l.b); cut(l.A, l.a);
  }
  c.note << "variables kept " << nk << "; "; c.label("variables left out", nk < n);
  for (int r = 0; r < rounds; r++) {
    model.clean(); model.subCostComposers().clear();
    struct Row { int rank; bool eq; Vec a; double b; };
    std::vector<Row> rows;
    for (size_t k = 0; k < L.size(); k++) {
      for (int i = 0; i < L[k].B.rows(); i++) rows.push_back({(int)k, true, L[k].B.row(i), L[k].b[i]});
      for (int i = 0; i < L[k].A.rows(); i++) rows.push_back({(int)k, false, L[k].A.row(i), L[k].a[i]});
    }
    std::vector<int> p = s.perm((int)rows.size());
    std::vector<std::unique_ptr<Composer>> comp;
    bool use_comp = s.chance(0.4);
    std::vector<int> ceq;
    for (int idx : p) {
      const Row& w = rows[idx];
      if (use_comp && w.eq && ceq.size() < 4 && s.boolean()) { ceq.push_back(idx); continue; }
      solver::LinExpr e, rhs;
      for (int j = 0; j < n; j++) {
        double v = w.a[j];
        if (v == 0) continue;
        switch (s.integer(0, 3)) {
          case 0: e += model.getVar(j) * v; break;
          case 1: e += model.getVar(j) * (v - 1.5); e += model.getVar(j) * 1.5; break;      // in two pieces
          case 2: rhs += model.getVar(j) * -v; break;
          default: e += solver::LinExpr(model.getVar(j)) * (2 * v); rhs += model.getVar(j) * v; break;
        }
      }
      double cl = s.real(-1, 1); e += cl; rhs += cl - w.b;
      if (w.eq) model.addLinConstr(e, "=", rhs, w.rank);
      else if (s.boolean()) model.addLinConstr(e, "<", rhs, w.rank);
      else model.addLinConstr(rhs, ">", e, w.rank);
    }
    if (!ceq.empty()) {
      comp.emplace_back(new Composer); Composer& q = *comp.back();
      q.m = &model; q.eq = true; q.col = s.integer(0, 2);
      // keep only those rows whose leading columns are zero in a block with an offset
      for (int idx : ceq) for (int j = 0; j < q.col; j++) if (rows[idx].a[j] != 0) q.col = j;
      q.mat = Mat(ceq.size(), n - q.col); q.vec = Vec(ceq.size()); q.ranks.resize(ceq.size());
      for (size_t i = 0; i < ceq.size(); i++) { q.mat.row(i) = rows[ceq[i]].a.tail(n - q.col).transpose(); q.vec[i] = rows[ceq[i]].b; q.ranks[i] = rows[ceq[i]].rank; }
      model.subCostComposers().push_back(&q);
    }
    model.initialize();
    bool ok = model.solve();
    PBT_CHECK(c, ok && model.is_solution_valid_, "solve-failed", "solve returns " << ok);
    for (auto& q : comp) PBT_CHECK(c, q->updates == 1, "composer-not-notified", q->updates << " notifications");
    Vec x = model.hqp_solver_.solution();
    // reference: the same levels, one after the other
    RtHQPSolver<HI, HV, HE> hqp(par); hqp.initialize(); hqp.reset(nk);
    std::vector<Vec> X; int solved = 0;
    for (size_t k = 0; k < L.size(); k++) {
      if (k > 0 && hqp.nullspaceDimension() == 0) break;
      hqp.solveNextTask(R[k].B, R[k].b, R[k].A, R[k].a);
      X.push_back(Vec(hqp.solution())); solved++;
    }
    PBT_CHECK(c, x.size() == nk && x.allFinite(), "no-solution", "x=" << pbt::str(x));
    // the final point keeps every level at its optimal value
    for (int k = 0; k < solved; k++) {
      double want = cost(R[k], X[k]), got = cost(R[k], x);
      PBT_CHECK(c, std::abs(std::sqrt(want) - std::sqrt(got)) < 2e-3 || std::abs(want - got) < 1e-4 * (1 + want), "level-cost-differs", "round " << r << ": level " << k << " has cost " << got << " at x=" << pbt::str(x) << ", its optimum given the levels before is " << want << " at " << pbt::str(X[k]));
    }
    PBT_CHECK(c, (x - X.back()).norm() < 1e-4 * (1 + x.norm()), "model-differs-from-solver", "model gives " << pbt::str(x) << ", the levels solved directly " << pbt::str(X.back()));
    if (r == 0) first = x; else PBT_CHECK(c, (x - first).norm() < 1e-6 * (1 + x.norm()), "not-repeatable", pbt::str(first) << " then " << pbt::str(x));
    c.label("composer", !comp.empty());
  }
  c.nontrivial = L.size() >= 2;
}
// ------------------------------------------------------------------ matrix helpers
static const int MR = 9, MC = 4;
typedef RtMatrix<MR, MC>::d RM; typedef RtVector<MR>::d RV;
static bool same(const Mat& a, const Mat& b, double tol = 0) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol); }
PBT_PROP(rt_matrix_helpers) {
  int n = s.integer(1, MC);
  RM A; RtMatrixUtils::resize(A, 0, n); RV a; RtVectorUtils::resize(a, 0);
  Mat M(0, n); Vec v(0);                                          // the model
  int steps = s.integer(1, 10), appended = 0, removed = 0;
  for (int k = 0; k < steps; k++) {
    int m = s.integer(0, std::min(3, MR - (int)M.rows()));
    Mat B = s.mat(m, n, -2, 2); Vec b = s.vec(m, -2, 2);
    for (int i = 0; i < m; i++) if (s.chance(0.3)) B.row(i).setZero();
    int col = 0, op = s.integer(0, 6);
    auto grow = [&](bool withvec) {
      Mat N(M.rows() + m, n); N.topRows(M.rows()) = M; N.bottomRows(m).setZero(); N.block(M.rows(), col, m, B.cols()) = B; 
      Vec w(v.size() + m); w.head(v.size()) = v; if (withvec) w.tail(m) = b; else w.tail(m).setZero();
      M = N; v = w; appended += m;
    };
    switch (op) {
      case 0: RtAffineUtils::append(A, a, B, b); grow(true); c.note << "append " << m << "; "; break;
      case 1: RtAffineUtils::append(A, a, B); grow(false); c.note << "append " << m << " without vector; "; break;
      case 2: case 3: {
        col = s.integer(0, n - 1); B = Mat(B.leftCols(s.integer(1, n - col)));
        c.note << "append " << m << "x" << B.cols() << " at column " << col << "; ";
        if (op == 2) { RtAffineUtils::appendAtColumn(A, a, B, b, col); grow(true); } else { RtAffineUtils::appendAtColumn(A, a, B, col); grow(false); }
        break; }
      case 4: case 5: {                                            // remove zero rows, both forms
        std::vector<int> keep; for (int i = 0; i < M.rows(); i++) if (M.row(i).cwiseAbs().sum() > 0) keep.push_back(i);
        Mat N(keep.size(), n); Vec w(keep.size()); for (size_t i = 0; i < keep.size(); i++) { N.row(i) = M.row(keep[i]); w[i] = v[keep[i]]; }
        c.note << "remove zero rows of " << pbt::str(M) << "; ";
        if (s.boolean()) { RM C = A; RtMatrixUtils::removeZeroRows<MR, MC>(C, 1e-9); PBT_CHECK(c, same(C, N), "zero-rows", "matrix form gives " << pbt::str(Mat(C)) << " instead of " << pbt::str(N)); }
        if (op == 4) RtAffineUtils::removeZeroRows<MR, MC>(A, a, 1e-9); else RtAffineUtils::removeZeroRows(A, a);
        removed += (int)(M.rows() - N.rows());
        M = N; v = w; break; }
      default: {                                                   // x = S y + t, of any size
        int n2 = s.integer(1, MC); Mat S = s.mat(n, n2, -2, 2); Vec t = s.vec(n, -2, 2);
        c.note << "substitute; ";
        if (s.boolean()) { RtAffineUtils::substitute(A, a, S, t); v += M * t; } else RtAffineUtils::substitute(A, S);
        M = Mat(M * S); n = n2; break; }
    }
    double tol = 1e-9 * (1 + (M.size() ? M.cwiseAbs().maxCoeff() : 0) + (v.size() ? v.cwiseAbs().maxCoeff() : 0));
    PBT_CHECK(c, same(A, M, tol), "matrix", "step " << k << ": " << pbt::str(Mat(A)) << " instead of " << pbt::str(M));
    PBT_CHECK(c, same(a, v, tol), "vector", "step " << k << ": " << pbt::str(Mat(a)) << " instead of " << pbt::str(v));
  }
  // quadratic forms: x'Qx + 2 q'x equals the norms it was built from, also after substitution
  int d = s.integer(1, MC); RtMatrix<MC, MC>::d Q; RtVector<MC>::d q; RtMatrixUtils::setZero(Q, d, d); RtVectorUtils::setZero(q, d);
  std::vector<std::function<double(const Vec&)>> terms;
  double cst = 0;
  for (int k = s.integer(1, 4); k > 0; k--) {
    int m = s.integer(1, 5); Mat F = s.mat(m, d, -2, 2); Vec f = s.vec(m, -2, 2); Mat W = s.mat(m, m, -1, 1); W = Mat(W * W.transpose());
    switch (s.integer(0, 3)) {
      case 0: RtQuadraticUtils::addFromNorm(Q, F); terms.push_back([=](const Vec& x) { return (F * x).squaredNorm(); }); break;
      case 1: RtQuadraticUtils::addFromNorm(Q, q, F, f); terms.push_back([=](const Vec& x) { return (F * x + f).squaredNorm(); }); cst += f.squaredNorm(); break;
      case 2: RtQuadraticUtils::addFromWeightedNorm(Q, F, W); terms.push_back([=](const Vec& x) { return (F * x).dot(W * (F * x)); }); break;
      default: RtQuadraticUtils::addFromWeightedNorm(Q, q, F, f, W); terms.push_back([=](const Vec& x) { return (F * x + f).dot(W * (F * x + f)); }); cst += f.dot(W * f); break;
    }
  }
  Vec x = s.vec(d, -2, 2);
  auto want = [&](const Vec& y) { double t = 0; for (auto& g : terms) t += g(y); return t; };
  double got = x.dot(Mat(Q) * x) + 2 * Vec(q).dot(x) + cst, w = want(x);
  PBT_CHECK(c, std::abs(got - w) < 1e-9 * (1 + std::abs(w) + std::abs(cst)), "norm-to-quadratic", "value " << got << " instead of " << w);
  int d2 = s.integer(1, MC); Mat S = s.mat(d, d2, -2, 2); Vec t = s.vec(d, -2, 2);
  double c2 = t.dot(Mat(Q) * t) + 2 * Vec(q).dot(t) + cst;
  RtQuadraticUtils::substitute(Q, q, S, t);
  Vec y = s.vec(d2, -2, 2); w = want(S * y + t);
  PBT_CHECK(c, Q.rows() == d2 && Q.cols() == d2 && q.size() == d2, "substituted-size", Q.rows() << "x" << Q.cols());
  got = y.dot(Mat(Q) * y) + 2 * Vec(q).dot(y) + c2;
  PBT_CHECK(c, std::abs(got - w) < 1e-8 * (1 + std::abs(w) + std::abs(c2) + std::abs(cst)), "quadratic-substitution", "value " << got << " instead of " << w);
  // nullspace map
  int mr = s.integer(1, MC); Mat T = low_rank(s, mr, d); RtMatrix<MC, MC>::d P = T, K;
  Eigen::JacobiSVD<RtMatrix<MC, MC>::d> svd(P, Eigen::ComputeFullV);
  int rank = RtMatrixUtils::computeNullspaceMap(P, K, svd, 1e8);
  Eigen::JacobiSVD<Mat> ref(T); int r = 0; while (r < ref.singularValues().size() && ref.singularValues()[r] > 1e-6) r++;
  if (r > 0 || T.norm() == 0) {
    PBT_CHECK(c, rank == r && K.rows() == d && K.cols() == d - r, "nullspace-rank", "rank " << rank << " instead of " << r << " for " << pbt::str(T));
    PBT_CHECK(c, (T * Mat(K)).norm() < 1e-9 && (Mat(K).transpose() * Mat(K) - Mat::Identity(d - r, d - r)).norm() < 1e-9, "nullspace-map", "K=" << pbt::str(Mat(K)) << " for " << pbt::str(T));
  }
  if (r == std::min(mr, d)) {
    double cn = ref.singularValues()[0] / ref.singularValues()[r - 1], g = RtMatrixUtils::conditionNumber(P);
    PBT_CHECK(c, std::abs(g - cn) < 1e-6 * cn, "condition-number", g << " instead of " << cn);
  }
  c.nontrivial = appended >= 3 && removed >= 1;
}
PBT_MAIN
