// Random convex problems with a known answer, in a dense form of our own, and
// their translation to solver::Model calls.
#pragma once
#include <pbt.hpp>
#include <solver/interface/Solver.hpp>
#include <memory>
using namespace solver;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

static const char* kStg = VERIF_REPO_DIR "/momentumopt/config/default_solver_setting.yaml";

inline const char* ecname(ExitCode e) {
  switch (e) {
    case ExitCode::Optimal: return "Optimal"; case ExitCode::OptimalInacc: return "OptimalInacc";
    case ExitCode::PrimalInf: return "PrimalInf"; case ExitCode::PrimalInfInacc: return "PrimalInfInacc";
    case ExitCode::DualInf: return "DualInf"; case ExitCode::DualInfInacc: return "DualInfInacc";
    case ExitCode::ReachMaxIters: return "ReachMaxIters"; case ExitCode::NotConverged: return "NotConverged";
    case ExitCode::Indeterminate: return "Indeterminate"; case ExitCode::PrSearchDirection: return "PrSearchDirection";
    case ExitCode::PrSlacksLeaveCone: return "PrSlacksLeaveCone"; case ExitCode::PrProjection: return "PrProjection";
  }
  return "?";
}

struct QForm {               // sum_i w_i (Q_i x + k_i)^2  +  l'x + d
  Vec w; Mat Q; Vec k; Vec l; double d = 0;
  bool soc = false;          // sqrt(sum_i (Q_i x + k_i)^2) + l'x + d, weights unused
  QuadConstrApprox approx = QuadConstrApprox::None;
  double eval(const Vec& x) const {
    Vec r = Q * x + k;
    double v = soc ? r.norm() : (w.array() * r.array().square()).sum();
    return v + l.dot(x) + d;
  }
  Vec grad(const Vec& x) const {
    Vec r = Q * x + k;
    if (soc) { double n = r.norm(); return (n > 0 ? Vec(Q.transpose() * r / n) : Vec::Zero(x.size())) + l; }
    return 2 * Q.transpose() * (w.array() * r.array()).matrix() + l;
  }
};
struct Row { Vec a; double b; char sense; };   // a'x (sense) b

struct Problem {
  int n = 0;
  std::vector<char> bin;
  std::vector<Row> rows;
  std::vector<QForm> qs;
  QForm obj;                 // objective, soc=false
  Vec guess;
  explicit Problem(int n_) : n(n_), bin(n_, 0), guess(Vec::Zero(n_)) {
    obj.w.resize(0); obj.Q.resize(0, n); obj.k.resize(0); obj.l = Vec::Zero(n);
  }
  double cost(const Vec& x) const { return obj.eval(x); }
  // largest violation, each constraint measured relative to its own size
  double violation(const Vec& x, std::string* which = nullptr) const {
    double worst = 0;
    for (size_t i = 0; i < rows.size(); i++) {
      const Row& r = rows[i];
      double v = r.a.dot(x) - r.b;
      if (r.sense == '>') v = -v;
      if (r.sense == '=') v = std::abs(v);
      v /= 1 + r.a.norm() + std::abs(r.b);
      if (!(v <= worst)) { worst = v; if (which) *which = std::string("linear ") + r.sense + " #" + std::to_string(i); }
    }
    for (size_t i = 0; i < qs.size(); i++) {
      const QForm& q = qs[i];
      double sc = 1 + q.l.norm() + std::abs(q.d) + q.k.squaredNorm();
      for (int j = 0; j < q.Q.rows(); j++) sc += (q.soc ? 1.0 : std::abs(q.w[j])) * q.Q.row(j).squaredNorm();
      double v = q.eval(x) / sc;
      if (!(v <= worst)) { worst = v; if (which) *which = std::string(q.soc ? "cone #" : "quadratic #") + std::to_string(i); }
    }
    return worst;
  }
  void describe(std::ostream& o) const {
    o << "n=" << n;
    for (int i = 0; i < n; i++) if (bin[i]) o << " x" << i << " binary;";
    for (auto& r : rows) o << " " << pbt::str(r.a) << "x" << r.sense << r.b << ";";
    for (auto& q : qs) o << (q.soc ? " ||" : " w=" + pbt::str(q.w) + " ") << pbt::str(q.Q) << "x+" << pbt::str(q.k) << (q.soc ? "||" : "^2") << "+" << pbt::str(q.l) << "x+" << q.d << "<=0;";
    o << " min " << pbt::str(obj.w) << "(" << pbt::str(obj.Q) << "x+" << pbt::str(obj.k) << ")^2+" << pbt::str(obj.l) << "x+" << obj.d;
  }
};

// How the same problem is written down: all of it must be irrelevant.
struct Writing {
  std::vector<int> order;      // order in which variables are declared
  bool reverse_rows = false, reverse_qs = false, split = false, swap_sense = false;
  double lb = -1e6, ub = 1e6;
};

struct Built {
  std::vector<Var> v;          // by problem index
  Vec x() const { Vec r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i].get(SolverDoubleParam_X); return r; }
};

inline LinExpr affine(const std::vector<Var>& v, const Vec& a, double k, bool split = false) {
  LinExpr e;
  for (int i = 0; i < a.size(); i++) {
    if (a[i] == 0) continue;
    if (split) { e += LinExpr(v[i], 0.25 * a[i]); e += LinExpr(v[i], 0.75 * a[i]); }
    else e += LinExpr(v[i], a[i]);
  }
  e += k;
  return e;
}
inline DCPQuadExpr quad(const std::vector<Var>& v, const QForm& q, bool linear_inside) {
  DCPQuadExpr e;
  for (int i = 0; i < q.Q.rows(); i++) e.addQuaTerm(q.soc ? 1.0 : q.w[i], affine(v, q.Q.row(i).transpose(), q.k[i]));
  if (linear_inside) e.addLinTerm(affine(v, q.l, q.d));
  return e;
}
inline void add_row(Model& m, const std::vector<Var>& v, const Row& r, const Writing& w) {
  char sense = r.sense;
  if (w.swap_sense && sense != '=') {
    m.addLinConstr(affine(v, -r.a, 0, w.split), sense == '<' ? ">" : "<", LinExpr(-r.b));
  } else if (w.swap_sense) {
    m.addLinConstr(LinExpr(r.b), "=", affine(v, r.a, 0, w.split));
  } else if (w.split) {
    Vec h = 0.5 * r.a;
    m.addLinConstr(affine(v, h, 1.5, true), std::string(1, sense), affine(v, -h, 1.5 + r.b));
  } else {
    m.addLinConstr(affine(v, r.a, 0), std::string(1, sense), LinExpr(r.b));
  }
}
inline void add_q(Model& m, const std::vector<Var>& v, const QForm& q, const Writing& w) {
  DCPQuadExpr e = quad(v, q, w.split);
  LinExpr rhs = w.split ? LinExpr(0.0) : affine(v, -q.l, -q.d);
  if (q.soc) m.addSocConstr(e, "<", rhs);
  else m.addQuaConstr(e, "<", rhs, q.approx);
}
inline void set_objective(Model& m, const std::vector<Var>& v, const QForm& o, const Writing& w) {
  DCPQuadExpr e;
  for (int i = 0; i < o.Q.rows(); i++) e.addQuaTerm(o.w[i], affine(v, o.Q.row(i).transpose(), o.k[i], w.split));
  if (w.split) { e.addLinTerm(affine(v, o.l, 0)); m.setObjective(e, LinExpr(o.d)); }
  else m.setObjective(e, affine(v, o.l, o.d));
}
inline Built declare(Model& m, const Problem& p, const Writing& w) {
  Built b; b.v.resize(p.n);
  for (int k = 0; k < p.n; k++) {
    int i = w.order.empty() ? k : w.order[k];
    b.v[i] = p.bin[i] ? m.addVar(VarType::Binary, 0.0, 1.0, std::min(1.0, std::max(0.0, p.guess[i])))
                      : m.addVar(VarType::Continuous, w.lb, w.ub, p.guess[i]);
  }
  return b;
}
inline Built write(Model& m, const Problem& p, const Writing& w = Writing()) {
  Built b = declare(m, p, w);
  for (size_t k = 0; k < p.rows.size(); k++) add_row(m, b.v, p.rows[w.reverse_rows ? p.rows.size() - 1 - k : k], w);
  for (size_t k = 0; k < p.qs.size(); k++) add_q(m, b.v, p.qs[w.reverse_qs ? p.qs.size() - 1 - k : k], w);
  set_objective(m, b.v, p.obj, w);
  return b;
}
struct Solved { ExitCode ec; Vec x; };
inline Solved solve(const Problem& p, const Writing& w = Writing()) {
  Model m;
  m.configSetting(kStg);
  Built b = write(m, p, w);
  ExitCode e = m.optimize();
  return {e, b.x()};
}
inline Writing random_writing(pbt::Src& s, int n) {
  Writing w;
  if (s.chance(0.7)) w.order = s.perm(n);
  w.reverse_rows = s.boolean(); w.reverse_qs = s.boolean(); w.split = s.boolean(); w.swap_sense = s.boolean();
  return w;
}

// ---------------------------------------------------------------------------
// A convex problem whose optimum is known by construction: pick a strictly
// feasible x0 and an optimum xs, constraints through or around them, and a
// linear cost that makes the KKT conditions hold at xs.
struct Known { Problem p; Vec xs; Vec x0; double fs; bool strict; int active; };

inline Vec nonzero(pbt::Src& s, int n, double r) {
  Vec a = s.vec(n, -r, r);
  if (a.norm() < 0.3) a[(int)s.index(n)] = 1.0;
  return a;
}

struct GenOpts { int nmax = 6; double range = 3; bool quads = true; bool equalities = true; };

inline Known known_optimum(pbt::Src& s, const GenOpts& o = GenOpts()) {
  int n = s.integer(1, o.nmax);
  Known K{Problem(n), s.vec(n, -o.range, o.range), Vec(), 0, false, 0};
  Problem& p = K.p;
  Vec u = nonzero(s, n, 2);              // from optimum to the interior point
  K.x0 = K.xs + u;
  Vec g = Vec::Zero(n);                  // sum of multipliers times gradients
  int neq = (o.equalities && n > 1) ? s.integer(0, std::min(2, n - 1)) : 0;
  for (int i = 0; i < neq; i++) {
    Vec a = nonzero(s, n, 2);
    a -= (a.dot(u) / u.squaredNorm()) * u;   // keep x0 on the plane
    if (a.norm() < 0.2) continue;
    bool indep = true;                        // and the rows independent
    Vec r = a.normalized();
    for (auto& q : p.rows) { Vec t = q.a.normalized(); if (std::abs(t.dot(r)) > 0.9) indep = false; }
    if (!indep) continue;
    p.rows.push_back({a, a.dot(K.xs), '='});
    g += s.real(-2, 2) * a;
  }
  auto lambda = [&]() { K.active++; return s.uniform(0.2, 2.0); };
  int nin = s.integer(0, 5);
  for (int i = 0; i < nin; i++) {
    Vec a = nonzero(s, n, 2);
    bool act = s.chance(0.6);
    double au = a.dot(u);
    if (act) {
      if (au > 0) { a = -a; au = -au; }
      if (au > -0.2) { a -= ((0.2 + au) / u.squaredNorm()) * u; }
      double b = a.dot(K.xs);
      g += lambda() * a;
      if (s.boolean()) p.rows.push_back({a, b, '<'}); else p.rows.push_back({-a, -b, '>'});
    } else {
      double b = std::max(a.dot(K.xs), a.dot(K.x0)) + s.uniform(0.2, 3);
      if (s.boolean()) p.rows.push_back({a, b, '<'}); else p.rows.push_back({-a, -b, '>'});
    }
  }
  int nq = o.quads ? s.integer(0, 3) : 0;
  for (int i = 0; i < nq; i++) {
    QForm q; int m = s.integer(1, 3);
    q.soc = s.boolean();
    q.Q = s.mat(m, n, -2, 2); q.k = s.vec(m, -2, 2); q.l = s.chance(0.5) ? s.vec(n, -1, 1) : Vec::Zero(n);
    q.w = Vec(m); for (int j = 0; j < m; j++) q.w[j] = s.uniform(0.2, 2);
    bool act = s.chance(0.5);
    if (q.soc && (q.Q * K.xs + q.k).norm() < 0.3) act = false;   // gradient must exist
    q.d = 0;
    double vs = q.eval(K.xs), v0 = q.eval(K.x0);
    if (act) {
      double margin = 0.3;
      if (v0 > vs - margin) q.l -= ((v0 - vs + margin) / u.squaredNorm()) * u;
      q.d = -q.eval(K.xs);
      g += lambda() * q.grad(K.xs);
    } else {
      q.d = -(std::max(vs, v0) + s.uniform(0.3, 3));
    }
    p.qs.push_back(q);
  }
  int no = s.integer(0, n + 1);
  p.obj.Q = s.mat(no, n, -2, 2); p.obj.k = s.vec(no, -2, 2); p.obj.w = Vec(no);
  for (int j = 0; j < no; j++) p.obj.w[j] = s.uniform(0.1, 3);
  if (s.chance(0.4)) {   // strongly convex: the optimum is unique
    Mat Q(no + n, n); Q << p.obj.Q, Mat::Identity(n, n);
    Vec k(no + n); k << p.obj.k, Vec::Zero(n);
    Vec w(no + n); w << p.obj.w, Vec::Constant(n, 0.5);
    p.obj.Q = Q; p.obj.k = k; p.obj.w = w;
    K.strict = true;
  }
  if (!K.strict) {       // keep the optimal set bounded: a box or a ball around xs and x0
    double R = 2 + u.norm() + s.uniform(0, 8);
    if (s.boolean()) {
      for (int i = 0; i < n; i++) {
        Vec e = Vec::Zero(n); e[i] = 1;
        p.rows.push_back({e, K.xs[i] + R, '<'}); p.rows.push_back({e, K.xs[i] - R, '>'});
      }
    } else {
      QForm q; q.soc = s.boolean(); q.Q = Mat::Identity(n, n); q.k = -K.xs; q.w = Vec::Ones(n); q.l = Vec::Zero(n);
      q.d = q.soc ? -R : -R * R;
      p.qs.push_back(q);
    }
  }
  p.obj.l = Vec::Zero(n);
  p.obj.l = -g - p.obj.grad(K.xs);
  p.obj.d = s.real(-2, 2);
  p.guess = s.vec(n, -2, 2);
  K.fs = p.cost(K.xs);
  return K;
}
