// iLQR solver: LQ optimum and gains, roll-outs, finite differences, control
// limits, sequences, settings and stored solutions.
#include <Eigen/Eigen>
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/SolverLqr.hpp>
#include "pbt.hpp"
using namespace pbt;
using namespace solverlqr;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

namespace {

struct Tmp {
  std::string dir;
  Tmp() { char t[] = "/tmp/pbt-lqr-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); dir = t; }
  ~Tmp() {
    for (const char* f : {"/cfg.yaml", "/cfg_lqr_results.yaml"}) unlink((dir + f).c_str());
    rmdir(dir.c_str());
  }
  std::string file() const { return dir + "/cfg.yaml"; }
};

struct Cfg {
  int max_iters = 300, ncoef = 10, xdim = 1, udim = 1;
  double coef = 1.1, costtol = 1e-12, div = 1e6, minreg = 1e-6, maxreg = 1e10, gradtol = 1e-9, reg = 0.1, incr = 1.2, incr0 = 1.0,
         dt = 1.0, horizon = 1.0;
  bool limits = false, store = false;
  V umin, umax, x0;
  std::string user = "{}";
};
std::string seq(const V& v) { std::ostringstream o; o << std::setprecision(17) << "["; for (int i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; o << "]"; return o.str(); }
std::string write(const Tmp& t, const Cfg& k) {
  std::ofstream o(t.file());
  o << std::setprecision(17);
  o << "solverlqr_variables:\n  verbosity: " << (getenv("LQR_VERB") ? 2 : 0) << "\n  sensitivity: 1.0\n  decimal_digits: 4\n  lqr_max_iters: " << k.max_iters
    << "\n  linesearch_coeff: " << k.coef << "\n  linesearch_num_coeffs: " << k.ncoef << "\n  cost_change_tolerance: " << k.costtol
    << "\n  divergence_limit_check: " << k.div << "\n  bpass_regularization_type: 2\n  bpass_min_regularization: " << k.minreg
    << "\n  bpass_max_regularization: " << k.maxreg << "\n  control_gradient_tolerance: " << k.gradtol
    << "\n  bpass_initial_regularization: " << k.reg << "\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: " << k.incr
    << "\n  bpass_initial_mult_regularization_incr: " << k.incr0 << "\n  time_step: " << k.dt << "\n  time_horizon: " << k.horizon
    << "\n  state_dimension: " << k.xdim << "\n  control_dimension: " << k.udim << "\n  initial_state: " << seq(k.x0)
    << "\n  has_control_limits: " << (k.limits ? "true" : "false") << "\n";
  if (k.limits) o << "  min_control_limits: " << seq(k.umin) << "\n  max_control_limits: " << seq(k.umax) << "\n";
  o << "  store_data: " << (k.store ? "true" : "false") << "\n  user_parameters: " << k.user << "\n";
  o.close();
  return t.file();
}

// a problem given by two functions; the dynamics function returns the increment
struct Ocp : OcpBase {
  std::function<V(const V&, const V&, int)> f;
  std::function<double(const V&, const V&, int, bool)> l;
  YAML::Node seen;
  int configured = 0;
  void configure(const YAML::Node& n) override { seen = n; configured++; }
  StateBase dynamics(const StateBase& x, const ControlBase& u, int t) override { StateBase r; r.stateVector() = f(x.stateVector(), u.feedforward(), t); return r; }
  double objective(const StateBase& x, const ControlBase& u, int t, bool fin) override { return l(x.stateVector(), u.feedforward(), t, fin); }
};

// time-varying LQ problem. dynamics increment: Mt x + Nt u + ct
struct Lq {
  int T, n, m;
  bool rk = false;
  std::vector<M> Md, Nd, Q, R, P;   // cost .5x'Qx + q'x + .5u'Ru + r'u + u'Px
  std::vector<V> cd, q, r;
  V x0;
  std::vector<M> A, B;
  std::vector<V> c;
  double inc(int) const { return 0; }
  V f(const V& x, const V& u, int t) const { return Md[t] * x + Nd[t] * u + cd[t]; }
  double cost(const V& x, const V& u, int t, bool fin) const {
    double v = 0.5 * x.dot(Q[t] * x) + q[t].dot(x);
    if (!fin) v += 0.5 * u.dot(R[t] * u) + r[t].dot(u) + u.dot(P[t] * x);
    return v;
  }
  void discrete() {
    A.clear(); B.clear(); c.clear();
    M I = M::Identity(n, n);
    for (int t = 0; t < T; t++) {
      const M& X = Md[t];
      M S = rk ? M(I + X / 2 + X * X / 6 + X * X * X / 24) : I;
      A.push_back(I + S * X); B.push_back(S * Nd[t]); c.push_back(S * cd[t]);
    }
  }
  // condensed problem in the stacked controls: .5 U'HU + g'U + k
  void condensed(M& H, V& g, double& k) const {
    H = M::Zero(T * m, T * m); g = V::Zero(T * m); k = 0;
    M Gx = M::Zero(n, T * m); V d = x0;
    for (int t = 0; t <= T; t++) {
      H += Gx.transpose() * Q[t] * Gx; g += Gx.transpose() * (Q[t] * d + q[t]); k += 0.5 * d.dot(Q[t] * d) + q[t].dot(d);
      if (t == T) break;
      M E = M::Zero(m, T * m); E.block(0, t * m, m, m).setIdentity();
      H += E.transpose() * R[t] * E + E.transpose() * P[t] * Gx + Gx.transpose() * P[t].transpose() * E;
      g += E.transpose() * (r[t] + P[t] * d);
      Gx = (A[t] * Gx + B[t] * E).eval(); d = (A[t] * d + c[t]).eval();
    }
  }
  std::vector<M> riccati() const {
    std::vector<M> K(T);
    M S = Q[T];
    for (int t = T - 1; t >= 0; t--) {
      M Hh = R[t] + B[t].transpose() * S * B[t], G = P[t] + B[t].transpose() * S * A[t];
      K[t] = -Hh.ldlt().solve(G);
      S = (Q[t] + A[t].transpose() * S * A[t] + G.transpose() * K[t]).eval();
      S = (0.5 * (S + S.transpose())).eval();
    }
    return K;
  }
};

Lq gen_lq(Src& s, int maxT) {
  Lq p;
  p.T = s.integer(1, maxT); p.n = s.integer(1, 4); p.m = s.integer(1, 3);
  bool varying = s.boolean(), cross = s.boolean(), affine = s.boolean();
  p.rk = s.chance(0.3);
  p.x0 = s.vec(p.n, -3, 3);
  for (int t = 0; t <= p.T; t++) {
    bool first = t == 0;
    if (varying || first) {
      M W = s.spd(p.n + p.m, 0.1, 5);
      if (s.chance(0.3)) { M Z = s.umat(p.n + p.m, 1, -1, 1); W = Z * Z.transpose(); for (int i = 0; i < p.m; i++) W(p.n + i, p.n + i) += 0.5; }
      if (!cross) { W.topRightCorner(p.n, p.m).setZero(); W.bottomLeftCorner(p.m, p.n).setZero(); }
      p.Q.push_back(W.topLeftCorner(p.n, p.n)); p.R.push_back(W.bottomRightCorner(p.m, p.m)); p.P.push_back(W.bottomLeftCorner(p.m, p.n));
      p.q.push_back(affine ? V(s.vec(p.n, -2, 2)) : V(V::Zero(p.n))); p.r.push_back(affine ? V(s.vec(p.m, -2, 2)) : V(V::Zero(p.m)));
    } else { p.Q.push_back(p.Q[0]); p.R.push_back(p.R[0]); p.P.push_back(p.P[0]); p.q.push_back(p.q[0]); p.r.push_back(p.r[0]); }
    if (t < p.T) {
      if (varying || first) {
        M X = s.umat(p.n, p.n, -1, 1);
        X *= 0.6 / std::max(1.0, X.norm());
        p.Md.push_back(X); p.Nd.push_back(s.umat(p.n, p.m, -1, 1)); p.cd.push_back(affine ? V(s.vec(p.n, -0.5, 0.5)) : V(V::Zero(p.n)));
      } else { p.Md.push_back(p.Md[0]); p.Nd.push_back(p.Nd[0]); p.cd.push_back(p.cd[0]); }
    }
  }
  // terminal weight: heavier than the running one
  p.Q[p.T] = s.spd(p.n, 0.2, 20);
  p.q[p.T] = s.vec(p.n, -2, 2);
  p.discrete();
  return p;
}
std::string show(const Lq& p) {
  std::ostringstream o;
  o << "T=" << p.T << " n=" << p.n << " m=" << p.m << (p.rk ? " rk" : "") << " x0=" << str(p.x0) << " M0=" << str(p.Md[0]) << " N0=" << str(p.Nd[0])
    << " Q0=" << str(p.Q[0]) << " R0=" << str(p.R[0]) << " P0=" << str(p.P[0]) << " QT=" << str(p.Q[p.T]);
  return o.str();
}
void bind(Ocp& o, const Lq& p) {
  o.f = [&p](const V& x, const V& u, int t) { return p.f(x, u, t); };
  o.l = [&p](const V& x, const V& u, int t, bool fin) { return p.cost(x, u, t, fin); };
}
double total(const Ocp& o, const std::vector<V>& x, const std::vector<V>& u) {
  double j = 0;
  int T = u.size();
  for (int t = 0; t < T; t++) j += o.l(x[t], u[t], t, false);
  return j + o.l(x[T], V::Zero(u[0].size()), T, true);
}
// the integration rule, written down independently of the code
V stepx(const Ocp& o, bool rk, const V& x, const V& u, int t) {
  V k1 = o.f(x, u, t);
  if (!rk) return x + k1;
  V k2 = o.f(x + 0.5 * k1, u, t), k3 = o.f(x + 0.5 * k2, u, t), k4 = o.f(x + k3, u, t);
  return x + (k1 + 2 * k2 + 2 * k3 + k4) / 6.0;
}

// f: smooth nonlinear problem
struct Nl { int T, n, m; M W1, W2, W3; V b; M Q, R, Qf; V goal; int kind; double h; };
Nl gen_nl(Src& s, int maxT) {
  Nl p;
  p.T = s.integer(1, maxT); p.n = s.integer(1, 3); p.m = s.integer(1, 2); p.kind = s.integer(0, 2);
  p.h = s.pick({0.1, 0.25, 0.05});
  p.W1 = s.umat(p.n, p.n, -1.5, 1.5); p.W2 = s.umat(p.n, p.m, -2, 2); p.W3 = s.umat(p.n, p.n, -1, 1); p.b = s.uvec(p.n, -1, 1);
  p.Q = s.spd(p.n, 0.1, 3); p.R = s.spd(p.m, 0.1, 3); p.Qf = s.spd(p.n, 1, 30); p.goal = s.vec(p.n, -2, 2);
  return p;
}
V nlf(const Nl& p, const V& x, const V& u, int t) {
  V a = p.W1 * x + p.b;
  V g = p.W2 * u;
  V w = p.W3 * x;
  V r(p.n);
  for (int i = 0; i < p.n; i++) {
    if (p.kind == 0) r[i] = std::sin(a[i]) + g[i];
    else if (p.kind == 1) r[i] = std::tanh(a[i]) + g[i] * (1 + 0.5 * std::sin(w[i]));
    else r[i] = std::sin(a[i] + 0.3 * t) + g[i] + 0.2 * std::sin(g[i]) - 0.3 * w[i];
  }
  return p.h * r;
}
double nll(const Nl& p, const V& x, const V& u, int t, bool fin) {
  V d = x - p.goal;
  if (fin) return 0.5 * d.dot(p.Qf * d);
  double extra = p.kind == 2 ? 0.5 * std::pow(std::sin(d[0]), 2) * (1 + 0.1 * t) : 0.0;
  return p.h * (0.5 * d.dot(p.Q * d) + 0.5 * u.dot(p.R * u) + extra);
}

struct Run {
  Tmp tmp; SolverLqrSetting st; Ocp ocp; SolverLqr lqr;
  void setup(const Cfg& k, bool rk) { st.initialize(write(tmp, k)); st.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk; }
  void start(const V& x0, const std::vector<V>& u0) {
    ocp.initialize(st);
    for (size_t t = 0; t < u0.size(); t++) ocp.controlSeq().control(t).feedforward() = u0[t];
    ocp.stateSeq().state(0).stateVector() = x0;
  }
  std::vector<V> x() const { std::vector<V> r; for (int t = 0; t <= ocp.tdim(); t++) r.push_back(ocp.stateSeq().state(t).stateVector()); return r; }
  std::vector<V> u() const { std::vector<V> r; for (int t = 0; t < ocp.tdim(); t++) r.push_back(ocp.controlSeq().control(t).feedforward()); return r; }
};
std::vector<V> gen_controls(Src& s, int T, int m, double a) {
  std::vector<V> u;
  bool zero = s.boolean();
  for (int t = 0; t < T; t++) u.push_back(zero ? V(V::Zero(m)) : V(s.vec(m, -a, a)));
  return u;
}
std::vector<V> rollout(const Ocp& o, bool rk, const V& x0, const std::vector<V>& u) {
  std::vector<V> x(1, x0);
  for (size_t t = 0; t < u.size(); t++) x.push_back(stepx(o, rk, x[t], u[t], t));
  return x;
}
void consistent(Case& c, const Run& r, bool rk, const V& x0) {
  auto x = r.x(); auto u = r.u();
  PBT_CHECK(c, x[0] == x0, "initial-state", "initial state of the solution is " << str(x[0]) << " instead of " << str(x0));
  for (size_t t = 0; t < u.size(); t++)
    PBT_CHECK(c, mclose(x[t + 1], stepx(r.ocp, rk, x[t], u[t], t), 1e-9), "trajectory", "state " << t + 1 << " is " << str(x[t + 1]) << ", the dynamics give " << str(stepx(r.ocp, rk, x[t], u[t], t)));
}
}  // namespace

PBT_PROP(lq_optimum) {
  Lq p = gen_lq(s, 8);
  auto u0 = gen_controls(s, p.T, p.m, 3);
  Cfg k; k.xdim = p.n; k.udim = p.m; k.horizon = p.T; k.x0 = p.x0;
  k.reg = s.pick({0.0, 0.1, 1.0, 1e-6});
  k.coef = s.pick({1.1, 1.3, 2.0}); k.ncoef = s.integer(1, 10);
  // limits that are never reached change nothing
  if (s.chance(0.25)) { k.limits = true; k.umin = V::Constant(p.m, -s.pick({100.0, 300.0})); k.umax = V::Constant(p.m, s.pick({100.0, 300.0})); }
  c.note << show(p) << " reg=" << k.reg << " u0=" << str(u0[0]);
  Run r; bind(r.ocp, p);
  r.setup(k, p.rk); r.start(p.x0, u0);
  PBT_CHECK(c, r.ocp.tdim() == p.T && r.ocp.xdim() == p.n && r.ocp.udim() == p.m, "dimensions", "dimensions " << r.ocp.tdim() << "," << r.ocp.xdim() << "," << r.ocp.udim());
  r.lqr.initialize(&r.ocp, r.st);
  r.lqr.optimize();
  M H; V g; double k0; p.condensed(H, g, k0);
  V U = -H.ldlt().solve(g);
  double best = k0 + 0.5 * g.dot(U);
  auto x = r.x(), u = r.u();
  consistent(c, r, p.rk, p.x0);
  double j = total(r.ocp, x, u);
  V Us(p.T * p.m), Ui(p.T * p.m);
  for (int t = 0; t < p.T; t++) { Us.segment(t * p.m, p.m) = u[t]; Ui.segment(t * p.m, p.m) = u0[t]; }
  c.note << " best=" << best << " got=" << j;
  PBT_CHECK(c, j <= best + 1e-6 * (1 + std::abs(best)), "not-optimal", "cost " << j << ", the minimum of the linear-quadratic problem is " << best);
  PBT_CHECK(c, j >= best - 1e-4 * (1 + std::abs(best)), "oracle", "cost " << j << " below the minimum " << best);
  PBT_CHECK(c, mclose(Us, U, 2e-3), "controls", "controls " << str(Us) << " instead of " << str(U));
  c.nontrivial = p.T >= 2 && (Ui - U).norm() > 0.1;
  c.label("idle limits", k.limits);
  c.label("rk4", p.rk); c.label(k.reg == 0 ? "unregularised" : "regularised");
  if (k.reg == 0 && (Ui - U).norm() > 1e-2) {
    // the gains of one unregularised sweep (rounding can make later iterations regularise)
    Cfg k1 = k; k1.max_iters = 1;
    Run r1; bind(r1.ocp, p); r1.setup(k1, p.rk); r1.start(p.x0, u0);
    r1.lqr.initialize(&r1.ocp, r1.st); r1.lqr.optimize();
    auto K = p.riccati();
    // second differences of the stage costs lose accuracy with the size of the costs
    double cmax = 0;
    auto xr = rollout(r1.ocp, p.rk, p.x0, u0);
    for (int t = 0; t <= p.T; t++) cmax = std::max(cmax, std::abs(p.cost(xr[t], t < p.T ? u0[t] : V(V::Zero(p.m)), t, t == p.T)));
    double j0 = total(r1.ocp, rollout(r1.ocp, p.rk, p.x0, u0), u0), j1 = total(r1.ocp, r1.x(), r1.u());
    if (cmax < 100) PBT_CHECK(c, j1 - best <= 1e-2 * (j0 - best) + 1e-6 * (1 + std::abs(best)), "one-step", "one unregularised iteration leads from cost " << j0 << " to " << j1 << ", the minimum is " << best);
    for (int t = 0; t < p.T; t++)
      PBT_CHECK(c, mclose(r1.ocp.controlSeq().control(t).feedback(), K[t], 5e-3 + 1e-3 * cmax), "gains", "feedback gain at " << t << " is " << str(M(r1.ocp.controlSeq().control(t).feedback())) << ", the Riccati gain is " << str(K[t]));
  }
}

PBT_PROP(lq_box_optimum) {
  Lq p = gen_lq(s, 6);
  Cfg k; k.xdim = p.n; k.udim = p.m; k.horizon = p.T; k.x0 = p.x0; k.limits = true;
  k.umin = V(p.m); k.umax = V(p.m);
  for (int i = 0; i < p.m; i++) { double mid = s.real(-1, 1), w = s.pick({0.3, 1.0, 3.0, 10.0}); k.umin[i] = mid - w; k.umax[i] = mid + w; }
  k.reg = s.pick({0.0, 0.1, 1e-6}); k.max_iters = 800;  // clamping makes the convergence linear
  auto u0 = gen_controls(s, p.T, p.m, 3);
  c.note << show(p) << " reg=" << k.reg << " umin=" << str(k.umin) << " umax=" << str(k.umax) << " u0=" << str(u0[0]);
  Run r; bind(r.ocp, p);
  r.setup(k, p.rk); r.start(p.x0, u0);
  auto uc = u0;
  for (auto& v : uc) v = v.cwiseMax(k.umin).cwiseMin(k.umax);
  double start = total(r.ocp, rollout(r.ocp, p.rk, p.x0, uc), uc);
  r.lqr.initialize(&r.ocp, r.st);
  r.lqr.optimize();
  consistent(c, r, p.rk, p.x0);
  auto x = r.x(), u = r.u();
  int act = 0;
  for (int t = 0; t < p.T; t++) for (int i = 0; i < p.m; i++) {
    PBT_CHECK(c, u[t][i] >= k.umin[i] - 1e-12 && u[t][i] <= k.umax[i] + 1e-12, "limits", "control " << str(u[t]) << " at " << t << " outside the limits");
    act += u[t][i] < k.umin[i] + 1e-6 || u[t][i] > k.umax[i] - 1e-6;
  }
  double j = total(r.ocp, x, u);
  PBT_CHECK(c, j <= start + 1e-9 * (1 + std::abs(start)), "worse-than-start", "cost " << j << " above the cost " << start << " of the given controls");
  // reference: cyclic coordinate descent on the condensed box problem
  M H; V g; double k0; p.condensed(H, g, k0);
  V U = V::Zero(p.T * p.m);
  for (int it = 0; it < 20000; it++) {
    double ch = 0;
    for (int i = 0; i < U.size(); i++) {
      double v = U[i] - (H.row(i).dot(U) + g[i]) / H(i, i);
      v = std::min(std::max(v, k.umin[i % p.m]), k.umax[i % p.m]);
      ch = std::max(ch, std::abs(v - U[i])); U[i] = v;
    }
    if (ch < 1e-12) break;
  }
  double best = k0 + g.dot(U) + 0.5 * U.dot(H * U);
  c.note << " best=" << best << " got=" << j << " start=" << start;
  // clamping makes the convergence linear: stopping early is only wrong where going on does not help
  if (j > best + 1e-3 * (1 + std::abs(best))) {
    SolverLqr again; again.initialize(&r.ocp, r.st); again.optimize();
    double j2 = total(r.ocp, r.x(), r.u());
    c.label("slow convergence");
    PBT_CHECK(c, j2 <= best + 0.9 * (j - best), "not-optimal", "cost stalls at " << j << " (" << j2 << " in a second run), the minimum within the limits is " << best);
    return;
  }
  PBT_CHECK(c, j <= best + 1e-3 * (1 + std::abs(best)), "not-optimal", "cost " << j << ", the minimum within the limits is " << best);
  PBT_CHECK(c, j >= best - 1e-4 * (1 + std::abs(best)), "oracle", "cost " << j << " below the minimum " << best);
  c.nontrivial = p.T >= 2 && act >= 1;
  c.label("active limits", act > 0);
}

PBT_PROP(nonlinear_descent) {
  Nl p = gen_nl(s, 12);
  Cfg k; k.xdim = p.n; k.udim = p.m; k.horizon = p.T; k.x0 = s.vec(p.n, -2, 2);
  bool rk = s.chance(0.3);
  k.reg = s.pick({0.1, 1e-6, 10.0}); k.max_iters = 2000;
  if (s.chance(0.3)) { k.limits = true; k.umin = V::Constant(p.m, -s.pick({0.5, 2.0})); k.umax = V::Constant(p.m, s.pick({0.5, 2.0})); }
  auto u0 = gen_controls(s, p.T, p.m, 2);
  c.note << "kind=" << p.kind << " T=" << p.T << " n=" << p.n << " m=" << p.m << " x0=" << str(k.x0) << " reg=" << k.reg << (k.limits ? " limits" : "") << (rk ? " rk" : "");
  Run r;
  r.ocp.f = [&](const V& x, const V& u, int t) { return nlf(p, x, u, t); };
  r.ocp.l = [&](const V& x, const V& u, int t, bool fin) { return nll(p, x, u, t, fin); };
  r.setup(k, rk); r.start(k.x0, u0);
  auto uc = u0;
  if (k.limits) for (auto& v : uc) v = v.cwiseMax(k.umin).cwiseMin(k.umax);
  double start = total(r.ocp, rollout(r.ocp, rk, k.x0, uc), uc);
  r.lqr.initialize(&r.ocp, r.st);
  r.lqr.optimize();
  consistent(c, r, rk, k.x0);
  auto x = r.x(), u = r.u();
  double j = total(r.ocp, x, u);
  PBT_CHECK(c, j <= start + 1e-9 * (1 + std::abs(start)), "worse-than-start", "cost " << j << " above the cost " << start << " of the given controls");
  if (k.limits) for (int t = 0; t < p.T; t++)
    PBT_CHECK(c, (u[t] - k.umin).minCoeff() >= -1e-12 && (k.umax - u[t]).minCoeff() >= -1e-12, "limits", "control " << str(u[t]) << " outside the limits");
  // no neighbouring control sequence is noticeably better: projected gradient steps
  int N = p.T * p.m;
  auto cost = [&](const V& z) {
    std::vector<V> w; for (int t = 0; t < p.T; t++) w.push_back(z.segment(t * p.m, p.m));
    return total(r.ocp, rollout(r.ocp, rk, k.x0, w), w);
  };
  V z(N); for (int t = 0; t < p.T; t++) z.segment(t * p.m, p.m) = u[t];
  V g(N);
  for (int i = 0; i < N; i++) { V a = z, b = z; a[i] += 1e-5; b[i] -= 1e-5; g[i] = (cost(a) - cost(b)) / 2e-5; }
  double best = j;
  for (double a = 10; a > 1e-4; a /= 3) {
    V w = z - a * g;
    if (k.limits) for (int i = 0; i < N; i++) w[i] = std::min(std::max(w[i], k.umin[i % p.m]), k.umax[i % p.m]);
    best = std::min(best, cost(w));
  }
  c.note << " start=" << start << " got=" << j << " improved=" << best << " grad=" << g.norm();
  PBT_CHECK(c, best >= j - 1e-3 * (1 + std::abs(j)), "not-stationary", "cost " << j << ", a gradient step reaches " << best);
  c.nontrivial = p.T >= 2 && start > j + 1e-3 * (1 + std::abs(j));
  c.label("improved", start > j + 1e-6); c.label("limits", k.limits);
}

// One backward sweep over given derivatives: the gains are those of the linear-quadratic
// problem with the regularisation added to the control weights, or the step is reported
// at which this problem has no minimum.
PBT_PROP(backward_pass) {
  Lq p = gen_lq(s, 8);
  Cfg k; k.xdim = p.n; k.udim = p.m; k.horizon = p.T; k.x0 = p.x0;
  Run r; bind(r.ocp, p);
  r.setup(k, p.rk); r.start(p.x0, gen_controls(s, p.T, p.m, 2));
  ForwardPass fp; fp.initialize(&r.ocp, r.st); fp.applyController(r.ocp.stateSeq(), r.ocp.controlSeq());
  FiniteDifferences fd; fd.initialize(&r.ocp);
  BackwardPass bp; bp.initialize(&r.ocp, r.st);
  int sweeps = s.integer(1, 3);
  for (int w = 0; w < sweeps; w++) {
    double lambda = s.pick({0.0, 0.1, 1.0, 10.0});
    bool bent = s.chance(0.5);                          // weights that are not positive definite
    std::vector<M> Q(p.T + 1), R(p.T), P(p.T), A(p.T), B(p.T); std::vector<V> q(p.T + 1), rr(p.T);
    for (int t = 0; t <= p.T; t++) {
      Q[t] = s.chance(0.2) && bent ? M(-p.Q[t]) : p.Q[t]; q[t] = s.vec(p.n, -2, 2);
      fd.cxx(t) = Q[t]; fd.cx(t) = q[t];
      if (t == p.T) break;
      R[t] = p.R[t]; if (bent && s.chance(0.3)) R[t] -= s.real(0, 3) * M::Identity(p.m, p.m);
      P[t] = p.P[t]; rr[t] = s.vec(p.m, -2, 2); A[t] = s.umat(p.n, p.n, -1, 1); B[t] = s.umat(p.n, p.m, -1, 1);
      fd.cuu(t) = R[t]; fd.cxu(t) = P[t].transpose(); fd.cu(t) = rr[t]; fd.fx(t) = A[t]; fd.fu(t) = B[t];
    }
    c.note << " T=" << p.T << " n=" << p.n << " m=" << p.m << " lambda=" << lambda << (bent ? " indefinite" : "");
    bp.optimizeController(fp, fd, lambda);
    M S = Q[p.T]; V v = q[p.T]; int bad = -1; double margin = 1e300;
    for (int t = p.T - 1; t >= 0; t--) {
      M H = R[t] + B[t].transpose() * S * B[t] + lambda * M::Identity(p.m, p.m), G = P[t] + B[t].transpose() * S * A[t];
      V g = rr[t] + B[t].transpose() * v;
      double low = Eigen::SelfAdjointEigenSolver<M>(0.5 * (H + H.transpose())).eigenvalues().minCoeff(), size = H.norm() + 1e-9;
      margin = std::min(margin, std::abs(low) / size);
      c.discard_if(margin < 1e-3);                      // nearly singular: rounding decides
      if (low < 0) { bad = t; break; }
      M K = -H.ldlt().solve(G); V l = -H.ldlt().solve(g);
      double sc = 1e-7 * (1 + S.norm() + v.norm());
      PBT_CHECK(c, mclose(bp.controlSeq().control(t).feedback(), K, sc), "gains", "feedback at " << t << " is " << str(M(bp.controlSeq().control(t).feedback())) << " instead of " << str(K));
      PBT_CHECK(c, mclose(bp.controlSeq().control(t).feedforward(), l, sc), "feedforward", "feedforward at " << t << " is " << str(V(bp.controlSeq().control(t).feedforward())) << " instead of " << str(l));
      S = (Q[t] + A[t].transpose() * S * A[t] + G.transpose() * K).eval(); S = (0.5 * (S + S.transpose())).eval();
      v = (q[t] + A[t].transpose() * v + G.transpose() * l).eval();
    }
    PBT_CHECK(c, bp.hasDiverged() == (bad >= 0), "diverged", "reports divergence " << bp.hasDiverged() << (bad >= 0 ? ", there is no minimum at step " : ", every step has a minimum ") << bad);
    PBT_CHECK(c, bp.divergeIteration() == bad, "diverged-at", "reports divergence at step " << bp.divergeIteration() << " instead of " << bad);
    c.label("diverged", bad >= 0); c.label("swept again", w > 0); if (p.T >= 2) c.nontrivial = true;
  }
}

PBT_PROP(forward_pass) {
  Nl p = gen_nl(s, 8);
  Cfg k; k.xdim = p.n; k.udim = p.m; k.horizon = p.T; k.x0 = s.vec(p.n, -2, 2);
  k.div = s.pick({1e6, 3.0, 1.0, 10.0});
  bool rk = s.boolean();
  if (s.boolean()) { k.limits = true; k.umin = s.vec(p.m, -2, 0); k.umax = k.umin + s.vec(p.m, 0, 3); }
  Run r;
  int kindneg = s.chance(0.2);
  r.ocp.f = [&](const V& x, const V& u, int t) { return nlf(p, x, u, t); };
  r.ocp.l = [&](const V& x, const V& u, int t, bool fin) { return nll(p, x, u, t, fin) - kindneg * 50.0; };
  r.setup(k, rk);
  r.ocp.initialize(r.st);
  StateSequence X(p.T + 1, p.n); ControlSequence U(p.T, p.n, p.m);
  bool fb = s.boolean();
  for (int t = 0; t <= p.T; t++) X.state(t).stateVector() = s.vec(p.n, -2, 2);
  for (int t = 0; t < p.T; t++) { U.control(t).feedforward() = s.vec(p.m, -3, 3); if (fb) U.control(t).feedback() = s.mat(p.m, p.n, -2, 2); }
  ForwardPass fp; fp.initialize(&r.ocp, r.st);
  int times = s.integer(1, 2);
  for (int i = 0; i < times; i++) fp.applyController(X, U);
  std::vector<V> x(1, X.state(0).stateVector()), u;
  bool div = false; double margin = 1e9;
  for (int t = 0; t < p.T; t++) {
    // one step at a time, from the state the code itself reached: a roll-out can amplify rounding
    x[t] = t ? V(fp.stateSeq().state(t).stateVector()) : x[t];
    V v = U.control(t).feedforward() + U.control(t).feedback() * (x[t] - X.state(t).stateVector());
    if (k.limits) v = v.cwiseMin(k.umax).cwiseMax(k.umin);
    V w = fp.controlSeq().control(t).feedforward();
    u.push_back(v); x.push_back(stepx(r.ocp, rk, x[t], mclose(v, w, 1e-9) ? w : v, t));
    V reached = fp.stateSeq().state(t + 1).stateVector();
    PBT_CHECK(c, mclose(v, w, 1e-9), "control", "control " << t << " is " << str(w) << " instead of " << str(v));
    PBT_CHECK(c, mclose(reached, x[t + 1], 1e-9), "state", "state " << t + 1 << " is " << str(reached) << " instead of " << str(x[t + 1]));
    double a = x.back().cwiseAbs().maxCoeff();
    div |= a > k.div; margin = std::min(margin, std::abs(a - k.div));
  }
  double j = total(r.ocp, x, u);
  c.note << "T=" << p.T << " n=" << p.n << " m=" << p.m << (fb ? " feedback" : "") << (k.limits ? " limits" : "") << (rk ? " rk" : "");
  for (int t = 0; t <= p.T; t++) PBT_CHECK(c, mclose(fp.stateSeq().state(t).stateVector(), x[t], 1e-9), "state", "state " << t << " is " << str(fp.stateSeq().state(t).stateVector()) << " instead of " << str(x[t]));
  for (int t = 0; t < p.T; t++) {
    PBT_CHECK(c, mclose(fp.controlSeq().control(t).feedforward(), u[t], 1e-9), "control", "control " << t << " is " << str(fp.controlSeq().control(t).feedforward()) << " instead of " << str(u[t]));
    PBT_CHECK(c, mclose(fp.controlSeq().control(t).feedback(), U.control(t).feedback(), 0), "feedback", "feedback gain " << t << " changed");
    PBT_CHECK(c, close(fp.timestepCost(t), r.ocp.l(x[t], u[t], t, false), 1e-9), "stage-cost", "stage cost " << t << " is " << fp.timestepCost(t));
  }
  PBT_CHECK(c, close(fp.timestepCost(p.T), r.ocp.l(x[p.T], V::Zero(p.m), p.T, true), 1e-9), "final-cost", "final cost is " << fp.timestepCost(p.T));
  PBT_CHECK(c, close(fp.newCost(), j, 1e-9), "cost", "cost " << fp.newCost() << " instead of " << j);
  if (margin > 1e-9) PBT_CHECK(c, fp.hasDiverged() == div, "diverged", "reports divergence " << fp.hasDiverged() << ", largest allowed value " << k.div);
  c.nontrivial = p.T >= 2 && fb;
  c.label("diverged", div); c.label("limits", k.limits);
}

// cubic polynomials with known derivatives
struct Poly {
  double c0; V a; M b; V d;  // c0 + a'z + .5 z'bz + sum d_i z_i^3
  double at(const V& z) const { return c0 + a.dot(z) + 0.5 * z.dot(b * z) + (d.array() * z.array().cube()).sum(); }
  V grad(const V& z) const { return a + b * z + V(3 * d.array() * z.array().square()); }
  M hess(const V& z) const { return b + M(V(6 * d.array() * z.array()).asDiagonal()); }
};
static Poly gen_poly(Src& s, int n) {
  Poly p; p.c0 = s.real(-1, 1); p.a = s.uvec(n, -1, 1); M w = s.umat(n, n, -1, 1); p.b = w + w.transpose(); p.d = s.uvec(n, -1, 1);
  return p;
}
PBT_PROP(finite_differences) {
  int T = s.integer(1, 3), n = s.integer(1, 3), m = s.integer(1, 3);
  std::vector<std::vector<Poly>> f(T);
  std::vector<Poly> l(T + 1);
  for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) f[t].push_back(gen_poly(s, n + m));
  for (int t = 0; t <= T; t++) l[t] = gen_poly(s, n + m);
  bool flags[4]; for (auto& b : flags) b = s.boolean();
  if (s.chance(0.5)) for (auto& b : flags) b = true;
  Cfg k; k.xdim = n; k.udim = m; k.horizon = T; k.x0 = V::Zero(n);
  Run r;
  // the functions are centred anywhere, so that the arguments need not be small
  bool away = s.chance(0.4);
  V off = V::Zero(n + m);
  if (away) off.head(n) = s.pick({30.0, 12.0, 3.0}) * s.vec(n, -1, 1);
  double tol2 = away ? 5e-3 : 1e-3;
  auto cat = [&](const V& x, const V& u) { V z(n + m); z << x, u; return V(z - off); };
  r.ocp.f = [&](const V& x, const V& u, int t) { V o(n); for (int i = 0; i < n; i++) o[i] = f[t][i].at(cat(x, u)); return o; };
  r.ocp.l = [&](const V& x, const V& u, int t, bool fin) { return l[t].at(cat(x, u)) * (fin ? 1.0 : 0.5); };
  r.setup(k, false);
  r.ocp.initialize(r.st);
  FiniteDifferences fd;
  fd.initialize(&r.ocp, flags[0], flags[1], flags[2], flags[3]);
  int rounds = s.integer(1, 2);
  for (int q = 0; q < rounds; q++) {
    for (int t = 0; t <= T; t++) r.ocp.stateSeq().state(t).stateVector() = off.head(n) + s.vec(n, -1, 1);
    for (int t = 0; t < T; t++) r.ocp.controlSeq().control(t).feedforward() = s.vec(m, -1, 1);
    StateSequence before = r.ocp.stateSeq(); ControlSequence ubefore = r.ocp.controlSeq();
    fd.computeDerivatives();
    for (int t = 0; t <= T; t++) PBT_CHECK(c, r.ocp.stateSeq().state(t).stateVector() == before.state(t).stateVector() && (t == T || r.ocp.controlSeq().control(t).feedforward() == ubefore.control(t).feedforward()), "trajectory-changed", "differentiating changed the trajectory at " << t);
    for (int t = 0; t <= T; t++) {
      V x = r.ocp.stateSeq().state(t).stateVector(), u = t < T ? V(r.ocp.controlSeq().control(t).feedforward()) : V(V::Zero(m));
      V z = cat(x, u);
      double w = t == T ? 1.0 : 0.5;
      if (flags[0]) {
        PBT_CHECK(c, mclose(fd.cx(t), w * l[t].grad(z).head(n), 1e-6), "cx", "cx(" << t << ") = " << str(fd.cx(t)) << " instead of " << str(V(w * l[t].grad(z).head(n))));
        PBT_CHECK(c, mclose(fd.cu(t), w * l[t].grad(z).tail(m), 1e-6), "cu", "cu(" << t << ") = " << str(fd.cu(t)) << " instead of " << str(V(w * l[t].grad(z).tail(m))));
      }
      M h = w * l[t].hess(z);
      if (flags[2]) {
        PBT_CHECK(c, mclose(fd.cxx(t), h.topLeftCorner(n, n), tol2), "cxx", "cxx(" << t << ") = " << str(fd.cxx(t)) << " instead of " << str(M(h.topLeftCorner(n, n))));
        PBT_CHECK(c, mclose(fd.cxu(t), h.topRightCorner(n, m), tol2), "cxu", "cxu(" << t << ") = " << str(fd.cxu(t)) << " instead of " << str(M(h.topRightCorner(n, m))));
        PBT_CHECK(c, mclose(fd.cuu(t), h.bottomRightCorner(m, m), tol2), "cuu", "cuu(" << t << ") = " << str(fd.cuu(t)) << " instead of " << str(M(h.bottomRightCorner(m, m))));
      }
      if (t == T) continue;
      for (int i = 0; i < n; i++) {
        V gr = f[t][i].grad(z); M he = f[t][i].hess(z);
        if (flags[1]) {
          V gx = gr.head(n); gx[i] += 1.0;
          PBT_CHECK(c, mclose(fd.fx(t).row(i).transpose(), gx, 1e-6), "fx", "row " << i << " of fx(" << t << ") = " << str(V(fd.fx(t).row(i).transpose())) << " instead of " << str(gx));
          PBT_CHECK(c, mclose(fd.fu(t).row(i).transpose(), gr.tail(m), 1e-6), "fu", "row " << i << " of fu(" << t << ") = " << str(V(fd.fu(t).row(i).transpose())) << " instead of " << str(V(gr.tail(m))));
        }
        if (flags[3]) {
          for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) PBT_CHECK(c, close(fd.fxx(t)[a](i, b), he(a, b), tol2), "fxx", "d2f" << i << "/dx" << a << "dx" << b << " = " << fd.fxx(t)[a](i, b) << " instead of " << he(a, b));
          for (int a = 0; a < m; a++) for (int b = 0; b < n; b++) PBT_CHECK(c, close(fd.fxu(t)[a](i, b), he(n + a, b), tol2), "fxu", "d2f" << i << "/du" << a << "dx" << b << " = " << fd.fxu(t)[a](i, b) << " instead of " << he(n + a, b));
          for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) PBT_CHECK(c, close(fd.fuu(t)[a](i, b), he(n + a, n + b), tol2), "fuu", "d2f" << i << "/du" << a << "du" << b << " = " << fd.fuu(t)[a](i, b) << " instead of " << he(n + a, n + b));
        }
      }
    }
  }
  c.label("away from zero", away);
  c.note << "T=" << T << " n=" << n << " m=" << m << " flags " << flags[0] << flags[1] << flags[2] << flags[3];
  c.nontrivial = n >= 2 && m >= 2 && (flags[0] || flags[1] || flags[2] || flags[3]);
}

PBT_PROP(sequences) {
  int T = s.integer(1, 4), n = s.integer(1, 3), m = s.integer(1, 3);
  auto gen = [&]() { ControlSequence q(T, n, m); for (int t = 0; t < T; t++) { q.control(t).feedforward() = s.vec(m, -3, 3); q.control(t).feedback() = s.mat(m, n, -3, 3); } return q; };
  ControlSequence a = gen(), b = gen();
  double k = s.real(-3, 3), k2 = s.real(-3, 3);
  ControlSequence d = a + b, e = k * a, g = a * k, h = a; h += b; ControlSequence w = a; w *= k;
  ControlSequence lin = a + k * b;
  // assigned to a sequence of any other size
  ControlSequence cp; if (s.boolean()) cp.resize(s.integer(0, 6), s.integer(1, 3), s.integer(1, 3)); cp = a;
  StateSequence sa(T, n), sc; for (int t = 0; t < T; t++) sa.state(t).stateVector() = s.vec(n, -3, 3);
  if (s.boolean()) sc.resize(s.integer(0, 6), s.integer(1, 3)); sc = sa;
  PBT_CHECK(c, cp.size() == T && sc.size() == T, "copy-size", "a copy has " << cp.size() << " controls and " << sc.size() << " states instead of " << T);
  for (int t = 0; t < T; t++) PBT_CHECK(c, sc.state(t).stateVector() == sa.state(t).stateVector(), "copy-states", "state " << t << " of the copy is " << str(sc.state(t).stateVector()));
  c.note << "T=" << T << " n=" << n << " m=" << m << " k=" << k;
  double norm = 0;
  for (int t = 0; t < T; t++) {
    V fa = a.control(t).feedforward(), fb = b.control(t).feedforward(); M Ka = a.control(t).feedback(), Kb = b.control(t).feedback();
    auto is = [&](const ControlSequence& q, const V& ff, const M& K, const char* what) {
      PBT_CHECK(c, q.size() == T && mclose(q.control(t).feedforward(), ff, 1e-12) && mclose(q.control(t).feedback(), K, 1e-12), what, what << " at " << t << " gives " << str(q.control(t).feedforward()) << " instead of " << str(ff));
    };
    is(d, fa + fb, Kb, "sum"); is(h, fa + fb, Kb, "add-assign"); is(e, k * fa, Ka, "scale-left"); is(g, k * fa, Ka, "scale-right"); is(w, k * fa, Ka, "scale-assign");
    is(lin, fa + k * fb, Kb, "line-search step"); is(cp, fa, Ka, "copy");
    double mx = 0; for (int i = 0; i < m; i++) mx = std::max(mx, std::abs(fa[i]) / (std::abs(fb[i]) + 1));
    norm += mx / T;
  }
  PBT_CHECK(c, close(ControlSequence::controlSequenceGradientNorm(a, b), norm, 1e-12), "gradient-norm", "relative size of the step " << ControlSequence::controlSequenceGradientNorm(a, b) << " instead of " << norm);
  StateBase x(n), y(n), z;
  PBT_CHECK(c, x.stateVector().size() == n && x.stateVector().isZero(0), "zero-state", "a new state is not zero");
  V vx = s.vec(n, -3, 3), vy = s.vec(n, -3, 3);
  x.stateVector() = vx; y.stateVector() = vy;
  z = x; z += y; StateBase z2 = x; z2 *= k; StateBase z3 = x; double dv = k2 + (k2 >= 0 ? 1 : -1); z3 /= dv;
  PBT_CHECK(c, mclose((x + y).stateVector(), vx + vy, 1e-12) && mclose(z.stateVector(), vx + vy, 1e-12) && mclose((x - y).stateVector(), vx - vy, 1e-12) &&
            mclose((k * x).stateVector(), k * vx, 1e-12) && mclose((x * k).stateVector(), k * vx, 1e-12) && mclose(z2.stateVector(), k * vx, 1e-12) &&
            mclose((x / dv).stateVector(), vx / dv, 1e-12) && mclose(z3.stateVector(), vx / dv, 1e-12) && x.stateVector() == vx && y.stateVector() == vy,
            "state-algebra", "state arithmetic is wrong for " << str(vx) << " and " << str(vy));
  // re-dimensioning
  StateSequence S(s.integer(0, 3), n);
  int T2 = s.integer(0, 5), n2 = s.integer(1, 4);
  S.resize(T2, n2);
  PBT_CHECK(c, S.size() == T2, "state-resize", "a state sequence resized to " << T2 << " has " << S.size() << " states");
  for (int t = 0; t < T2; t++) PBT_CHECK(c, S.state(t).stateVector().size() == n2 && S.state(t).stateVector().isZero(0), "state-resize", "state " << t << " of the resized sequence is " << str(S.state(t).stateVector()));
  ControlSequence R = a; R.resize(T2, n2, m);
  PBT_CHECK(c, R.size() == T2, "control-resize", "a control sequence resized to " << T2 << " has " << R.size());
  for (int t = 0; t < T2; t++) PBT_CHECK(c, R.control(t).feedforward().isZero(0) && R.control(t).feedback().isZero(0) && R.control(t).feedback().rows() == m && R.control(t).feedback().cols() == n2, "control-resize", "control " << t << " of the resized sequence is not zero");
  c.nontrivial = T >= 2 && m >= 2;
}

PBT_PROP(settings) {
  Cfg k;
  k.max_iters = s.integer(1, 500); k.ncoef = s.integer(1, 12); k.coef = s.pick({1.1, 1.5, 2.0}); k.costtol = s.logreal(1e-12, 1e-2); k.div = s.logreal(1, 1e8);
  k.minreg = s.logreal(1e-9, 1e-3); k.maxreg = s.logreal(1e3, 1e12); k.gradtol = s.logreal(1e-10, 1e-2); k.reg = s.logreal(1e-6, 10); k.incr = s.real(1.01, 3); k.incr0 = s.real(0.5, 2);
  int steps = s.integer(1, 60);
  k.dt = s.pick({1.0, 0.1, 0.01, 0.05, 0.02, 0.2, 0.025, 0.001});
  // the horizon as a user writes it: a decimal number
  char buf[32]; snprintf(buf, sizeof buf, "%.3f", steps * k.dt); k.horizon = atof(buf);
  k.xdim = s.integer(1, 4); k.udim = s.integer(1, 3); k.x0 = s.vec(k.xdim, -3, 3); k.limits = s.boolean(); k.store = s.boolean();
  k.umin = s.vec(k.udim, -3, 0); k.umax = s.vec(k.udim, 0, 3);
  double g = s.real(-5, 5);
  k.user = "{gain: " + str(g) + "}";
  Tmp t; SolverLqrSetting st; st.initialize(write(t, k));
  c.note << "dt=" << k.dt << " horizon=" << k.horizon << " steps=" << steps;
  const SolverLqrSetting& cs = st;
#define SAME(param, val) PBT_CHECK(c, cs.get(param) == (val) && st.get(param) == (val), #param, #param " is " << cs.get(param) << " / " << st.get(param) << " instead of " << (val))
  SAME(SolverLqrIntParam_Verbosity, 0); SAME(SolverLqrIntParam_PrecisionDigits, 4); SAME(SolverLqrIntParam_LqrMaxIterations, k.max_iters); SAME(SolverLqrIntParam_BackPassRegulatizationType, 2);
  SAME(SolverLqrIntParam_StateDimension, k.xdim); SAME(SolverLqrIntParam_ControlDimension, k.udim); SAME(SolverLqrIntParam_TimeDimension, steps);
  SAME(SolverLqrBoolParam_StoreData, k.store); SAME(SolverLqrBoolParam_HasControlLimits, k.limits); SAME(SolverLqrBoolParam_UseRungeKuttaIntegration, false);
  SAME(SolverLqrDoubleParam_CostChangeTolerance, k.costtol); SAME(SolverLqrDoubleParam_DivergenceLimitCheck, k.div); SAME(SolverLqrDoubleParam_ControlGradientTolerance, k.gradtol);
  SAME(SolverLqrDoubleParam_BackPassMinRegularization, k.minreg); SAME(SolverLqrDoubleParam_BackPassMaxRegularization, k.maxreg); SAME(SolverLqrDoubleParam_MinExpectedCostImprovement, 0.2);
  SAME(SolverLqrDoubleParam_BackPassInitialRegularization, k.reg); SAME(SolverLqrDoubleParam_BackPassMultRegularizationIncr, k.incr); SAME(SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr, k.incr0);
  SAME(SolverLqrDoubleParam_TimeStep, k.dt); SAME(SolverLqrDoubleParam_TimeHorizon, k.horizon);
  SAME(SolverLqrStringParam_ConfigFile, t.file()); SAME(SolverLqrStringParam_SaveLqrFile, t.dir + "/cfg_lqr_results.yaml");
#undef SAME
  PBT_CHECK(c, cs.get(SolverLqrVectorParam_InitialState) == k.x0, "initial-state", "initial state " << str(cs.get(SolverLqrVectorParam_InitialState)));
  if (k.limits) PBT_CHECK(c, cs.get(SolverLqrVectorParam_MinControlLimits) == k.umin && cs.get(SolverLqrVectorParam_MaxControlLimits) == k.umax, "limits", "control limits " << str(cs.get(SolverLqrVectorParam_MinControlLimits)) << str(cs.get(SolverLqrVectorParam_MaxControlLimits)));
  const V& al = cs.get(SolverLqrVectorParam_LineSearchCoeffs);
  PBT_CHECK(c, al.size() == k.ncoef && al[0] == 1.0, "line-search", "line search steps " << str(V(al)));
  for (int i = 0; i < al.size(); i++) PBT_CHECK(c, close(al[i], std::pow(k.coef, -1.0 * i * i), 1e-12), "line-search", "line search steps " << str(V(al)));
  PBT_CHECK(c, close(cs.get(SolverLqrYamlParam_UserParameters)["gain"].as<double>(), g, 1e-9), "user-parameters", "user parameters lost");
  // parameters not belonging to the settings are refused
  int refused = 0;
  try { cs.get(SolverLqrDoubleParam_Cost); } catch (const std::runtime_error&) { refused++; }
  try { cs.get(SolverLqrIntParam_CurrentIteration); } catch (const std::runtime_error&) { refused++; }
  PBT_CHECK(c, refused == 2, "not-refused", "a parameter of the optimisation information is served by the settings");
  // what is set is what is read, and nothing else changes
  double v = s.logreal(1e-3, 1e3);
  st.get(SolverLqrDoubleParam_TimeStep) = v; st.get(SolverLqrIntParam_LqrMaxIterations) = 7;
  PBT_CHECK(c, cs.get(SolverLqrDoubleParam_TimeStep) == v && cs.get(SolverLqrIntParam_LqrMaxIterations) == 7 && cs.get(SolverLqrDoubleParam_TimeHorizon) == k.horizon && cs.get(SolverLqrIntParam_StateDimension) == k.xdim, "set-get", "a parameter that was set reads differently");
  c.nontrivial = steps >= 3 && k.limits;
}

PBT_PROP(stored_solution) {
  Lq p = gen_lq(s, 4);
  Cfg k; k.xdim = p.n; k.udim = p.m; k.horizon = p.T; k.x0 = p.x0; k.store = true; k.reg = s.pick({0.0, 0.1});
  auto u0 = gen_controls(s, p.T, p.m, 3);
  c.note << show(p);
  Run r; bind(r.ocp, p);
  r.setup(k, p.rk); r.start(p.x0, u0);
  r.lqr.initialize(&r.ocp, r.st);
  r.lqr.optimize();
  YAML::Node y = YAML::LoadFile(r.st.get(SolverLqrStringParam_SaveLqrFile))["solverlqr_variables"];
  M st = y["states"].as<M>(), ff = y["control_ff"].as<M>();
  PBT_CHECK(c, st.rows() == p.n && st.cols() == p.T + 1 && ff.rows() == p.m && ff.cols() == p.T && y["tdim"].as<int>() == p.T && y["xdim"].as<int>() == p.n && y["udim"].as<int>() == p.m && y["dt"].as<double>() == 1.0,
            "stored-dimensions", "stored dimensions " << st.rows() << "x" << st.cols() << " " << ff.rows() << "x" << ff.cols());
  for (int t = 0; t <= p.T; t++) PBT_CHECK(c, mclose(st.col(t), r.ocp.stateSeq().state(t).stateVector(), 1e-9), "stored-states", "stored state " << t << " is " << str(V(st.col(t))));
  Ocp o2; bind(o2, p); o2.initialize(r.st);
  SolverLqr l2; l2.initialize(&o2, r.st);
  l2.loadSolution(r.st.get(SolverLqrStringParam_SaveLqrFile));
  for (int t = 0; t < p.T; t++) {
    PBT_CHECK(c, mclose(ff.col(t), r.ocp.controlSeq().control(t).feedforward(), 1e-9), "stored-controls", "stored control " << t << " is " << str(V(ff.col(t))));
    PBT_CHECK(c, mclose(o2.controlSeq().control(t).feedback(), r.ocp.controlSeq().control(t).feedback(), 1e-9), "loaded-gains", "gain " << t << " loaded as " << str(M(o2.controlSeq().control(t).feedback())) << " stored " << str(M(r.ocp.controlSeq().control(t).feedback())));
  }
  // solving again from the solution keeps it
  auto u1 = r.u();
  double j1 = total(r.ocp, r.x(), u1);
  SolverLqr l3; l3.initialize(&r.ocp, r.st); l3.optimize();
  double j2 = total(r.ocp, r.x(), r.u());
  PBT_CHECK(c, j2 <= j1 + 1e-9 * (1 + std::abs(j1)), "second-run", "a second optimisation raised the cost from " << j1 << " to " << j2);
  // and the same problem object can be initialised again
  r.ocp.initialize(r.st);
  PBT_CHECK(c, r.ocp.stateSeq().size() == p.T + 1 && r.ocp.controlSeq().size() == p.T, "reinitialise", "after initialising again there are " << r.ocp.stateSeq().size() << " states for " << p.T << " steps");
  c.nontrivial = p.T >= 2;
}

PBT_MAIN
