// momentumopt: kinematics optimizer on a robot whose kinematics are exactly linear,
// so that every optimisation it performs has one known convex form.
#include "mom.hpp"
#include <functional>
#include <memory>
#include <sstream>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
using namespace pbt; using namespace mom; using namespace momentumopt;

static V3 rlog(const Q& q0) { Q q = q0.normalized(); if (q.w() < 0) q.coeffs() *= -1; double n = q.vec().norm(); if (n < 1e-12) return 2 * q.vec(); return 2 * std::atan2(n, q.w()) / n * q.vec(); }
static Q rexp(const V3& w) { double a = w.norm(); if (a < 1e-12) return Q(1, 0.5 * w[0], 0.5 * w[1], 0.5 * w[2]).normalized(); return Q(Eigen::AngleAxisd(a, w / a)); }

// configuration: base position, rotation vector of the base, joints
static V confv(const V& g) { int n = g.size() - 7; V x(6 + n); x << g.head(3), rlog(Q(g[6], g[3], g[4], g[5])), g.tail(n); return x; }
static V conf(const KinematicsState& k) { return confv(k.robotPosture().generalizedJointPositions()); }
static void setconf(KinematicsState& k, const V& x) { int n = x.size() - 6; k.robotPosture().basePosition(x.head(3)); k.robotPosture().baseOrientation(rexp(x.segment<3>(3))); k.robotPosture().jointPositions(x.tail(n)); }

struct Robot {
  int n = 2; M Jc, H, Hd, C; V c; V3 c0; M Je[4]; V3 e0[4];
  V3 com(const V& x) const { return c0 + V3(Jc * x); }
  V3 eef(int e, const V& x) const { return e0[e] + V3(Je[e].topRows(3) * x); }
};
struct Iface : KinematicsInterface {
  const Robot* R; double step = 0; bool wrongstep = false, over = false;
  struct Move { V q, v; }; std::vector<Move> moves; std::vector<V> starts; std::vector<double> durations; int updates = 0;
  struct Shown { V x; double dt; }; std::vector<Shown> shown;
  void initialize(PlannerSetting&) override {}
  V3 logarithmicMap(const Eigen::Vector4d q) override { return rlog(Q(q[0], q[1], q[2], q[3])); }
  KinematicsState integratePosture(KinematicsState& k, double dt) override {
    V x = conf(k), v = k.robotVelocity().generalizedJointVelocities(); moves.push_back({x, v}); if (std::abs(dt - step) > 1e-12) wrongstep = true;
    over |= (x + dt * v).segment<3>(3).norm() > 2.9; setconf(k, x + dt * v); return k;
  }
  void displayPosture(const KinematicsState& k, double dt) override { shown.push_back({k.robotPosture().generalizedJointPositions(), dt}); }
  KinematicsState updateJacobiansAndState(KinematicsState& k, double) override {
    updates++; V x = conf(k), v = k.robotVelocity().generalizedJointVelocities(), h = R->H * v;
    k.centerOfMass() = R->com(x); k.linearMomentum() = h.head(3); k.angularMomentum() = h.tail(3);
    centerOfMassJacobian() = R->Jc; centroidalMomentumMatrix() = R->H; centroidalMomentumMatrixVariation() = R->Hd; constraintsVector(R->c); constraintsMatrix(R->C);
    for (int e = 0; e < 4; e++) { k.endeffectorPosition(e) = R->eef(e, x); endeffectorJacobian(e) = R->Je[e]; }
    return k;
  }
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double dt) override {
    starts.push_back(conf(a)); durations.push_back(dt);
    b.robotVelocity().generalizedJointVelocities() = (conf(b) - conf(a)) / dt; return b;
  }
};

struct Scene {
  int N = 3, ne = 2, n = 2, iters = 1, K = 1, samples = 2; double step = 1, floor = 0, pen = 1, lam = 1e-3, tol = 1e-6; bool store = false, first = true, show = false, twice = false;
  Robot R; V lo, hi, def, wdef, wv, wa; V3 wc, wl, wm, wld, wmd, we, wn;
  DynamicsState ini; struct Ph { bool on; int len; }; std::vector<Ph> ph[4]; double dt = 0.125; std::vector<double> time; std::vector<V3> com, lm, am; V3 move;
  V3 cpos[4][8];
};
static V3 wv3(Src& s, double lo, double hi, double zero) { if (s.chance(zero)) return V3::Zero(); V3 r; for (int i = 0; i < 3; i++) r[i] = s.logreal(lo, hi); return r; }

static Scene scene(Src& s, Case& c, int maxn) {
  Scene S; S.N = s.integer(1, 4); S.ne = s.integer(1, 4); S.n = s.integer(1, maxn); int D = 6 + S.n; Robot& R = S.R; R.n = S.n;
  auto rm = [&](int r, int cc, double a) { M m = s.umat(r, cc, -a, a); return m; };
  R.c0 = v3(s, -0.5, 0.5); R.Jc = rm(3, D, 0.3); R.Jc.leftCols(3) = M::Identity(3, 3); R.H = rm(6, D, 1.0); R.H.block(0, 0, 3, 3) += 2 * M::Identity(3, 3); R.Hd = s.boolean() ? M(M::Zero(6, D)) : rm(6, D, 1.0);
  for (int e = 0; e < 4; e++) { R.e0[e] = v3(s, -0.5, 0.5); R.Je[e] = rm(6, D, 0.6); R.Je[e].block(0, 0, 3, 3) = M::Identity(3, 3); }
  int nc = s.chance(0.4) ? s.integer(1, 2) : 0; R.c = nc ? V(s.vec(nc, -0.5, 0.5)) : V(0); R.C = nc ? rm(nc, D, 0.5) : M(0, D); c.label("bodies may touch", nc > 0);
  S.def = s.vec(S.n, -0.5, 0.5); S.lo = S.def; S.hi = S.def; for (int i = 0; i < S.n; i++) { S.lo[i] -= s.real(0.02, 0.5); S.hi[i] += s.real(0.02, 0.5); }
  S.step = s.pick({1.0, 0.5, 0.1}); S.floor = s.boolean() ? -100.0 : s.real(-0.6, 0.1); S.pen = s.logreal(0.1, 100); S.lam = s.logreal(1e-3, 1); S.tol = 1e-6; S.iters = s.integer(1, 2);
  S.wc = wv3(s, 0.1, 100, 0.1); S.wl = wv3(s, 0.01, 10, 0.3); S.wm = wv3(s, 0.01, 10, 0.3); S.wld = wv3(s, 1e-3, 1, 0.3); S.wmd = wv3(s, 1e-3, 1, 0.3); S.we = wv3(s, 0.1, 100, 0.1); S.wn = wv3(s, 0.1, 100, 0.1);
  S.wdef = V(S.n); for (int i = 0; i < S.n; i++) S.wdef[i] = s.logreal(1e-2, 10); S.wv = V(D); S.wa = V(D); for (int i = 0; i < D; i++) { S.wv[i] = s.logreal(1e-3, 1); S.wa[i] = s.logreal(1e-4, 1e-1); }
  S.move = v3(s, -0.2, 0.2); S.first = !s.chance(0.2); S.store = s.chance(0.3);
  for (int t = 0; t < S.N; t++) { S.time.push_back(s.boolean() ? S.dt : s.real(0.05, 0.4)); S.com.push_back(v3(s, -0.5, 0.5)); S.lm.push_back(s.boolean() ? V3(0, 0, 0) : v3(s, -1, 1)); S.am.push_back(s.boolean() ? V3(0, 0, 0) : v3(s, -1, 1)); }
  S.ini.centerOfMass() = v3(s, -0.5, 0.5); S.ini.linearMomentum() = v3(s, -1, 1); S.ini.angularMomentum() = v3(s, -1, 1);
  for (int e = 0; e < S.ne; e++) {
    S.ini.endeffectorPosition(e) = v3(s, -0.5, 0.5);
    int t = 0; bool on = s.chance(0.7);
    while (t < S.N) { int l = on ? s.integer(1, 3) : s.integer(2, 3); if (!on && S.N - t < 2) { on = true; continue; } l = std::min(l, S.N - t); if (!S.ph[e].empty() && S.ph[e].back().on == on) S.ph[e].back().len += l; else S.ph[e].push_back({on, l}); t += l; on = !on; }
    S.ini.endeffectorActivation(e) = S.ph[e][0].on;
    for (auto& x : S.cpos[e]) x = v3(s, -0.5, 0.5);
  }
  c.note << "N=" << S.N << " joints=" << S.n << " effectors=" << S.ne << " step=" << S.step << " floor=" << S.floor; 
  for (int e = 0; e < S.ne; e++) { c.note << " " << eff(e) << ":"; for (auto& p : S.ph[e]) c.note << (p.on ? "+" : "-") << p.len; }
  return S;
}

struct Out { V x0; std::vector<KinematicsState> seq; DynamicsSequence dyn; Iface F; std::string file; };
// a small shift of everything leaves the problem what it is
static std::shared_ptr<Out> run(const Scene& S, KinematicsOptimizer* opt = 0) {
  Tmp tmp; Cfg k; k["n_act_eefs"] = std::to_string(S.ne); k["time_step"] = num(S.dt); k["time_horizon"] = num(S.N * S.dt);
  k["load_kinematics"] = "true"; k["num_dofs"] = std::to_string(S.n); k["kd_iterations"] = "1"; k["num_subsamples"] = std::to_string(S.samples); k["display_motion"] = bo(S.show); k["store_data"] = bo(S.store);
  k["min_joint_limits"] = seq(S.lo); k["max_joint_limits"] = seq(S.hi); k["default_joint_positions"] = seq(S.def); Eigen::VectorXi a(S.n); for (int i = 0; i < S.n; i++) a[i] = i; k["active_dofs"] = seqi(a);
  k["w_kin_com"] = seq(S.wc); k["w_kin_lmom"] = seq(S.wl); k["w_kin_amom"] = seq(S.wm); k["w_kin_lmomd"] = seq(S.wld); k["w_kin_amomd"] = seq(S.wmd); k["w_kin_eff_pos"] = seq(S.we); k["w_kin_base_ori"] = "[0.0, 0.0, 0.0]"; k["w_kin_eff_pos_nonact"] = seq(S.wn);
  k["w_kin_joint_vel"] = seq(S.wv); k["w_kin_joint_acc"] = seq(S.wa); k["w_kin_default_joints"] = seq(S.wdef); k["slacks_penalty"] = num(S.pen); k["integration_step"] = num(S.step); k["lambda_regularization"] = num(S.lam); k["convergence_tolerance"] = num(S.tol);
  k["max_trajectory_iters"] = std::to_string(S.iters); k["max_convergence_iters"] = std::to_string(S.K); k["floor_height"] = num(S.floor); k["com_displacement"] = seq(S.move); k["use_second_order_inv_kin"] = "false";
  for (const char* w : {"swing_traj_via_z", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_endeff_contact", "w_endeff_tracking", "p_endeff_tracking", "p_com_tracking", "w_joint_regularization", "reg_orientation", "reg_joint_position"}) k[w] = "0.0";
  k["num_joint_viapoints"] = k["num_base_viapoints"] = "0"; k["joint_viapoints"] = k["base_viapoints"] = "{}";
  put(tmp.file(), k.text());
  PlannerSetting st; st.initialize(tmp.file()); st.get(PlannerStringParam_SaveKinematicsFile) = tmp.file("/cfg_kin_results.yaml");
  Plan plan; plan.initialize(st);
  for (int e = 0; e < S.ne; e++) { std::vector<ContactState> cs; int at = 0, i = 0; for (auto& p : S.ph[e]) { if (p.on) { ContactState r; r.contactActivationTime() = (at + 1) * S.dt; r.contactDeactivationTime() = (at + 1 + p.len) * S.dt; r.contactPosition() = S.cpos[e][i++]; r.contactType() = ContactType::FlatContact; r.selectedAsActive() = true; cs.push_back(r); } at += p.len; } plan.contactSequence().endeffectorContacts(e, cs); }
  auto o = std::make_shared<Out>(); o->dyn.resize(S.N); plan.fillDynamicsSequence(S.ini, o->dyn);
  for (int t = 0; t < S.N; t++) { DynamicsState& d = o->dyn.dynamicsState(t); d.time() = S.time[t]; d.centerOfMass() = S.com[t]; d.linearMomentum() = S.lm[t]; d.angularMomentum() = S.am[t]; }
  o->F.R = &S.R; o->F.step = S.step;
  KinematicsOptimizer mine; KinematicsOptimizer& K = opt ? *opt : mine; K.initialize(st, &o->F);
  o->F.R = &S.R; o->F.constraintsVector(S.R.c); o->F.constraintsMatrix(S.R.C);
  K.optimize(S.ini, &plan, o->dyn, S.first); if (S.twice) { o->F.shown.clear(); K.optimize(S.ini, &plan, o->dyn, false); } o->F.R = 0;
  for (int t = 0; t < S.N; t++) o->seq.push_back(K.kinematicsSequence().kinematicsState(t));
  if (S.store) { std::ifstream f(tmp.file("/cfg_kin_results.yaml")); std::stringstream b; b << f.rdbuf(); o->file = b.str(); }
  return o;
}
static void confirm(Case& c, const Scene& S, std::function<void(const Scene&)> check) {
  try { check(S); return; } catch (const pbt::Failure&) {}
  for (int k = 1; k <= 2; k++) {
    Scene P = S; V3 by = k * V3(0.0123, -0.0087, 0.0041); P.R.c0 += by; for (auto& e : P.R.e0) e += by; P.floor += by[2]; for (auto& x : P.com) x += by; P.ini.centerOfMass() += by; for (int e = 0; e < 4; e++) { P.ini.endeffectorPosition(e) += by; for (auto& x : P.cpos[e]) x += by; }
    try { check(P); c.label("inexact once"); return; } catch (const pbt::Failure&) {}
  }
  check(S);
}

// the motion as a least-squares problem in all configurations
struct Quad {
  const Scene& S; const DynamicsSequence& dyn; V x0; int D, n; M A; V b;
  Quad(const Scene& s, const DynamicsSequence& d, const V& x) : S(s), dyn(d), x0(x) { D = 6 + S.n; n = D * S.N; b = res(V::Zero(n)); A.resize(b.size(), n); for (int i = 0; i < n; i++) A.col(i) = res(V::Unit(n, i)) - b; }
  V res(const V& z) const {
    std::vector<double> r; auto add = [&](double w, double d) { r.push_back(std::sqrt(w) * d); };
    V px = x0, pv = V::Zero(D); V3 pl = S.ini.linearMomentum(), pm = S.ini.angularMomentum();
    for (int t = 0; t < S.N; t++) {
      V x = z.segment(D * t, D), v = (x - px) / S.time[t], a = (v - pv) / S.time[t], h = S.R.H * v; V3 l = h.head(3), m = h.tail(3), cm = S.R.com(x);
      for (int i = 0; i < 3; i++) {
        add(S.wc[i], cm[i] - S.com[t][i]); add(S.wl[i], l[i] - S.lm[t][i]); add(S.wm[i], m[i] - S.am[t][i]); add(S.wld[i], (l[i] - pl[i]) / S.time[t]); add(S.wmd[i], (m[i] - pm[i]) / S.time[t]);
        for (int e = 0; e < S.ne; e++) add(dyn.dynamicsState(t).endeffectorActivation(e) ? S.we[i] : S.wn[i], S.R.eef(e, x)[i] - dyn.dynamicsState(t).endeffectorPosition(e)[i]);
      }
      for (int i = 0; i < S.n; i++) add(S.wdef[i], x[6 + i] - S.def[i]);
      for (int i = 0; i < D; i++) { add(S.wv[i], v[i]); add(S.wa[i], a[i]); }
      px = x; pv = v; pl = l; pm = m;
    }
    V o(r.size()); for (size_t i = 0; i < r.size(); i++) o[i] = r[i]; return o;
  }
  double J(const V& z) const { return (A * z + b).squaredNorm(); }
  double room(const V& z) const {
    double r = 1e9;
    for (int t = 0; t < S.N; t++) { V x = z.segment(D * t, D); for (int i = 0; i < S.n; i++) r = std::min(r, std::min(x[6 + i] - S.lo[i], S.hi[i] - x[6 + i])); for (int e = 0; e < S.ne; e++) r = std::min(r, S.R.eef(e, x)[2] - S.floor); }
    return r;
  }
  // minimum within the joint limits (cyclic coordinate descent), without the floor
  V boxmin(V z) const {
    M G = A.transpose() * A; V g = A.transpose() * (A * z + b);
    for (int it = 0; it < 4000; it++) {
      double big = 0;
      for (int i = 0; i < n; i++) { int j = i % D; double v = z[i] - g[i] / G(i, i); if (j >= 6) v = std::min(std::max(v, S.lo[j - 6]), S.hi[j - 6]); double d = v - z[i]; if (d != 0) { z[i] = v; g += d * G.col(i); big = std::max(big, std::abs(d)); } }
      if (big < 1e-10) break;
    }
    return z;
  }
};

static void trajectory(Case& c, const Scene& S) {
  auto o = run(S); int D = 6 + S.n, nd = o->F.starts.size() - S.N * S.iters;
  PBT_CHECK(c, nd >= 0, "first", "the motion was never differentiated from the initial posture"); V x0 = o->F.starts[nd];
  PBT_CHECK(c, !o->F.wrongstep, "integration-step", "a posture is integrated with another step than configured");
  Quad q(S, o->dyn, x0); V z(q.n); for (int t = 0; t < S.N; t++) z.segment(D * t, D) = conf(o->seq[t]);
  bool big = o->F.over; c.label("turns over", big); if (big) return;
  c.nontrivial = S.N >= 2;
  for (int i = 0; i < S.n; i++) PBT_CHECK(c, x0[6 + i] >= S.lo[i] - 1e-4 && x0[6 + i] <= S.hi[i] + 1e-4, "initial-limits", "initial position " << x0[6 + i] << " of joint " << i << " outside [" << S.lo[i] << ", " << S.hi[i] << "]");
  V pv = V::Zero(D), px = x0;
  for (int t = 0; t < S.N; t++) {
    V x = z.segment(D * t, D), v = (x - px) / S.time[t], a = (v - pv) / S.time[t]; const KinematicsState& k = o->seq[t];
    for (int i = 0; i < S.n; i++) PBT_CHECK(c, x[6 + i] >= S.lo[i] - 1e-4 && x[6 + i] <= S.hi[i] + 1e-4, "joint-limits", "joint " << i << " at step " << t << " is at " << x[6 + i] << ", outside [" << S.lo[i] << ", " << S.hi[i] << "]");
    for (int e = 0; e < S.ne; e++) PBT_CHECK(c, S.R.eef(e, x)[2] >= S.floor - 1e-4, "floor", "effector " << e << " at step " << t << " is at height " << S.R.eef(e, x)[2] << ", below the floor at " << S.floor);
    PBT_CHECK(c, (V(k.robotVelocity().generalizedJointVelocities()) - v).norm() < 1e-9 * (1 + v.norm()), "velocity", "velocity at step " << t << " is not the change of the configuration per time");
    PBT_CHECK(c, (V(k.robotAcceleration().generalizedJointAccelerations()) - a).norm() < 1e-3 * (1 + a.norm() + v.norm() / S.time[t]), "acceleration", "acceleration " << str(V(k.robotAcceleration().generalizedJointAccelerations())) << " at step " << t << " instead of " << str(a));
    px = x; pv = v;
  }
  double J = q.J(z), scale = 1 + J + 1e-3 * q.b.squaredNorm(), tol = 1e-3 * scale;
  V u = q.boxmin(z); double Ju = q.J(u), m = q.room(u);
  bool lim = false; for (int t = 0; t < S.N; t++) for (int i = 0; i < S.n; i++) lim |= std::min(z[D * t + 6 + i] - S.lo[i], S.hi[i] - z[D * t + 6 + i]) < 1e-4; c.label("joint limit active", lim);
  bool fl = m < -1e-6; c.label("floor active", fl);
  if (!fl) PBT_CHECK(c, J <= Ju + tol, "not-minimal", "the motion costs " << J << " although one within the limits costs " << Ju);
  V g = 2 * q.A.transpose() * (q.A * z + q.b);
  for (int k = 0; k < 12; k++) {
    V d = k == 0 ? V(u - z) : V(V::Zero(q.n)); if (k > 0) { int t = (k * 5) % S.N, j = (k * 7) % D; d = -g; if (k % 3) for (int i = 0; i < q.n; i++) if (k % 3 == 1 ? i / D != t : i % D != j) d[i] = 0; }
    double cv = (q.A * d).squaredNorm(); if (cv < 1e-14) continue; double al = std::max(0.0, -g.dot(d)) / (2 * cv);
    for (int i = 0; i < 40 && q.room(z + al * d) < 0; i++) al *= 0.5;
    if (q.room(z + al * d) < 0) continue;
    PBT_CHECK(c, q.J(z + al * d) >= J - tol, "improvable", "another motion within limits costs " << q.J(z + al * d) << " instead of " << J);
  }
  if (S.store) {
    c.label("stored"); YAML::Node y = YAML::Load(o->file);
    auto near = [&](const YAML::Node& n, const V& w) { if (!n) return false; V h = n.as<V>(); return h.size() == w.size() && mclose(h, w, 1e-5); };
    PBT_CHECK(c, close(y["time_step"].as<double>(), S.dt, 1e-9) && close(y["time_horizon"].as<double>(), S.dt * S.N, 1e-9) && y["num_subsamples"].as<int>() == S.samples, "stored-settings", "time step or horizon in the file");
    V i = y["initial_robot_configuration"]["generalized_joint_positions"].as<V>(); PBT_CHECK(c, i.size() == S.n + 7 && (confv(i) - x0).norm() < 1e-4, "stored-initial", "initial configuration in the file");
    for (int t = 0; t < S.N; t++) { YAML::Node k = y["dyn_state_" + std::to_string(t)]; PBT_CHECK(c, close(k["time"].as<double>(), S.time[t], 1e-5) && near(k["generalized_joint_positions"], o->seq[t].robotPosture().generalizedJointPositions()) && near(k["generalized_joint_velocities"], o->seq[t].robotVelocity().generalizedJointVelocities()) && near(k["generalized_joint_accelerations"], o->seq[t].robotAcceleration().generalizedJointAccelerations()), "stored-state", "state " << t << " in the file is not that of the motion"); }
  }
  if (S.show) {
    c.label("displayed"); PBT_CHECK(c, (int)o->F.shown.size() == S.N * S.samples, "shown-count", o->F.shown.size() << " postures displayed instead of " << S.N * S.samples);
    for (int t = 0, k = 0; t < S.N; t++) { V a = t ? V(z.segment(D * (t - 1), D)) : x0, b = z.segment(D * t, D); Q qa = rexp(a.segment<3>(3)), qb = rexp(b.segment<3>(3));
      for (int i = 0; i < S.samples; i++, k++) { double f = double(i) / S.samples; const V& g = o->F.shown[k].x; Q h(g[6], g[3], g[4], g[5]); V3 p = a.head(3) + f * (b - a).head(3); V j = a.tail(S.n) + f * (b - a).tail(S.n);
        PBT_CHECK(c, (V3(g.head(3)) - p).norm() < 1e-6 && mclose(V(g.tail(S.n)), j, 1e-6) && h.angularDistance(qa.slerp(f, qb)) < 1e-5, "shown", "displayed posture " << k << " is not between those of the motion");
        PBT_CHECK(c, close(o->F.shown[k].dt, S.time[t] / S.samples, 1e-9), "shown-time", "posture " << k << " displayed for " << o->F.shown[k].dt); } }
  }
}
PBT_PROP(kin_motion) { Scene S = scene(s, c, 4); S.K = s.integer(1, 4); S.show = s.chance(0.3); S.twice = s.chance(0.3); c.label("optimised again", S.twice); S.samples = s.integer(1, 4); confirm(c, S, [&](const Scene& P) { trajectory(c, P); }); }

// ------------------------------------------------------------------ postures
// With one iteration per posture every velocity is the solution of one convex problem.
static void postures(Case& c, const Scene& S) {
  auto o = run(S); int D = 6 + S.n; 
  int want = (S.first ? 1 + S.N : 1) + S.N * S.iters; PBT_CHECK(c, (int)o->F.moves.size() == want, "count", o->F.moves.size() << " postures integrated instead of " << want);
  c.nontrivial = true; V expect; 
  for (int p = 0; p < (S.first ? 1 + S.N : 1); p++) {
    const V &x = o->F.moves[p].q, &v = o->F.moves[p].v; const DynamicsState& d = p == 0 ? S.ini : o->dyn.dynamicsState(p - 1);
    if (p == 0) { V e = V::Zero(D); e.tail(S.n) = S.def; PBT_CHECK(c, (x - e).norm() < 1e-9, "start", "the first posture starts from " << str(x) << " instead of the default posture"); }
    else PBT_CHECK(c, (x - expect).norm() < 1e-9 * (1 + x.norm()) || x.segment<3>(3).norm() > 2.5, "continue", "posture " << p << " does not start from the one before");
    expect = x + S.step * v; if (expect.segment<3>(3).norm() > 2.5) { c.label("turns over"); return; }
    auto cost = [&](const V& w) {
      double r = S.lam * w.squaredNorm(); V3 dc = S.R.Jc * w - (d.centerOfMass() - S.R.com(x)) / S.step; r += S.wc.dot(V3(dc.cwiseAbs2()));
      for (int e = 0; e < S.ne; e++) { V3 de = S.R.Je[e].topRows(3) * w - (d.endeffectorPosition(e) - S.R.eef(e, x)) / S.step; r += (d.endeffectorActivation(e) ? S.we : S.wn).dot(V3(de.cwiseAbs2())); }
      for (int i = 0; i < S.n; i++) r += S.wdef[i] * std::pow(x[6 + i] + S.step * w[6 + i] - S.def[i], 2);
      for (int i = 0; i < S.R.c.size(); i++) r += S.pen * std::pow(std::max(0.0, S.R.C.row(i).dot(w) - S.R.c[i]), 2);
      return r;
    };
    for (int i = 0; i < S.n; i++) PBT_CHECK(c, x[6 + i] + S.step * v[6 + i] >= S.lo[i] - 1e-4 && x[6 + i] + S.step * v[6 + i] <= S.hi[i] + 1e-4, "limits", "posture " << p << ": joint " << i << " ends at " << x[6 + i] + S.step * v[6 + i] << " outside [" << S.lo[i] << ", " << S.hi[i] << "]");
    // improve by coordinate descent (the cost is convex and piecewise quadratic)
    V w = v; double J = cost(v);
    for (int it = 0; it < 400; it++) {
      double big = 0;
      for (int i = 0; i < D; i++) {
        auto f = [&](double t) { V y = w; y[i] = t; return cost(y); };
        double t = w[i]; for (int k = 0; k < 3; k++) { double h = 1e-3, a = f(t - h), b = f(t), e = f(t + h); double dd = (a - 2 * b + e) / (h * h); if (dd > 1e-9) t -= (e - a) / (2 * h) / dd; }
        if (i >= 6) t = std::min(std::max(t, (S.lo[i - 6] - x[i]) / S.step), (S.hi[i - 6] - x[i]) / S.step);
        if (f(t) < f(w[i]) || (i >= 6 && std::abs(w[i] - t) < 1e-3)) { big = std::max(big, std::abs(t - w[i])); w[i] = t; }
      }
      if (big < 1e-9) break;
    }
    double Jb = cost(w); double scale = 1 + J + 1e-3 * cost(V::Zero(D));
    PBT_CHECK(c, J <= Jb + 1e-3 * scale, "not-minimal", "the step towards posture " << p << " costs " << J << " although " << Jb << " is possible");
    PBT_CHECK(c, (std::sqrt(S.lam) * (w - v)).squaredNorm() <= 4e-3 * scale, "velocity", "the step towards posture " << p << " is not the best one");
  }
}
PBT_PROP(kin_posture) { Scene S = scene(s, c, 4); S.K = 1; S.iters = 1; confirm(c, S, [&](const Scene& P) { postures(c, P); }); }

// ---------------------------------------------------------------- reachability
// targets taken from a posture within the limits are reached
PBT_PROP(kin_reach) {
  Scene S0 = scene(s, c, 4); S0.floor = -100; S0.R.c = V(0); S0.R.C = M(0, 6 + S0.n); S0.wdef *= 1e-6; S0.lam = 1e-4; S0.K = 60; S0.tol = 1e-7; S0.iters = 0; S0.first = true;
  S0.wc = wv3(s, 1, 100, 0); S0.we = wv3(s, 1, 100, 0); S0.wn = wv3(s, 1, 100, 0); S0.wl.setZero(); S0.wm.setZero();
  for (double& t : S0.time) t = S0.dt;
  V x(6 + S0.n); x << v3(s, -0.5, 0.5), v3(s, -0.3, 0.3), S0.def; for (int i = 0; i < S0.n; i++) x[6 + i] = S0.lo[i] + s.real(0.1, 0.9) * (S0.hi[i] - S0.lo[i]);
  confirm(c, S0, [&](const Scene& P) {
    Scene S = P; S.ini.centerOfMass() = S.R.com(x); S.ini.linearMomentum().setZero(); S.ini.angularMomentum().setZero(); for (int e = 0; e < S.ne; e++) S.ini.endeffectorPosition(e) = S.R.eef(e, x);
    for (int t = 0; t < S.N; t++) { S.com[t] = S.R.com(x); S.lm[t].setZero(); S.am[t].setZero(); }
    for (int e = 0; e < S.ne; e++) { S.ph[e] = {{true, S.N}}; S.cpos[e][0] = S.R.eef(e, x); S.ini.endeffectorActivation(e) = true; }
    auto o = run(S); c.nontrivial = true;
    for (int t = 0; t < S.N; t++) { V y = conf(o->seq[t]); 
      PBT_CHECK(c, (S.R.com(y) - S.com[t]).norm() < 2e-3, "center-of-mass", "the center of mass of posture " << t << " misses its target by " << (S.R.com(y) - S.com[t]).norm());
      for (int e = 0; e < S.ne; e++) PBT_CHECK(c, (S.R.eef(e, y) - S.cpos[e][0]).norm() < 2e-3, "effector", "effector " << e << " of posture " << t << " misses its contact by " << (S.R.eef(e, y) - S.cpos[e][0]).norm()); }
  });
}
PBT_MAIN
