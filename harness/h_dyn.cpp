// momentumopt: dynamics optimizer and feedback against the physics they stand for.
#include "mom.hpp"
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
using namespace pbt; using namespace mom; using namespace momentumopt;

struct Wt { V3 com, lmom, amom, lmomd, amomd, frl, fra, dfl, dfa, lf, af, via, tcom, tl, ta; double trql = 1, trqa = 1; };
struct Scene {
  int N = 5, nact = 2; double dt = 0.1, mass = 60, grav = 9.81, mu = 0.8, minh = 0.1; bool linear = true;
  Heuristic heur = Heuristic::SoftConstraint; bool track = false, fixedT = false; V3 ext = V3::Zero(), disp = V3::Zero();
  V tr = vv({-10, 10}), len = vv({1.5, 1.5, 1.5, 1.5}), trange = vv({0.05, 0.2}); V cop[4]; V3 off[4];
  std::vector<V> via; Wt w;
  struct C { int a, b; V3 p; Q q; int type; };
  std::vector<C> cn[4];
  DynamicsState ini; std::vector<V3> kc, kl, ka;
  double wt = 1, wtp = 1;
  int at(int e, int t) const { for (size_t i = 0; i < cn[e].size(); i++) if (t >= cn[e][i].a && t <= cn[e][i].b) return (int)i; return -1; }
  double mg() const { return mass * grav; }
  int hand(int e) const { return e >= 2; }
};

static V3 wv(Src& s, double lo, double hi, double zero = 0.3) { if (s.chance(zero)) return V3::Zero(); V3 r; for (int i = 0; i < 3; i++) r[i] = s.logreal(lo, hi); return r; }

static std::string cfg_text(const Scene& S) {
  Cfg k;
  k["heuristic"] = S.heur == Heuristic::SoftConstraint ? "SoftConstraint" : S.heur == Heuristic::TrustRegion ? "TrustRegion" : "TimeOptimization";
  k["n_act_eefs"] = std::to_string(S.nact); k["time_step"] = num(S.dt); k["time_horizon"] = num(S.N * S.dt); k["external_force"] = seq(S.ext); k["com_displacement"] = seq(S.disp);
  k["num_com_viapoints"] = std::to_string(S.via.size());
  if (!S.via.empty()) { std::string v = "{"; for (size_t i = 0; i < S.via.size(); i++) v += (i ? ", " : "") + ("via" + std::to_string(i)) + ": " + seq(S.via[i]); k["com_viapoints"] = v + "}"; }
  k["gravity"] = num(S.grav); k["robot_mass"] = num(S.mass); k["friction_coeff"] = num(S.mu); k["friction_cone"] = S.linear ? "LinearCone" : "SocCone";
  k["torque_range"] = seq(S.tr); k["max_eef_lengths"] = seq(S.len); k["min_rel_height"] = num(S.minh); k["time_range"] = seq(S.trange); k["is_time_horizon_fixed"] = bo(S.fixedT);
  for (int e = 0; e < 4; e++) { k[std::string("cop_range_") + eff(e)] = seq(S.cop[e]); k[std::string("eff_offset_") + eff(e)] = seq(S.off[e]); }
  const Wt& w = S.w;
  k["w_com"] = seq(w.com); k["w_amom"] = seq(w.amom); k["w_lmom"] = seq(w.lmom); k["w_amomd"] = seq(w.amomd); k["w_lmomd"] = seq(w.lmomd); k["w_com_via"] = seq(w.via);
  k["w_frc_arm"] = seq(w.fra); k["w_frc_leg"] = seq(w.frl); k["w_dfrc_arm"] = seq(w.dfa); k["w_dfrc_leg"] = seq(w.dfl); k["w_amom_final"] = seq(w.af); k["w_lmom_final"] = seq(w.lf);
  k["w_com_track"] = seq(w.tcom); k["w_lmom_track"] = seq(w.tl); k["w_amom_track"] = seq(w.ta); k["w_trq_arm"] = num(w.trqa); k["w_trq_leg"] = num(w.trql); k["w_time"] = num(S.wt); k["w_time_penalty"] = num(S.wtp);
  k["max_time_iterations"] = "4";
  return k.text();
}

static Scene scene(Src& s, Case& c, bool amom) {
  Scene S; 
  S.heur = s.pick({Heuristic::SoftConstraint, Heuristic::TrustRegion});
  S.N = s.integer(3, 9); S.dt = s.pick({0.1, 0.125, 0.05, 0.07}); S.nact = s.integer(2, 4);
  S.mass = s.logreal(2, 80); S.grav = s.pick({9.81, 10.0, 3.7}); S.mu = s.logreal(0.3, 1.5); S.linear = s.boolean();
  double h = s.real(0.5, 1.0); V3 base = s.boolean() ? V3(0, 0, 0) : v3(s, -3, 3);
  S.minh = s.real(0.1, 0.9) * h;
  S.tr = vv({-s.real(1, 20), s.real(1, 20)});
  for (int e = 0; e < 4; e++) {
    S.len[e] = h * s.real(1.1, 1.8) + 0.1; S.cop[e] = vv({-s.real(0.01, 0.1), s.real(0.01, 0.1), -s.real(0.01, 0.1), s.real(0.01, 0.1)});
    S.off[e] = s.boolean() ? V3(0, 0, 0) : v3(s, -0.1, 0.1);
  }
  S.ini = DynamicsState(); S.ini.centerOfMass() = base + V3(0, 0, h); double sc = S.mass * 0.1;
  S.ini.linearMomentum() = s.boolean() ? V3(0, 0, 0) : V3(sc * v3(s, -1, 1)); S.ini.angularMomentum() = s.boolean() ? V3(0, 0, 0) : V3(0.2 * sc * v3(s, -1, 1));
  S.disp = s.boolean() ? V3(0, 0, 0) : v3(s, -0.1, 0.1);
  if (s.chance(0.3)) S.ext = v3(s, -0.3, 0.3);
  for (int e = 0; e < S.nact; e++) {
    // stance phases; legs are on the ground most of the time
    int t = (e < 2 ? s.chance(0.2) : s.chance(0.5)) ? s.integer(1, 3) : 0, i = 0; double side = e % 2 ? 1 : -1;
    while (t < S.N) {
      int n = s.integer(2, 7); Scene::C k; k.a = t; k.b = std::min(t + n - 1, S.N - 1); k.type = s.integer(0, 2);
      k.p = base + V3(0.08 * i, side * s.real(0.08, 0.25), 0) + 0.05 * v3(s, -1, 1);
      if (S.hand(e)) k.p += V3(0.2, side * 0.1, h * s.real(0.2, 1));
      double tilt = s.boolean() ? 0 : s.real(-0.25, 0.25), dir = s.uniform(-3, 3), yaw = s.boolean() ? 0 : s.uniform(-3.1, 3.1);
      k.q = Q(Eigen::AngleAxisd(tilt, V3(std::cos(dir), std::sin(dir), 0))) * Q(Eigen::AngleAxisd(yaw, V3(0, 0, 1)));
      if (S.hand(e) && s.boolean()) k.q = quat(s), k.type = 2;
      S.cn[e].push_back(k); t = k.b + 1 + s.integer(1, 2); i++;
    }
    S.ini.endeffectorActivation(e) = s.boolean(); S.ini.endeffectorPosition(e) = base + V3(0, side * 0.15, 0) + 0.02 * v3(s, -1, 1); S.ini.endeffectorForce(e) = s.boolean() ? V3(0, 0, 0.5) : V3(0.2 * v3(s, -1, 1));
  }
  Wt& w = S.w;
  w.com = wv(s, 10, 1e5, 0.1); w.lmom = wv(s, 1e-2, 10); w.lmomd = wv(s, 1e-4, 1); w.frl = wv(s, 1, 1e3, 0); w.fra = wv(s, 1, 1e3, 0); w.dfl = wv(s, 1, 1e3); w.dfa = wv(s, 1, 1e3); w.lf = wv(s, 1e-1, 1e3);
  w.trql = s.logreal(1e-1, 1e2); w.trqa = s.logreal(1e-1, 1e2);
  w.amom = w.amomd = w.af = w.ta = V3::Zero();
  if (amom) { w.amom = wv(s, 1e-1, 1e2, 0.2); w.amomd = wv(s, 1e-3, 1); w.af = wv(s, 1, 1e3); w.ta = wv(s, 1e-1, 1e2); }
  S.track = s.chance(0.25); w.tcom = S.track ? wv(s, 10, 1e4, 0.1) : wv(s, 10, 1e4, 0.5); w.tl = wv(s, 1e-2, 10);
  w.via = V3::Zero();
  if (s.chance(0.35)) { w.via = wv(s, 10, 1e4, 0); int n = s.integer(1, 2); for (int i = 0; i < n; i++) { V v(4); v << (s.integer(0, S.N - 1) + 0.5) * S.dt, V3(S.ini.centerOfMass() + 0.08 * v3(s, -1, 1)); S.via.push_back(v); } }
  for (int t = 0; t < S.N; t++) { S.kc.push_back(S.ini.centerOfMass() + 0.05 * v3(s, -1, 1)); S.kl.push_back(s.boolean() ? V3(0, 0, 0) : V3(sc * v3(s, -1, 1))); S.ka.push_back(s.boolean() ? V3(0, 0, 0) : V3(0.2 * sc * v3(s, -1, 1))); }
  c.note << "N=" << S.N << " dt=" << S.dt << " effectors=" << S.nact << " mass=" << S.mass << " mu=" << S.mu << (S.linear ? " linear" : " round") << " cone h=" << h << " contacts";
  for (int e = 0; e < S.nact; e++) { c.note << " " << eff(e) << ":"; for (auto& k : S.cn[e]) c.note << "[" << k.a << "-" << k.b << " type " << k.type << "]"; }
  c.note << " com+" << str(V(S.disp)) << (S.heur == Heuristic::SoftConstraint ? " soft" : " trust");
  return S;
}

static void fill(Plan& plan, const Scene& S, PlannerSetting& st) {
  plan.initialize(st);
  for (int e = 0; e < 4; e++) {
    std::vector<ContactState> cs;
    for (auto& k : S.cn[e]) { ContactState r; r.contactActivationTime() = (k.a + 0.5) * S.dt; r.contactDeactivationTime() = (k.b + 1.5) * S.dt; r.contactPosition() = k.p; r.contactOrientation() = k.q; r.contactType() = (ContactType)k.type; r.selectedAsActive() = true; cs.push_back(r); }
    plan.contactSequence().endeffectorContacts(e, cs);
  }
}
static KinematicsSequence kins(const Scene& S) {
  KinematicsSequence k; k.resize(S.N, 3);
  for (int t = 0; t < S.N; t++) { k.kinematicsState(t).centerOfMass() = S.kc[t]; k.kinematicsState(t).linearMomentum() = S.kl[t]; k.kinematicsState(t).angularMomentum() = S.ka[t]; }
  return k;
}
struct Run { solver::ExitCode code; std::vector<DynamicsState> seq; std::array<int, 4> steps; };
static Run run(const Scene& S, DynamicsOptimizer* o = 0) {
  Tmp tmp; put(tmp.file(), cfg_text(S)); 
  PlannerSetting st; st.initialize(tmp.file());
  DynamicsOptimizer own; if (!o) o = &own;
  Plan plan; fill(plan, S, st); KinematicsSequence k = kins(S);
  o->initialize(st);
  Run r; r.code = o->optimize(S.ini, &plan, k, S.track);
  for (int t = 0; t < S.N; t++) r.seq.push_back(o->dynamicsSequence().dynamicsState(t));
  return r;
}
static void stat(const char* n, double v) { static const char* f = getenv("PBT_Q"); if (f) { FILE* o = fopen(f, "a"); fprintf(o, "%s %.3e\n", n, v); fclose(o); } }
static bool good(const Run& r) { return r.code == solver::ExitCode::Optimal; }

// The interior point method is rarely inexact on single problems; a violation
// counts when it is also there on the same problem shifted a little.
template <class F> static void confirm(Case& c, const Scene& S, F check) {
  try { check(S); return; } catch (const pbt::Failure&) {}
  for (int k = 1; k <= 2; k++) {
    Scene P = S; V3 by = k * V3(0.0123, -0.0087, 0.0041);
    P.ini.centerOfMass() += by; for (int e = 0; e < 4; e++) { P.ini.endeffectorPosition(e) += by; for (auto& q : P.cn[e]) q.p += by; }
    for (auto& v : P.via) v.tail(3) += by; for (auto& x : P.kc) x += by;
    try { check(P); c.label("inexact once"); return; } catch (const pbt::Failure&) {}
  }
  check(S);
}

// ------------------------------------------------------------------ physics
static void obey(Case& c, const Scene& S, const Run& R, bool time) {
  double mg = S.mg(); V3 g(0, 0, -S.grav);
  double hz = S.at(0, 0) >= 0 ? S.cn[0][S.at(0, 0)].p.z() : S.ini.endeffectorPosition(0).z();
  V3 com = S.ini.centerOfMass(), lm = S.ini.linearMomentum(), am = S.ini.angularMomentum();
  double T = 0, fric = 1e9, room = 1e9;
  double tf = 2e-3, tl = 1e-3;
  for (int t = 0; t < S.N; t++) {
    const DynamicsState& d = R.seq[t]; double dt = d.time(); T += dt;
    if (!time) PBT_CHECK(c, std::abs(dt - S.dt) < 1e-12, "step", "time step " << t << " lasts " << dt);
    else PBT_CHECK(c, dt >= S.trange[0] - 1e-2 * S.dt && dt <= S.trange[1] + 1e-2 * S.dt, "time-range", "time step " << t << " lasts " << dt << ", outside " << str(S.trange));
    if (time) stat("dt", std::max(S.trange[0] - dt, dt - S.trange[1]) / S.dt);
    V3 F = V3::Zero();
    V3 X = d.centerOfMass(), dA = V3::Zero();
    for (int e = 0; e < S.nact; e++) {
      int k = S.at(e, t); PBT_CHECK(c, d.endeffectorActivation(e) == (k >= 0), "active", "effector " << e << " activation at step " << t);
      if (k < 0) continue;
      const Scene::C& C = S.cn[e][k]; Eigen::Matrix3d r = C.q.toRotationMatrix();
      V3 f = d.endeffectorForce(e), cp = d.endeffectorCoP(e), tq = d.endeffectorTorque(e); F += f;
      PBT_CHECK(c, d.endeffectorPosition(e) == C.p && rotdist(d.endeffectorOrientation(e), C.q) < 1e-7, "contact", "effector " << e << " is not at its contact at step " << t);
      PBT_CHECK(c, cp[0] >= S.cop[e][0] - tl && cp[0] <= S.cop[e][1] + tl && cp[1] >= S.cop[e][2] - tl && cp[1] <= S.cop[e][3] + tl && cp[2] == 0, "cop", "centre of pressure " << str(V(cp)) << " of effector " << e << " at step " << t << " outside " << str(S.cop[e]));
      PBT_CHECK(c, tq[0] == 0 && tq[1] == 0 && tq[2] >= S.tr[0] - 1e-2 && tq[2] <= S.tr[1] + 1e-2, "torque", "torque " << str(V(tq)) << " of effector " << e << " at step " << t << " outside " << str(S.tr));
      V3 fl = r.transpose() * f;
      if (C.type != 2) {
        double m = S.linear ? 0.70710678 * (std::abs(fl[0]) + std::abs(fl[1])) : std::hypot(fl[0], fl[1]);
        fric = std::min(fric, S.mu * fl[2] - m);
        PBT_CHECK(c, m <= S.mu * fl[2] + tf, "friction", "force " << str(V(fl)) << " of effector " << e << " at step " << t << " (contact frame) leaves the friction cone of coefficient " << S.mu);
      }
      stat("cop", std::max(std::max(S.cop[e][0] - cp[0], cp[0] - S.cop[e][1]), std::max(S.cop[e][2] - cp[1], cp[1] - S.cop[e][3])));
      stat("trq", std::max(S.tr[0] - tq[2], tq[2] - S.tr[1]));
      V3 len = C.p - X + r.col(0) * cp[0] + r.col(1) * cp[1];
      room = std::min(room, S.len[e] - (len - S.off[e]).norm());
      PBT_CHECK(c, (len - S.off[e]).norm() <= S.len[e] + tl, "length", "effector " << e << " at step " << t << " is " << (len - S.off[e]).norm() << " from the centre of mass, more than " << S.len[e]);
      dA += len.cross(mg * f) + r.col(2) * tq[2];
      V3 tc = tq + cp.cross(mg * fl);
      PBT_CHECK(c, (d.endeffectorTorqueAtContactPoint(e) - tc).norm() <= 1e-6 * (1 + tc.norm()), "torque-at-contact", "torque at the contact point " << str(V(d.endeffectorTorqueAtContactPoint(e))) << " instead of " << str(V(tc)) << ", effector " << e << " step " << t);
    }
    PBT_CHECK(c, X.z() - hz >= S.minh - tl, "height", "centre of mass at height " << X.z() - hz << " over the right foot at step " << t << ", less than " << S.minh);
    if (time) {
      V3 want = S.mass * g + mg * F; stat("rate", (d.linearMomentumRate() - want).norm() / (1 + mg));
      PBT_CHECK(c, (d.linearMomentumRate() - want).norm() <= 1e-3 * (1 + mg), "momentum-rate", "linear momentum rate " << str(V(d.linearMomentumRate())) << " at step " << t << " instead of " << str(V(want)));
      continue;
    }
    if (t == 0) F += S.ext;
    V3 l = lm + dt * (S.mass * g + mg * F), x = com + dt / S.mass * d.linearMomentum(), a = am + dt * dA;
    stat("lmom", (d.linearMomentum() - l).norm() / (1 + mg * dt)); stat("com", (X - x).norm());
    PBT_CHECK(c, (d.linearMomentum() - l).norm() <= 1e-3 * (1 + mg * dt), "linear-momentum", "linear momentum " << str(V(d.linearMomentum())) << " after step " << t << " instead of " << str(V(l)));
    PBT_CHECK(c, (X - x).norm() <= 5e-4, "centre-of-mass", "centre of mass " << str(V(X)) << " after step " << t << " instead of " << str(V(x)));
    PBT_CHECK(c, (d.angularMomentum() - a).norm() <= 1e-6 * (1 + a.norm() + mg), "angular-momentum", "angular momentum " << str(V(d.angularMomentum())) << " after step " << t << " instead of " << str(V(a)));
    lm = d.linearMomentum(); com = X; am = d.angularMomentum();
  }
  if (time && S.fixedT) PBT_CHECK(c, std::abs(T - S.N * S.dt) < 1e-2 * S.dt, "horizon", "the steps last " << T << " together instead of " << S.N * S.dt);
  stat("fric", -fric); stat("len", -room);
  c.label("friction active", fric < 1e-3); c.label("length active", room < 1e-3); 
}

PBT_PROP(physics) {
  Scene S = scene(s, c, s.boolean());
  DynamicsOptimizer o; bool reuse = s.chance(0.25);
  if (reuse) { Scene P = scene(s, c, false); c.note << " | then "; run(P, &o); c.label("optimizer used before"); }
  confirm(c, S, [&](const Scene& S) {
  Run R = run(S, &o);
  c.label("not optimal", !good(R)); if (!good(R)) return;
  c.nontrivial = true; 
  c.label(S.heur == Heuristic::SoftConstraint ? "soft" : "trust region"); c.label("hands", S.nact > 2); c.label("tracking", S.track); c.label("external force", S.ext.norm() > 0);
  int sw = 0; for (int e = 0; e < S.nact; e++) for (int t = 0; t < S.N; t++) sw += S.at(e, t) < 0; c.label("contacts change", sw > 0);
  obey(c, S, R, false);
  });
}

PBT_PROP(timing) {
  Scene S = scene(s, c, s.boolean()); S.heur = Heuristic::TimeOptimization; S.ext.setZero();
  S.fixedT = s.boolean(); S.trange = vv({S.dt * s.real(0.5, 0.95), S.dt * s.real(1.05, 1.8)}); S.wt = s.logreal(1, 1e3); S.wtp = s.boolean() ? 0 : s.logreal(1, 1e3);
  c.note << " time range " << str(S.trange) << (S.fixedT ? " horizon fixed" : "");
  confirm(c, S, [&](const Scene& S) {
  Run R = run(S); c.label("not optimal", !good(R)); if (!good(R)) return;
  c.nontrivial = true; bool moved = false; for (auto& d : R.seq) moved |= std::abs(d.time() - S.dt) > 1e-3 * S.dt; c.label("time adapted", moved); c.label("horizon fixed", S.fixedT);
  obey(c, S, R, true);
  });
}

// --------------------------------------------------------------- optimality
// With no weight on the angular momentum the plan minimises a convex quadratic
// function of the forces subject to the constraints.
struct Quad {
  const Scene& S; std::vector<std::array<int, 2>> idx; int n = 0; int map[4][64]; M A; V b;    // J = |A z + b|^2
  std::vector<double> sw; 
  Quad(const Scene& s) : S(s) {
    for (int e = 0; e < S.nact; e++) for (int t = 0; t < S.N; t++) { map[e][t] = -1; if (S.at(e, t) >= 0) { map[e][t] = n; n += 3; } }
    V r0 = res(V::Zero(n)); A.resize(r0.size(), n); b = r0;
    for (int i = 0; i < n; i++) { V u = V::Unit(n, i); A.col(i) = res(u) - r0; }
  }
  void states(const V& z, std::vector<V3>& x, std::vector<V3>& l) const {
    V3 g(0, 0, -S.grav), X = S.ini.centerOfMass(), L = S.ini.linearMomentum(); x.clear(); l.clear();
    for (int t = 0; t < S.N; t++) {
      V3 F = t == 0 ? S.ext : V3(V3::Zero()); for (int e = 0; e < S.nact; e++) if (map[e][t] >= 0) F += z.segment<3>(map[e][t]);
      L += S.dt * (S.mass * g + S.mg() * F); X += S.dt / S.mass * L; x.push_back(X); l.push_back(L);
    }
  }
  V res(const V& z) const {
    std::vector<V3> x, l; states(z, x, l); std::vector<double> r; const Wt& w = S.w;
    auto add = [&](const V3& ww, const V3& d) { for (int i = 0; i < 3; i++) r.push_back(std::sqrt(ww[i]) * d[i]); };
    for (auto& v : S.via) add(w.via, x[(int)(v[0] / S.dt)] - V3(v.tail(3)));
    for (int t = 0; t < S.N; t++) {
      if (t == S.N - 1) { add(w.com, x[t] - S.ini.centerOfMass() - S.disp); add(w.lf, l[t] - S.kl[t]); }
      else add(S.track ? w.tl : w.lmom, l[t] - S.kl[t]);
      if (S.track) add(w.tcom, x[t] - S.kc[t]);
      add(w.lmomd, (l[t] - (t ? l[t - 1] : V3(S.ini.linearMomentum()))) / S.dt);
      for (int e = 0; e < S.nact; e++) if (map[e][t] >= 0) {
        V3 f = z.segment<3>(map[e][t]);
        add(e < 2 ? w.frl : w.fra, f);
        V3 nx = t == S.N - 1 ? f : map[e][t + 1] >= 0 ? V3(z.segment<3>(map[e][t + 1])) : V3(V3::Zero());
        V3 pv = t == 0 ? V3(S.ini.endeffectorForce(e)) : map[e][t - 1] >= 0 ? V3(z.segment<3>(map[e][t - 1])) : V3(V3::Zero());
        add(e < 2 ? w.dfl : w.dfa, nx - f); add(e < 2 ? w.dfl : w.dfa, f - pv);
      }
    }
    V o(r.size()); for (size_t i = 0; i < r.size(); i++) o[i] = r[i]; return o;
  }
  double J(const V& z) const { return (A * z + b).squaredNorm(); }
  V grad(const V& z) const { return 2 * A.transpose() * (A * z + b); }
  V pack(const std::vector<DynamicsState>& q) const { V z(n); for (int e = 0; e < S.nact; e++) for (int t = 0; t < S.N; t++) if (map[e][t] >= 0) z.segment<3>(map[e][t]) = q[t].endeffectorForce(e); return z; }
  // smallest room left by the constraints, with the centres of pressure of a plan
  double room(const V& z, const std::vector<DynamicsState>& q) const {
    std::vector<V3> x, l; states(z, x, l); double r = 1e9;
    double hz = S.at(0, 0) >= 0 ? S.cn[0][S.at(0, 0)].p.z() : S.ini.endeffectorPosition(0).z();
    for (int t = 0; t < S.N; t++) {
      r = std::min(r, x[t].z() - hz - S.minh);
      for (int e = 0; e < S.nact; e++) if (map[e][t] >= 0) {
        const Scene::C& C = S.cn[e][S.at(e, t)]; Eigen::Matrix3d R = C.q.toRotationMatrix(); V3 cp = q[t].endeffectorCoP(e);
        r = std::min(r, S.len[e] - (C.p - x[t] + R.col(0) * cp[0] + R.col(1) * cp[1] - S.off[e]).norm());
        if (C.type != 2) { V3 f = R.transpose() * z.segment<3>(map[e][t]); r = std::min(r, S.mu * f[2] - (S.linear ? 0.70710678 * (std::abs(f[0]) + std::abs(f[1])) : std::hypot(f[0], f[1]))); }
      }
    }
    return r;
  }
};

PBT_PROP(optimal_forces) {
  Scene S0 = scene(s, c, false);
  confirm(c, S0, [&](const Scene& S) {
  Quad q(S); c.discard_if(q.n == 0);
  Run R = run(S);
  V u = q.A.householderQr().solve(-q.b);
  { std::vector<DynamicsState> still(S.N); for (auto& d : still) for (int e = 0; e < 4; e++) d.endeffectorCoP(e) = V3::Zero();
    bool ok = q.room(u, still) > 0.02; c.label("plainly feasible", ok);
    bool inf = R.code == solver::ExitCode::PrimalInf || R.code == solver::ExitCode::PrimalInfInacc || R.code == solver::ExitCode::DualInf || R.code == solver::ExitCode::DualInfInacc;
    PBT_CHECK(c, !ok || !inf, "infeasible", "a feasible problem is reported infeasible or unbounded (" << (int)R.code << ")"); }
  c.label("not optimal", !good(R)); if (!good(R)) return;
  V z = q.pack(R.seq); double J = q.J(z); V g = q.grad(z);
  double Ju = q.J(u), scale = 1 + q.b.squaredNorm() * 1e-3 + J;
  double tol = 1e-2 * scale;
  PBT_CHECK(c, J >= Ju - tol, "below-minimum", "cost " << J << " below the smallest possible " << Ju);
  double m = q.room(u, R.seq);
  stat("below", (Ju - J) / scale); if (m > 1e-3) stat("above", (J - Ju) / scale);
  if (m > 1e-3) { c.label("unconstrained"); c.nontrivial = true; PBT_CHECK(c, J <= Ju + tol, "not-minimal", "forces cost " << J << " although forces within the constraints cost " << Ju); }
  else c.label("constrained");
  for (int t = 0; t < S.N; t++) for (int e = 0; e < S.nact; e++) if (q.map[e][t] >= 0) {
    stat("useless", std::abs(R.seq[t].endeffectorTorque(e)[2]));
    PBT_CHECK(c, (e < 2 ? S.w.trql : S.w.trqa) * std::pow(R.seq[t].endeffectorTorque(e)[2], 2) <= 1e-2 + 1e-2 * tol, "useless-torque", "torque " << R.seq[t].endeffectorTorque(e)[2] << " of effector " << e << " at step " << t << " serves no objective");
  }
  // moves that stay within the constraints do not lower the cost
  int moved = 0;
  for (int k = 0; k < 24; k++) {
    V d = -g; int mode = s.integer(0, 5);
    if (mode == 1) { V r = s.uvec(q.n, -1, 1); d = r * g.norm(); }
    if (mode >= 2) for (int e = 0; e < S.nact; e++) for (int t = 0; t < S.N; t++) if (q.map[e][t] >= 0) for (int a = 0; a < 3; a++) if (mode == 2 ? s.boolean() : mode == 3 ? a == 2 : mode == 4 ? a < 2 : s.chance(0.8)) d[q.map[e][t] + a] = 0;
    if (mode == 2 && g.dot(d) > 0) d = -d;
    if (d.norm() < 1e-12) continue;
    double al = 1.0 / d.cwiseAbs().maxCoeff(), curv = (q.A * d).squaredNorm();
    al = std::min(al, curv > 0 ? std::max(0.0, -g.dot(d)) / (2 * curv) : al);
    for (int i = 0; i < 30 && q.room(z + al * d, R.seq) < 0; i++) al *= 0.5;
    if (q.room(z + al * d, R.seq) < 0) continue;
    moved++; double Jn = q.J(z + al * d); stat("impr", (J - Jn) / scale);
    PBT_CHECK(c, Jn >= J - tol, "improvable", "other forces within the constraints cost " << Jn << " instead of " << J);
  }
  c.label("moves tried", moved > 0); if (moved > 3) c.nontrivial = true;
  // a plan for other weights satisfies the same constraints
  if (s.chance(0.5)) {
    Scene P = S; double f = s.logreal(0.01, 100); P.w.com *= f; P.w.lf *= s.logreal(0.01, 100); P.w.frl = wv(s, 1, 1e3, 0); P.w.lmom = wv(s, 1e-2, 10); P.disp += 0.05 * v3(s, -1, 1);
    Run O = run(P); if (good(O)) { c.label("other weights"); double Jo = q.J(q.pack(O.seq)), lin = g.dot(q.pack(O.seq) - z); (void)Jo; stat("lin", -lin / scale); PBT_CHECK(c, lin >= -5 * tol, "not-stationary", "the cost falls at rate " << lin << " towards another admissible plan (cost " << J << ", there " << Jo << ")"); }
  }
  });
}

// the angular momentum that the weights ask for
static double amom_cost(const Scene& S, const Run& R) {
  double r = 0; const Wt& w = S.w;
  for (int t = 0; t < S.N; t++) {
    V3 a = R.seq[t].angularMomentum(), p = t ? R.seq[t - 1].angularMomentum() : S.ini.angularMomentum();
    V3 ww = t == S.N - 1 ? w.af : S.track ? w.ta : w.amom; V3 d = a - S.ka[t], e = (a - p) / S.dt;
    for (int i = 0; i < 3; i++) r += ww[i] * d[i] * d[i] + w.amomd[i] * e[i] * e[i];
    for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) r += (e < 2 ? w.trql : w.trqa) * std::pow(R.seq[t].endeffectorTorque(e)[2], 2);
  }
  return r;
}
// The planner handles the angular momentum approximately; still, a plan made for
// an objective serves it at least as well as a plan made for another objective.
// Judged over several scenes, because single plans may be unlucky.
PBT_PROP(angular_cost) {
  int kind = s.integer(0, 4), worse = 0, judged = 0, total = 0, unsolved = 0; std::string seen;
  int mode = s.integer(0, 2), axis = s.integer(0, 3); bool soft = s.boolean();
  for (int r = 0; r < 5; r++) {
    Scene S = scene(s, c, true); S.heur = soft ? Heuristic::SoftConstraint : Heuristic::TrustRegion; c.note << "; ";
    V3 rw = V3::Zero(); for (int i = 0; i < 3; i++) if (axis == 3 || i == axis) rw[i] = s.logreal(30, 1e3);
    S.w.af = S.w.amom = S.w.amomd = S.w.ta = V3::Zero();
    if (mode == 0) S.w.af = rw; if (mode == 1) S.w.amom = S.w.ta = rw; if (mode == 2) S.w.amomd = 0.01 * rw;
    double sc = 0.05 * S.mass; for (auto& x : S.ka) x = sc * v3(s, -1, 1);
    Scene P = S; auto turn = [](const V3& x) { return V3(x[1], x[2], x[0]); };
    if (kind == 0) P.w.af = P.w.amom = P.w.amomd = P.w.ta = V3::Zero();
    if (kind == 1) P.w.af = turn(S.w.af), P.w.amom = turn(S.w.amom), P.w.amomd = turn(S.w.amomd), P.w.ta = turn(S.w.ta);
    if (kind == 2) { if (mode == 2) P.w.amomd.setZero(), P.w.amom = P.w.ta = P.w.af = rw; else std::swap(P.w.af, P.track ? P.w.ta : P.w.amom); }
    if (kind == 3) for (auto& x : P.ka) x = -3 * x;
    if (kind == 4) for (size_t k = 0; k < P.ka.size(); k++) P.ka[k] = 3 * turn(S.ka[k]);
    Run R = run(S), O = run(P); unsolved += !good(R) + !good(O);
    if (!good(R) || !good(O)) continue;
    Quad q(S); if (q.n == 0) continue;
    double J = q.J(q.pack(R.seq)) + amom_cost(S, R), Jo = q.J(q.pack(O.seq)) + amom_cost(S, O);
    total++; if (Jo > 1.1 * J + 1) judged++;
    stat(("alt" + std::to_string(kind)).c_str(), J / (Jo + 1));
    if (J > 1.1 * Jo + 1) { worse++; seen += " " + str(J) + " against " + str(Jo); }
  }
  static const char* names[] = {"no weights", "weights of other axes", "weights of other terms", "opposite references", "references of other axes"};
  c.label(names[kind]); c.nontrivial = judged >= 2;
  c.label("unsolved " + std::to_string(unsolved));
  PBT_CHECK(c, unsolved < 9, "not-solved", unsolved << " of 10 ordinary problems are not solved");
  PBT_CHECK(c, worse < 3, "worse-than-other", worse << " of " << total << " plans cost more than plans made for another objective (" << names[kind] << "):" << seen);
}

// ------------------------------------------------------- optimised durations
// largest deviation of the stored motion from the one its forces and durations cause
struct Drift { double com = 0, lmom = 0, amom = 0, moved = 0; };
static Drift drift(const Scene& S, const Run& R) {
  V3 x = S.ini.centerOfMass(), l = S.ini.linearMomentum(), am = S.ini.angularMomentum(); Drift D; double sl = 0.1 * S.mass, sa = 0.1 * S.mass;
  for (int t = 0; t < S.N; t++) {
    auto& d = R.seq[t]; V3 F = V3::Zero(), M = V3::Zero();
    for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) F += S.mg() * V3(d.endeffectorForce(e));
    l += d.time() * (S.mass * V3(0, 0, -S.grav) + F); x += d.time() / S.mass * l;
    for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) {
      auto& C = S.cn[e][S.at(e, t)]; Eigen::Matrix3d r = C.q.toRotationMatrix(); V3 cp = d.endeffectorCoP(e);
      M += (C.p - x + r.col(0) * cp[0] + r.col(1) * cp[1]).cross(S.mg() * V3(d.endeffectorForce(e))) + r.col(2) * d.endeffectorTorque(e)[2];
    }
    am += d.time() * M; sl = std::max(sl, l.norm()); sa = std::max(sa, am.norm());
    D.com = std::max(D.com, (x - V3(d.centerOfMass())).norm()); D.lmom = std::max(D.lmom, (l - V3(d.linearMomentum())).norm()); D.amom = std::max(D.amom, (am - V3(d.angularMomentum())).norm());
    D.moved = std::max(D.moved, std::abs(d.time() / S.dt - 1));
  }
  D.lmom /= sl; D.amom /= sa; return D;
}
static void time_opt(Src& s, Scene& S) { S.heur = Heuristic::TimeOptimization; S.ext.setZero(); S.fixedT = s.boolean(); S.trange = vv({S.dt * s.real(0.5, 0.95), S.dt * s.real(1.05, 1.8)}); S.wt = s.logreal(1, 1e3); S.wtp = s.boolean() ? 0 : s.logreal(1, 1e3); }

// The outer iterations of the time optimisation bring momenta and center of
// mass in line with forces and durations; judged over several plans because
// single ones stop early.
PBT_PROP(timing_consistent) {
  int bad = 0, moved = 0, total = 0, unsolved = 0; std::string seen;
  for (int r = 0; r < 6; r++) {
    Scene S = scene(s, c, false); time_opt(s, S); c.note << "; ";
    Run R = run(S); if (!good(R)) { unsolved++; continue; }
    Drift D = drift(S, R); total++; if (D.moved > 0.02) moved++;
    stat("tc_com", D.com); stat("tc_lmom", D.lmom); stat("tc_amom", D.amom);
    if (D.com > 0.05 || D.lmom > 0.25 || D.amom > 0.25) { bad++; seen += " com " + str(D.com) + " momenta " + str(D.lmom) + " and " + str(D.amom) + " (relative)"; }
  }
  c.nontrivial = moved >= 3;
  PBT_CHECK(c, unsolved < 5, "not-solved", unsolved << " of 6 ordinary problems are not solved");
  PBT_CHECK(c, bad < 4, "motion-of-the-forces", bad << " of " << total << " plans with optimised durations are not the motion their forces cause:" << seen);
}

// With weights on the durations alone, they are known.
PBT_PROP(timing_weights) {
  Scene S = scene(s, c, false); time_opt(s, S); S.wt = s.chance(0.2) ? 0 : s.logreal(0.1, 10); S.wtp = S.wt == 0 || s.boolean() ? s.logreal(0.1, 10) : 0; S.wt *= 1e6; S.wtp *= 1e6;
  for (V3* x : {&S.w.com, &S.w.lmom, &S.w.lmomd, &S.w.frl, &S.w.fra, &S.w.dfl, &S.w.dfa, &S.w.lf, &S.w.tcom, &S.w.tl, &S.w.via}) for (int i = 0; i < 3; i++) (*x)[i] = std::min((*x)[i], 1.0);
  S.minh = 0.1 * S.minh; for (double& x : S.len) x += 0.5; S.ini.linearMomentum() *= 0.2;
  for (int e = 0; e < 2; e++) { while (S.cn[e].size() > 1) S.cn[e].pop_back(); if (S.cn[e].empty()) { Scene::C k; k.type = 0; k.p = S.ini.endeffectorPosition(e); S.cn[e].push_back(k); } S.cn[e][0].a = 0; S.cn[e][0].b = S.N - 1; }

  c.note << " time range " << str(S.trange) << (S.fixedT ? " horizon fixed" : "") << " weights " << S.wt << " " << S.wtp;
  double want = S.fixedT ? S.dt : std::min(std::max(S.wt * S.dt / (S.wt + S.wtp), S.trange[0]), S.trange[1]);
  confirm(c, S, [&](const Scene& S) {
    Run R = run(S); c.label("not optimal", !good(R)); 
    bool inf = R.code == solver::ExitCode::PrimalInf || R.code == solver::ExitCode::PrimalInfInacc || R.code == solver::ExitCode::DualInf || R.code == solver::ExitCode::DualInfInacc;
    PBT_CHECK(c, !inf, "called-infeasible", "standing is answered infeasible or unbounded (code " << (int)R.code << ")");
    if (!good(R)) return;
    c.nontrivial = true; c.label("horizon fixed", S.fixedT); c.label("at the limit", want == S.trange[0]);
    for (auto& d : R.seq) stat("tw", std::abs(d.time() - want) / S.dt);
    for (int t = 0; t < S.N; t++) PBT_CHECK(c, std::abs(R.seq[t].time() - want) < 0.05 * S.dt, "duration", "time step " << t << " lasts " << R.seq[t].time() << ", the weights ask for " << want);
  });
}

// --------------------------------------------------------------- invariance
PBT_PROP(invariance) {
  Scene S0 = scene(s, c, false), X0; int mode = s.integer(0, 2); Eigen::Matrix3d Z = Eigen::Matrix3d::Identity(); V3 by = V3::Zero();
  if (mode == 0) { by = v3(s, -5, 5); c.label("moved"); }
  else if (mode == 1) { Z << 0, -1, 0, 1, 0, 0, 0, 0, 1; c.label("turned"); }
  else { c.label("used before"); c.note << " | before: "; X0 = scene(s, c, s.boolean()); }
  auto P3 = [&](const V3& x) { return V3(Z * x + by); }; auto R3 = [&](const V3& x) { return V3(Z * x); }; auto W3 = [&](const V3& x) { return V3(Z.cwiseAbs() * x); };
  confirm(c, S0, [&](const Scene& S) {
  Scene P = S;
  P.ini.centerOfMass() = P3(S.ini.centerOfMass()); P.ini.linearMomentum() = R3(S.ini.linearMomentum()); P.ini.angularMomentum() = R3(S.ini.angularMomentum()); P.disp = R3(S.disp); P.ext = R3(S.ext);
  Q zq(Z);
  for (int e = 0; e < 4; e++) { P.off[e] = R3(S.off[e]); P.ini.endeffectorPosition(e) = P3(S.ini.endeffectorPosition(e)); P.ini.endeffectorForce(e) = R3(S.ini.endeffectorForce(e)); for (auto& k : P.cn[e]) { k.p = P3(k.p); k.q = zq * k.q; } }
  for (auto& v : P.via) { V3 x = P3(V3(v.tail(3))); v.tail(3) = x; }
  for (int t = 0; t < S.N; t++) { P.kc[t] = P3(S.kc[t]); P.kl[t] = R3(S.kl[t]); P.ka[t] = R3(S.ka[t]); }
  for (V3 Wt::*m : {&Wt::com, &Wt::lmom, &Wt::lmomd, &Wt::frl, &Wt::fra, &Wt::dfl, &Wt::dfa, &Wt::lf, &Wt::via, &Wt::tcom, &Wt::tl}) P.w.*m = W3(S.w.*m);
  Run A = run(S); DynamicsOptimizer o; if (mode == 2) run(X0, &o);
  Run B = run(P, &o);
  c.label("not optimal", !good(A)); if (!good(A) || !good(B)) { c.label("differs in outcome", good(A) != good(B)); return; }
  c.nontrivial = true;
  Quad q(S); V za = q.pack(A.seq), zb(q.n);
  for (int e = 0; e < S.nact; e++) for (int t = 0; t < S.N; t++) if (q.map[e][t] >= 0) zb.segment<3>(q.map[e][t]) = Z.transpose() * B.seq[t].endeffectorForce(e);
  double scale = 1 + q.b.squaredNorm() * 1e-3 + q.J(za);
  stat("inv", std::abs(q.J(za) - q.J(zb)) / scale);
  PBT_CHECK(c, std::abs(q.J(za) - q.J(zb)) <= 1e-2 * scale, "cost", "cost " << q.J(zb) << " after the move instead of " << q.J(za));
  // the minimum is unique: as close as the curvature of the cost demands
  double lmin = (q.A.transpose() * q.A).selfadjointView<Eigen::Lower>().eigenvalues().minCoeff();
  PBT_CHECK(c, lmin * (za - zb).squaredNorm() <= 2e-2 * scale, "forces", "forces differ by " << (za - zb).norm() << " after the move");
  });
}

// ------------------------------------------------------------- what is saved
PBT_PROP(saved) {
  Scene S = scene(s, c, s.boolean()); int nd = s.integer(1, 4);
  if (s.chance(0.3)) { S.heur = Heuristic::TimeOptimization; S.ext.setZero(); S.trange = vv({0.7 * S.dt, 1.4 * S.dt}); c.label("time optimised"); }
  Tmp tmp; std::string cf = cfg_text(S);
  for (auto p = cf.find("store_data: false"); p != std::string::npos; p = std::string::npos) cf.replace(p, 17, "store_data: true");
  cf += "contact_plan:\n  marker: 17\n";
  put(tmp.file(), cf); PlannerSetting st; st.initialize(tmp.file());
  st.get(PlannerStringParam_SaveDynamicsFile) = tmp.file("/dyn.yaml"); st.get(PlannerIntParam_NumExtendedActiveDofs) = s.boolean() ? nd + 6 : s.integer(6, 10);
  Plan plan; fill(plan, S, st); KinematicsSequence k; k.resize(S.N, nd);
  for (int t = 0; t < S.N; t++) { auto& q = k.kinematicsState(t); q.centerOfMass() = S.kc[t]; q.linearMomentum() = S.kl[t]; q.angularMomentum() = S.ka[t]; q.robotVelocity().generalizedJointVelocities() = s.vec(nd + 6, -2, 2); q.robotAcceleration().generalizedJointAccelerations() = s.vec(nd + 6, -2, 2); }
  DynamicsOptimizer o; o.initialize(st); solver::ExitCode code = o.optimize(S.ini, &plan, k, S.track); (void)code;
  c.label("not optimal", code != solver::ExitCode::Optimal);
  YAML::Node n = YAML::LoadFile(tmp.file("/dyn.yaml")); YAML::Node d = n["dynopt_params"];
  PBT_CHECK(c, n["contact_plan"]["marker"].as<int>() == 17, "plan", "the contact plan of the configuration is not in the file");
  auto num1 = [&](const char* key, double want) { PBT_CHECK(c, close(d[key].as<double>(), want, 1e-6), key, key << " is " << d[key].as<double>() << " instead of " << want); };
  num1("time_step", S.dt); num1("robot_mass", S.mass); num1("n_act_eefs", S.nact); num1("time_horizon", S.N * S.dt);
  auto mat = [&](const std::string& key, const M& want) { M have; bool ok = !!d[key]; if (ok) have = d[key].as<M>(); PBT_CHECK(c, ok && mclose(have, want, 1e-5), key, key << " is " << str(have) << " instead of " << str(want)); };
  auto col = [&](std::function<V(int)> f) { M m(f(0).size(), S.N); for (int t = 0; t < S.N; t++) m.col(t) = f(t); return m; };
  const DynamicsSequence& q = o.dynamicsSequence();
  { V v = d["ini_com"].as<V>(); PBT_CHECK(c, mclose(v, V(S.ini.centerOfMass()), 1e-5), "ini_com", "ini_com is " << str(v)); v = d["end_com"].as<V>(); PBT_CHECK(c, mclose(v, V(S.ini.centerOfMass() + S.disp), 1e-5), "end_com", "end_com is " << str(v)); }
  mat("com_motion", col([&](int t) { return V(q.dynamicsState(t).centerOfMass()); })); mat("lin_mom", col([&](int t) { return V(q.dynamicsState(t).linearMomentum()); })); mat("ang_mom", col([&](int t) { return V(q.dynamicsState(t).angularMomentum()); }));
  mat("com_motion_ref", col([&](int t) { return V(S.kc[t]); })); mat("lin_mom_ref", col([&](int t) { return V(S.kl[t]); })); mat("ang_mom_ref", col([&](int t) { return V(S.ka[t]); }));
  { double T = 0; M m(1, S.N); for (int t = 0; t < S.N; t++) m(0, t) = T += q.dynamicsState(t).time(); mat("time_vec", m); }
  mat("jnt_vel", col([&](int t) { return V(k.kinematicsState(t).robotVelocity().generalizedJointVelocities()); })); mat("jnt_acc", col([&](int t) { return V(k.kinematicsState(t).robotAcceleration().generalizedJointAccelerations()); }));
  for (int e = 0; e < S.nact; e++) {
    int on = 0; for (int t = 0; t < S.N; t++) on += S.at(e, t) >= 0; if (on) c.nontrivial = true;
    mat("eef_frc_" + std::to_string(e), col([&](int t) { return S.at(e, t) >= 0 ? V(q.dynamicsState(t).endeffectorForce(e)) : V(V::Zero(3)); }));
    mat("eef_trq_" + std::to_string(e), col([&](int t) { return V(V::Constant(1, S.at(e, t) >= 0 ? q.dynamicsState(t).endeffectorTorque(e).z() : 0.0)); }));
    if (on) { M m(2, on); int i = 0; for (int t = 0; t < S.N; t++) if (S.at(e, t) >= 0) m.col(i++) = q.dynamicsState(t).endeffectorCoP(e).head(2); mat("eef_cop_" + std::to_string(e), m); }
  }
}

// ----------------------------------------------------------------- feedback
// user parameters are given in this order
static const char* fbk[] = {"control_cost", "com_tracking", "lmom_tracking", "amom_tracking", "com_final_tracking", "lmom_final_tracking", "amom_final_tracking"};
PBT_PROP(feedback) {
  Scene S = scene(s, c, false); S.dt = 0.125; S.mass = s.real(1, 10); int nu = 3 * S.nact;
  Tmp tmp; put(tmp.file(), cfg_text(S)); PlannerSetting st; st.initialize(tmp.file());
  V w[7]; for (int i = 0; i < 7; i++) { w[i] = V(3); for (int k = 0; k < 3; k++) w[i][k] = s.logreal(i ? 1e-1 : 1e-2, i ? 1e2 : 1); }
  std::string y = "solverlqr_variables:\n  verbosity: 0\n  sensitivity: 1.0\n  decimal_digits: 4\n  lqr_max_iters: 60\n  linesearch_coeff: 1.1\n  linesearch_num_coeffs: 10\n"
    "  cost_change_tolerance: 1.0e-10\n  divergence_limit_check: 1.0e6\n  bpass_regularization_type: 2\n  bpass_min_regularization: 1.0e-6\n  bpass_max_regularization: 1.0e10\n"
    "  control_gradient_tolerance: 1.0e-9\n  bpass_initial_regularization: 0.1\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: 1.2\n  bpass_initial_mult_regularization_incr: 1.0\n";
  int off = s.chance(0.1) ? s.pick({-1, 1}) : 0;
  y += "  time_step: " + num(S.dt) + "\n  time_horizon: " + num((S.N + off) * S.dt) + "\n  state_dimension: 9\n  control_dimension: " + std::to_string(nu) + "\n  initial_state: " + seq(V::Zero(9)) + "\n  has_control_limits: false\n  store_data: false\n  user_parameters:\n";
  for (int i = 0; i < 7; i++) y += std::string("    ") + fbk[i] + ": " + seq(w[i]) + "\n";
  put(tmp.file("/other.yaml"), y);
  solverlqr::SolverLqrSetting lq; lq.initialize(tmp.file("/other.yaml"));
  Plan plan; fill(plan, S, st); DynamicsSequence q; q.resize(S.N); plan.fillDynamicsSequence(S.ini, q);
  for (int t = 0; t < S.N; t++) {
    DynamicsState& d = q.dynamicsState(t); d.time() = s.boolean() ? S.dt : s.real(0.02, 0.3); d.centerOfMass() = v3(s, -1, 1); d.linearMomentum() = v3(s, -5, 5); d.angularMomentum() = v3(s, -5, 5);
    for (int e = 0; e < 4; e++) d.endeffectorForce(e) = v3(s, -1, 1);
  }
  DynamicsFeedback fb; fb.initialize(lq); fb.setPlannerSetting(st); solverlqr::OcpBase& ocp = fb;
  if (off) {
    bool thrown = false; try { fb.setStatesAndControls(S.ini, q); } catch (const std::runtime_error&) { thrown = true; }
    c.label("sizes differ"); PBT_CHECK(c, thrown, "sizes", "a plan of " << S.N << " steps is accepted for " << S.N + off << " steps of feedback"); return;
  }
  fb.setStatesAndControls(S.ini, q);
  V x0(9); x0 << S.ini.centerOfMass(), S.ini.linearMomentum(), S.ini.angularMomentum();
  PBT_CHECK(c, mclose(ocp.stateSeq().state(0).stateVector(), x0, 1e-12), "start", "the initial state is " << str(V(ocp.stateSeq().state(0).stateVector())));
  for (int t = 0; t < S.N; t++) for (int e = 0; e < S.nact; e++) {
    V3 want = S.at(e, t) >= 0 ? V3(S.mg() * q.dynamicsState(t).endeffectorForce(e)) : V3(V3::Zero());
    PBT_CHECK(c, (ocp.controlSeq().control(t).feedforward().segment<3>(3 * e) - want).norm() <= 1e-9 * (1 + want.norm()), "controls", "control of effector " << e << " at step " << t << " is " << str(V(ocp.controlSeq().control(t).feedforward())));
  }
  c.nontrivial = true;
  auto dyn = [&](const V& x, const V& u, int t) {
    const DynamicsState& d = q.dynamicsState(t); V dx(9); V3 F = V3::Zero(), A = V3::Zero();
    for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) F += u.segment<3>(3 * e);
    dx.segment<3>(3) = d.time() * (S.mass * V3(0, 0, -S.grav) + F); dx.head(3) = d.time() / S.mass * (x.segment<3>(3) + dx.segment<3>(3));
    for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) A += (S.cn[e][S.at(e, t)].p - V3(x.head(3) + dx.head(3))).cross(V3(u.segment<3>(3 * e)));
    dx.tail(3) = d.time() * A; return dx;
  };
  auto cost = [&](const V& x, const V& u, int t, bool fin) {
    double r = 0; if (!fin) for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) for (int k = 0; k < 3; k++) r += w[0][k] * u[3 * e + k] * u[3 * e + k];
    const DynamicsState& d = q.dynamicsState(t > 0 ? t - 1 : 0); V ref(9); ref << d.centerOfMass(), d.linearMomentum(), d.angularMomentum();
    for (int i = 0; i < 9; i++) r += w[(fin ? 4 : 1) + i / 3][i % 3] * std::pow(x[i] - ref[i], 2);
    return r;
  };
  for (int k = 0; k < 6; k++) {
    int t = s.integer(0, S.N - 1); bool fin = s.chance(0.3); V x = s.uvec(9, -3, 3), u = s.uvec(nu, -20, 20);
    solverlqr::StateBase sx(9); sx.stateVector() = x; solverlqr::ControlBase su(9, nu); su.feedforward() = u;
    PBT_CHECK(c, mclose(ocp.dynamics(sx, su, t).stateVector(), dyn(x, u, t), 1e-9), "dynamics", "the state changes by " << str(V(ocp.dynamics(sx, su, t).stateVector())) << " instead of " << str(dyn(x, u, t)));
    if (fin) { t = S.N; u.setZero(); su.feedforward() = u; }
    PBT_CHECK(c, close(ocp.objective(sx, su, t, fin), cost(x, u, t, fin), 1e-9), "objective", "cost " << ocp.objective(sx, su, t, fin) << " instead of " << cost(x, u, t, fin) << " at step " << t << (fin ? " (final)" : ""));
  }
  if (!s.chance(0.3)) return;
  // the wrapper returns the gains of the solver on this problem
  c.label("gains");
  solverlqr::SolverLqr own; own.initialize(&fb, lq); own.optimize();
  DynamicsFeedbackWrapper W; solverlqr::SolverLqrSetting lq2; lq2.initialize(tmp.file("/other.yaml")); W.initialize(lq2, st); W.optimize(S.ini, q);
  for (int t = -2; t < S.N + 2; t++) {
    int k = std::min(std::max(t, 0), S.N - 1);
    PBT_CHECK(c, mclose(W.forceGain(t), ocp.controlSeq().control(k).feedback(), 1e-9), "gain", "gain " << str(M(W.forceGain(t))) << " at step " << t << " instead of " << str(M(ocp.controlSeq().control(k).feedback())));
  }
  // what the solver returns is a roll-out that costs no more than the plan's forces
  double J0 = 0, J1 = 0; V x = x0, z = x0;
  for (int t = 0; t < S.N; t++) {
    V u = V::Zero(nu); for (int e = 0; e < S.nact; e++) if (S.at(e, t) >= 0) u.segment<3>(3 * e) = S.mg() * q.dynamicsState(t).endeffectorForce(e);
    V v = ocp.controlSeq().control(t).feedforward();
    J0 += cost(x, u, t, false); x += dyn(x, u, t); J1 += cost(z, v, t, false); z += dyn(z, v, t);
    PBT_CHECK(c, mclose(ocp.stateSeq().state(t + 1).stateVector(), z, 1e-5), "roll-out", "the state after step " << t << " is " << str(V(ocp.stateSeq().state(t + 1).stateVector())) << " instead of " << str(z));
  }
  J0 += cost(x, V(), S.N, true); J1 += cost(z, V(), S.N, true);
  PBT_CHECK(c, J1 <= J0 * (1 + 1e-9), "worse", "the feedback solution costs " << J1 << ", the plan " << J0);
}
PBT_MAIN
