#include <cstring>
#include <map>
#include <set>
// momentumopt utilities: orientation, interpolation, terrain, contact plans,
// swings, settings, containers.
#include "mom.hpp"
#include <momentumopt/utilities/OrientationUtils.hpp>
#include <momentumopt/utilities/TrajectoryGenerator.hpp>
#include <momentumopt/cntopt/TerrainDescription.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
using namespace pbt;
using namespace momentumopt;
using namespace mom;

// -------------------------------------------------------------- orientation
// The logarithm is linearised for small rotations (below 0.29 rad), by at most 0.34 %.
static double rtol(double ang) { return (ang < 0.3 ? 4e-3 * ang : 0.0) + 1e-7; }
static Q raw(Src& s, const Q& q) { double f = s.chance(0.3) ? s.logreal(0.1, 10) : 1.0; if (s.boolean()) f = -f; Q r; r.coeffs() = q.coeffs() * f; return r; }
static V3 axis(Src& s) { V3 w = s.uvec(3, -1, 1); return w.norm() < 1e-2 ? V3(0, 0, 1) : V3(w / w.norm()); }

PBT_PROP(orientation) {
  Q qc = quat(s);
  double ang = s.pick({s.real(0, 3.1), s.logreal(1e-6, 0.3), 0.0, s.real(0.2, 0.4)});
  V3 ax = axis(s);
  Q qd = rotexp(ax * ang) * qc;                        // rotated by ang about a world axis
  Q c_in = raw(s, qc), d_in = raw(s, qd);
  double dt = s.logreal(1e-3, 10);
  c.label("large rotation", ang > 0.3); c.label("current far from identity", rotdist(qc, Q::Identity()) > 0.5); c.label("not normalised", std::abs(c_in.norm() - 1) > 1e-6);
  if (ang > 0.01 && rotdist(qc, Q::Identity()) > 0.1) c.nontrivial = true;
  c.note << "current=" << str(V(c_in.coeffs())) << " desired=" << str(V(d_in.coeffs())) << " angle=" << ang << " axis=" << str(V(ax)) << " dt=" << dt;
  double tol = rtol(ang);
  V3 e = orientationError(d_in, c_in);
  PBT_CHECK(c, e.norm() <= M_PI + 1e-6, "long-way", "orientation error of " << e.norm() << " rad is not the shortest rotation");
  PBT_CHECK(c, (e - ax * ang).norm() <= tol || (ang > 3.0 && rotdist(rotexp(e) * qc, qd) <= tol), "error", "orientation error " << str(V(e)) << " instead of " << str(V(ax * ang)));
  V3 w = requiredAngularVelocity(d_in, c_in, dt, false), b = requiredAngularVelocity(d_in, c_in, dt, true);
  PBT_CHECK(c, V3(requiredAngularVelocity(d_in, c_in, dt)) == w, "required-default", "the angular velocity is not in world coordinates unless asked otherwise");
  PBT_CHECK(c, (w * dt - ax * ang).norm() <= tol || ang > 3.0, "required-world", "world angular velocity " << str(V(w)) << " instead of " << str(V(ax * ang / dt)));
  PBT_CHECK(c, (qc.toRotationMatrix() * b - w).norm() * dt <= 2 * tol || ang > 3.0, "required-body", "body angular velocity " << str(V(b)) << " is not the world one " << str(V(w)) << " seen from the body");
  PBT_CHECK(c, rotdist(rotexp(w * dt) * qc, qd) <= tol, "reaches-world", "rotating with the world velocity misses the desired orientation by " << rotdist(rotexp(w * dt) * qc, qd));
  PBT_CHECK(c, rotdist(qc * rotexp(b * dt), qd) <= tol, "reaches-body", "rotating with the body velocity misses the desired orientation");
  // integration
  V3 v = axis(s) * s.pick({s.real(0, 6), s.logreal(1e-5, 0.1), 0.0}) / dt;
  Q iw = integrateAngularVelocity(c_in, v, dt, false), ib = integrateAngularVelocity(c_in, v, dt, true);
  c.note << " velocity=" << str(V(v));
  PBT_CHECK(c, rotdist(integrateAngularVelocity(c_in, v, dt), iw) < 1e-7, "integrate-default", "the angular velocity is not in world coordinates unless told otherwise");
  PBT_CHECK(c, std::abs(iw.norm() - 1) < 1e-9 && std::abs(ib.norm() - 1) < 1e-9, "unit", "integration returns a quaternion of norm " << iw.norm() << ", " << ib.norm());
  PBT_CHECK(c, rotdist(iw, rotexp(v * dt) * qc) < 1e-6, "integrate-world", "integration in world coordinates is off by " << rotdist(iw, rotexp(v * dt) * qc) << " rad");
  PBT_CHECK(c, rotdist(ib, qc * rotexp(v * dt)) < 1e-6, "integrate-body", "integration in body coordinates is off by " << rotdist(ib, qc * rotexp(v * dt)) << " rad");
  PBT_CHECK(c, rotdist(integrateAngularVelocity(c_in, w, dt, false), qd) <= tol + 1e-6 && rotdist(integrateAngularVelocity(c_in, b, dt, true), qd) <= tol + 1e-6,
            "round-trip", "integrating the required angular velocity misses the desired orientation");
}

// ------------------------------------------------------------ interpolation
static double start_time(Src& s) { return s.pick({0.0, s.real(-5, 5), s.real(0, 60), s.integer(0, 40) * 0.1}); }
PBT_PROP(interpolation) {
  int np = s.integer(1, 3);
  double t0 = start_time(s), span = s.logreal(0.2, 5);
  if (s.chance(0.1)) t0 = -span;                       // time zero at the end
  std::vector<double> ts(np); double acc = 0;
  std::vector<double> gap(np, 0); for (int i = 1; i < np; i++) { gap[i] = s.real(0.3, 1); acc += gap[i]; }
  double a = 0; for (int i = 0; i < np; i++) { a += gap[i]; ts[i] = np == 1 ? t0 : t0 + span * a / acc; }
  if (np == 1) span = 1;
  std::vector<int> perm = s.perm(np);
  std::vector<int> vi, ai;
  for (int i = 0; i < np; i++) if (s.boolean()) vi.push_back(i);
  if (vi.empty()) vi.push_back(s.integer(0, np - 1));
  for (int i : vi) if (s.boolean()) ai.push_back(i);
  if (ai.empty()) ai.push_back(vi[0]);
  Interpolator::InterpMat P(np, 2), W(vi.size(), 2), A(ai.size(), 2);
  std::vector<Poly::Cond> cs; double size = 0;
  double inv = 1 / span;
  for (int i = 0; i < np; i++) { int j = perm[i]; P(i, 0) = ts[j]; P(i, 1) = s.real(-2, 2); cs.push_back({0, P(i, 0), P(i, 1)}); }
  for (size_t i = 0; i < vi.size(); i++) { W(i, 0) = ts[vi[i]]; W(i, 1) = s.real(-2, 2) * inv; cs.push_back({1, W(i, 0), W(i, 1)}); }
  for (size_t i = 0; i < ai.size(); i++) { A(i, 0) = ts[ai[i]]; A(i, 1) = s.real(-2, 2) * inv * inv; cs.push_back({2, A(i, 0), A(i, 1)}); }
  c.note << "positions=" << str(M(P)) << " velocities=" << str(M(W)) << " accelerations=" << str(M(A));
  double lo = *std::min_element(ts.begin(), ts.end()), hi = *std::max_element(ts.begin(), ts.end());
  if (np > 1 && s.chance(0.4)) {                       // velocities and accelerations at times of their own
    auto other = [&](Interpolator::InterpMat& X, int kind, size_t at) {
      int i = s.integer(0, X.rows() - 1); double t = s.chance(0.5) ? hi + span * s.real(0.1, 0.6) : s.chance(0.5) ? lo - span * s.real(0.1, 0.6) : s.uniform(lo, hi);
      X(i, 0) = t; cs[at + i].t = t; (void)kind;
    };
    int which = s.integer(0, 2);
    if (which != 1) other(W, 1, np);
    if (which != 0) other(A, 2, np + vi.size());
    for (auto& x : cs) { lo = std::min(lo, x.t); hi = std::max(hi, x.t); }
    c.discard_if(Poly(cs).rcond < 3e-3);               // (nearly) more than one polynomial, or none
    c.note << " moved: velocities=" << str(M(W)) << " accelerations=" << str(M(A));
    c.label("derivatives at other times"); c.label("outermost time without position", hi > *std::max_element(ts.begin(), ts.end()));
  }
  Interpolator I; 
  if (s.chance(0.3)) { Interpolator::InterpMat X(1, 2), Y(1, 2), Z(1, 2); X << 3, 1; Y << 3, 1; Z << 3, 2; I.initialize(X, Y, Z); c.label("initialised again"); }
  I.initialize(P, W, A);
  c.label("late", lo > 5); c.label("time zero inside", lo <= 0 && hi >= 0); c.label("one instant", np == 1);
  if (np >= 2) c.nontrivial = true;
  Poly::Cond z{0, 0, 0}; (void)z;
  if (np == 1) { // all conditions at one instant
    double p, v, q; I.interpolate(t0 + s.real(-1, 1), p, v, q);
    PBT_CHECK(c, close(p, P(0, 1), 1e-9) && close(v, W(0, 1), 1e-9) && close(q, A(0, 1), 1e-9), "instant", "at the only instant: " << p << ", " << v << ", " << q);
    return;
  }
  Poly ref(cs); double sz = 1 + ref.size();
  std::vector<double> qs = {lo, hi, lo - 1, hi + 1, 0.0, s.real(lo, hi), s.real(lo, hi)};
  for (double t : ts) qs.push_back(t);
  for (double t : qs) {
    double p, v, q; I.interpolate(t, p, v, q);
    double tc = std::min(std::max(t, lo), hi);
    PBT_CHECK(c, std::abs(p - ref.at(tc, 0)) <= 1e-5 * sz, "position", "position " << p << " at " << t << " instead of " << ref.at(tc, 0));
    PBT_CHECK(c, std::abs(v - ref.at(tc, 1)) * span <= 1e-4 * sz, "velocity", "velocity " << v << " at " << t << " instead of " << ref.at(tc, 1));
    PBT_CHECK(c, std::abs(q - ref.at(tc, 2)) * span * span <= 1e-3 * sz, "acceleration", "acceleration " << q << " at " << t << " instead of " << ref.at(tc, 2));
  }
}

PBT_PROP(trajectory) {
  double ti = start_time(s), te = ti + s.logreal(0.05, 3);
  if (s.chance(0.1)) { te = 0; ti = -s.logreal(0.1, 3); }
  V3 a = v3(s, -2, 2), b = v3(s, -2, 2), m = v3(s, -2, 2);
  TrajectoryGenerator T;
  if (s.boolean()) T.initialize(0.3, b, 1.4, a, m), c.label("initialised again");
  T.initialize(ti, a, te, b, m);
  c.note << "from " << str(V(a)) << " at " << ti << " via " << str(V(m)) << " to " << str(V(b)) << " at " << te;
  c.label("late", ti > 5); c.nontrivial = (a - b).norm() > 0.1 && (m - 0.5 * (a + b)).norm() > 0.1;
  double h = te - ti;
  auto look = [&](double t, const V3& p, const V3* v, const V3* q, const char* w) {
    T.update(t);
    PBT_CHECK(c, (T.desPos() - p).norm() <= 1e-6, w, "position " << str(V(T.desPos())) << " at " << t << " instead of " << str(V(p)));
    if (v) PBT_CHECK(c, (T.desVel() - *v).norm() * h <= 1e-5, w, "velocity " << str(V(T.desVel())) << " at " << t << " instead of " << str(V(*v)));
    if (q) PBT_CHECK(c, (T.desAcc() - *q).norm() * h * h <= 1e-4, w, "acceleration " << str(V(T.desAcc())) << " at " << t << " instead of " << str(V(*q)));
  };
  V3 o = V3::Zero();
  look(ti, a, &o, &o, "start"); look(te, b, &o, &o, "end"); look(0.5 * (ti + te), m, 0, 0, "via");
  look(ti - s.real(0, 2), a, &o, &o, "before"); look(te + s.real(0, 2), b, &o, &o, "after");
  for (int k = 0; k < 3; k++) {
    double t = s.uniform(ti, te); V3 p, v, q;
    for (int d = 0; d < 3; d++) {
      Poly ref({{0, ti, a[d]}, {0, 0.5 * (ti + te), m[d]}, {0, te, b[d]}, {1, ti, 0}, {1, te, 0}, {2, ti, 0}, {2, te, 0}});
      p[d] = ref.at(t, 0); v[d] = ref.at(t, 1); q[d] = ref.at(t, 2);
    }
    look(t, p, &v, &q, "between");
  }
}

// ------------------------------------------------------------------ terrain
PBT_PROP(terrain) {
  Tmp tmp; TerrainDescription T;
  int regions = s.integer(1, 3);
  std::vector<Eigen::Matrix<double, -1, 3>> vs; std::vector<bool> rect; std::vector<V3> nrm;
  for (int r = 0; r < regions; r++) {
    Q q = quat(s); V3 o = v3(s, -3, 3);
    int k; std::vector<Eigen::Vector2d> p;
    bool isr = s.chance(0.5); double ra = s.logreal(0.1, 5), rb = s.logreal(0.1, 5);
    if (isr) { k = 4; p = {{ra, rb}, {-ra, rb}, {-ra, -rb}, {ra, -rb}}; int rot = s.integer(0, 3); std::rotate(p.begin(), p.begin() + rot, p.end()); }
    else {
      k = s.integer(3, 8); double sum = 0; std::vector<double> g(k); for (double& x : g) { x = s.real(0.5, 1); sum += x; }
      double t = s.real(0, 6); for (int i = 0; i < k; i++) { t += g[i] / sum * 2 * M_PI; p.push_back({ra * std::cos(t), rb * std::sin(t)}); }
    }
    Eigen::Matrix<double, -1, 3> v(k, 3);
    for (int i = 0; i < k; i++) v.row(i) = (o + q * V3(p[i][0], p[i][1], 0)).transpose();
    vs.push_back(v); rect.push_back(isr); nrm.push_back(q * V3(0, 0, 1));
    c.note << "region " << r << "=" << str(M(v)) << " ";
  }
  int direct = s.integer(0, regions);
  for (int r = 0; r < direct; r++) T.addTerrainRegion(vs[r]);
  if (direct < regions) {
    std::string y = "terrain_description:\n  regions: [";
    for (int r = direct; r < regions; r++) { y += r > direct ? ", [" : "["; for (int i = 0; i < vs[r].rows(); i++) y += (i ? ", " : "") + seq(vs[r].row(i).transpose()); y += "]"; }
    put(tmp.file(), y + "]\n"); T.loadFromFile(tmp.file()); c.label("from file");
  }
  PBT_CHECK(c, T.numRegions() == regions, "count", T.numRegions() << " regions instead of " << regions);
  for (int r = 0; r < regions; r++) {
    const TerrainRegion& g = T.terrainRegion(r);
    const Eigen::Matrix<double, -1, 3>& v = vs[r]; int k = v.rows(); double sz = 1 + v.cwiseAbs().maxCoeff();
    if (k >= 4) c.nontrivial = true;
    PBT_CHECK(c, g.terrainId() == r, "id", "region " << r << " has id " << g.terrainId());
    V3 cen = v.colwise().mean().transpose();
    PBT_CHECK(c, (g.pointOnTerrain() - cen).norm() < 1e-9 * sz, "point", "point " << str(V(g.pointOnTerrain())) << " is not the centre " << str(V(cen)));
    PBT_CHECK(c, std::abs(g.normalToTerrain().norm() - 1) < 1e-9 && g.normalToTerrain().cross(nrm[r]).norm() < 1e-7, "normal", "normal " << str(V(g.normalToTerrain())) << " of a plane with normal " << str(V(nrm[r])));
    const M A = g.terrainDescriptionMatrix(); const V b = g.terrainDescriptionVector();
    PBT_CHECK(c, A.rows() == k && b.size() == k, "shape", "half-spaces " << A.rows() << ", " << b.size());
    for (int i = 0; i < k; i++) {
      PBT_CHECK(c, std::abs(A.row(i).norm() - 1) < 1e-9, "unit", "half-space " << i << " is not normalised");
      PBT_CHECK(c, std::abs(A.row(i).dot(nrm[r])) < 1e-7, "in-plane", "half-space " << i << " is not perpendicular to the terrain");
    }
    // inside: combinations of the vertices
    for (int t = 0; t < 3; t++) {
      V w(k); for (int i = 0; i < k; i++) w[i] = s.real(0, 1) + 1e-3; w /= w.sum();
      V3 x = v.transpose() * w; V d = A * x - b;
      PBT_CHECK(c, d.maxCoeff() < 1e-9 * sz, "inside", "a point of the region violates a half-space by " << d.maxCoeff());
    }
    // outside: beyond an edge
    for (int i = 0; i < k; i++) {
      V3 p = v.row(i), q = v.row((i + 1) % k); double f = s.real(0, 1);
      V3 e = p + f * (q - p), x = e + 0.2 * (e - cen);
      V d = A * x - b;
      PBT_CHECK(c, d.maxCoeff() > 1e-9, "outside", "a point beyond edge " << i << " satisfies every half-space");
      PBT_CHECK(c, (A * e - b).cwiseAbs().minCoeff() < 1e-8 * sz, "edge", "edge " << i << " is on no half-space boundary");
    }
    const Eigen::Matrix3d R = g.terrainRotation();
    PBT_CHECK(c, (R.row(2).transpose() - nrm[r]).norm() < 1e-7, "rotation-normal", "third axis " << str(V(R.row(2).transpose())) << " is not the upward normal " << str(V(nrm[r])));
    for (int i = 0; i < 2; i++) PBT_CHECK(c, std::abs(R.row(i).norm() - 1) < 1e-9 && std::abs(R.row(i).dot(nrm[r])) < 1e-7, "rotation-axes", "axis " << i << " of the terrain rotation is not a unit vector in the plane");
    if (rect[r]) {
      PBT_CHECK(c, (R * R.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-7 && R.determinant() > 0, "rotation", "terrain rotation of a rectangle is not a rotation: " << str(M(R)));
      PBT_CHECK(c, rotdist(g.terrainOrientation(), Q(R)) < 1e-6, "orientation", "orientation and rotation of a terrain differ");
    }
  }
}

// ------------------------------------------------------- contacts from file
struct Cnt { double t0, t1; V3 p; Q q; int type, terrain; };
static std::string cnt_yaml(const Cnt& k) { V v(11); v << k.t0, k.t1, k.p, k.q.w(), k.q.x(), k.q.y(), k.q.z(), k.type, k.terrain; return seq(v); }

PBT_PROP(contact_files) {
  Tmp tmp; PlannerSetting st; st.get(PlannerBoolParam_LoadKinematics) = true; st.get(PlannerStringParam_ConfigFile) = tmp.file();
  ContactPlanFromFile plan; plan.initialize(st);
  DynamicsState ini; TerrainDescription ter;
  int rounds = s.integer(1, 2);
  for (int r = 0; r < rounds; r++) {
    std::vector<Cnt> cn[4]; struct Via { int id; V3 p; Q q; }; std::vector<Via> vi[4];
    std::string y = "contact_plan:\n";
    int total = 0;
    for (int e = 0; e < 4; e++) {
      int n = s.integer(0, 3), m = s.integer(0, 2); total += n;
      y += std::string("  effcnt_") + eff(e) + ": [";
      for (int i = 0; i < n; i++) { cn[e].push_back({s.real(0, 5), s.real(5, 9), v3(s, -2, 2), quat(s), s.integer(0, 2), s.integer(-1, 4)}); y += (i ? ", " : "") + cnt_yaml(cn[e][i]); }
      y += std::string("]\n  effvia_") + eff(e) + ": [";
      for (int i = 0; i < m; i++) { vi[e].push_back({s.integer(-1, 3), v3(s, -2, 2), quat(s)}); V v(8); v << vi[e][i].id, vi[e][i].p, vi[e][i].q.w(), vi[e][i].q.x(), vi[e][i].q.y(), vi[e][i].q.z(); y += (i ? ", " : "") + seq(v); }
      y += "]\n";
    }
    put(tmp.file(), y);
    plan.optimize(ini, ter);
    c.note << y; c.nontrivial = total >= 2; c.label("loaded again", r > 0);
    int id = 0, vid = 0;
    for (int e = 0; e < 4; e++) {
      const ContactSequence& cs = plan.contactSequence();
      PBT_CHECK(c, cs.numEndeffectorContacts(e) == (int)cn[e].size() && cs.endeffectorContacts(e).size() == cn[e].size(), "count", "effector " << e << " has " << cs.numEndeffectorContacts(e) << " contacts instead of " << cn[e].size());
      for (size_t i = 0; i < cn[e].size(); i++) {
        const ContactState& k = cs.endeffectorContacts(e)[i]; const Cnt& w = cn[e][i];
        PBT_CHECK(c, k.contactActivationTime() == w.t0 && k.contactDeactivationTime() == w.t1, "times", "contact from " << k.contactActivationTime() << " to " << k.contactDeactivationTime());
        PBT_CHECK(c, (k.contactPosition() - w.p).norm() == 0 && (k.contactOrientation().coeffs() - w.q.coeffs()).norm() < 1e-12, "pose", "pose of a contact differs from the file");
        PBT_CHECK(c, (int)k.contactType() == w.type && k.terrainId() == w.terrain, "type", "type " << (int)k.contactType() << " terrain " << k.terrainId());
        PBT_CHECK(c, k.optimizationId() == id++, "contact-id", "optimisation id " << k.optimizationId() << " instead of " << id - 1);
        PBT_CHECK(c, k.selectedAsActive(), "selected", "a contact of the file is not selected");
        M T = k.contactPlacement(); M want = M::Identity(4, 4); want.block(0, 0, 3, 3) = w.q.toRotationMatrix(); want.block(0, 3, 3, 1) = w.p;
        PBT_CHECK(c, mclose(T, want, 1e-9), "placement", "placement " << str(T) << " instead of " << str(want));
        ContactState b; b.contactPlacement(want);
        PBT_CHECK(c, (b.contactPosition() - w.p).norm() < 1e-12 && rotdist(b.contactOrientation(), w.q) < 1e-6, "placement-back", "a placement is not read back");
        ContactState d; 
        PBT_CHECK(c, !d.selectedAsActive() && d.contactType() == ContactType::FreeContact && d.optimizationId() == -1, "default", "default contact state");
        d.contactActivationTime(w.t0); d.contactDeactivationTime(w.t1); d.contactPosition(w.p); d.contactOrientation(w.q); d.contactType(idToContactType(w.type)); d.selectedAsActive(true);
        PBT_CHECK(c, d.contactActivationTime() == w.t0 && d.contactDeactivationTime() == w.t1 && d.contactPosition() == w.p && d.contactOrientation().coeffs() == w.q.coeffs() && (int)d.contactType() == w.type && d.selectedAsActive(), "setters", "a contact state does not keep what it is given");
      }
      const ViapointSequence& vs = plan.viapointSequence();
      PBT_CHECK(c, vs.numEndeffectorViapoints(e) == (int)vi[e].size(), "viapoints", "effector " << e << " has " << vs.numEndeffectorViapoints(e) << " via-points instead of " << vi[e].size());
      for (size_t i = 0; i < vi[e].size(); i++) {
        ViapointState k = vs.endeffectorViapoints(e)[i];
        PBT_CHECK(c, k.viapointId() == vi[e][i].id && k.viapointPosition() == vi[e][i].p && (k.viapointOrientation().coeffs() - vi[e][i].q.coeffs()).norm() < 1e-12 && k.optimizationId() == vid++, "viapoint", "via-point differs from the file");
      }
    }
    PBT_CHECK(c, plan.contactSequence().numOptimizationContacts() == id && plan.viapointSequence().numOptimizationViapoints() == vid, "totals", "number of contacts " << plan.contactSequence().numOptimizationContacts() << " instead of " << id);
  }
}

// ------------------------------------------------------- contact activation
// Contacts of one effector in order, separated or touching, at times that are
// exact in binary so that every way of computing the time of a step agrees.
static ContactState mk(const Cnt& k, bool sel) {
  ContactState r; r.contactActivationTime() = k.t0; r.contactDeactivationTime() = k.t1; r.contactPosition() = k.p; r.contactOrientation() = k.q; r.contactType() = idToContactType(k.type); r.selectedAsActive() = sel; return r;
}
PBT_PROP(activation) {
  double dt = s.pick({0.125, 0.25, 0.0625, 0.5});
  int N = s.integer(1, 24);
  PlannerSetting st; st.get(PlannerIntParam_NumTimesteps) = N; st.get(PlannerDoubleParam_TimeStep) = dt; st.get(PlannerBoolParam_LoadKinematics) = false;
  DynamicsSequence seq; seq.resize(N); DynamicsState ini;
  int rounds = s.integer(1, 3);
  for (int r = 0; r < rounds; r++) {
    Plan plan; plan.initialize(st);
    struct E { Cnt k; bool sel; }; std::vector<E> all[4];
    c.note << "dt=" << dt << " N=" << N;
    for (int e = 0; e < 4; e++) {
      int n = s.integer(0, 4); double t = 0;
      std::vector<ContactState> cs;
      for (int i = 0; i < n; i++) {
        t += s.integer(0, 12) * 0.25 * dt; Cnt k; k.t0 = t; t += s.integer(0, 24) * 0.25 * dt; k.t1 = t; k.p = v3(s, -2, 2); k.q = quat(s); k.type = s.integer(0, 2);
        bool sel = !s.chance(0.2); all[e].push_back({k, sel}); cs.push_back(mk(k, sel));
        c.note << " e" << e << "[" << k.t0 << "," << k.t1 << (sel ? "" : " off") << "]";
      }
      plan.contactSequence().endeffectorContacts(e, cs);
    }
    c.label("plan replaced", r > 0);
    plan.fillDynamicsSequence(ini, seq);
    for (int e = 0; e < 4; e++) {
      int count = 0, on = 0;
      for (int t = 0; t < N; t++) {
        double time = (t + 1) * dt; int id = -1;
        for (size_t i = 0; i < all[e].size(); i++) if (all[e][i].sel && time >= all[e][i].k.t0 && time < all[e][i].k.t1) id = (int)i;
        const DynamicsState& d = seq.dynamicsState(t);
        PBT_CHECK(c, d.endeffectorActivation(e) == (id >= 0), "active", "effector " << e << " at step " << t << " (time " << time << ") is " << (d.endeffectorActivation(e) ? "" : "not ") << "active");
        if (id >= 0) {
          on++; if (time == all[e][id].k.t0) c.label("step at the activation time");
          PBT_CHECK(c, d.endeffectorContactId(e) == id, "contact", "effector " << e << " at step " << t << " uses contact " << d.endeffectorContactId(e) << " instead of " << id);
          PBT_CHECK(c, d.endeffectorActivationId(e) == count++, "activation-id", "effector " << e << " at step " << t << " has activation id " << d.endeffectorActivationId(e) << " instead of " << count - 1);
          PBT_CHECK(c, d.endeffectorPosition(e) == all[e][id].k.p && d.endeffectorOrientation(e).coeffs() == all[e][id].k.q.coeffs(), "pose", "effector " << e << " at step " << t << " is not at its contact");
        }
      }
      if (on > 0 && on < N) c.nontrivial = true;
      PBT_CHECK(c, seq.activeEndeffectorSteps()[e] == count, "steps", "effector " << e << " has " << seq.activeEndeffectorSteps()[e] << " active steps instead of " << count);
    }
    PBT_CHECK(c, seq.size() == N, "size", "the sequence has " << seq.size() << " states");
    DynamicsSequence fresh; fresh.resize(N); plan.fillDynamicsSequence(ini, fresh);
    for (int e = 0; e < 4; e++) for (int t = 0; t < N; t++) {
      const DynamicsState &d = seq.dynamicsState(t), &f = fresh.dynamicsState(t);
      PBT_CHECK(c, d.endeffectorActivationId(e) == f.endeffectorActivationId(e) && d.endeffectorContactId(e) == f.endeffectorContactId(e), "trace", "effector " << e << " at step " << t << " keeps ids " << d.endeffectorActivationId(e) << ", " << d.endeffectorContactId(e) << " of the plan filled in before; a new sequence has " << f.endeffectorActivationId(e) << ", " << f.endeffectorContactId(e));
    }
  }
}

// ------------------------------------------------------------------- swings
PBT_PROP(swings) {
  double dt = 0.125; 
  struct Ph { bool on; int len; };
  std::vector<Ph> ph[4]; int len[4] = {0, 0, 0, 0}, N = 0;
  for (int e = 0; e < 4; e++) {
    if (s.chance(0.25)) continue;                       // never in contact
    int contacts = s.integer(1, 3); 
    if (s.chance(0.3)) ph[e].push_back({false, s.integer(2, 6)});
    for (int i = 0; i < contacts; i++) { if (i) ph[e].push_back({false, s.integer(2, 8)}); ph[e].push_back({true, s.integer(1, 5)}); }
    if (s.chance(0.4)) ph[e].push_back({false, s.integer(2, 6)});
    for (auto& p : ph[e]) len[e] += p.len;
    N = std::max(N, len[e]);
  }
  c.discard_if(N == 0);
  // fill up with more of the last phase
  for (int e = 0; e < 4; e++) if (!ph[e].empty()) ph[e].back().len += N - len[e];
  bool kin = !s.chance(0.1);
  PlannerSetting st; st.get(PlannerIntParam_NumTimesteps) = N; st.get(PlannerDoubleParam_TimeStep) = dt; st.get(PlannerBoolParam_LoadKinematics) = kin;
  V3 move = v3(s, -1, 1); st.get(PlannerVectorParam_CenterOfMassMotion) = move;
  DynamicsSequence seq; seq.resize(N); DynamicsState ini;
  bool varying = s.boolean(); c.label("varying time steps", varying);
  std::vector<double> tv(N + 1, 0.0);
  for (int t = 0; t < N; t++) { seq.dynamicsState(t).time() = varying ? s.real(0.05, 0.3) : dt; tv[t + 1] = tv[t] + seq.dynamicsState(t).time(); }
  // via-points only come from files
  Tmp tmp; std::string vy = "contact_plan:\n";
  std::map<int, V3> via[4];
  Plan plan; plan.initialize(st);
  std::vector<Cnt> cn[4];
  c.note << "N=" << N;
  for (int e = 0; e < 4; e++) {
    V3 ip = v3(s, -2, 2); ini.endeffectorPosition(e) = ip; ini.endeffectorOrientation(e) = quat(s);
    ini.endeffectorActivation(e) = !ph[e].empty() && ph[e][0].on;
    int at = 0; std::vector<ContactState> cs;
    for (auto& p : ph[e]) {
      if (p.on) { Cnt k; k.t0 = (at + 1) * dt; k.t1 = (at + 1 + p.len) * dt; k.p = v3(s, -2, 2); k.q = quat(s); k.type = 1; cn[e].push_back(k); cs.push_back(mk(k, true)); }
      at += p.len; c.note << (p.on ? " on" : " off") << p.len;
    }
    c.note << ";";
    plan.contactSequence().endeffectorContacts(e, cs);
    vy += std::string("  effvia_") + eff(e) + ": ["; bool first = true;
    for (int id = -1; id < (int)cn[e].size(); id++) if (s.chance(0.5)) { V3 w = v3(s, -2, 2); via[e][id] = w; V v(8); v << id, w, 1, 0, 0, 0; vy += (first ? "" : ", ") + mom::seq(v); first = false; }
    vy += "]\n";
  }
  put(tmp.file(), vy); plan.viapointSequence().loadFromFile(tmp.file());
  plan.fillDynamicsSequence(ini, seq);
  DynamicsSequence before = seq;
  plan.updateEndeffectorTrajectories(ini, seq);
  for (int e = 0; e < 4; e++) {
    int at = 0, ci = -1;
    for (size_t f = 0; f < ph[e].size(); f++) {
      int n = ph[e][f].len, a = at, b = at + n - 1; at += n;
      if (ph[e][f].on) {
        ci++;
        for (int t = a; t <= b; t++) PBT_CHECK(c, seq.dynamicsState(t).endeffectorPosition(e) == cn[e][ci].p && seq.dynamicsState(t).endeffectorOrientation(e).coeffs() == cn[e][ci].q.coeffs(), "contact", "effector " << e << " moves during contact at step " << t);
        continue;
      }
      if (!kin) continue;
      V3 p0, p1; Q q0, q1;
      bool firstph = ci < 0, last = f + 1 == ph[e].size();
      p0 = firstph ? V3(ini.endeffectorPosition(e)) : cn[e][ci].p; q0 = firstph ? ini.endeffectorOrientation(e) : cn[e][ci].q;
      p1 = last ? V3(ini.endeffectorPosition(e) + move) : cn[e][ci + 1].p; q1 = last ? ini.endeffectorOrientation(e) : cn[e][ci + 1].q;
      V3 m = via[e].count(ci) ? via[e][ci] : V3(0.5 * (p0 + p1));
      c.label(via[e].count(ci) ? "via-point" : "no via-point"); c.label("first flight", firstph); c.label("last flight", last); c.nontrivial = true;
      double ti = tv[a + 1], te = tv[b + 1], h = te - ti;
      for (int t = a; t <= b; t++) {
        const DynamicsState& d = seq.dynamicsState(t);
        for (int k = 0; k < 3; k++) {
          Poly ref({{0, ti, p0[k]}, {0, 0.5 * (ti + te), m[k]}, {0, te, p1[k]}, {1, ti, 0}, {1, te, 0}, {2, ti, 0}, {2, te, 0}});
          double tt = tv[t + 1];
          PBT_CHECK(c, std::abs(d.endeffectorPosition(e)[k] - ref.at(tt, 0)) <= 1e-6, "position", "effector " << e << " step " << t << " axis " << k << ": position " << d.endeffectorPosition(e)[k] << " instead of " << ref.at(tt, 0));
          PBT_CHECK(c, std::abs(d.endeffectorVelocity(e)[k] - ref.at(tt, 1)) * h <= 1e-5, "velocity", "effector " << e << " step " << t << ": velocity " << d.endeffectorVelocity(e)[k] << " instead of " << ref.at(tt, 1));
          PBT_CHECK(c, std::abs(d.endeffectorAcceleration(e)[k] - ref.at(tt, 2)) * h * h <= 1e-4, "acceleration", "effector " << e << " step " << t << ": acceleration " << d.endeffectorAcceleration(e)[k] << " instead of " << ref.at(tt, 2));
        }
        double u = std::min(2.0 * (t - a) / (b + 1.0 - a), 1.0);
        double full = rotdist(q0, q1);
        PBT_CHECK(c, full > 3.13 || (std::abs(rotdist(q0, d.endeffectorOrientation(e)) - u * full) < 1e-6 && std::abs(rotdist(q1, d.endeffectorOrientation(e)) - (1 - u) * full) < 1e-6), "orientation",
                  "effector " << e << " step " << t << ": orientation is not the fraction " << u << " of the rotation between its contacts");
      }
    }
    if (ph[e].empty() || !kin) for (int t = 0; t < N; t++)
      PBT_CHECK(c, seq.dynamicsState(t).endeffectorPosition(e) == before.dynamicsState(t).endeffectorPosition(e), "untouched", "effector " << e << " is moved");
  }
  for (int t = 0; t < N; t++) for (int e = 0; e < 4; e++)
    PBT_CHECK(c, seq.dynamicsState(t).endeffectorActivation(e) == before.dynamicsState(t).endeffectorActivation(e), "activation", "the swings change the activation");
}

// ----------------------------------------------------------------- settings
namespace {
struct KI { const char* k; PlannerIntParam p; }; struct KB { const char* k; PlannerBoolParam p; }; struct KD { const char* k; PlannerDoubleParam p; }; struct KV { const char* k; PlannerVectorParam p; int n; };
// n: -1 = number of degrees of freedom
const std::vector<KD> dbl = {{"min_rel_height", PlannerDoubleParam_MinRelHeight}, {"gravity", PlannerDoubleParam_Gravity}, {"robot_mass", PlannerDoubleParam_RobotMass}, {"floor_height", PlannerDoubleParam_FloorHeight}, {"friction_coeff", PlannerDoubleParam_FrictionCoefficient}, {"w_trq_arm", PlannerDoubleParam_WeightArmTorque}, {"w_trq_leg", PlannerDoubleParam_WeightLegTorque}};
const std::vector<KD> dbl_time = {{"max_time_residual_tolerance", PlannerDoubleParam_MaxTimeResidualTolerance}, {"min_time_residual_improvement", PlannerDoubleParam_MinTimeResidualImprovement}, {"w_time", PlannerDoubleParam_WeightTimeRegularization}, {"w_time_penalty", PlannerDoubleParam_WeightTimePenalty}};
const std::vector<KD> dbl_kin = {{"slacks_penalty", PlannerDoubleParam_KinSlacksPenalty}, {"integration_step", PlannerDoubleParam_KinIntegrationStep}, {"lambda_regularization", PlannerDoubleParam_LambdaRegularization}, {"convergence_tolerance", PlannerDoubleParam_KinConvergenceTolerance}};
const std::vector<KD> dbl_first = {{"swing_traj_via_z", PlannerDoubleParam_SwingTrajViaZ}, {"w_lin_mom_tracking", PlannerDoubleParam_WeightLinMomentumTracking}, {"w_ang_mom_tracking", PlannerDoubleParam_WeightAngMomentumTracking}, {"w_endeff_contact", PlannerDoubleParam_WeightEndEffContact}, {"w_endeff_tracking", PlannerDoubleParam_WeightEndEffTracking}, {"p_endeff_tracking", PlannerDoubleParam_PGainEndEffTracking}, {"p_com_tracking", PlannerDoubleParam_PGainComTracking}, {"w_joint_regularization", PlannerDoubleParam_WeightJointReg}, {"reg_orientation", PlannerDoubleParam_PGainOrientationTracking}, {"reg_joint_position", PlannerDoubleParam_PGainPositionTracking}};
const std::vector<KD> dbl_second = {{"swing_traj_via_z_second", PlannerDoubleParam_SwingTrajViaZ_Second}, {"w_lin_mom_tracking_second", PlannerDoubleParam_WeightLinMomentumTracking_Second}, {"w_ang_mom_tracking_second", PlannerDoubleParam_WeightAngMomentumTracking_Second}, {"w_endeff_contact_second", PlannerDoubleParam_WeightEndEffContact_Second}, {"w_endeff_tracking_second", PlannerDoubleParam_WeightEndEffTracking_Second}, {"p_endeff_tracking_second", PlannerDoubleParam_PGainEndEffTracking_Second}, {"p_com_tracking_second", PlannerDoubleParam_PGainComTracking_Second}, {"w_joint_regularization_second", PlannerDoubleParam_WeightJointReg_Second}, {"d_endeff_tracking_second", PlannerDoubleParam_DGainEndEffTracking_Second}, {"p_orient_tracking_second", PlannerDoubleParam_PGainBaseOrientationTracking_Second}, {"d_orient_tracking_second", PlannerDoubleParam_DGainBaseOrientationTracking_Second}, {"p_joint_regularization_second", PlannerDoubleParam_PGainJointRegularization_Second}, {"d_joint_regularization_second", PlannerDoubleParam_DGainJointRegularization_Second}};
const std::vector<KV> vec = {{"external_force", PlannerVectorParam_ExternalForce, 3}, {"com_displacement", PlannerVectorParam_CenterOfMassMotion, 3}, {"torque_range", PlannerVectorParam_TorqueRange, 2}, {"max_eef_lengths", PlannerVectorParam_MaxEndeffectorLengths, 4}, {"w_frc_arm", PlannerVectorParam_WeightArmForce, 3}, {"w_frc_leg", PlannerVectorParam_WeightLegForce, 3}, {"w_com", PlannerVectorParam_WeightCenterOfMass, 3}, {"w_lmom", PlannerVectorParam_WeightLinearMomentum, 3}, {"w_amom", PlannerVectorParam_WeightAngularMomentum, 3}, {"w_dfrc_arm", PlannerVectorParam_WeightArmForceRate, 3}, {"w_dfrc_leg", PlannerVectorParam_WeightLegForceRate, 3}, {"w_lmomd", PlannerVectorParam_WeightLinearMomentumRate, 3}, {"w_amomd", PlannerVectorParam_WeightAngularMomentumRate, 3}, {"w_com_via", PlannerVectorParam_WeightCenterOfMassViapoint, 3}, {"w_lmom_final", PlannerVectorParam_WeightFinalLinearMomentum, 3}, {"w_amom_final", PlannerVectorParam_WeightFinalAngularMomentum, 3}, {"w_com_track", PlannerVectorParam_WeightDynamicTrackingCenterOfMass, 3}, {"w_lmom_track", PlannerVectorParam_WeightDynamicTrackingLinearMomentum, 3}, {"w_amom_track", PlannerVectorParam_WeightDynamicTrackingAngularMomentum, 3}};
const std::vector<KV> vec_time = {{"time_range", PlannerVectorParam_TimeRange, 2}};
const std::vector<KV> vec_kin = {{"min_joint_limits", PlannerVectorParam_MinJointAngles, -1}, {"max_joint_limits", PlannerVectorParam_MaxJointAngles, -1}, {"default_joint_positions", PlannerVectorParam_KinematicDefaultJointPositions, -1}, {"w_kin_com", PlannerVectorParam_WeightKinematicTrackingCenterOfMass, 3}, {"w_kin_lmom", PlannerVectorParam_WeightKinematicTrackingLinearMomentum, 3}, {"w_kin_amom", PlannerVectorParam_WeightKinematicTrackingAngularMomentum, 3}, {"w_kin_lmomd", PlannerVectorParam_WeightKinematicTrackingLinearMomentumRate, 3}, {"w_kin_amomd", PlannerVectorParam_WeightKinematicTrackingAngularMomentumRate, 3}, {"w_kin_eff_pos", PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition, 3}, {"w_kin_base_ori", PlannerVectorParam_WeightKinematicTrackingBaseOrientation, 3}, {"w_kin_joint_vel", PlannerVectorParam_WeightJointVelocity, -1}, {"w_kin_joint_acc", PlannerVectorParam_WeightJointAcceleration, -1}, {"w_kin_eff_pos_nonact", PlannerVectorParam_WeightKinematicTrackingNonActiveEndeffectorPosition, 3}, {"w_kin_default_joints", PlannerVectorParam_WeightKinematicDefaultJointPositions, -1}};
const std::vector<KV> vec_second = {{"p_mom_tracking_second", PlannerVectorParam_PGainMomentumTracking_Second, 6}};
const std::vector<KI> ints = {{"n_act_eefs", PlannerIntParam_NumActiveEndeffectors}};
const std::vector<KI> ints_kin = {{"num_dofs", PlannerIntParam_NumDofs}, {"kd_iterations", PlannerIntParam_KinDynIterations}, {"num_subsamples", PlannerIntParam_NumSubsamples}, {"max_trajectory_iters", PlannerIntParam_MaxKinTrajectoryIterations}, {"max_convergence_iters", PlannerIntParam_MaxKinConvergenceIterations}};

struct Model { std::map<int, double> d; std::map<int, V> v; std::map<int, int> i; std::map<int, bool> b; };
}

PBT_PROP(settings) {
  Tmp tmp; Cfg k;
  Model m;
  bool kin = s.boolean(), time = s.chance(0.4), second = s.boolean();
  int dofs = s.integer(1, 8);
  auto D = [&](const std::vector<KD>& t) { for (auto& x : t) { double v = s.real(-20, 20); if (x.p == PlannerDoubleParam_RobotMass) v = s.real(1, 90); k[x.k] = num(v); m.d[x.p] = v; } };
  auto W = [&](const std::vector<KV>& t) { for (auto& x : t) { V v = s.vec(x.n < 0 ? dofs : x.n, -20, 20); k[x.k] = seq(v); m.v[x.p] = v; } };
  auto I = [&](const std::vector<KI>& t) { for (auto& x : t) { int v = s.integer(0, 50); if (x.p == PlannerIntParam_NumDofs) v = dofs; k[x.k] = std::to_string(v); m.i[x.p] = v; } };
  auto B = [&](const char* key, PlannerBoolParam p, bool v) { k[key] = s.boolean() ? bo(v) : v ? "True" : "False"; m.b[p] = v; };
  auto CV = [&](const char* cnt, const char* name, int n, PlannerIntParam ip, int dim, std::vector<V>& out) {
    k[cnt] = std::to_string(n); m.i[ip] = n; std::string y = "{"; for (int i = 0; i < n; i++) { V v = s.vec(dim, -5, 5); out.push_back(v); y += (i ? ", via" : "via") + std::to_string(i) + ": " + seq(v); } k[name] = y + "}"; };
  D(dbl); W(vec); I(ints); B("store_data", PlannerBoolParam_StoreData, s.boolean()); B("use_default_solver_setting", PlannerBoolParam_UseDefaultSolverSetting, s.boolean()); B("load_kinematics", PlannerBoolParam_LoadKinematics, kin);
  std::string heur = time ? "TimeOptimization" : s.pick({"SoftConstraint", "TrustRegion", "Unknown"}); k["heuristic"] = heur;
  bool lin = s.boolean(); k["friction_cone"] = lin ? "LinearCone" : "SocCone"; m.b[PlannerBoolParam_IsFrictionConeLinear] = lin;
  if (time) { D(dbl_time); W(vec_time); int v = s.integer(0, 99); k["max_time_iterations"] = std::to_string(v); m.i[PlannerIntParam_MaxNumTimeIterations] = v; B("is_time_horizon_fixed", PlannerBoolParam_IsTimeHorizonFixed, s.boolean()); }
  std::vector<V> via, jv, bv; CV("num_com_viapoints", "com_viapoints", s.integer(0, 3), PlannerIntParam_NumViapoints, 4, via);
  V cop[4], off[4]; for (int e = 0; e < 4; e++) { cop[e] = s.vec(4, -1, 1); off[e] = s.vec(3, -1, 1); k[std::string("cop_range_") + eff(e)] = seq(cop[e]); k[std::string("eff_offset_") + eff(e)] = seq(off[e]); }
  // horizon of N steps written in decimals
  int N = s.integer(1, 400), cents = s.pick({1, 2, 5, 10, 20, 25, 50, 100, 125});
  auto dec = [](long millis) { char b[40]; snprintf(b, sizeof b, "%ld.%03ld", millis / 1000, millis % 1000); return std::string(b); };
  k["time_step"] = dec(cents * 1); k["time_horizon"] = dec((long)N * cents); m.d[PlannerDoubleParam_TimeStep] = cents / 1000.0; m.i[PlannerIntParam_NumTimesteps] = N;
  bool partial = s.chance(0.3) && cents >= 10; if (partial) k["time_horizon"] = dec((long)N * cents + cents / 2), c.label("part of a step");
  m.d[PlannerDoubleParam_TimeHorizon] = (N * cents + (partial ? cents / 2 : 0)) / 1000.0;
  Eigen::VectorXi act;
  if (kin) {
    W(vec_kin); D(dbl_kin); I(ints_kin); B("display_motion", PlannerBoolParam_DisplayMotion, s.boolean()); B("use_second_order_inv_kin", PlannerBoolParam_UseSecondOrderInverseKinematics, second);
    int na = s.integer(1, dofs); act = Eigen::VectorXi(na); std::vector<int> p = s.perm(dofs); for (int i = 0; i < na; i++) act[i] = p[i]; k["active_dofs"] = seqi(act);
    m.i[PlannerIntParam_NumActiveDofs] = na; m.i[PlannerIntParam_NumExtendedActiveDofs] = na + 6;
    if (second) { D(dbl_second); W(vec_second); CV("num_joint_viapoints_second", "joint_viapoints_second", s.integer(0, 2), PlannerIntParam_NumJointViapoints_Second, dofs + 1, jv); CV("num_base_viapoints_second", "base_viapoints_second", s.integer(0, 2), PlannerIntParam_NumBaseViapoints_Second, 4, bv); }
    else { D(dbl_first); CV("num_joint_viapoints", "joint_viapoints", s.integer(0, 2), PlannerIntParam_NumJointViapoints, dofs + 1, jv); CV("num_base_viapoints", "base_viapoints", s.integer(0, 2), PlannerIntParam_NumBaseViapoints, 4, bv); }
  }
  m.d[PlannerDoubleParam_MassTimesGravity] = m.d[PlannerDoubleParam_RobotWeight] = m.d[PlannerDoubleParam_RobotMass] * m.d[PlannerDoubleParam_Gravity];
  m.v[PlannerVectorParam_GravityVector] = vv({0, 0, -m.d[PlannerDoubleParam_Gravity]});
  bool other = s.chance(0.2);
  put(tmp.file(), k.text(other ? "my_variables" : "planner_variables"));
  // settings in memory that held something else before, or another configuration before
  struct Mem { PlannerSetting* p; alignas(64) unsigned char b[sizeof(PlannerSetting)]; explicit Mem(int v) { std::memset(b, v, sizeof b); p = new (b) PlannerSetting; } ~Mem() { p->~PlannerSetting(); } };
  Mem m1(1), m2(0x5a); PlannerSetting& st = *m1.p;
  if (s.chance(0.4)) { Cfg z; z["com_viapoints"] = "{via0: [1.0, 2.0, 3.0, 4.0]}"; z["num_com_viapoints"] = "1"; z["load_kinematics"] = "True"; z["num_dofs"] = "3"; z["active_dofs"] = "[0, 1, 2]";
    for (const char* n : {"min_joint_limits", "max_joint_limits", "default_joint_positions", "w_kin_joint_vel", "w_kin_joint_acc", "w_kin_default_joints"}) z[n] = "[1.0, 2.0, 3.0]";
    for (auto* t : {&dbl, &dbl_time, &dbl_kin, &dbl_first, &dbl_second}) for (auto& x : *t) z[x.k] = "1.5";
    for (auto* t : {&vec, &vec_kin, &vec_second}) for (auto& x : *t) if (x.n >= 0) z[x.k] = seq(V(V::Constant(x.n, 1.5)));
    for (auto& x : ints_kin) if (x.p != PlannerIntParam_NumDofs) z[x.k] = "7"; z["display_motion"] = "False";
    bool sec = s.boolean(); z["use_second_order_inv_kin"] = sec ? "True" : "False"; std::string suf = sec ? "_second" : "";
    z["num_joint_viapoints" + suf] = "1"; z["joint_viapoints" + suf] = "{via0: [1.0, 2.0, 3.0, 4.0]}"; z["num_base_viapoints" + suf] = "2"; z["base_viapoints" + suf] = "{via0: [1.0, 2.0, 3.0, 4.0], via1: [1.0, 2.0, 3.0, 4.0]}";
    if (s.boolean()) { z["heuristic"] = "TimeOptimization"; z["is_time_horizon_fixed"] = "True"; z["time_range"] = "[0.1, 0.2]"; }
    put(tmp.file("/other.yaml"), z.text()); st.initialize(tmp.file("/other.yaml")); c.label("initialised again"); }
  if (other) m2.p->initialize(tmp.file(), "my_variables"); else m2.p->initialize(tmp.file());
  if (other) st.initialize(tmp.file(), "my_variables"); else st.initialize(tmp.file());
  c.label("kinematics", kin); c.label("time", time); c.label("second order", kin && second); c.nontrivial = kin;
  c.note << k.text();
  auto verify = [&](const char* when) {
    const PlannerSetting& cs = st;
    for (auto& x : m.d) PBT_CHECK(c, close(st.get((PlannerDoubleParam)x.first), x.second, 1e-12) && close(cs.get((PlannerDoubleParam)x.first), x.second, 1e-12), "double", when << ": double parameter " << x.first << " is " << cs.get((PlannerDoubleParam)x.first) << " instead of " << x.second);
    for (auto& x : m.i) PBT_CHECK(c, st.get((PlannerIntParam)x.first) == x.second && cs.get((PlannerIntParam)x.first) == x.second, "int", when << ": integer parameter " << x.first << " is " << cs.get((PlannerIntParam)x.first) << " instead of " << x.second);
    for (auto& x : m.b) PBT_CHECK(c, st.get((PlannerBoolParam)x.first) == x.second && cs.get((PlannerBoolParam)x.first) == x.second, "bool", when << ": flag " << x.first << " is " << cs.get((PlannerBoolParam)x.first));
    for (auto& x : m.v) PBT_CHECK(c, mclose(st.get((PlannerVectorParam)x.first), x.second, 1e-12) && mclose(cs.get((PlannerVectorParam)x.first), x.second, 1e-12), "vector", when << ": vector parameter " << x.first << " is " << str(V(cs.get((PlannerVectorParam)x.first))) << " instead of " << str(x.second));
    for (int e = 0; e < 4; e++) PBT_CHECK(c, mclose(cs.get(PlannerArrayParam_CenterOfPressureRange)[e], cop[e], 1e-12) && mclose(st.get(PlannerArrayParam_EndeffectorOffset)[e], off[e], 1e-12), "effector", when << ": range or offset of effector " << e);
    auto cv = [&](PlannerCVectorParam p, const std::vector<V>& w) { PBT_CHECK(c, cs.get(p).size() == w.size() && st.get(p).size() == w.size(), "via-count", when << ": " << cs.get(p).size() << " via-points instead of " << w.size()); for (size_t i = 0; i < w.size(); i++) PBT_CHECK(c, mclose(cs.get(p)[i], w[i], 1e-12) && mclose(st.get(p)[i], w[i], 1e-12), "via", when << ": via-point " << i); };
    cv(PlannerCVectorParam_Viapoints, via);
    if (kin) { cv(second ? PlannerCVectorParam_JointViapoints_Second : PlannerCVectorParam_JointViapoints, jv); cv(second ? PlannerCVectorParam_BaseViapoints_Second : PlannerCVectorParam_BaseViapoints, bv);
      Eigen::VectorXi a = cs.get(PlannerIntVectorParam_ActiveDofs), x = st.get(PlannerIntVectorParam_ExtendedActiveDofs);
      PBT_CHECK(c, a == act && x.size() == act.size() + 6, "dofs", when << ": active degrees of freedom");
      for (int i = 0; i < x.size(); i++) PBT_CHECK(c, x[i] == (i < 6 ? i : 6 + act[i - 6]), "extended-dofs", when << ": extended active degree of freedom " << i << " is " << x[i]); }
    PBT_CHECK(c, cs.heuristic() == (heur == "TimeOptimization" ? Heuristic::TimeOptimization : heur == "TrustRegion" ? Heuristic::TrustRegion : Heuristic::SoftConstraint), "heuristic", when << ": heuristic");
  };
  PBT_CHECK(c, st.get(PlannerStringParam_ConfigFile) == tmp.file(), "file", "configuration file " << st.get(PlannerStringParam_ConfigFile));
  verify("after reading");
  auto byte = [](const bool& x) { unsigned char b; std::memcpy(&b, &x, 1); return (int)b; };
  PBT_CHECK(c, byte(st.get(PlannerBoolParam_IsTimeHorizonFixed)) == byte(m2.p->get(PlannerBoolParam_IsTimeHorizonFixed)) && byte(st.get(PlannerBoolParam_IsTimeHorizonFixed)) <= 1, "undefined-flag", "whether the time horizon is fixed depends on the memory or configuration before: " << byte(st.get(PlannerBoolParam_IsTimeHorizonFixed)) << " and " << byte(m2.p->get(PlannerBoolParam_IsTimeHorizonFixed)));
  // writing one parameter changes that one only (weight and mass*gravity are one)
  for (int n = 0; n < 4; n++) {
    switch (s.integer(0, 3)) {
      case 0: { auto it = m.d.begin(); std::advance(it, s.integer(0, (int)m.d.size() - 1)); double v = s.real(-9, 9); st.get((PlannerDoubleParam)it->first) = v; it->second = v;
                if (it->first == PlannerDoubleParam_RobotWeight || it->first == PlannerDoubleParam_MassTimesGravity) m.d[PlannerDoubleParam_RobotWeight] = m.d[PlannerDoubleParam_MassTimesGravity] = v; break; }
      case 1: { auto it = m.i.begin(); std::advance(it, s.integer(0, (int)m.i.size() - 1)); int v = s.integer(0, 99); st.get((PlannerIntParam)it->first) = v; it->second = v; break; }
      case 2: { auto it = m.b.begin(); std::advance(it, s.integer(0, (int)m.b.size() - 1)); bool v = s.boolean(); st.get((PlannerBoolParam)it->first) = v; it->second = v; break; }
      default: { auto it = m.v.begin(); std::advance(it, s.integer(0, (int)m.v.size() - 1)); V v = s.vec(it->second.size(), -9, 9); st.get((PlannerVectorParam)it->first) = v; it->second = v; }
    }
  }
  verify("after writing");
}

// ---------------------------------------------------------------- containers
PBT_PROP(states) {
  Tmp tmp;
  // initial robot state
  V3 com = v3(s, -2, 2), lm = v3(s, -9, 9), am = v3(s, -9, 9), pos[4], frc[4]; Q ori[4]; bool act[4];
  std::string y = "  com: " + seq(com) + "\n  lmom: " + seq(lm) + "\n  amom: " + seq(am) + "\n  eef_pose:\n", z = "  eef_ctrl:\n";
  for (int e = 0; e < 4; e++) {
    act[e] = s.boolean(); pos[e] = v3(s, -2, 2); ori[e] = quat(s); frc[e] = v3(s, -2, 2); V v(8); v << (act[e] ? 1.0 : 0.0), pos[e], ori[e].w(), ori[e].x(), ori[e].y(), ori[e].z();
    y += std::string("    eef_") + eff(e) + ": " + seq(v) + "\n"; z += std::string("    eef_frc_") + eff(e) + ": " + seq(frc[e]) + "\n";
  }
  bool named = s.boolean();
  put(tmp.file(), std::string(named ? "my_state" : "initial_robot_configuration") + ":\n" + y + z);
  DynamicsState d; if (named) d.fillInitialRobotState(tmp.file(), "my_state"); else d.fillInitialRobotState(tmp.file());
  c.note << y << z;
  PBT_CHECK(c, d.centerOfMass() == com && d.linearMomentum() == lm && d.angularMomentum() == am, "momentum", "initial center of mass or momentum differ from the file");
  for (int e = 0; e < 4; e++)
    PBT_CHECK(c, d.endeffectorActivation(e) == act[e] && d.endeffectorPosition(e) == pos[e] && d.endeffectorForce(e) == frc[e] && (d.endeffectorOrientation(e).coeffs() - ori[e].coeffs()).norm() < 1e-12, "effector", "initial state of effector " << e << " differs from the file");
  // sequences
  int n = s.integer(0, 9); DynamicsSequence ds; KinematicsSequence ks; int dofs = s.integer(1, 9);
  if (s.boolean()) { ds.resize(s.integer(0, 5)); ks.resize(s.integer(0, 5), s.integer(1, 9)); for (int t = 0; t < ds.size(); t++) ds.dynamicsState(t).centerOfMass().setConstant(3); c.label("resized again"); }
  ds.resize(n); ks.resize(n, dofs);
  c.nontrivial = n >= 2;
  PBT_CHECK(c, ds.size() == n && ks.size() == n && (int)ds.dynamicsSequence().size() == n && (int)ks.kinematicsSequence().size() == n, "size", "sequences of " << ds.size() << " and " << ks.size() << " states instead of " << n);
  std::vector<V3> mark(n);
  for (int t = 0; t < n; t++) {
    DynamicsState& q = ds.dynamicsState(t); KinematicsState& kk = ks.kinematicsState(t);
    PBT_CHECK(c, q.centerOfMass().norm() + q.linearMomentum().norm() + q.angularMomentum().norm() + q.linearMomentumRate().norm() + q.angularMomentumRate().norm() == 0, "zero", "a new dynamics state is not zero");
    PBT_CHECK(c, kk.centerOfMass().norm() + kk.linearMomentum().norm() + kk.angularMomentum().norm() + kk.robotPosture().generalizedJointPositions().head(6).norm() + kk.robotVelocity().generalizedJointVelocities().norm() + kk.robotAcceleration().generalizedJointAccelerations().norm() == 0 && kk.numJoints() == dofs, "zero-kin", "a new kinematics state is not zero");
    for (int e = 0; e < 4; e++) PBT_CHECK(c, !q.endeffectorActivation(e) && q.endeffectorContactId(e) == -1 && q.endeffectorForce(e).norm() + q.endeffectorTorque(e).norm() + q.endeffectorCoP(e).norm() + q.endeffectorPosition(e).norm() + q.endeffectorVelocity(e).norm() == 0, "zero-eff", "a new dynamics state has an active effector");
    mark[t] = v3(s, -3, 3); q.centerOfMass(mark[t]); q.linearMomentum(mark[t] * 2); q.angularMomentum(mark[t] * 3); q.linearMomentumRate(mark[t] * 4); q.angularMomentumRate(mark[t] * 5); q.time(t + 0.5);
    for (int e = 0; e < 4; e++) { q.endeffectorForce(e) = mark[t] * (10 + e); q.endeffectorTorque(e) = mark[t] * (20 + e); q.endeffectorCoP(e) = mark[t] * (30 + e); q.endeffectorPosition(e) = mark[t] * (40 + e); q.endeffectorVelocity(e) = mark[t] * (50 + e); q.endeffectorAcceleration(e) = mark[t] * (60 + e); q.endeffectorTorqueAtContactPoint(e) = mark[t] * (70 + e); }
  }
  for (int t = 0; t < n; t++) {
    const DynamicsState& q = ds.dynamicsSequence()[t];
    bool ok = q.centerOfMass() == mark[t] && q.linearMomentum() == mark[t] * 2 && q.angularMomentum() == mark[t] * 3 && q.linearMomentumRate() == mark[t] * 4 && q.angularMomentumRate() == mark[t] * 5 && q.time() == t + 0.5;
    for (int e = 0; e < 4; e++) ok = ok && q.endeffectorForce(e) == mark[t] * (10 + e) && q.endeffectorTorque(e) == mark[t] * (20 + e) && q.endeffectorCoP(e) == mark[t] * (30 + e) && q.endeffectorPosition(e) == mark[t] * (40 + e) && q.endeffectorVelocity(e) == mark[t] * (50 + e) && q.endeffectorAcceleration(e) == mark[t] * (60 + e) && q.endeffectorTorqueAtContactPoint(e) == mark[t] * (70 + e) && q.pyEndeffectorForces()[e] == q.endeffectorForce(e) && q.pyEndeffectorTorques()[e] == q.endeffectorTorque(e) && q.pyEndeffectorCops()[e] == q.endeffectorCoP(e) && q.pyEndeffectorPositions()[e] == q.endeffectorPosition(e);
    PBT_CHECK(c, ok, "keeps", "state " << t << " does not keep what it is given");
  }
  // robot posture, velocity and acceleration: base position, base orientation (x, y, z, w), joints
  RobotPosture p(dofs); V3 bp = v3(s, -3, 3); Q bq = quat(s); V jp = s.vec(dofs, -3, 3);
  p.basePosition(bp); p.baseOrientation(bq); p.jointPositions(jp);
  if (s.boolean()) p.pyBaseOrientation(Eigen::Vector4d(bq.x(), bq.y(), bq.z(), bq.w()));
  V want(dofs + 7); want << bp, bq.x(), bq.y(), bq.z(), bq.w(), jp;
  PBT_CHECK(c, mclose(p.generalizedJointPositions(), want, 0) && mclose(p.pyBaseOrientation(), want.segment(3, 4), 0), "posture", "generalised positions " << str(V(p.generalizedJointPositions())) << " instead of " << str(want));
  V g = s.vec(dofs + 6, -3, 3);
  auto parts = [&](auto& x, auto whole, auto lin, auto ang, auto jnt, const char* n2) {
    bool byparts = s.boolean();
    if (byparts) { lin(x) = V3(g.head(3)); ang(x) = V3(g.segment(3, 3)); jnt(x) = V(g.tail(dofs)); } else whole(x) = g;
    PBT_CHECK(c, mclose(whole(x), g, 0) && mclose(lin(x), g.head(3), 0) && mclose(ang(x), g.segment(3, 3), 0) && mclose(jnt(x), g.tail(dofs), 0), n2, n2 << " does not keep its parts");
  };
  RobotVelocity rv(dofs); RobotAcceleration ra(dofs);
  parts(rv, [](RobotVelocity& x) -> V& { return x.generalizedJointVelocities(); }, [](RobotVelocity& x) { return x.baseLinearVelocity(); }, [](RobotVelocity& x) { return x.baseAngularVelocity(); }, [](RobotVelocity& x) { return x.jointVelocities(); }, "velocity");
  parts(ra, [](RobotAcceleration& x) -> V& { return x.generalizedJointAccelerations(); }, [](RobotAcceleration& x) { return x.baseLinearAcceleration(); }, [](RobotAcceleration& x) { return x.baseAngularAcceleration(); }, [](RobotAcceleration& x) { return x.jointAccelerations(); }, "acceleration");
  RobotVelocity r2(dofs); r2.baseLinearVelocity(V(g.head(3))); r2.baseAngularVelocity(V(g.segment(3, 3))); r2.jointVelocities(V(g.tail(dofs)));
  RobotAcceleration a2(dofs); a2.baseLinearAcceleration(V(g.head(3))); a2.baseAngularAcceleration(V(g.segment(3, 3))); a2.jointAccelerations(V(g.tail(dofs)));
  PBT_CHECK(c, mclose(r2.generalizedJointVelocities(), g, 0) && mclose(a2.generalizedJointAccelerations(), g, 0), "setters", "velocity or acceleration setters");
  const RobotVelocity& rc = r2; const RobotAcceleration& ac = a2;
  PBT_CHECK(c, mclose(rc.jointVelocities(), g.tail(dofs), 0) && mclose(rc.baseAngularVelocity(), g.segment(3, 3), 0) && mclose(rc.baseLinearVelocity(), g.head(3), 0) && mclose(ac.jointAccelerations(), g.tail(dofs), 0) && mclose(ac.baseAngularAcceleration(), g.segment(3, 3), 0) && mclose(ac.baseLinearAcceleration(), g.head(3), 0), "readers", "parts of velocity or acceleration read through a constant reference");
}

// model-based: writes in every form, reads in every form
PBT_PROP(containers) {
  int n = s.integer(1, 4), dofs = s.integer(1, 4);
  DynamicsSequence ds; KinematicsSequence ks; ds.resize(n); ks.resize(n, dofs);
  enum { COM, LM, AM, LMD, AMD, TIME, ACT, ACTID, CNTID, POS, VEL, ACC, ORI, FRC, TRQ, COP, CTRQ, KCOM, KLM, KAM, KPOS, KVEL, KACC, KORI, BPOS, BORI, JPOS, GVEL, GACC, NF };
  auto size = [&](int f) { switch (f) { case TIME: case ACT: case ACTID: case CNTID: return 1; case ORI: case KORI: case BORI: return 4; case JPOS: return dofs; case GVEL: case GACC: return 6 + dofs; default: return 3; } };
  auto perEff = [](int f) { return (f >= ACT && f <= CTRQ) || (f >= KPOS && f <= KORI); };
  using Model = std::map<std::pair<int, int>, V>;
  std::vector<Model> m(n);
  Eigen::Vector4i steps(0, 0, 0, 0); bool stepsSet = false;
  int writes = s.integer(1, 12); std::set<int> touched;
  for (int w = 0; w < writes; w++) {
    int t = s.integer(0, n - 1), how = s.integer(0, 9);
    DynamicsState& q = ds.dynamicsState(t); KinematicsState& k = ks.kinematicsState(t);
    if (how == 0) { int u = s.integer(0, n - 1); ds.dynamicsState(u) = q; ks.kinematicsState(u) = k; m[u] = m[t]; c.label("a state is copied to another"); continue; }
    if (how == 1) { std::vector<DynamicsState> a = ds.dynamicsSequence(); std::vector<KinematicsState> b = ks.kinematicsSequence(); DynamicsSequence d2; KinematicsSequence k2; d2.dynamicsSequence(a); k2.kinematicsSequence(b); if (stepsSet) d2.activeEndeffectorSteps() = ds.activeEndeffectorSteps();
      for (auto& x : a) x.centerOfMass().setConstant(77); for (auto& x : b) x.endeffectorPosition(0).setConstant(77); ds.resize(0); ds = d2; ks = k2; c.label("sequences are handed over"); continue; }
    if (how == 2) { for (int e = 0; e < 4; e++) steps[e] = s.integer(0, 9); for (int e = 0; e < 4; e++) ds.activeEndeffectorSteps()[e] = steps[e]; stepsSet = true; continue; }
    int f = s.integer(0, NF - 1), e = perEff(f) ? s.integer(0, 3) : 0; V v = s.vec(size(f), -5, 5); bool set = s.boolean(); touched.insert(t);
    if (size(f) == 1 && f != TIME) v[0] = f == ACT ? s.integer(0, 1) : s.integer(-1, 9);
    Q o; if (size(f) == 4) { o = quat(s); v = o.coeffs(); }
    V3 x = size(f) == 3 ? V3(v) : V3(0, 0, 0);
    m[t][{f, e}] = v; c.note << "t" << t << ".field" << f << "[" << e << "]=" << str(v) << (set ? " (setter); " : "; ");
    auto list = [&](std::vector<Eigen::Vector3d> l) { l[e] = x; return l; };
    switch (f) {
      case COM: if (set) q.centerOfMass(x); else q.centerOfMass() = x; break;
      case LM: if (set) q.linearMomentum(x); else q.linearMomentum() = x; break;
      case AM: if (set) q.angularMomentum(x); else q.angularMomentum() = x; break;
      case LMD: if (set) q.linearMomentumRate(x); else q.linearMomentumRate() = x; break;
      case AMD: if (set) q.angularMomentumRate(x); else q.angularMomentumRate() = x; break;
      case TIME: if (set) q.time(v[0]); else q.time() = v[0]; break;
      case ACT: q.endeffectorActivation(e) = v[0] != 0; break;
      case ACTID: q.endeffectorActivationId(e) = (int)v[0]; break;
      case CNTID: q.endeffectorContactId(e) = (int)v[0]; break;
      case POS: if (set) q.pyEndeffectorPositions(list(q.pyEndeffectorPositions())); else q.endeffectorPosition(e) = x; break;
      case VEL: q.endeffectorVelocity(e) = x; break;
      case ACC: q.endeffectorAcceleration(e) = x; break;
      case ORI: q.endeffectorOrientation(e) = o; break;
      case FRC: if (set) q.pyEndeffectorForces(list(q.pyEndeffectorForces())); else q.endeffectorForce(e) = x; break;
      case TRQ: if (set) q.pyEndeffectorTorques(list(q.pyEndeffectorTorques())); else q.endeffectorTorque(e) = x; break;
      case COP: if (set) q.pyEndeffectorCops(list(q.pyEndeffectorCops())); else q.endeffectorCoP(e) = x; break;
      case CTRQ: q.endeffectorTorqueAtContactPoint(e) = x; break;
      case KCOM: if (set) k.centerOfMass(x); else k.centerOfMass() = x; break;
      case KLM: if (set) k.linearMomentum(x); else k.linearMomentum() = x; break;
      case KAM: if (set) k.angularMomentum(x); else k.angularMomentum() = x; break;
      case KPOS: if (set) k.pyEndeffectorPositions(list(k.pyEndeffectorPositions())); else k.endeffectorPosition(e) = x; break;
      case KVEL: k.endeffectorVelocity(e) = x; break;
      case KACC: k.endeffectorAcceleration(e) = x; break;
      case KORI: k.endeffectorOrientation(e) = o; break;
      case BPOS: if (set) { RobotPosture p = k.robotPosture(); p.basePosition(x); k.robotPosture(p); } else k.robotPosture().basePosition() = x; break;
      case BORI: if (set) { RobotPosture p = k.robotPosture(); p.baseOrientation(o); k.robotPosture(p); } else if (s.boolean()) k.robotPosture().pyBaseOrientation(Eigen::Vector4d(v)); else k.robotPosture().baseOrientation() = o; break;
      case JPOS: if (set) { RobotPosture p = k.robotPosture(); p.jointPositions(v); k.robotPosture(p); } else k.robotPosture().jointPositions() = v; break;
      case GVEL: if (set) { RobotVelocity p = k.robotVelocity(); p.generalizedJointVelocities(v); k.robotVelocity(p); } else k.robotVelocity().generalizedJointVelocities() = v; break;
      case GACC: if (set) { RobotAcceleration p = k.robotAcceleration(); p.generalizedJointAccelerations(v); k.robotAcceleration(p); } else k.robotAcceleration().generalizedJointAccelerations() = v; break;
    }
  }
  c.nontrivial = writes >= 3 && touched.size() >= 2;
  const DynamicsSequence& dc = ds; const KinematicsSequence& kc = ks;
  PBT_CHECK(c, dc.size() == n && kc.size() == n, "size", "sequences changed their size to " << dc.size() << ", " << kc.size());
  if (stepsSet) PBT_CHECK(c, dc.activeEndeffectorSteps() == steps && ds.activeEndeffectorSteps() == steps, "steps", "numbers of active steps are not kept");
  for (int t = 0; t < n; t++) {
    DynamicsState& q = ds.dynamicsState(t); KinematicsState& k = ks.kinematicsState(t); const DynamicsState& qc = dc.dynamicsState(t); const KinematicsState& kk = kc.kinematicsState(t);
    auto want = [&](int f, int e) { auto it = m[t].find({f, e}); if (it != m[t].end()) return it->second; V z = V::Zero(size(f)); if (size(f) == 4) z[3] = 1; if (f == CNTID || f == ACTID) z[0] = -1; return z; };
    auto same = [&](int f, int e, const char* form, const V& got) {
      if (m[t].find({f, e}) == m[t].end() && (f == ACTID || f == JPOS || f == TIME || f == ORI || f == KORI || f == BORI)) return;         // what a new state holds there is not specified
      V w = want(f, e); double tol = size(f) == 4 ? 1e-12 : 0;
      PBT_CHECK(c, mclose(got, w, tol), "keeps", "field " << f << " of state " << t << ", effector " << e << ", read through " << form << " is " << str(got) << " instead of " << str(w));
    };
    auto one = [](double x) { V r(1); r[0] = x; return r; };
    for (int form = 0; form < 2; form++) {
      const char* nm = form ? "a constant reference" : "a reference";
      #define RD(F, E, X, Y) same(F, E, nm, form ? V(X) : V(Y))
      RD(COM, 0, qc.centerOfMass(), q.centerOfMass()); RD(LM, 0, qc.linearMomentum(), q.linearMomentum()); RD(AM, 0, qc.angularMomentum(), q.angularMomentum());
      RD(LMD, 0, qc.linearMomentumRate(), q.linearMomentumRate()); RD(AMD, 0, qc.angularMomentumRate(), q.angularMomentumRate()); RD(TIME, 0, one(qc.time()), one(q.time()));
      RD(KCOM, 0, kk.centerOfMass(), k.centerOfMass()); RD(KLM, 0, kk.linearMomentum(), k.linearMomentum()); RD(KAM, 0, kk.angularMomentum(), k.angularMomentum());
      RD(BPOS, 0, kk.robotPosture().basePosition(), k.robotPosture().basePosition()); RD(BORI, 0, kk.robotPosture().baseOrientation().coeffs(), k.robotPosture().baseOrientation().coeffs()); RD(JPOS, 0, kk.robotPosture().jointPositions(), k.robotPosture().jointPositions());
      RD(GVEL, 0, kk.robotVelocity().generalizedJointVelocities(), k.robotVelocity().generalizedJointVelocities()); RD(GACC, 0, kk.robotAcceleration().generalizedJointAccelerations(), k.robotAcceleration().generalizedJointAccelerations());
      for (int e = 0; e < 4; e++) {
        RD(ACT, e, one(qc.endeffectorActivation(e)), one(q.endeffectorActivation(e))); RD(ACTID, e, one(qc.endeffectorActivationId(e)), one(q.endeffectorActivationId(e))); RD(CNTID, e, one(qc.endeffectorContactId(e)), one(q.endeffectorContactId(e)));
        RD(POS, e, qc.endeffectorPosition(e), q.endeffectorPosition(e)); RD(VEL, e, qc.endeffectorVelocity(e), q.endeffectorVelocity(e)); RD(ACC, e, qc.endeffectorAcceleration(e), q.endeffectorAcceleration(e)); RD(ORI, e, qc.endeffectorOrientation(e).coeffs(), q.endeffectorOrientation(e).coeffs());
        RD(FRC, e, qc.endeffectorForce(e), q.endeffectorForce(e)); RD(TRQ, e, qc.endeffectorTorque(e), q.endeffectorTorque(e)); RD(COP, e, qc.endeffectorCoP(e), q.endeffectorCoP(e)); RD(CTRQ, e, qc.endeffectorTorqueAtContactPoint(e), q.endeffectorTorqueAtContactPoint(e));
        RD(KPOS, e, kk.endeffectorPosition(e), k.endeffectorPosition(e)); RD(KVEL, e, kk.endeffectorVelocity(e), k.endeffectorVelocity(e)); RD(KACC, e, kk.endeffectorAcceleration(e), k.endeffectorAcceleration(e)); RD(KORI, e, kk.endeffectorOrientation(e).coeffs(), k.endeffectorOrientation(e).coeffs());
        if (form) { same(POS, e, "the list", qc.pyEndeffectorPositions()[e]); same(FRC, e, "the list", qc.pyEndeffectorForces()[e]); same(TRQ, e, "the list", qc.pyEndeffectorTorques()[e]); same(COP, e, "the list", qc.pyEndeffectorCops()[e]); same(KPOS, e, "the list", kk.pyEndeffectorPositions()[e]); }
      }
      #undef RD
    }
    same(BORI, 0, "its vector", V(kk.robotPosture().pyBaseOrientation()));
    V g = kk.robotPosture().generalizedJointPositions();
    if (m[t].count({BORI, 0}) && m[t].count({JPOS, 0})) { V w(7 + dofs); w << want(BPOS, 0), want(BORI, 0), want(JPOS, 0); PBT_CHECK(c, mclose(g, w, 1e-12), "generalized", "generalised positions " << str(g) << " instead of " << str(w)); }
  }
}

PBT_MAIN
