// Shared by the momentumopt harnesses: configuration files, contact plans.
#pragma once
#include <map>
#include <fstream>
#include <iomanip>
#include <Eigen/Eigen>
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
#include <momentumopt/cntopt/ContactPlanInterface.hpp>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include "pbt.hpp"

namespace mom {
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaterniond Q;

struct Tmp {
  std::string dir;
  Tmp() { char t[] = "/tmp/pbt-mom-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); dir = t; }
  ~Tmp() {
    for (const char* f : {"/cfg.yaml", "/other.yaml", "/dyn.yaml", "/cfg_kin_results.yaml", "/cfg_lqr_results.yaml"}) unlink((dir + f).c_str());
    rmdir(dir.c_str());
  }
  std::string file(const char* n = "/cfg.yaml") const { return dir + n; }
};

inline std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; std::string s = o.str(); if (s.find_first_of(".en") == std::string::npos) s += ".0"; return s; }
inline std::string seq(const V& v) { std::string s = "["; for (int i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s + "]"; }
inline std::string seqi(const Eigen::VectorXi& v) { std::string s = "["; for (int i = 0; i < v.size(); i++) s += (i ? ", " : "") + std::to_string(v[i]); return s + "]"; }
inline std::string bo(bool b) { return b ? "true" : "false"; }
inline V vv(std::initializer_list<double> l) { V r(l.size()); int i = 0; for (double d : l) r[i++] = d; return r; }
inline V3 v3(pbt::Src& s, double lo, double hi) { return s.vec(3, lo, hi); }

inline const char* eff(int e) { static const char* n[] = {"rf", "lf", "rh", "lh"}; return n[e]; }

// planner_variables as key -> text
struct Cfg {
  std::map<std::string, std::string> k;
  std::string& operator[](const std::string& s) { return k[s]; }
  Cfg() {
    k["load_kinematics"] = "false"; k["heuristic"] = "SoftConstraint"; k["n_act_eefs"] = "2"; k["time_step"] = "0.1"; k["time_horizon"] = "1.0";
    k["external_force"] = "[0.0, 0.0, 0.0]"; k["com_displacement"] = "[0.0, 0.0, 0.0]"; k["num_com_viapoints"] = "0"; k["com_viapoints"] = "{}";
    k["max_time_iterations"] = "10"; k["max_time_residual_tolerance"] = "1e-3"; k["min_time_residual_improvement"] = "1e-5";
    k["gravity"] = "9.81"; k["robot_mass"] = "60.0"; k["floor_height"] = "0.0"; k["friction_coeff"] = "1.0"; k["friction_cone"] = "LinearCone";
    k["torque_range"] = "[-200.0, 200.0]"; k["max_eef_lengths"] = "[1.0, 1.0, 1.0, 1.0]"; k["min_rel_height"] = "0.1";
    k["time_range"] = "[0.05, 0.2]"; k["is_time_horizon_fixed"] = "false";
    for (int e = 0; e < 4; e++) { k[std::string("cop_range_") + eff(e)] = "[-0.05, 0.05, -0.05, 0.05]"; k[std::string("eff_offset_") + eff(e)] = "[0.0, 0.0, 0.0]"; }
    for (const char* w : {"w_com", "w_amom", "w_lmom", "w_amomd", "w_lmomd", "w_com_via", "w_frc_arm", "w_frc_leg", "w_dfrc_arm", "w_dfrc_leg", "w_amom_final", "w_lmom_final", "w_com_track", "w_lmom_track", "w_amom_track"})
      k[w] = "[0.0, 0.0, 0.0]";
    for (const char* w : {"w_trq_arm", "w_trq_leg", "w_time", "w_time_penalty"}) k[w] = "1.0";
    k["store_data"] = "false"; k["use_default_solver_setting"] = "true";
  }
  std::string text(const std::string& name = "planner_variables") const {
    std::string s = name + ":\n";
    for (auto& p : k) s += "  " + p.first + ": " + p.second + "\n";
    return s;
  }
};
inline void put(const std::string& f, const std::string& s) { std::ofstream o(f); o << s; }

// a plan that is filled in by the test
struct Plan : momentumopt::ContactPlanInterface {
  void optimize(const momentumopt::DynamicsState&, const momentumopt::TerrainDescription&) override {}
};
inline Q quat(pbt::Src& s) {
  V w = s.uvec(4, -1, 1);
  if (w.norm() < 1e-2) return Q::Identity();
  w /= w.norm(); return Q(w[0], w[1], w[2], w[3]);
}
inline double rotdist(const Q& a, const Q& b) {          // angle between two orientations
  Q d = a.normalized() * b.normalized().conjugate();
  return 2 * std::atan2(d.vec().norm(), std::abs(d.w()));
}
inline V3 rotvec(const Q& q0) { Q q = q0.normalized(); if (q.w() < 0) q.coeffs() *= -1; double n = q.vec().norm(); return n < 1e-12 ? V3(2 * q.vec()) : V3(q.vec() / n * (2 * std::atan2(n, q.w()))); }
inline Q rotexp(const V3& w) { double n = w.norm(); if (n < 1e-12) return Q(1, w[0] / 2, w[1] / 2, w[2] / 2).normalized(); Q q; q.w() = std::cos(n / 2); q.vec() = w / n * std::sin(n / 2); return q; }

// Polynomial of lowest degree through conditions (kind 0/1/2: position, velocity, acceleration),
// fitted in time scaled to [-1,1] with extended precision.
struct Poly {
  typedef long double L;
  double t0, h, rcond;
  Eigen::Matrix<L, -1, 1> a;
  struct Cond { int kind; double t, v; };
  explicit Poly(const std::vector<Cond>& c) {
    double lo = 1e300, hi = -1e300;
    for (auto& x : c) { lo = std::min(lo, x.t); hi = std::max(hi, x.t); }
    t0 = (lo + hi) / 2; h = (hi - lo) / 2;
    int n = (int)c.size();
    Eigen::Matrix<L, -1, -1> A(n, n); Eigen::Matrix<L, -1, 1> b(n);
    for (int i = 0; i < n; i++) {
      L x = ((L)c[i].t - t0) / h, sc = 1;
      for (int q = 0; q < c[i].kind; q++) sc *= h;
      for (int j = 0; j < n; j++) {
        L f = 1; for (int q = 0; q < c[i].kind; q++) f *= (j - q);
        A(i, j) = j < c[i].kind ? (L)0 : f * std::pow(x, (L)(j - c[i].kind));
      }
      b[i] = (L)c[i].v * sc;
    }
    Eigen::FullPivLU<Eigen::Matrix<L, -1, -1>> lu(A);
    auto piv = lu.matrixLU().diagonal().cwiseAbs().eval();
    rcond = (double)(piv.minCoeff() / std::max(piv.maxCoeff(), (L)1e-30));
    a = lu.solve(b);
  }
  double at(double t, int kind) const {
    long double x = ((long double)t - t0) / h, r = 0;
    for (int j = kind; j < a.size(); j++) { long double f = 1; for (int q = 0; q < kind; q++) f *= (j - q); r += f * a[j] * (j == kind ? 1.0L : std::pow(x, (long double)(j - kind))); }
    for (int q = 0; q < kind; q++) r /= h;
    return (double)r;
  }
  double size() const { return (double)a.cwiseAbs().sum(); }
};
}
