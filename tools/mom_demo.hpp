// configuration file and contact plan for the demonstrations
#pragma once
#include <map>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <yaml_utils/yaml_eigen.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
#include <momentumopt/cntopt/ContactPlanInterface.hpp>
using namespace momentumopt;
typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;
struct Cfg {
  std::map<std::string, std::string> k;
  std::string& operator[](const std::string& s) { return k[s]; }
  Cfg() {
    k["load_kinematics"] = "false"; k["heuristic"] = "SoftConstraint"; k["n_act_eefs"] = "2"; k["time_step"] = "0.1"; k["time_horizon"] = "1.0";
    k["external_force"] = "[0.0, 0.0, 0.0]"; k["com_displacement"] = "[0.0, 0.0, 0.0]"; k["num_com_viapoints"] = "0"; k["com_viapoints"] = "{}";
    k["max_time_iterations"] = "10"; k["max_time_residual_tolerance"] = "1e-3"; k["min_time_residual_improvement"] = "1e-5";
    k["gravity"] = "10.0"; k["robot_mass"] = "50.0"; k["floor_height"] = "0.0"; k["friction_coeff"] = "0.8"; k["friction_cone"] = "LinearCone";
    k["torque_range"] = "[-200.0, 200.0]"; k["max_eef_lengths"] = "[2.0, 2.0, 2.0, 2.0]"; k["min_rel_height"] = "0.1";
    k["time_range"] = "[0.05, 0.2]"; k["is_time_horizon_fixed"] = "false";
    for (const char* e : {"rf", "lf", "rh", "lh"}) { k[std::string("cop_range_") + e] = "[-0.05, 0.05, -0.05, 0.05]"; k[std::string("eff_offset_") + e] = "[0.0, 0.0, 0.0]"; }
    for (const char* w : {"w_com", "w_amom", "w_lmom", "w_amomd", "w_lmomd", "w_com_via", "w_frc_arm", "w_frc_leg", "w_dfrc_arm", "w_dfrc_leg", "w_amom_final", "w_lmom_final", "w_com_track", "w_lmom_track", "w_amom_track"})
      k[w] = "[0.0, 0.0, 0.0]";
    for (const char* w : {"w_trq_arm", "w_trq_leg", "w_time", "w_time_penalty"}) k[w] = "1.0";
    k["store_data"] = "false"; k["use_default_solver_setting"] = "true";
  }
  // writes the file into the scratch directory given to the demonstration
  std::string write() const {
    std::string f = std::string(getenv("DEMO_TMP")) + "/cfg.yaml"; std::ofstream o(f); o << "planner_variables:\n";
    for (auto& p : k) o << "  " << p.first << ": " << p.second << "\n";
    return f;
  }
};
struct Plan : ContactPlanInterface {
  std::vector<ContactState> c[4];
  void optimize(const DynamicsState&, const TerrainDescription&) override {}
  void add(int e, double from, double to, const V3& p, const Q& q = Q::Identity()) {
    ContactState s; s.contactActivationTime() = from; s.contactDeactivationTime() = to; s.contactPosition() = p; s.contactOrientation() = q; s.contactType() = ContactType::FlatContact; s.selectedAsActive() = true; c[e].push_back(s);
  }
  void fill() { for (int e = 0; e < 4; e++) contactSequence().endeffectorContacts(e, c[e]); }
};
