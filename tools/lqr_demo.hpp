#include <Eigen/Eigen>
#include <yaml_utils/yaml_eigen.hpp>
#include <solver_lqr/SolverLqr.hpp>
#include <functional>
#include <fstream>
#include <cstdio>
#include <unistd.h>
using namespace solverlqr;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
struct Ocp : OcpBase {
  std::function<V(const V&, const V&, int)> f;            // increment
  std::function<double(const V&, const V&, int, bool)> l;
  void configure(const YAML::Node&) override {}
  StateBase dynamics(const StateBase& x, const ControlBase& u, int t) override { StateBase r; r.stateVector() = f(x.stateVector(), u.feedforward(), t); return r; }
  double objective(const StateBase& x, const ControlBase& u, int t, bool fin) override { return l(x.stateVector(), u.feedforward(), t, fin); }
};
// settings in a scratch file of the current run
inline void settings(SolverLqrSetting& st, int n, int m, int T, const std::string& more = "  has_control_limits: false\n", const std::string& over = "") {
  char name[] = "/tmp/lqr-demo-XXXXXX"; int fd = mkstemp(name); close(fd);
  std::ofstream o(name);
  o << "solverlqr_variables:\n  verbosity: 0\n  sensitivity: 1.0\n  decimal_digits: 4\n  lqr_max_iters: 300\n  linesearch_coeff: 1.1\n  linesearch_num_coeffs: 10\n"
       "  cost_change_tolerance: 1.0e-12\n  divergence_limit_check: 1.0e6\n  bpass_regularization_type: 2\n  bpass_min_regularization: 1.0e-6\n  bpass_max_regularization: 1.0e10\n"
       "  control_gradient_tolerance: 1.0e-9\n  bpass_initial_regularization: 0.1\n  min_expected_cost_improvement: 0.2\n  bpass_mult_regularization_incr: 1.2\n"
       "  bpass_initial_mult_regularization_incr: 1.0\n  time_step: 1.0\n  time_horizon: " << T << ".0\n  state_dimension: " << n << "\n  control_dimension: " << m << "\n  initial_state: [";
  for (int i = 0; i < n; i++) o << (i ? ", 0.0" : "0.0");
  o << "]\n" << more << "  store_data: false\n  user_parameters: {}\n";
  o.close();
  st.initialize(name);
  unlink(name);
}
