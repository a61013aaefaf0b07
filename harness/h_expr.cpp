// C08 expression algebra, C09 optimisation-variable index map, C10 solver settings.
#include <pbt.hpp>
#include <solver/interface/Solver.hpp>
#include <solver/interface/OptVar.hpp>
#include <unistd.h>
using namespace solver;

static const char* kStg = VERIF_REPO_DIR "/momentumopt/config/default_solver_setting.yaml";

// --- C08 -------------------------------------------------------------------
struct Ref {  // dense reference of an affine expression
  std::vector<double> a; double k;
  explicit Ref(int n) : a(n, 0.0), k(0) {}
};
struct Node { LinExpr e; Ref r; };

static std::vector<double> dense(const LinExpr& e, int n) {
  std::vector<double> a(n, 0.0);
  for (size_t i = 0; i < e.size(); i++) a[e.getVar((int)i).get(SolverIntParam_ColNum)] += e.getCoeff((int)i);
  return a;
}
static double value(const Ref& r, const std::vector<double>& x) {
  double v = r.k;
  for (size_t i = 0; i < x.size(); i++) v += r.a[i] * x[i];
  return v;
}
static void compare(pbt::Case& c, const char* op, const LinExpr& e, const Ref& r, const std::vector<double>& x,
                    bool merged) {
  int n = (int)x.size();
  std::vector<double> a = dense(e, n);
  double mag = 1.0 + std::abs(r.k);
  for (int i = 0; i < n; i++) mag += std::abs(r.a[i]) * (1 + std::abs(x[i]));
  for (int i = 0; i < n; i++)
    PBT_CHECK(c, std::abs(a[i] - r.a[i]) <= 1e-9 * mag, "coefficient", op << ": coefficient of var " << i << " is " << a[i] << ", expected " << r.a[i]);
  PBT_CHECK(c, std::abs(e.getConstant() - r.k) <= 1e-9 * mag, "constant", op << ": constant " << e.getConstant() << " expected " << r.k);
  PBT_CHECK(c, std::abs(e.getValue() - value(r, x)) <= 1e-9 * mag, "value", op << ": value " << e.getValue() << " expected " << value(r, x));
  if (merged) {
    std::set<int> cols;
    for (size_t i = 0; i < e.size(); i++)
      PBT_CHECK(c, cols.insert(e.getVar((int)i).get(SolverIntParam_ColNum)).second, "duplicate-variable",
                op << ": variable " << e.getVar((int)i).get(SolverIntParam_ColNum) << " appears twice");
  }
}

PBT_PROP(expr_algebra) {
  Model m;
  m.configSetting(kStg);
  int n = s.integer(1, 4);
  std::vector<Var> v;
  std::vector<double> x;
  for (int i = 0; i < n; i++) {
    x.push_back(s.real(-4, 4));
    v.push_back(m.addVar(VarType::Continuous, -1e3, 1e3, x.back()));
    PBT_CHECK(c, v.back().get(SolverIntParam_ColNum) == i, "column", "variable " << i << " has column " << v.back().get(SolverIntParam_ColNum));
  }
  std::vector<Node> pool;
  pool.push_back({LinExpr(0.0), Ref(n)});
  int steps = s.integer(1, 14);
  bool reuse = false, cancel = false;
  for (int t = 0; t < steps; t++) {
    int op = s.integer(0, 27);
    Node& A = pool[s.index(pool.size())];
    Node& B = pool[s.index(pool.size())];
    int i = (int)s.index(n), j = (int)s.index(n);
    double k = s.real(-3, 3);
    double d = k == 0 ? 2.0 : k;
    LinExpr e; Ref r(n); bool merged = true;
    auto R = [&](const Ref& p, double f, const Ref& q, double g) { Ref o(n); o.k = f * p.k + g * q.k; for (int z = 0; z < n; z++) o.a[z] = f * p.a[z] + g * q.a[z]; return o; };
    auto V = [&](int z, double f) { Ref o(n); o.a[z] = f; return o; };
    auto K = [&](double z) { Ref o(n); o.k = z; return o; };
    Ref Z(n);
    c.note << " op" << op << "(" << i << "," << j << "," << k << ")";
    switch (op) {
      case 0: e = LinExpr(v[i], k); r = V(i, k); break;
      case 1: e = A.e + B.e; r = R(A.r, 1, B.r, 1); reuse = true; break;
      case 2: e = A.e - B.e; r = R(A.r, 1, B.r, -1); reuse = true; break;
      case 3: e = A.e * k; r = R(A.r, k, Z, 0); break;
      case 4: e = k * A.e; r = R(A.r, k, Z, 0); break;
      case 5: e = A.e / d; r = R(A.r, 1 / d, Z, 0); break;
      case 6: e = A.e; e += B.e; r = R(A.r, 1, B.r, 1); break;
      case 7: e = A.e; e -= B.e; r = R(A.r, 1, B.r, -1); break;
      case 8: e = A.e; e += k; r = R(A.r, 1, K(k), 1); break;
      case 9: e = A.e; e -= k; r = R(A.r, 1, K(k), -1); break;
      case 10: e = A.e; e *= k; r = R(A.r, k, Z, 0); break;
      case 11: e = A.e; e /= d; r = R(A.r, 1 / d, Z, 0); break;
      case 12: e = A.e + v[i]; r = R(A.r, 1, V(i, 1), 1); break;
      case 13: e = A.e - v[i]; r = R(A.r, 1, V(i, 1), -1); break;
      case 14: e = v[i] - A.e; r = R(V(i, 1), 1, A.r, -1); break;
      case 15: e = k + A.e; r = R(K(k), 1, A.r, 1); break;
      case 16: e = k - A.e; r = R(K(k), 1, A.r, -1); break;
      case 17: e = -A.e; r = R(A.r, -1, Z, 0); break;
      case 18: e = v[i] + v[j]; r = R(V(i, 1), 1, V(j, 1), 1); break;
      case 19: e = v[i] - v[j]; r = R(V(i, 1), 1, V(j, 1), -1); cancel |= i == j; break;
      case 20: e = v[i] * k; r = V(i, k); break;
      case 21: e = k * v[i]; r = V(i, k); break;
      case 22: e = v[i] / d; r = V(i, 1 / d); break;
      case 23: e = k + v[i]; r = R(K(k), 1, V(i, 1), 1); break;
      case 24: e = v[i] - k; r = R(V(i, 1), 1, K(k), -1); break;
      case 25: e = k - v[i]; r = R(K(k), 1, V(i, 1), -1); break;
      case 26: e = A.e; e -= e; r = Z; break;
      case 27: e = A.e; e += e; r = R(A.r, 2, Z, 0); break;
    }
    compare(c, ("op" + std::to_string(op)).c_str(), e, r, x, merged);
    // the operands are unchanged
    compare(c, "operand", A.e, A.r, x, true);
    compare(c, "operand", B.e, B.r, x, true);
    LinExpr cl = LinExpr::clean(e);
    compare(c, "clean", cl, r, x, true);
    pool.push_back({e, r});
    if (pool.size() > 8) pool.erase(pool.begin() + 1);
  }
  // values follow the variables
  for (int i = 0; i < n; i++) { x[i] = s.real(-4, 4); v[i].set(SolverDoubleParam_X, x[i]); }
  for (auto& p : pool) compare(c, "after-set", p.e, p.r, x, true);
  // quadratic expression: sum of weighted squares
  DCPQuadExpr q;
  double expect = 0, mag = 1; int terms = 0;
  LinExpr lin; Ref lr(n);
  int nq = s.integer(0, 4);
  for (int t = 0; t < nq; t++) {
    Node& A = pool[s.index(pool.size())];
    double w = s.real(-2, 3);
    q.addQuaTerm(w, A.e);
    double val = value(A.r, x);
    expect += w * val * val; mag += std::abs(w) * (std::abs(val) + 1) * (std::abs(val) + 1) * 10;
    if (w != 0) terms++;
    if (s.boolean()) { q.addLinTerm(A.e); for (int z = 0; z < n; z++) lr.a[z] += A.r.a[z]; lr.k += A.r.k; }
  }
  for (auto& p : pool) for (int z = 0; z < n; z++) mag += 100 * std::abs(p.r.a[z]) * std::abs(p.r.a[z]);
  PBT_CHECK(c, std::abs(q.getValue() - expect) <= 1e-8 * mag, "quadratic-value", "sum of squares " << q.getValue() << " expected " << expect);
  PBT_CHECK(c, (int)q.coeffs().size() == terms && (int)q.qexpr().size() == terms, "quadratic-terms", q.coeffs().size() << " terms expected " << terms);
  compare(c, "quadratic-linear-part", q.lexpr(), lr, x, true);
  q.clear();
  PBT_CHECK(c, q.coeffs().empty() && q.qexpr().empty() && q.lexpr().size() == 0 && q.lexpr().getConstant() == 0 && q.getValue() == 0,
            "quadratic-clear", "clear() leaves terms behind");
  c.nontrivial = steps >= 4 && reuse && n >= 2;
  c.label("cancellation", cancel);
}

PBT_PROP(var_bounds) {
  Model m;
  m.configSetting(kStg);
  int n = s.integer(1, 8), nbin = 0;
  std::vector<Var> v;
  for (int i = 0; i < n; i++) {
    double lb = s.real(-5, 5), ub = s.real(-5, 5), g = s.real(-8, 8);
    bool bin = s.chance(0.3);
    c.note << " [" << lb << "," << ub << "] guess " << g;
    bool threw = false;
    Var var;
    bool plain = s.chance(0.2);              // without a guess: as near to zero as the bounds allow
    if (plain) g = 0;
    if (plain) try { var = m.addVar(bin ? VarType::Binary : VarType::Continuous, lb, ub); } catch (const std::runtime_error&) { threw = true; }
    else try { var = m.addVar(bin ? VarType::Binary : VarType::Continuous, lb, ub, g); } catch (const std::runtime_error&) { threw = true; }
    PBT_CHECK(c, threw == (lb > ub), "bound-order", "addVar(lb=" << lb << ", ub=" << ub << ") " << (threw ? "was refused" : "was accepted"));
    if (threw) { c.label("refused"); continue; }
    v.push_back(var);
    nbin += bin;
    double ge = std::min(std::max(g, lb), ub);
    PBT_CHECK(c, var.get(SolverDoubleParam_LB) == lb && var.get(SolverDoubleParam_UB) == ub, "bounds", "stored bounds differ");
    PBT_CHECK(c, var.get(SolverDoubleParam_Guess) == ge && var.get(SolverDoubleParam_X) == ge, "guess-clamped",
              "guess " << g << " in [" << lb << "," << ub << "] stored as " << var.get(SolverDoubleParam_Guess) << " value " << var.get(SolverDoubleParam_X));
    PBT_CHECK(c, var.get(SolverIntParam_ColNum) == (int)v.size() - 1, "column", "column " << var.get(SolverIntParam_ColNum) << " for variable " << v.size() - 1);
    // copies of a variable are the same variable
    Var copy = var;
    double nv = s.real(-9, 9);
    copy.set(SolverDoubleParam_X, nv);
    PBT_CHECK(c, var.get(SolverDoubleParam_X) == nv, "shared-value", "value set through a copy is not seen");
    // each of its numbers is set apart from the others
    double want[4] = {nv, lb, ub, ge};
    const SolverDoubleParam pars[4] = {SolverDoubleParam_X, SolverDoubleParam_LB, SolverDoubleParam_UB, SolverDoubleParam_Guess};
    for (int r = s.integer(0, 3); r > 0; r--) {
      int k = s.integer(0, 3); want[k] = s.real(-9, 9);
      (s.boolean() ? var : copy).set(pars[k], want[k]);
      for (int j = 0; j < 4; j++)
        PBT_CHECK(c, var.get(pars[j]) == want[j], "set-one", "after setting number " << k << " of a variable, number " << j << " is " << var.get(pars[j]) << " instead of " << want[j]);
    }
    PBT_CHECK(c, var.get(SolverIntParam_ColNum) == (int)v.size() - 1, "column", "column changed by setting values");
  }
  PBT_CHECK(c, m.getProblem().numBinaryVariables() == nbin, "binary-count", m.getProblem().numBinaryVariables() << " binaries, " << nbin << " were added");
  if (s.boolean()) {
    m.clean();
    PBT_CHECK(c, m.getProblem().numBinaryVariables() == 0, "clean", "clean() keeps variables");
    Var w = m.addVar(VarType::Continuous, 0, 1, 0.5);
    PBT_CHECK(c, w.get(SolverIntParam_ColNum) == 0, "clean-column", "first column after clean() is " << w.get(SolverIntParam_ColNum));
  }
  Var un;
  bool threw = false;
  try { un.get(SolverDoubleParam_X); } catch (const std::runtime_error&) { threw = true; }
  PBT_CHECK(c, threw, "uninitialised", "reading an uninitialised variable is not refused");
  c.nontrivial = v.size() >= 2;
}

// --- C09 -------------------------------------------------------------------
PBT_PROP(optvar_index) {
  typedef OptimizationVariable::OptMatrix OM;
  typedef OptimizationVariable::OptVector OV;
  int start = s.integer(0, 20), next = start;
  int nv = s.integer(1, 6);
  std::set<int> used;
  bool multi = false;
  for (int t = 0; t < nv; t++) {
    int R = s.integer(1, 5), C = s.integer(1, 6);
    multi |= R > 1 && C > 1;
    OptimizationVariable v;
    int form = s.integer(0, 6);
    char type = s.pick({'C', 'B'});
    double lo = s.real(-3, 0), hi = s.real(0, 3), g = s.real(-3, 3);
    OM L = s.mat(R, C, -3, 0), U = s.mat(R, C, 0, 3), G = s.mat(R, C, -3, 3);
    OV l = s.vec(R, -3, 0), u = s.vec(R, 0, 3);
    OM eL(R, C), eU(R, C), eG = OM::Zero(R, C);
    c.note << " var(" << R << "x" << C << " form " << form << " at " << next << ")";
    int before = next;
    switch (form) {
      case 0: v.initialize(type, R, C, lo, hi, next); eL.setConstant(lo); eU.setConstant(hi); break;
      case 1: v.initialize(type, R, C, l, u, next); for (int k = 0; k < C; k++) { eL.col(k) = l; eU.col(k) = u; } break;
      case 2: v.initialize(type, R, C, L, U, next); eL = L; eU = U; break;
      case 3: v.initialize(type, R, C, lo, hi, next, g); eL.setConstant(lo); eU.setConstant(hi); eG.setConstant(g); break;
      case 4: v.initialize(type, R, C, lo, hi, next, G); eL.setConstant(lo); eU.setConstant(hi); eG = G; break;
      case 5: v.initialize(type, R, C, l, u, next, G); for (int k = 0; k < C; k++) { eL.col(k) = l; eU.col(k) = u; } eG = G; break;
      case 6: v.initialize(type, R, C, L, U, next, G); eL = L; eU = U; eG = G; break;
    }
    PBT_CHECK(c, next == before + R * C, "advance", "start index moved from " << before << " to " << next << " for " << R << "x" << C);
    PBT_CHECK(c, v.getStartIndex() == before && v.getNumRows() == R && v.getNumCols() == C && v.getNumElements() == R * C, "shape", "stored shape differs");
    for (int j = 0; j < C; j++)
      for (int i = 0; i < R; i++) {
        int id = v.id(i, j);
        PBT_CHECK(c, id == before + j * R + i, "column-major", "id(" << i << "," << j << ")=" << id << " expected " << before + j * R + i);
        PBT_CHECK(c, used.insert(id).second, "index-collision", "index " << id << " is used twice");
      }
    int ri = s.integer(-3, 8), ci = s.integer(-3, 9);
    PBT_CHECK(c, v.id(ri, ci) == v.id(std::min(std::max(ri, 0), R - 1), std::min(std::max(ci, 0), C - 1)), "clamp",
              "id(" << ri << "," << ci << ")=" << v.id(ri, ci) << " on " << R << "x" << C);
    int ops = s.integer(0, 4);
    for (int o = 0; o < ops; o++) {
      int k = (int)s.index(C);
      switch (s.integer(0, 3)) {
        case 0: { double val = s.real(-3, 3); v.setAndConstraintIndexToCurrentValue(k, val); eG.col(k).setConstant(val); eL.col(k) = eU.col(k) = eG.col(k); break; }
        case 1: { OV val = s.vec(R, -3, 3); v.setAndConstraintIndexToCurrentValue(k, val); eG.col(k) = val; eL.col(k) = eU.col(k) = eG.col(k); break; }
        case 2: v.constraintIndexToCurrentValue(k); eL.col(k) = eU.col(k) = eG.col(k); break;
        case 3: { OM N = s.mat(R + s.integer(0, 2), C + s.integer(0, 2), -3, 3); v.setGuessValue(N); eG = N.block(0, 0, R, C); break; }
      }
    }
    OM a, b, d, g2; OV gc; int sz; char ty;
    v.getValues(a, b, d, sz, ty);
    v.getGuessValue(g2);
    PBT_CHECK(c, a == eL && b == eU, "bounds", "bounds differ from the model: " << pbt::str(Eigen::MatrixXd(a)) << " " << pbt::str(Eigen::MatrixXd(b)));
    PBT_CHECK(c, d == eG && g2 == eG, "guess", "guess differs from the model");
    PBT_CHECK(c, sz == R * C && ty == type, "size-type", "size " << sz << " type " << ty);
    for (int k = 0; k < C; k++) { v.getGuessValueByCol(k, gc); PBT_CHECK(c, gc == OV(eG.col(k)), "guess-column", "guess column " << k); }
  }
  PBT_CHECK(c, (int)used.size() == next - start && *used.begin() == start && *used.rbegin() == next - 1, "bijection", "indices do not fill the range");
  c.nontrivial = nv >= 2 && multi;
}

// --- C10 -------------------------------------------------------------------
static const SolverDoubleParam DP[] = {SolverDoubleParam_BnBIntegerTol, SolverDoubleParam_BnBAbsSubOptGap, SolverDoubleParam_BnBRelSubOptGap,
  SolverDoubleParam_FeasibilityTol, SolverDoubleParam_DualityGapAbsTol, SolverDoubleParam_DualityGapRelTol, SolverDoubleParam_FeasibilityTolInacc,
  SolverDoubleParam_DualityGapAbsTolInacc, SolverDoubleParam_DualityGapRelTolInacc, SolverDoubleParam_LinearSystemAccuracy,
  SolverDoubleParam_ErrorReductionFactor, SolverDoubleParam_DynamicRegularizationThresh, SolverDoubleParam_StaticRegularization,
  SolverDoubleParam_DynamicRegularization, SolverDoubleParam_SafeGuard, SolverDoubleParam_MinimumStepLength, SolverDoubleParam_MaximumStepLength,
  SolverDoubleParam_StepLengthScaling, SolverDoubleParam_MinimumCenteringStep, SolverDoubleParam_MaximumCenteringStep,
  SolverDoubleParam_TrustRegionThreshold, SolverDoubleParam_SoftConstraintWeightFull, SolverDoubleParam_SoftConstraintWeightReduced};
static const char* DN[] = {"BnB_integer_tolerance", "BnB_absolute_suboptimality_gap", "BnB_relative_suboptimality_gap",
  "feasibility_tolerance", "absolute_suboptimality_gap", "relative_suboptimality_gap", "feasibility_tolerance_inaccurate",
  "absolute_suboptimality_gap_inaccurate", "relative_suboptimality_gap_inaccurate", "lin_sys_accuracy",
  "err_reduction_factor", "dyn_reg_thresh", "static_regularization",
  "dynamic_regularization", "safeguard", "min_step_length", "max_step_length",
  "step_length_scaling", "min_centering_step", "max_centering_step",
  "trust_region_threshold", "soft_constraint_weight_full", "soft_constraint_weight_reduced"};
static const SolverIntParam IP[] = {SolverIntParam_BnBMaxIters, SolverIntParam_EquilibrationIters, SolverIntParam_NumIterRefinementsLinSolve,
  SolverIntParam_MaxIters, SolverIntParam_SolverMaxIters, SolverIntParam_WarmStartIters, SolverIntParam_NumberRefinementsTrustRegion};
static const char* IN[] = {"BnB_max_iterations", "equil_iterations", "num_iter_ref_lin_solve", "max_iters", "ipsolver_max_iters", "ipsolver_warm_iters", "num_itrefs_trustregion"};
static const SolverBoolParam BP[] = {SolverBoolParam_BnBVerbose, SolverBoolParam_Verbose};
static const char* BN[] = {"BnB_verbose", "verbose"};

PBT_PROP(solver_settings) {
  const int nd = 23, ni = 7, nb = 2;
  std::vector<double> d; std::vector<int> in; std::vector<int> b;
  for (int i = 0; i < nd; i++) d.push_back(s.logreal(1e-12, 1e6));
  for (int i = 0; i < ni; i++) in.push_back(s.integer(0, 5000));
  for (int i = 0; i < nb; i++) b.push_back(s.boolean());
  std::string section = s.pick({std::string("solver_variables"), std::string("other_section"), std::string("x")});
  SolverSetting st;
  bool fromfile = s.chance(0.7);
  if (fromfile) {
    // keys in any order, next to an unrelated section that must not be read
    std::vector<std::string> lines, decoy;
    for (int i = 0; i < nd; i++) { std::ostringstream o; o << std::setprecision(17) << "  " << DN[i] << ": " << d[i]; lines.push_back(o.str()); decoy.push_back(std::string("  ") + DN[i] + ": 0.125"); }
    for (int i = 0; i < ni; i++) { lines.push_back(std::string("  ") + IN[i] + ": " + std::to_string(in[i])); decoy.push_back(std::string("  ") + IN[i] + ": 7777"); }
    for (int i = 0; i < nb; i++) { lines.push_back(std::string("  ") + BN[i] + ": " + (b[i] ? "true" : "false")); decoy.push_back(std::string("  ") + BN[i] + ": true"); }
    std::vector<int> p = s.perm((int)lines.size());
    char path[] = "/tmp/pbt_stgXXXXXX";
    int fd = mkstemp(path);
    std::ostringstream o;
    bool first = s.boolean();
    auto dump = [&](const std::string& name, const std::vector<std::string>& l, bool perm) { o << name << ":\n"; for (size_t i = 0; i < l.size(); i++) o << l[perm ? p[i] : i] << "\n"; };
    if (first) dump("decoy", decoy, false);
    dump(section, lines, true);
    if (!first) dump("decoy", decoy, false);
    std::string txt = o.str();
    if (write(fd, txt.data(), txt.size()) != (ssize_t)txt.size()) c.discard_if(true);
    close(fd);
    bool threw = false; std::string what;
    try { if (section == "solver_variables" && s.boolean()) st.initialize(path); else st.initialize(path, section); } catch (const std::exception& e) { threw = true; what = e.what(); }
    unlink(path);
    PBT_CHECK(c, !threw, "yaml", "a complete settings file is refused: " << what);
  } else {
    std::vector<int> p = s.perm(nd + ni + nb);
    for (int k : p) {
      if (k < nd) st.set(DP[k], d[k]);
      else if (k < nd + ni) st.set(IP[k - nd], in[k - nd]);
      else st.set(BP[k - nd - ni], (bool)b[k - nd - ni]);
    }
  }
  int extra = s.integer(0, 12);
  for (int t = 0; t < extra; t++) {
    int k = s.integer(0, nd + ni + nb - 1);
    if (k < nd) { d[k] = s.logreal(1e-12, 1e6); st.set(DP[k], d[k]); }
    else if (k < nd + ni) { in[k - nd] = s.integer(0, 5000); st.set(IP[k - nd], in[k - nd]); }
    else { b[k - nd - ni] = s.boolean(); st.set(BP[k - nd - ni], (bool)b[k - nd - ni]); }
  }
  SolverSetting copy = st;
  for (const SolverSetting* q : {&st, &copy}) {
    for (int i = 0; i < nd; i++) PBT_CHECK(c, q->get(DP[i]) == d[i], std::string("double-") + DN[i], DN[i] << " reads " << q->get(DP[i]) << ", was given " << d[i]);
    for (int i = 0; i < ni; i++) PBT_CHECK(c, q->get(IP[i]) == in[i], std::string("int-") + IN[i], IN[i] << " reads " << q->get(IP[i]) << ", was given " << in[i]);
    for (int i = 0; i < nb; i++) PBT_CHECK(c, q->get(BP[i]) == (bool)b[i], std::string("bool-") + BN[i], BN[i] << " reads " << q->get(BP[i]));
  }
  // parameters that are not settings are refused, not silently ignored
  bool t1 = false, t2 = false;
  try { st.get(SolverDoubleParam_X); } catch (const std::runtime_error&) { t1 = true; }
  try { st.set(SolverIntParam_ColNum, 1); } catch (const std::runtime_error&) { t2 = true; }
  PBT_CHECK(c, t1 && t2, "invalid-parameter", "a parameter that is no setting is accepted");
  c.note << (fromfile ? "yaml" : "setters") << " then " << extra << " changes; feasibility_tolerance=" << d[3] << " max_iters=" << in[3];
  c.nontrivial = extra >= 1;
  c.label("from yaml", fromfile);
}
PBT_MAIN
