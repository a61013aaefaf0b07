// L-BFGS: the raw minimiser and the penalty interface to nonlinear programs.
#include <pbt.hpp>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

// Smooth convex (or not) functions, zero at a known point.
struct Func {
  int n; Vec xs; Mat Q; Vec quart, lc; double wav = 0; long evals = 0;
  double operator()(const Vec& x, Vec* g) const {
    Vec d = x - xs, Qd = Q * d;
    double f = 0.5 * d.dot(Qd);
    if (g) *g = Qd;
    for (int i = 0; i < n; i++) {
      f += quart[i] * d[i] * d[i] * d[i] * d[i];
      double a = std::abs(d[i]), lcosh = a < 1e-4 ? 0.5 * a * a : a + std::log1p(std::exp(-2 * a)) - std::log(2.0);
      f += lc[i] * lcosh;
      if (wav != 0) { double sn = std::sin(1.5 * d[i]); f += 2 * wav * sn * sn; }
      if (g) (*g)[i] += 4 * quart[i] * d[i] * d[i] * d[i] + lc[i] * std::tanh(d[i]) + 3 * wav * std::sin(3 * d[i]);
    }
    return f;
  }
};
struct Step { Vec x, g; double fx, xnorm, gnorm, step; int n, k, ls; long evals; };
struct Trial { double step, f; Vec x, g; };
struct Inst { Func f; std::vector<Trial> trials; std::vector<Step> hist; int cancel_at = 0, cancel_code = 0; double last_f = 0; Vec last_x; double f0 = 0; Vec g0; bool bad_n = false; };
static double ev(void* p, const double* x, double* g, const int n, const double step) {
  Inst& I = *(Inst*)p;
  if (n != I.f.n) I.bad_n = true;
  Vec gv, xv = Eigen::Map<const Vec>(x, I.f.n);
  double v = I.f(xv, &gv);
  Eigen::Map<Vec>(g, I.f.n) = gv;
  if (I.f.evals++ == 0) { I.f0 = v; I.g0 = gv; }
  I.last_f = v; I.trials.push_back({step, v, xv, gv});
  return v;
}
static int pr(void* p, const double* x, const double* g, const double fx, const double xnorm, const double gnorm, const double step, int n, int k, int ls) {
  Inst& I = *(Inst*)p;
  Step s; s.x = Eigen::Map<const Vec>(x, I.f.n); s.g = Eigen::Map<const Vec>(g, I.f.n);
  s.fx = fx; s.xnorm = xnorm; s.gnorm = gnorm; s.step = step; s.n = n; s.k = k; s.ls = ls; s.evals = I.f.evals;
  if (getenv("PBT_VERBOSE") && (k < 30 || k % 100000 < 3)) fprintf(stderr, "k %d fx %.17g x0 %.17g gnorm %g step %g ls %d\n", k, fx, x[0], gnorm, step, ls);
  I.hist.push_back(s); I.trials.clear();
  return (I.cancel_at && k == I.cancel_at) ? I.cancel_code : 0;
}
static void make(pbt::Src& s, Func& f, bool convex) {
  f.n = s.integer(1, 8);
  f.xs = s.vec(f.n, -3, 3);
  double lo = s.pick({1.0, 0.3, 0.05}), hi = s.pick({1.0, 3.0, 30.0});
  f.Q = s.spd(f.n, lo, hi);
  f.quart = Vec::Zero(f.n); f.lc = Vec::Zero(f.n);
  if (s.chance(0.5)) for (int i = 0; i < f.n; i++) { f.quart[i] = s.chance(0.5) ? s.real(0, 1) : 0; f.lc[i] = s.chance(0.5) ? s.real(0, 3) : 0; }
  if (!convex) f.wav = s.real(0.1, 5);
}
static const char* kLs[] = {"more-thuente", "armijo", "wolfe", "strong wolfe"};
static void params(pbt::Src& s, lbfgs_parameter_t& p) {
  lbfgs_parameter_init(&p);
  p.linesearch = s.integer(0, 3);
  p.m = s.pick({6, 1, 2, 3, 10, 25});
  p.epsilon = s.pick({1e-5, 1e-3, 1e-7, 1e-1});
  if (s.chance(0.3)) { p.ftol = s.uniform(1e-5, 0.1); p.wolfe = s.uniform(0.5, 0.95); p.gtol = s.uniform(0.2, 0.95); }
}
// two-loop direction from the last m corrections, in long double
typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> VecL;
static bool direction(const std::vector<Step>& h, int k, int m, Vec& out) {
  VecL q = -h[k].g.cast<long double>();
  int first = std::max(0, k - m);
  std::vector<VecL> S, Y; std::vector<long double> rho, al;
  for (int i = first; i < k; i++) {
    VecL sx = h[i + 1].x.cast<long double>() - h[i].x.cast<long double>(), y = h[i + 1].g.cast<long double>() - h[i].g.cast<long double>();
    // differences dominated by rounding cannot be compared
    if ((double)sx.norm() < 1e-7 * (h[i].x.norm() + 1e-300) || (double)y.norm() < 1e-7 * h[i].g.norm()) return false;
    if ((double)y.dot(sx) < 1e-7 * (double)(y.norm() * sx.norm())) return false;
    S.push_back(sx); Y.push_back(y); rho.push_back(1 / y.dot(sx)); al.push_back(0);
  }
  for (int i = (int)S.size() - 1; i >= 0; i--) { al[i] = rho[i] * S[i].dot(q); q -= al[i] * Y[i]; }
  if (!S.empty()) q *= S.back().dot(Y.back()) / Y.back().squaredNorm();
  for (size_t i = 0; i < S.size(); i++) { long double b = rho[i] * Y[i].dot(q); q += (al[i] - b) * S[i]; }
  out = q.cast<double>();
  return true;
}
// KNOWN FINDING L2: where the interpolating cubic has no minimum beyond a trial step that still descends (case 3 of
// More and Thuente), the search goes back to the start of its interval instead of extrapolating, and fails.
static bool search_went_back(const Inst& I, const Vec& xp, double fp, const Vec& gp) {
  double stx = 0, fx = fp; Vec gx = gp;
  if (getenv("PBT_VERBOSE")) for (const Trial& t : I.trials) { Vec d = t.x - xp; fprintf(stderr, "step %.17g f %.17g (start %.17g) slope*step %.17g (start %.17g)\n", t.step, t.f, fp, t.g.dot(d), gp.dot(d)); }
  for (size_t i = 0; i + 1 < I.trials.size(); i++) {
    const Trial& t = I.trials[i];
    if (t.step <= 0) continue;
    Vec d = (t.x - xp) / t.step;
    double dg = t.g.dot(d), dgx = gx.dot(d), next = I.trials[i + 1].step;
    if (t.f <= fx && t.step > stx && dg < 0 && dg > dgx && next <= t.step) return true;
    if (t.f <= fx) { stx = t.step; fx = t.f; gx = t.g; }
  }
  return false;
}

PBT_PROP(lbfgs_iterates) {
  Inst I; bool convex = s.chance(0.7);
  make(s, I.f, convex);
  int n = I.f.n;
  lbfgs_parameter_t p; params(s, p);
  bool flat = convex && s.chance(0.08);   // gradient constant far from the minimum: consecutive gradients may be equal
  if (flat) { I.f.Q.setZero(); I.f.lc.setConstant(s.real(0.5, 2)); I.f.quart.setZero(); }
  if (!convex || flat) p.max_iterations = 500;
  if (s.chance(0.3)) p.max_iterations = s.integer(1, 8);
  if (s.chance(0.15)) { I.cancel_at = s.integer(1, 5); I.cancel_code = s.integer(10, 90); }
  if (s.chance(0.2)) { p.past = s.integer(1, 4); p.delta = s.pick({1e-5, 1e-2, 0.3, 2.0}); }
  if (s.chance(0.15)) p.max_linesearch = s.integer(1, 4);
  if (s.chance(0.1)) p.max_step = s.uniform(0.05, 2);
  bool at_min = s.chance(0.06);
  Vec x0 = at_min ? I.f.xs : Vec(I.f.xs + s.logreal(0.1, 30) * s.vec(n, -1, 1));
  c.note << "n=" << n << " x*=" << pbt::str(I.f.xs) << " Q=" << pbt::str(I.f.Q) << " quartic " << pbt::str(I.f.quart) << " logcosh " << pbt::str(I.f.lc) << " cos " << I.f.wav
         << " x0=" << pbt::str(x0) << " m=" << p.m << " eps=" << p.epsilon << " past=" << p.past << "/" << p.delta << " max_iter=" << p.max_iterations << " ls=" << kLs[p.linesearch] << "/" << p.max_linesearch << " ftol=" << p.ftol << " wolfe=" << p.wolfe << " gtol=" << p.gtol << " max_step " << p.max_step << " cancel " << I.cancel_at;
  Vec x = x0; double fx = -12345;
  bool with_progress = s.chance(0.9) || I.cancel_at;
  int ret = lbfgs(n, x.data(), &fx, ev, with_progress ? pr : nullptr, &I, &p);
  PBT_CHECK(c, !I.bad_n, "dimension", "the callback was given another number of variables");
  // what is returned is consistent with itself
  Vec gx; double f = I.f(x, &gx);
  bool known = false;                                       // KNOWN FINDING L1: cost of the last trial of a failed line search
  if (ret < 0 && ret != LBFGSERR_MAXIMUMITERATION && x.allFinite() && fx != f && (fx == I.last_f || (fx != fx && I.last_f != I.last_f))) { known = true; fx = f; }
  PBT_CHECK(c, x.allFinite() && fx == f, "value-of-another-point", "returns " << ret << " with cost " << fx << " but the cost of the returned point " << pbt::str(x) << " is " << f);
  double f0 = I.f0;
  PBT_CHECK(c, fx <= f0, "cost-increased", "cost " << fx << " from " << f0);
  if (ret == LBFGS_SUCCESS || ret == LBFGS_ALREADY_MINIMIZED)
    PBT_CHECK(c, gx.norm() <= p.epsilon * std::max(1.0, x.norm()) * (1 + 1e-9), "success-without-convergence", "returns " << ret << " with gradient norm " << gx.norm() << " at norm " << x.norm());
  bool start_opt = I.g0.norm() <= p.epsilon * std::max(1.0, x0.norm());
  if (ret == LBFGS_ALREADY_MINIMIZED) PBT_CHECK(c, x == x0, "moved-from-minimum", "already minimised, but x moved");
  if (std::abs(I.g0.norm() - p.epsilon * std::max(1.0, x0.norm())) > 1e-9 * I.g0.norm() || I.g0.norm() == 0)
    PBT_CHECK(c, (ret == LBFGS_ALREADY_MINIMIZED) == start_opt, "already-minimised", "returns " << ret << " at a start with gradient norm " << I.g0.norm());
  c.label(std::string(ret == 0 ? "converged" : ret > 0 ? (ret == 1 ? "delta stop" : ret == 2 ? "already" : "cancelled") : ret == LBFGSERR_MAXIMUMITERATION ? "max iterations" : "line search failed"));
  if (!with_progress) { if (known) c.known("L1"); return; }
  std::vector<Step> h(1);
  h[0].x = x0; h[0].g = I.g0; h[0].fx = f0; h[0].evals = 1;
  for (auto& e : I.hist) h.push_back(e);
  int K = (int)h.size() - 1;
  PBT_CHECK(c, p.max_iterations == 0 || K <= p.max_iterations, "too-many-iterations", K << " iterations");
  if (ret == LBFGSERR_MAXIMUMITERATION) PBT_CHECK(c, p.max_iterations && K == p.max_iterations, "iteration-limit", K << " iterations, limit " << p.max_iterations);
  if (I.cancel_at && K >= I.cancel_at) PBT_CHECK(c, K == I.cancel_at && ret == I.cancel_code, "cancel-ignored", "cancelled with " << I.cancel_code << " at " << I.cancel_at << ", went to " << K << " and returned " << ret);
  if (ret >= 0 || ret == LBFGSERR_MAXIMUMITERATION) PBT_CHECK(c, K == 0 || h[K].x == x, "not-the-last-iterate", "returned point is not the last one reported");
  else PBT_CHECK(c, x == h[K].x, "not-reverted", "after error " << ret << " x is " << pbt::str(x) << ", last accepted " << pbt::str(h[K].x));
  if (ret == LBFGS_STOP) {
    PBT_CHECK(c, p.past > 0 && K >= p.past, "stopped-without-test", "delta stop at iteration " << K << " with past=" << p.past);
    double rate = (h[K - p.past].fx - h[K].fx) / h[K].fx;
    PBT_CHECK(c, rate < p.delta * (1 + 1e-9) + 1e-15, "stopped-while-improving", "stopped with improvement rate " << rate << " over " << p.past);
  }
  for (int k = 1; k <= K; k++) {
    const Step &a = h[k - 1], &b = h[k];
    Vec gb; double fb = I.f(b.x, &gb);
    PBT_CHECK(c, b.fx == fb && b.g == gb && b.n == n && b.k == k && b.ls == b.evals - a.evals, "progress-report", "iteration " << k << " reports cost " << b.fx << " (is " << fb << "), k=" << b.k << " n=" << b.n << " evaluations " << b.ls << " (were " << b.evals - a.evals << ")");
    PBT_CHECK(c, pbt::close(b.xnorm, b.x.norm(), 1e-12) && pbt::close(b.gnorm, gb.norm(), 1e-12), "progress-norms", "iteration " << k << " reports norms " << b.xnorm << ", " << b.gnorm << " instead of " << b.x.norm() << ", " << gb.norm());
    PBT_CHECK(c, b.ls >= 1 && b.ls <= p.max_linesearch, "too-many-trials", b.ls << " trials in one search");
    Vec st = b.x - a.x;
    double slope0 = a.g.dot(st), slope1 = b.g.dot(st), rnd = 1e-13 * (1 + std::abs(a.fx)) + 1e-12 * a.g.norm() * a.x.norm();
    PBT_CHECK(c, b.fx <= a.fx + p.ftol * slope0 + rnd, "no-sufficient-decrease", "iteration " << k << ": cost " << a.fx << " -> " << b.fx << ", slope " << slope0);
    double rs = 1e-9 * std::abs(slope0) + 1e-12 * (a.g.norm() + b.g.norm()) * a.x.norm() + 1e-15;
    if (p.linesearch == 0) PBT_CHECK(c, std::abs(slope1) <= p.gtol * std::abs(slope0) + rs, "no-curvature", "iteration " << k << ": slope " << slope0 << " -> " << slope1);
    if (p.linesearch >= 2) PBT_CHECK(c, slope1 >= p.wolfe * slope0 - rs, "no-curvature", "iteration " << k << ": slope " << slope0 << " -> " << slope1);
    if (p.linesearch == 3) PBT_CHECK(c, slope1 <= -p.wolfe * slope0 + rs, "no-curvature", "iteration " << k << ": slope " << slope0 << " -> " << slope1);
    if (k < K) PBT_CHECK(c, b.gnorm > p.epsilon * std::max(1.0, b.xnorm), "went-on-after-convergence", "iteration " << k << " was converged");
    if (k < K && p.past > 0 && k >= p.past) {
      double rate = (h[k - p.past].fx - b.fx) / b.fx;
      PBT_CHECK(c, !(rate < p.delta * (1 - 1e-9) - 1e-15), "went-on-without-improvement", "iteration " << k << " improved by " << rate << " over " << p.past << ", delta " << p.delta);
    }
    // the direction of this step is the limited memory one
    Vec d;
    if (b.step > 0 && st.norm() > 1e-7 * a.x.norm() && direction(h, k - 1, p.m, d)) {
      Vec got = st / b.step;
      double tol = 1e-5 * d.norm() + 1e-14 * a.x.norm() / b.step;
      PBT_CHECK(c, (got - d).norm() <= tol, "wrong-direction", "iteration " << k << " of " << K << ": direction " << pbt::str(got) << ", limited memory update of " << std::min(p.m, k - 1) << " corrections gives " << pbt::str(d));
    }
  }
  c.nontrivial = K >= 3 && n >= 2;
  if (known) c.known("L1");
}

PBT_PROP(lbfgs_converges) {
  Inst I; make(s, I.f, true);
  int n = I.f.n;
  lbfgs_parameter_t p; params(s, p);
  Vec x0 = I.f.xs + s.logreal(0.1, 100) * s.vec(n, -1, 1);
  c.note << "n=" << n << " x*=" << pbt::str(I.f.xs) << " Q=" << pbt::str(I.f.Q) << " quartic " << pbt::str(I.f.quart) << " logcosh " << pbt::str(I.f.lc)
         << " x0=" << pbt::str(x0) << " m=" << p.m << " eps=" << p.epsilon << " ls=" << kLs[p.linesearch] << " ftol=" << p.ftol << " wolfe=" << p.wolfe << " gtol=" << p.gtol;
  Vec x = x0; double fx = 0;
  int ret = lbfgs(n, x.data(), &fx, ev, pr, &I, &p);
  if (ret < 0 && p.linesearch == 0 && !I.trials.empty()) {
    const Step* l = I.hist.empty() ? nullptr : &I.hist.back();
    Trial t0; if (!l) { t0 = I.trials.front(); I.trials.erase(I.trials.begin()); }
    if (search_went_back(I, l ? l->x : t0.x, l ? l->fx : t0.f, l ? l->g : t0.g)) c.known("L2");
  }
  PBT_CHECK(c, ret == LBFGS_SUCCESS || ret == LBFGS_ALREADY_MINIMIZED, "not-converged", "returns " << ret << " after " << I.hist.size() << " iterations, distance to the minimiser " << (x - I.f.xs).norm());
  double lam = 1e300; { Eigen::SelfAdjointEigenSolver<Mat> es(I.f.Q); lam = es.eigenvalues()[0]; }
  double bound = 1.001 * p.epsilon * std::max(1.0, x.norm()) / lam + 1e-9;
  PBT_CHECK(c, (x - I.f.xs).norm() <= bound, "wrong-minimiser", "x=" << pbt::str(x) << " differs from the minimiser by " << (x - I.f.xs).norm() << " > " << bound);
  PBT_CHECK(c, (int)I.hist.size() <= 3000, "too-slow", I.hist.size() << " iterations for " << n << " variables");
  c.nontrivial = I.hist.size() >= 3 && n >= 2;
}

PBT_PROP(lbfgs_parameters) {
  Inst I; make(s, I.f, true);
  int n = I.f.n;
  lbfgs_parameter_t p; params(s, p);
  int want = 1, nn = n;
  switch (s.integer(0, 12)) {
    case 0: nn = -s.integer(0, 3); want = LBFGSERR_INVALID_N; break;
    case 1: p.epsilon = -s.logreal(1e-9, 1); want = LBFGSERR_INVALID_EPSILON; break;
    case 2: p.past = -s.integer(1, 4); want = LBFGSERR_INVALID_TESTPERIOD; break;
    case 3: p.delta = -s.logreal(1e-9, 1); want = LBFGSERR_INVALID_DELTA; break;
    case 4: p.min_step = -s.logreal(1e-9, 1); want = LBFGSERR_INVALID_MINSTEP; break;
    case 5: p.max_step = p.min_step * s.uniform(0, 0.9); want = LBFGSERR_INVALID_MAXSTEP; break;
    case 6: p.ftol = -s.logreal(1e-9, 1); want = LBFGSERR_INVALID_FTOL; break;
    case 7: p.linesearch = s.integer(2, 3); p.wolfe = s.boolean() ? p.ftol * s.uniform(0, 1) : s.uniform(1, 2); want = LBFGSERR_INVALID_WOLFE; break;
    case 8: p.gtol = -s.logreal(1e-9, 1); want = LBFGSERR_INVALID_GTOL; break;
    case 9: p.xtol = -s.logreal(1e-9, 1); want = LBFGSERR_INVALID_XTOL; break;
    case 10: p.max_linesearch = -s.integer(0, 3); want = LBFGSERR_INVALID_MAXLINESEARCH; break;
    case 11: p.linesearch = s.boolean() ? s.integer(4, 9) : -s.integer(1, 5); want = LBFGSERR_INVALID_LINESEARCH; break;
    default: p.linesearch = s.integer(0, 1); p.wolfe = s.uniform(-1, 2); break;   // not used by these searches
  }
  Vec x0 = s.vec(n, -4, 4), x = x0; double fx = -7;
  c.note << "n=" << nn << " eps=" << p.epsilon << " past=" << p.past << " delta=" << p.delta << " min " << p.min_step << " max " << p.max_step << " ftol " << p.ftol << " wolfe " << p.wolfe << " gtol " << p.gtol << " xtol " << p.xtol << " trials " << p.max_linesearch << " ls " << p.linesearch;
  int ret = lbfgs(nn, x.data(), &fx, ev, pr, &I, &p);
  if (want < 0) {
    PBT_CHECK(c, ret == want, "bad-parameter-accepted", "returns " << ret << " instead of " << want);
    PBT_CHECK(c, x == x0 && I.f.evals == 0, "worked-with-bad-parameters", "evaluated " << I.f.evals << " times");
  } else PBT_CHECK(c, ret >= 0 || ret >= LBFGSERR_OUTOFINTERVAL, "good-parameters-refused", "returns " << ret);
  c.nontrivial = want < 0;
}

// --- nonlinear programs through the penalty interface ------------------------
struct Nlp : NlpDescription {
  Func f; Mat A; Vec lb, ub, gl, gu, x0; bool quad_cons; long calls = 0; double w = 0; std::vector<double> seen; bool seen_nan = false;
  void getNlpParameters(int& n, int& m) override { n = f.n; m = (int)A.rows(); }
  void getNlpBounds(int n, int m, double* a, double* b, double* d, double* e) override {
    for (int i = 0; i < n; i++) { a[i] = lb[i]; b[i] = ub[i]; }
    for (int i = 0; i < m; i++) { d[i] = gl[i]; e[i] = gu[i]; }
  }
  void getStartingPoint(int n, double* x) override { for (int i = 0; i < n; i++) x[i] = x0[i]; }
  double evaluateObjective(int n, const double* x) override { calls++; if (seen.size() < 20000) { seen.push_back(penalised(Eigen::Map<const Vec>(x, n), w, nullptr)); seen_nan |= !std::isfinite(seen.back()); } return f(Eigen::Map<const Vec>(x, n), nullptr); }
  Vec cons(const Vec& x) const { Vec r = A * x; if (quad_cons) for (int i = 0; i < r.size(); i++) r[i] += 0.02 * r[i] * r[i] * r[i]; return r; }
  Mat jac(const Vec& x) const { Mat J = A; if (quad_cons) { Vec r = A * x; for (int i = 0; i < r.size(); i++) J.row(i) *= 1 + 0.06 * r[i] * r[i]; } return J; }
  void evaluateConstraintsVector(int n, int m, const double* x, double* o) override { Vec r = cons(Eigen::Map<const Vec>(x, n)); for (int i = 0; i < m; i++) o[i] = r[i]; }
  double penalised(const Vec& x, double w, Vec* g) const {
    Vec gf; double v = f(x, &gf);
    auto pen = [&](double val, double lo, double hi) { double e = val < lo ? val - lo : val > hi ? val - hi : 0; return e; };
    Vec r = cons(x); Mat J = jac(x);
    for (int i = 0; i < f.n; i++) { double e = pen(x[i], lb[i], ub[i]); v += w * e * e; gf[i] += 2 * w * e; }
    for (int i = 0; i < r.size(); i++) { double e = pen(r[i], gl[i], gu[i]); v += w * e * e; gf += 2 * w * e * J.row(i).transpose(); }
    if (g) *g = gf;
    return v;
  }
};
PBT_PROP(penalty_interface) {
  const double inf = std::numeric_limits<double>::infinity();
  Nlp P; make(s, P.f, true);
  P.f.Q = s.spd(P.f.n, 0.5, 5);
  int n = P.f.n, m = s.integer(0, 3);
  P.A = s.mat(m, n, -2, 2);
  P.quad_cons = s.chance(0.3);
  auto bounds = [&](Vec& l, Vec& u, int k, const Vec& at) {
    l = Vec::Constant(k, -inf); u = Vec::Constant(k, inf);
    for (int i = 0; i < k; i++) {
      double a = at[i] + s.real(-2, 2), b = a + s.real(0, 2);
      switch (s.integer(0, 3)) { case 1: l[i] = a; break; case 2: u[i] = b; break; case 3: l[i] = a; u[i] = s.chance(0.3) ? a : b; break; default: break; }
    }
  };
  bounds(P.lb, P.ub, n, P.f.xs);
  bounds(P.gl, P.gu, m, P.cons(P.f.xs));
  P.x0 = P.f.xs + s.vec(n, -3, 3);
  double w = s.chance(0.15) ? 0 : s.logreal(0.1, 20); P.w = w;
  LbfgsSolver sol;
  sol.initialize(&P, w);
  bool set = s.chance(0.5);
  if (set) { sol.opt_params().epsilon = 1e-4; sol.opt_params().m = s.integer(3, 8); sol.opt_params().linesearch = s.integer(0, 2); if (P.quad_cons && sol.opt_params().linesearch == 1) sol.opt_params().linesearch = 2; }
  c.note << "x*=" << pbt::str(P.f.xs) << " Q=" << pbt::str(P.f.Q) << " quartic " << pbt::str(P.f.quart) << " logcosh " << pbt::str(P.f.lc) << " bounds " << pbt::str(P.lb) << pbt::str(P.ub) << " A=" << pbt::str(P.A) << " cubic " << P.quad_cons << " in " << pbt::str(P.gl) << pbt::str(P.gu) << " w=" << w << " x0=" << pbt::str(P.x0) << " ls=" << kLs[sol.opt_params().linesearch] << " m=" << sol.opt_params().m;
  sol.optimize();
  Vec x = P.optimalVector(); Vec g; double v = P.penalised(x, w, &g), v0 = P.penalised(P.x0, w, nullptr);
  PBT_CHECK(c, x.size() == n && x.allFinite(), "no-solution", "x=" << pbt::str(x));
  bool another = false;                                     // KNOWN FINDING L1
  if (!pbt::close(P.optimalValue(), v, 1e-9)) { another = P.seen_nan && !std::isfinite(P.optimalValue()); for (double e : P.seen) another |= pbt::close(P.optimalValue(), e, 1e-9); }
  PBT_CHECK(c, another || pbt::close(P.optimalValue(), v, 1e-9), "value-of-another-point", "reports " << P.optimalValue() << ", the penalised cost at x=" << pbt::str(x) << " is " << v);
  PBT_CHECK(c, v <= v0 * (1 + 1e-12) + 1e-12, "cost-increased", "from " << v0 << " to " << v);
  // A stationary point of the penalised cost (its minimiser when the constraints are linear). Where a bound becomes
  // active the second derivative jumps and central differences are off, which can also stop a line search early:
  // three starts have to fail.
  auto stationary = [&](const Vec& x, std::string& why) {
    double eps = set ? 1e-4 : 1e-5;
    const double hh = 16 * std::pow(2.0, -17);
    bool near = false; Vec r = P.cons(x), g; Mat J = P.jac(x);
    for (int i = 0; i < n; i++) near |= std::min(std::abs(x[i] - P.lb[i]), std::abs(x[i] - P.ub[i])) < hh;
    for (int i = 0; i < m; i++) near |= std::min(std::abs(r[i] - P.gl[i]), std::abs(r[i] - P.gu[i])) < hh * J.row(i).lpNorm<1>();
    near &= w > 0;
    double kink = near ? 20 * hh * w * (1 + J.squaredNorm()) : 0;
    P.penalised(x, w, &g);
    why = "gradient of the penalised cost " + pbt::str(g) + " at x=" + pbt::str(x);
    return g.norm() <= 20 * eps * std::max(1.0, x.norm()) + 1e-7 * (1 + w) + kink;
  };
  std::string why, other;
  if (!stationary(x, why)) {
    c.label("another start needed");
    Vec keep = P.x0; bool ok = false; double kv = P.optimalValue();
    for (int t = 1; t <= 3 && !ok; t++) {
      for (int i = 0; i < n; i++) P.x0[i] = keep[i] + 0.1 * t * ((i + t) % 3 - 1.3);
      sol.optimize();
      ok = stationary(P.optimalVector(), other);
    }
    if (!ok && sol.opt_params().linesearch == 0) c.known("L2");
    PBT_CHECK(c, ok, "not-stationary", why << "; other starts: " << other);
    P.x0 = keep; P.optimalVector() = x; P.optimalValue() = kv;
  }
  double val = P.optimalValue();
  sol.optimize();
  PBT_CHECK(c, P.optimalVector() == x && (P.optimalValue() == val || (val != val && P.optimalValue() != P.optimalValue())), "not-repeatable", "second run gives " << pbt::str(P.optimalVector()));
  Vec r = P.cons(x); bool active = false;
  for (int i = 0; i < n; i++) active |= x[i] < P.lb[i] || x[i] > P.ub[i];
  for (int i = 0; i < m; i++) active |= r[i] < P.gl[i] || r[i] > P.gu[i];
  c.label("penalty active", active && w > 0);
  c.nontrivial = active && w > 0 && n >= 2;
  if (another) c.known("L1");
}
PBT_MAIN
