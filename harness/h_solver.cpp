// C01-C07: the conic solver seen through solver::Model.
#include <conic.hpp>

static double norm_violation(const Problem& p, const Vec& x, const Vec& ref, std::string* which) {
  double sc = 1 + ref.norm() + x.norm();
  return p.violation(x, which) / (sc * sc);
}
static bool solved(ExitCode e) { return e == ExitCode::Optimal || e == ExitCode::OptimalInacc; }

// C01 / C02 ------------------------------------------------------------------
static void check_known(pbt::Src& s, pbt::Case& c, bool feas, bool opt) {
  int inacc = 0, n = s.integer(1, 3), act = 0;
  for (int t = 0; t < n; t++) {
    GenOpts o;
    if (s.chance(0.1)) o.nmax = 12;
    o.quads = !s.chance(0.2);
    Known K = known_optimum(s, o);
    Writing w = random_writing(s, K.p.n);
    c.note << (t ? " || " : "");
    K.p.describe(c.note);
    Solved r = solve(K.p, w);
    c.label(ecname(r.ec));
    c.note << " -> " << ecname(r.ec) << " x=" << pbt::str(r.x) << " optimum " << pbt::str(K.xs);
    act += K.active >= 1 && K.p.n >= 2;
    PBT_CHECK(c, r.x.allFinite() || !solved(r.ec), "not-finite", ecname(r.ec) << " with x=" << pbt::str(r.x));
    if (opt) {
      PBT_CHECK(c, solved(r.ec), "not-solved", "strictly feasible bounded problem with a known optimum ends as " << ecname(r.ec));
      inacc += r.ec != ExitCode::Optimal;
      PBT_CHECK(c, inacc < 2, "not-accurate", "two of " << n << " well-posed problems end as OptimalInacc");
    }
    if (!solved(r.ec)) continue;
    double loose = r.ec == ExitCode::Optimal ? 1.0 : 1e3;
    std::string which;
    double viol = norm_violation(K.p, r.x, K.xs, &which);
    if (feas) PBT_CHECK(c, viol < 1e-5 * loose, "infeasible", ecname(r.ec) << " but " << which << " is violated by " << viol << " (relative)");
    if (!opt) continue;
    double gap = std::abs(K.p.cost(r.x) - K.fs) / (1 + std::abs(K.fs));
    c.label("gap>1e-5", gap > 1e-5);
    PBT_CHECK(c, gap < 1e-3 * loose, "suboptimal", ecname(r.ec) << " with cost " << K.p.cost(r.x) << ", known optimum " << K.fs);
    if (K.strict && r.ec == ExitCode::Optimal)
      PBT_CHECK(c, (r.x - K.xs).norm() < 0.05 * (1 + K.xs.norm() + std::sqrt(std::abs(K.fs))), "wrong-point", "unique optimum missed by " << (r.x - K.xs).norm());
  }
  c.nontrivial = act >= 1;
}
PBT_PROP(optimal_is_feasible) { check_known(s, c, true, false); }
PBT_PROP(known_optimum_reached) { check_known(s, c, false, true); }

// Feasibility on problems without a constructed optimum: whatever is reported
// Optimal satisfies what was asked for, and no feasible point we know is better.
PBT_PROP(optimal_beats_feasible_points) {
  int n = s.integer(1, 5);
  Problem p(n);
  Vec x0 = s.vec(n, -2, 2);
  int m = s.integer(0, 6);
  for (int i = 0; i < m; i++) {
    Vec a = nonzero(s, n, 3);
    double b = a.dot(x0) + s.uniform(0.1, 2);
    if (s.boolean()) p.rows.push_back({a, b, '<'}); else p.rows.push_back({-a, -b, '>'});
  }
  if (n > 1 && s.chance(0.4)) { Vec a = nonzero(s, n, 2); p.rows.push_back({a, a.dot(x0), '='}); }
  int nq = s.integer(0, 3);
  for (int i = 0; i < nq; i++) {
    QForm q; int k = s.integer(1, 3);
    q.soc = s.boolean(); q.Q = s.mat(k, n, -2, 2); q.k = s.vec(k, -2, 2); q.w = s.uvec(k, 0.2, 2); q.l = s.vec(n, -1, 1);
    q.d = 0; q.d = -q.eval(x0) - s.uniform(0.1, 2);
    p.qs.push_back(q);
  }
  QForm ball; ball.soc = true; ball.Q = Mat::Identity(n, n); ball.k = -x0; ball.w = Vec::Ones(n); ball.l = Vec::Zero(n); ball.d = -s.uniform(2, 8);
  p.qs.push_back(ball);
  int no = s.integer(0, n);
  p.obj.Q = s.mat(no, n, -2, 2); p.obj.k = s.vec(no, -2, 2); p.obj.w = s.uvec(no, 0.1, 3); p.obj.l = s.vec(n, -3, 3); p.obj.d = s.real(-3, 3);
  p.guess = s.vec(n, -2, 2);
  p.describe(c.note);
  Solved r = solve(p, random_writing(s, n));
  c.label(ecname(r.ec));
  c.note << " -> " << ecname(r.ec) << " x=" << pbt::str(r.x);
  PBT_CHECK(c, solved(r.ec), "not-solved", "feasible bounded problem ends as " << ecname(r.ec));
  double loose = r.ec == ExitCode::Optimal ? 1.0 : 1e3;
  std::string which;
  double viol = norm_violation(p, r.x, x0, &which);
  PBT_CHECK(c, viol < 1e-5 * loose, "infeasible", ecname(r.ec) << " but " << which << " is violated by " << viol);
  // directions from the returned point towards feasible points are not descent
  double f = p.cost(r.x), tol = 1e-3 * loose * (1 + std::abs(f));
  int tested = 0;
  for (int t = 0; t < 25; t++) {
    Vec y = t == 0 ? x0 : Vec(x0 + s.uvec(n, -3, 3));
    for (int k = 0; k < 12 && p.violation(y) > 0; k++) y = x0 + 0.6 * (y - x0);
    bool hard = false;
    for (auto& q : p.rows) if (q.sense == '=') { double e = q.a.dot(y) - q.b; y -= e / q.a.squaredNorm() * q.a; }
    if (p.violation(y) > 1e-12) hard = true;
    if (hard) continue;
    tested++;
    PBT_CHECK(c, f <= p.cost(y) + tol, "suboptimal", "cost " << f << " but feasible point " << pbt::str(y) << " costs " << p.cost(y));
  }
  c.nontrivial = n >= 2 && tested >= 5 && p.rows.size() + p.qs.size() >= 3;
}

// C03 -------------------------------------------------------------------------
PBT_PROP(infeasible_reported) {
  int n = s.integer(1, 5);
  Problem p(n);
  int kind = s.integer(0, 4);
  Vec x0 = s.vec(n, -2, 2);
  if (kind == 0) {           // Farkas: rows with positive multipliers summing to zero
    int m = s.integer(2, 4);
    Vec acc = Vec::Zero(n); double bacc = 0; bool zero = true;
    for (int i = 0; i < m - 1; i++) {
      Vec a = nonzero(s, n, 2); double b = s.real(-2, 2), l = s.uniform(0.3, 2);
      acc += l * a; bacc += l * b; p.rows.push_back({a, b, '<'});
    }
    zero = acc.norm() < 0.2;
    c.discard_if(zero);
    double l = s.uniform(0.5, 2), margin = s.uniform(0.5, 3);
    p.rows.push_back({-acc / l, (-bacc - margin) / l, '<'});
    for (auto& r : p.rows) if (s.boolean()) { r.a = -r.a; r.b = -r.b; r.sense = '>'; }
  } else if (kind == 1) {    // a ball and a half space that miss each other
    QForm q; q.soc = s.boolean(); double R = s.uniform(0.5, 2);
    q.Q = Mat::Identity(n, n); q.k = -x0; q.w = Vec::Ones(n); q.l = Vec::Zero(n); q.d = q.soc ? -R : -R * R;
    p.qs.push_back(q);
    Vec a = nonzero(s, n, 2);
    p.rows.push_back({a, a.dot(x0) + a.norm() * (R + s.uniform(0.5, 3)), '>'});
  } else if (kind == 2) {    // inconsistent equalities
    Vec a = nonzero(s, n, 2); double b = s.real(-2, 2), k = s.uniform(0.5, 2);
    p.rows.push_back({a, b, '='});
    p.rows.push_back({k * a, k * b + (s.boolean() ? 1 : -1) * s.uniform(0.5, 3), s.pick({'='})});
  } else if (kind == 4) {     // a constraint without variables that is false
    double v = s.uniform(0.3, 3);
    int f = s.integer(0, 2);
    if (f == 0) p.rows.push_back({Vec::Zero(n), -v, '<'});
    else if (f == 1) p.rows.push_back({Vec::Zero(n), v, '>'});
    else p.rows.push_back({Vec::Zero(n), s.boolean() ? v : -v, '='});
  } else {                   // a sum of squares below a negative number
    QForm q; int m = s.integer(1, n);
    q.Q = s.mat(m, n, -2, 2); q.k = s.vec(m, -2, 2); q.w = s.uvec(m, 0.3, 2); q.l = Vec::Zero(n); q.d = s.uniform(0.3, 3);
    q.soc = s.boolean();
    p.qs.push_back(q);
  }
  int extra = s.integer(0, 3);
  for (int i = 0; i < extra; i++) { Vec a = nonzero(s, n, 2); p.rows.push_back({a, a.dot(x0) + s.uniform(0, 2), '<'}); }
  for (int i = 0; i < n; i++) {    // bounded: infeasibility is the only thing wrong with it
    Vec e = Vec::Zero(n); e[i] = 1;
    p.rows.push_back({e, 20, '<'}); p.rows.push_back({e, -20, '>'});
  }
  int no = s.integer(0, n);
  p.obj.Q = s.mat(no, n, -2, 2); p.obj.k = s.vec(no, -2, 2); p.obj.w = s.uvec(no, 0.1, 3);
  p.obj.l = s.vec(n, -2, 2);
  p.guess = x0;
  p.describe(c.note);
  Solved r = solve(p, random_writing(s, n));
  c.note << " -> " << ecname(r.ec);
  c.label(std::string("kind") + std::to_string(kind) + " " + ecname(r.ec));
  PBT_CHECK(c, !solved(r.ec), "infeasible-called-optimal", "constraints that no point satisfies end as " << ecname(r.ec) << " x=" << pbt::str(r.x));
  PBT_CHECK(c, r.ec != ExitCode::DualInf && r.ec != ExitCode::DualInfInacc, "infeasible-called-unbounded", "ends as " << ecname(r.ec));
  PBT_CHECK(c, r.ec == ExitCode::PrimalInf || r.ec == ExitCode::PrimalInfInacc, "infeasible-not-certified", "infeasible problem ends as " << ecname(r.ec));
  c.nontrivial = n >= 2;
}

static bool one_unbounded(pbt::Src& s, pbt::Case& c) {   // true: certified
  int n = s.integer(1, 5);
  Problem p(n);
  Vec x0 = s.vec(n, -2, 2), d = nonzero(s, n, 2).normalized();   // x0 + t d stays feasible and gets cheaper
  int m = s.integer(0, 5);
  for (int i = 0; i < m; i++) {
    Vec a = nonzero(s, n, 2);
    if (a.dot(d) > 0) a = -a;
    if (a.dot(d) > -0.3) a -= ((0.3 + a.dot(d)) / d.squaredNorm()) * d;
    double b = a.dot(x0) + s.uniform(0.2, 2);
    if (s.boolean()) p.rows.push_back({a, b, '<'}); else p.rows.push_back({-a, -b, '>'});
  }
  if (n > 1 && s.chance(0.3)) { Vec a = nonzero(s, n, 2); a -= (a.dot(d) / d.squaredNorm()) * d; if (a.norm() > 0.2) p.rows.push_back({a, a.dot(x0), '='}); }
  int nq = s.integer(0, 2);
  for (int i = 0; i < nq; i++) {   // cone that contains the ray in its interior
    QForm q; int k = s.integer(1, 3);
    q.soc = true; q.Q = s.mat(k, n, -2, 2); q.k = s.vec(k, -2, 2); q.w = Vec::Ones(k); q.l = s.vec(n, -1, 1);
    double need = (q.Q * d).norm() + q.l.dot(d) + 0.3;
    if (need > 0) q.l -= (need / d.squaredNorm()) * d;
    q.d = 0; q.d = -q.eval(x0) - s.uniform(0.2, 2);
    p.qs.push_back(q);
  }
  Vec cc = s.vec(n, -2, 2);
  double want = -s.uniform(0.3, 2) * d.norm();
  cc += ((want - cc.dot(d)) / d.squaredNorm()) * d;
  p.obj.l = cc;
  int no = s.integer(0, 1);      // squares that do not grow along the ray
  if (n > 1 && no) {
    Vec q = nonzero(s, n, 2); q -= (q.dot(d) / d.squaredNorm()) * d;
    p.obj.Q = q.transpose(); p.obj.k = s.vec(1, -1, 1); p.obj.w = s.uvec(1, 0.1, 2);
  }
  p.guess = x0;
  p.describe(c.note);
  Solved r = solve(p, random_writing(s, n));
  c.note << " -> " << ecname(r.ec);
  c.label(ecname(r.ec));
  PBT_CHECK(c, !solved(r.ec), "unbounded-called-optimal", "cost falls without limit along " << pbt::str(d) << " but the answer is " << ecname(r.ec) << " x=" << pbt::str(r.x));
  PBT_CHECK(c, r.ec != ExitCode::PrimalInf && r.ec != ExitCode::PrimalInfInacc, "unbounded-called-infeasible", "a feasible problem ends as " << ecname(r.ec));
  c.nontrivial |= n >= 2 && m + nq >= 2;
  return m + nq == 0 || r.ec == ExitCode::DualInf || r.ec == ExitCode::DualInfInacc;
}
PBT_PROP(unbounded_reported) {
  // a run now and then ends without a verdict (PrSearchDirection); two in a row do not
  int missed = 0;
  for (int t = 0; t < 2; t++) {
    if (!one_unbounded(s, c)) missed++; else break;
    c.note << " || ";
  }
  PBT_CHECK(c, missed < 2, "unbounded-not-certified", "two unbounded problems in a row are not reported as unbounded");
}

// C04 -------------------------------------------------------------------------
PBT_PROP(formulation_invariance) {
  GenOpts o;
  Known K = known_optimum(s, o);
  const Problem& p = K.p;
  int n = p.n;
  p.describe(c.note);
  Solved a = solve(p), again = solve(p);
  PBT_CHECK(c, a.ec == again.ec && (a.x - again.x).norm() <= 1e-12 * (1 + a.x.norm()), "not-repeatable",
            "the same program run twice gives " << ecname(a.ec) << " " << pbt::str(a.x) << " and " << ecname(again.ec) << " " << pbt::str(again.x));
  Problem q = p;
  int kind = s.integer(0, 9);
  double expect_scale = 1, expect_shift = 0;
  Vec shift = Vec::Zero(n);
  c.note << " kind" << kind;
  switch (kind) {
    case 0: break;                                                    // only the writing differs
    case 1: for (auto& r : q.rows) { double k = s.logreal(0.05, 20); r.a *= k; r.b *= k; } break;
    case 2: for (auto& f : q.qs) { double k = s.logreal(0.1, 10);     // the same cone, scaled
              if (f.soc) { f.Q *= k; f.k *= k; } else { f.w *= k; } f.l *= k; f.d *= k; } break;
    case 3: { double k = s.logreal(0.1, 10); q.obj.w *= k; q.obj.l *= k; q.obj.d *= k; expect_scale = k; break; }
    case 4: q.obj.d += 3.25; expect_shift = 3.25; break;
    case 5: for (int t = s.integer(1, 3); t > 0 && !q.rows.empty(); t--) {  // redundant constraints
              Row r = q.rows[s.index(q.rows.size())]; if (r.sense == '=') continue;
              r.b += (r.sense == '<' ? 1 : -1) * s.uniform(0.5, 2); q.rows.push_back(r); } break;
    case 6: q.guess = s.vec(n, -5, 5); break;                          // the initial guess
    case 7: {                                                         // translate the variables
              shift = s.vec(n, -2, 2);
              for (auto& r : q.rows) r.b += r.a.dot(shift);
              for (auto& f : q.qs) { f.k -= f.Q * shift; f.d -= f.l.dot(shift); }
              q.obj.k -= q.obj.Q * shift; q.obj.d -= q.obj.l.dot(shift); break; }
    case 8: for (auto& f : q.qs) {                                     // ||r|| <= R  as  ||r||^2 <= R^2 and back
              if (f.l.norm() > 0 || f.d >= -1e-3) continue;
              if (f.soc) { f.soc = false; f.w = Vec::Ones(f.k.size()); f.d = -f.d * f.d; }
              else { for (int i = 0; i < f.k.size(); i++) { f.Q.row(i) *= std::sqrt(f.w[i]); f.k[i] *= std::sqrt(f.w[i]); } f.w.setOnes(); f.soc = true; f.d = -std::sqrt(-f.d); } } break;
    case 9: {                                                         // epigraph form of the objective: min t, obj - t <= 0
              Problem e(n + 1);
              auto up = [&](const Vec& v, double z) { Vec r(n + 1); r << v, z; return r; };
              for (auto& r : q.rows) e.rows.push_back({up(r.a, 0), r.b, r.sense});
              auto upq = [&](const QForm& f, double z) { QForm g = f; g.Q.resize(f.Q.rows(), n + 1); g.Q.setZero(); if (f.Q.rows() > 0) g.Q.leftCols(n) = f.Q; g.l = up(f.l, z); return g; };
              for (auto& f : q.qs) e.qs.push_back(upq(f, 0));
              QForm t = upq(q.obj, -1);
              if (t.Q.rows() == 0) e.rows.push_back({t.l, -t.d, '<'}); else e.qs.push_back(t);
              e.obj.l = up(Vec::Zero(n), 1); e.guess = up(q.guess, 0);
              q = e; break; }
  }
  Solved b = solve(q, random_writing(s, q.n));
  c.label("kind" + std::to_string(kind));
  c.note << " -> " << ecname(a.ec) << " / " << ecname(b.ec);
  PBT_CHECK(c, solved(a.ec) && solved(b.ec), "not-solved", "the two forms end as " << ecname(a.ec) << " and " << ecname(b.ec));
  double fa = p.cost(a.x) * expect_scale + expect_shift, fb = q.cost(b.x);
  if (kind == 9) fb = b.x[n];
  double loose = (a.ec == ExitCode::Optimal && b.ec == ExitCode::Optimal) ? 1 : 1e3;
  PBT_CHECK(c, std::abs(fa - fb) <= 2e-3 * loose * (1 + std::abs(fa)), "cost-differs", "equivalent forms cost " << fa << " and " << fb);
  if (K.strict && kind != 9)
    PBT_CHECK(c, (a.x + shift - b.x).norm() < 0.05 * (1 + a.x.norm() + std::sqrt(std::abs(K.fs))), "point-differs", "equivalent forms give " << pbt::str(a.x) << " and " << pbt::str(b.x));
  c.nontrivial = n >= 2 && K.active >= 1;
}

// C05 -------------------------------------------------------------------------
// Reference for mixed-binary problems: every assignment of the binaries is
// substituted, the remaining continuous problem is solved as such.
struct Mixed { Problem p; int nb, nc; };
static Mixed mixed_problem(pbt::Src& s, int maxb, int maxc, bool quads) {
  int nb = s.integer(1, maxb), nc = s.integer(0, maxc), n = nb + nc;
  Mixed M{Problem(n), nb, nc};
  Problem& p = M.p;
  for (int i = 0; i < nb; i++) p.bin[i] = 1;
  Vec x0(n);                                // feasible for sure
  for (int i = 0; i < nb; i++) x0[i] = s.integer(0, 1);
  for (int i = nb; i < n; i++) x0[i] = s.real(-2, 2);
  int m = s.integer(0, 4);
  for (int i = 0; i < m; i++) {
    Vec a(n);
    for (int j = 0; j < n; j++) a[j] = s.integer(-3, 3);
    if (a.norm() == 0) continue;
    double b = a.dot(x0) + s.pick({0.5, 0.25, 1.5});
    if (s.boolean()) p.rows.push_back({a, b, '<'}); else p.rows.push_back({-a, -b, '>'});
  }
  for (int i = nb; i < n; i++) {
    Vec e = Vec::Zero(n); e[i] = 1;
    p.rows.push_back({e, 4, '<'}); p.rows.push_back({e, -4, '>'});
  }
  if (quads && s.chance(0.4)) {
    QForm q; int k = s.integer(1, 2);
    q.soc = s.boolean(); q.Q = s.mat(k, n, -2, 2); q.k = s.vec(k, -1, 1); q.w = s.uvec(k, 0.3, 2); q.l = s.vec(n, -1, 1);
    q.d = 0; q.d = -q.eval(x0) - s.uniform(0.3, 2);
    p.qs.push_back(q);
  }
  int no = s.integer(0, 3);
  p.obj.Q = s.mat(no, n, -2, 2); p.obj.k = s.vec(no, -2, 2); p.obj.w = s.uvec(no, 0.2, 3);
  p.obj.l = s.vec(n, -3, 3); p.obj.d = s.real(-2, 2);
  p.guess = Vec::Constant(n, 0.5);
  if (s.chance(0.5)) p.guess = s.uvec(n, 0, 1);
  if (s.chance(0.25)) for (int i = 0; i < nb; i++) p.guess[i] = s.integer(0, 1);
  return M;
}
static Problem fix_binaries(const Mixed& M, unsigned mask) {
  const Problem& p = M.p; int nb = M.nb, nc = M.nc;
  Vec xb(nb);
  for (int i = 0; i < nb; i++) xb[i] = (mask >> i) & 1;
  Problem q(nc);
  for (auto& r : p.rows) q.rows.push_back({r.a.tail(nc), r.b - r.a.head(nb).dot(xb), r.sense});
  auto sub = [&](const QForm& f) { QForm g = f; g.Q = Mat(f.Q.rows(), nc); if (f.Q.rows()) { g.Q = f.Q.rightCols(nc); g.k = f.k + f.Q.leftCols(nb) * xb; } g.l = f.l.tail(nc); g.d = f.d + f.l.head(nb).dot(xb); return g; };
  for (auto& f : p.qs) q.qs.push_back(sub(f));
  q.obj = sub(p.obj); q.guess = Vec::Zero(nc);
  return q;
}
// constant rows left after substitution: decided here, not given to the solver
static bool drop_constant(Problem& q, double& margin) {
  std::vector<Row> rows; std::vector<QForm> qs; bool ok = true;
  for (auto& r : q.rows) {
    if (r.a.size() && r.a.norm() > 0) { rows.push_back(r); continue; }
    double v = r.sense == '>' ? r.b : -r.b;
    margin = std::min(margin, std::abs(v)); if (v > 0) ok = false;
  }
  for (auto& f : q.qs) {
    if (q.n && (f.Q.norm() > 0 || f.l.norm() > 0)) { qs.push_back(f); continue; }
    double v = f.eval(Vec::Zero(q.n));
    margin = std::min(margin, std::abs(v)); if (v > 0) ok = false;
  }
  q.rows = rows; q.qs = qs;
  return ok;
}
// cost of the best assignment, every other one of which is solved as well
struct Best { double cost = 1e300; unsigned mask = 0; int feasible = 0; bool usable = true; };
static Best best_assignment(const Mixed& M) {
  Best B; double margin = 1e300;
  for (unsigned mask = 0; mask < (1u << M.nb); mask++) {
    Problem q = fix_binaries(M, mask);
    if (!drop_constant(q, margin)) continue;
    double f;
    if (q.n == 0) f = q.obj.eval(Vec());
    else {
      Solved r = solve(q);
      if (!(solved(r.ec) || r.ec == ExitCode::PrimalInf || r.ec == ExitCode::PrimalInfInacc)) { B.usable = false; return B; }
      if (!solved(r.ec)) continue;
      f = q.cost(r.x);
    }
    B.feasible++;
    if (f < B.cost) { B.cost = f; B.mask = mask; }
  }
  if (margin < 1e-3) B.usable = false;     // decided by rounding, not by the problem
  return B;
}
PBT_PROP(branch_and_bound) {
  Mixed M = mixed_problem(s, 5, 3, true);
  const Problem& p = M.p;
  p.describe(c.note);
  Best B = best_assignment(M);
  c.discard_if(!B.usable);
  double best = B.cost; unsigned bestmask = B.mask; int feasible = B.feasible;
  Solved r = solve(p, random_writing(s, p.n));
  c.label(ecname(r.ec));
  c.note << " -> " << ecname(r.ec) << " x=" << pbt::str(r.x) << " best assignment " << bestmask << " cost " << best;
  c.label(feasible == (1 << M.nb) ? "all feasible" : "some infeasible");
  PBT_CHECK(c, feasible > 0, "oracle", "no feasible assignment found");
  PBT_CHECK(c, solved(r.ec), "not-solved", "feasible mixed-binary problem ends as " << ecname(r.ec));
  for (int i = 0; i < M.nb; i++)
    PBT_CHECK(c, std::abs(r.x[i] - std::round(r.x[i])) < 1e-3 && r.x[i] > -0.01 && r.x[i] < 1.01, "not-integer", "binary " << i << " is " << r.x[i]);
  std::string which;
  double viol = norm_violation(p, r.x, r.x, &which);
  PBT_CHECK(c, viol < 1e-4, "infeasible", which << " violated by " << viol);
  PBT_CHECK(c, p.cost(r.x) <= best + 5e-3 * (1 + std::abs(best)), "suboptimal", "cost " << p.cost(r.x) << ", best assignment " << bestmask << " costs " << best);
  PBT_CHECK(c, p.cost(r.x) >= best - 5e-3 * (1 + std::abs(best)), "below-optimum", "cost " << p.cost(r.x) << " below the optimum " << best);
  c.nontrivial = M.nb >= 2 && feasible >= 2;
}

// Fewer nodes than the search would need: the answer may be short of the
// optimum, and is then not called optimal, but what is returned is a feasible
// assignment all the same.
PBT_PROP(branch_and_bound_limited) {
  Mixed M = mixed_problem(s, 6, 2, true);
  const Problem& p = M.p;
  int limit = s.integer(1, 8);
  p.describe(c.note); c.note << " nodes " << limit;
  Best B = best_assignment(M);
  c.discard_if(!B.usable || B.feasible == 0);
  Model m; m.configSetting(kStg);
  m.getSetting().set(SolverIntParam_BnBMaxIters, limit);
  Built b = write(m, p, random_writing(s, p.n));
  ExitCode ec = m.optimize();
  Vec x = b.x();
  c.label(ecname(ec));
  c.note << " -> " << ecname(ec) << " x=" << pbt::str(x) << " best " << B.cost;
  PBT_CHECK(c, ec != ExitCode::PrimalInf && ec != ExitCode::DualInf && ec != ExitCode::DualInfInacc, "limited-verdict", "feasible bounded problem ends as " << ecname(ec));
  if (solved(ec)) {
    for (int i = 0; i < M.nb; i++)
      PBT_CHECK(c, std::abs(x[i] - std::round(x[i])) < 1e-3 && x[i] > -0.01 && x[i] < 1.01, "limited-not-integer", "binary " << i << " is " << x[i]);
    std::string which;
    double viol = norm_violation(p, x, x, &which);
    PBT_CHECK(c, viol < 1e-4, "limited-infeasible", which << " violated by " << viol);
    PBT_CHECK(c, p.cost(x) >= B.cost - 5e-3 * (1 + std::abs(B.cost)), "limited-below-optimum", "cost " << p.cost(x) << " below the optimum " << B.cost);
    if (ec == ExitCode::Optimal)
      PBT_CHECK(c, p.cost(x) <= B.cost + 5e-3 * (1 + std::abs(B.cost)), "limited-suboptimal", "called optimal with cost " << p.cost(x) << ", the best assignment costs " << B.cost);
  }
  c.nontrivial = M.nb >= 2 && ec != ExitCode::Optimal;
}

// The variant for models that also have approximated quadratic constraints:
// these are put on variables of their own, so that the binaries decide about
// the other variables only and the best assignment is known.
PBT_PROP(branch_and_bound_approximated) {
  Mixed M = mixed_problem(s, 4, 2, true);
  Best B = best_assignment(M);
  c.discard_if(!B.usable || B.feasible == 0);
  int n = M.p.n, ny = s.integer(1, 2);
  Problem y(ny);
  Vec y0 = s.vec(ny, -1.5, 1.5);
  y.guess = y0 + s.uvec(ny, -0.15, 0.15);
  QForm q; q.Q = Mat::Identity(ny, ny) + s.mat(ny, ny, -0.3, 0.3); q.k = s.vec(ny, -1, 1); q.w = s.uvec(ny, 0.3, 2); q.l = s.vec(ny, -1, 1);
  q.d = 0; q.d = -q.eval(y0) - s.uniform(0.0, 0.2);
  q.approx = s.boolean() ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint;
  y.qs.push_back(q);
  // (the relaxation ends on the constraint, where its linearisations agree with it)
  Vec out = q.l; for (int i = 0; i < q.Q.rows(); i++) out += 2 * q.w[i] * (q.Q.row(i).dot(y0) + q.k[i]) * q.Q.row(i).transpose();
  c.discard_if(out.norm() < 0.2);
  y.obj.Q = Mat::Identity(ny, ny); y.obj.k = -(y0 + out.normalized() * s.uniform(0.7, 2)); y.obj.w = Vec::Constant(ny, s.uniform(0.5, 2));
  double W = s.pick({1.0, 10.0, 100.0}); int refs = s.integer(0, 2);
  auto config = [&](Model& m) {
    m.configSetting(kStg);
    m.getSetting().set(SolverIntParam_WarmStartIters, 100);
    m.getSetting().set(SolverIntParam_NumberRefinementsTrustRegion, refs);
    m.getSetting().set(SolverDoubleParam_SoftConstraintWeightReduced, W);
  };
  Model my; config(my);
  Built by = write(my, y, Writing());
  c.discard_if(my.optimize() != ExitCode::Optimal);
  // the two side by side
  Problem p(n + ny);
  auto row = [&](const Vec& a, int off) { Vec r = Vec::Zero(n + ny); r.segment(off, a.size()) = a; return r; };
  auto form = [&](const QForm& f, int off) { QForm g = f; g.Q = Mat::Zero(f.Q.rows(), n + ny); if (f.Q.rows()) g.Q.middleCols(off, f.Q.cols()) = f.Q; g.l = row(f.l, off); return g; };
  for (int i = 0; i < n; i++) p.bin[i] = M.p.bin[i];
  for (auto& r : M.p.rows) p.rows.push_back({row(r.a, 0), r.b, r.sense});
  for (auto& f : M.p.qs) p.qs.push_back(form(f, 0));
  p.qs.insert(p.qs.begin() + s.index(p.qs.size() + 1), form(y.qs[0], n));
  QForm oa = form(M.p.obj, 0), ob = form(y.obj, n);
  p.obj.Q = Mat(oa.Q.rows() + ob.Q.rows(), n + ny); p.obj.Q << oa.Q, ob.Q;
  p.obj.k = Vec(p.obj.Q.rows()); p.obj.k << M.p.obj.k, y.obj.k;
  p.obj.w = Vec(p.obj.Q.rows()); p.obj.w << M.p.obj.w, y.obj.w;
  p.obj.l = oa.l + ob.l; p.obj.d = M.p.obj.d;
  p.guess = Vec(n + ny); p.guess << M.p.guess, y.guess;
  p.describe(c.note); c.note << " approximation " << (int)q.approx << " W " << W << " refs " << refs;
  Model m; config(m);
  Built b = write(m, p, random_writing(s, p.n));
  ExitCode ec = m.optimize();
  Vec x = b.x(), xa = x.head(n);
  c.label(ecname(ec));
  c.note << " -> " << ecname(ec) << " x=" << pbt::str(x) << " best " << B.cost << " assignment " << B.mask << " alone " << pbt::str(by.x());
  PBT_CHECK(c, solved(ec), "approx-not-solved", "feasible mixed-binary problem ends as " << ecname(ec));
  for (int i = 0; i < M.nb; i++)
    PBT_CHECK(c, std::abs(x[i] - std::round(x[i])) < 1e-3 && x[i] > -0.01 && x[i] < 1.01, "approx-not-integer", "binary " << i << " is " << x[i]);
  std::string which;
  double viol = norm_violation(p, x, x, &which);
  PBT_CHECK(c, viol < 1e-4, "approx-infeasible", which << " violated by " << viol);
  double scale = 1 + std::abs(B.cost) + std::abs(y.cost(by.x())) + W * 0.05;
  PBT_CHECK(c, M.p.cost(xa) <= B.cost + 1e-2 * scale, "approx-suboptimal", "cost " << M.p.cost(xa) << ", best assignment " << B.mask << " costs " << B.cost);
  c.nontrivial = M.nb >= 2 && B.feasible >= 2;
}

PBT_PROP(branch_and_bound_infeasible) {
  // every assignment of the binaries violates something by a margin
  Mixed M = mixed_problem(s, 4, 2, false);
  Problem& p = M.p;
  int kind = s.integer(0, 2);
  Vec a = Vec::Zero(p.n);
  if (kind == 0) {            // 0.25 <= sum <= 0.75 over a set of binaries
    for (int i = 0; i < M.nb; i++) a[i] = s.integer(0, 1);
    a[0] = 1;
    double k = s.integer(0, (int)a.sum() - 1);
    p.rows.push_back({a, k + 0.25, '>'}); p.rows.push_back({a, k + 0.75, '<'});
  } else if (kind == 1) {     // parity: 2 (x1+x2+..) = odd
    for (int i = 0; i < M.nb; i++) a[i] = 2 * s.integer(1, 2);
    p.rows.push_back({a, 2.0 * s.integer(0, M.nb) + 1, '='});
  } else {                    // infeasible already without integrality
    for (int i = 0; i < M.nb; i++) a[i] = 1;
    p.rows.push_back({a, M.nb + s.uniform(0.5, 2), '>'});
  }
  // the same question to the variant that takes approximated constraints
  bool approx = s.chance(0.3);
  if (approx) {
    if (M.nc == 0) { Problem q(p.n + 1); for (int i = 0; i < p.n; i++) q.bin[i] = 1;
      for (auto& r : p.rows) { Vec e = Vec::Zero(q.n); e.head(p.n) = r.a; q.rows.push_back({e, r.b, r.sense}); }
      q.obj.Q = Mat(0, q.n); q.obj.k = Vec(0); q.obj.w = Vec(0); q.obj.l = Vec::Zero(q.n); q.obj.l[p.n] = 1; q.guess = Vec::Constant(q.n, 0.5); p = q; }
    QForm q; q.Q = Mat::Zero(1, p.n); q.Q(0, p.n - 1) = 1; q.k = Vec::Constant(1, 0.5); q.w = Vec::Ones(1); q.l = Vec::Zero(p.n); q.d = -s.uniform(1, 20);
    q.approx = s.boolean() ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint;
    p.qs.push_back(q);
  }
  p.describe(c.note);
  Solved r = solve(p, random_writing(s, p.n));
  c.label(std::to_string(kind) + ecname(r.ec) + (approx ? " approximated" : ""));
  c.note << " -> " << ecname(r.ec) << " x=" << pbt::str(r.x);
  PBT_CHECK(c, !solved(r.ec), "infeasible-called-optimal", "no assignment of the binaries is feasible but the answer is " << ecname(r.ec) << " x=" << pbt::str(r.x));
  PBT_CHECK(c, r.ec == ExitCode::PrimalInf || r.ec == ExitCode::PrimalInfInacc, "infeasible-not-reported", "ends as " << ecname(r.ec));
  c.nontrivial = M.nb >= 2 && kind < 2;
}

// C06 -------------------------------------------------------------------------
PBT_PROP(model_history) {
  Model m;
  m.configSetting(kStg);
  int epochs = s.integer(1, 3), solves = 0, resolves = 0;
  for (int e = 0; e < epochs; e++) {
    if (e) { m.clean(); c.note << " CLEAN"; }
    int n = s.integer(1, 4);
    Problem p(n);
    Vec x0 = s.vec(n, -2, 2);
    p.guess = s.vec(n, -1, 1);
    bool bins = s.chance(0.25);
    if (bins) { p.bin[0] = 1; x0[0] = s.integer(0, 1); }
    Writing w = random_writing(s, n);
    Built b = declare(m, p, w);
    auto ball = [&]() {
      QForm q; q.soc = s.boolean(); double R = s.uniform(2, 6);
      q.Q = Mat::Identity(n, n); q.k = -x0; q.w = Vec::Ones(n); q.l = Vec::Zero(n); q.d = q.soc ? -R : -R * R;
      return q;
    };
    QForm q0 = ball(); p.qs.push_back(q0); add_q(m, b.v, q0, w);
    auto objective = [&]() {
      int no = s.integer(0, 3);
      QForm o; o.Q = s.mat(no, n, -2, 2); o.k = s.vec(no, -2, 2); o.w = s.uvec(no, 0.2, 3); o.l = s.vec(n, -2, 2); o.d = s.real(-2, 2);
      return o;
    };
    if (!s.chance(0.25)) { p.obj = objective(); set_objective(m, b.v, p.obj, w); } else { c.note << " no objective"; c.label("no objective set"); c.label("cleaned, then no objective", e > 0); }
    int steps = s.integer(1, 7); bool dirty = true;
    for (int t = 0; t <= steps; t++) {
      int op = t == steps ? 0 : s.integer(0, 6);
      if (op == 0 || op == 6) {
        ExitCode ec = m.optimize();
        Vec x = b.x();
        Solved ref = solve(p, w);
        solves++; resolves += !dirty || t > 0; dirty = false;
        c.note << " OPT:" << ecname(ec) << "/" << ecname(ref.ec);
        PBT_CHECK(c, solved(ec) == solved(ref.ec), "status-differs", "after this history optimize() gives " << ecname(ec) << ", a fresh model gives " << ecname(ref.ec));
        if (!solved(ec)) continue;
        std::string which;
        double viol = norm_violation(p, x, x0, &which);
        PBT_CHECK(c, viol < 1e-4, "infeasible", which << " violated by " << viol);
        double f = p.cost(x), g = p.cost(ref.x), loose = ec == ExitCode::Optimal && ref.ec == ExitCode::Optimal ? 1 : 1e2;
        PBT_CHECK(c, std::abs(f - g) <= (bins ? 5e-3 : 1e-3) * loose * (1 + std::abs(g)), "cost-differs", "after this history cost " << f << ", a fresh model gets " << g);
      } else if (op == 1) {
        Vec a = nonzero(s, n, 2); double rhs = a.dot(x0) + s.uniform(0.3, 2);
        Row r = s.boolean() ? Row{a, rhs, '<'} : Row{-a, -rhs, '>'};
        p.rows.push_back(r); add_row(m, b.v, r, w); c.note << " row"; dirty = true;
      } else if (op == 2) {
        QForm q; int k = s.integer(1, 2);
        q.soc = s.boolean(); q.Q = s.mat(k, n, -2, 2); q.k = s.vec(k, -2, 2); q.w = s.uvec(k, 0.3, 2); q.l = s.vec(n, -1, 1);
        q.d = 0; q.d = -q.eval(x0) - s.uniform(0.3, 2);
        p.qs.push_back(q); add_q(m, b.v, q, w); c.note << (q.soc ? " soc" : " quad"); dirty = true;
      } else if (op == 3) {
        p.obj = objective(); set_objective(m, b.v, p.obj, w); c.note << " objective(" << p.obj.w.size() << ")"; dirty = true;
      } else if (op == 4) {
        for (auto& v : b.v) v.set(SolverDoubleParam_X, s.real(-3, 3));   // values are outputs of a convex solve
        c.note << " setX";
      } else if (op == 5 && n > 1 && !bins && std::none_of(p.rows.begin(), p.rows.end(), [](const Row& r) { return r.sense == '='; })) {
        Vec a = nonzero(s, n, 2); Row r{a, a.dot(x0), '='};
        p.rows.push_back(r); add_row(m, b.v, r, w); c.note << " eq"; dirty = true;
      }
    }
  }
  c.nontrivial = solves >= 2 && resolves >= 1;
}

// C07 -------------------------------------------------------------------------
// The approximated constraints solve a sequence of convexified problems; here
// the same sequence is written out with plain constraints and objective terms.
static QForm linearised(const QForm& q, const Vec& xp) {  // affine model of q around xp, as l'x + d
  QForm r; int n = (int)q.l.size();
  r.Q.resize(0, n); r.w.resize(0); r.k.resize(0);
  Vec v = q.Q * xp + q.k;
  r.l = q.l + 2 * q.Q.transpose() * (q.w.array() * v.array()).matrix();
  r.d = q.d + (q.w.array() * v.array().square()).sum() - 2 * (q.w.array() * v.array() * (q.Q * xp).array()).sum();
  return r;
}
PBT_PROP(approximations_follow_reference) {
  int n = s.integer(1, 4);
  Problem p(n);
  p.guess = s.vec(n, -2, 2);
  bool tr = s.boolean();
  int kind_mix = s.integer(0, 2);
  int na = s.integer(1, 3), nplain = s.integer(0, 2);
  if (tr || kind_mix == 2) na = std::min(na, n);
  Vec x0 = s.vec(n, -2, 2);
  // started near the boundary the linearised problems have solutions
  if (s.chance(0.8)) p.guess = x0 + s.uvec(n, -0.15, 0.15);
  for (int i = 0; i < na + nplain; i++) {
    QForm q; int k = s.integer(1, 2);
    q.Q = s.mat(k, n, -2, 2); q.k = s.vec(k, -1, 1); q.w = s.uvec(k, 0.3, 2); q.l = s.vec(n, -1, 1);
    q.d = 0; q.d = -q.eval(x0) - s.uniform(0.0, i < na ? 0.3 : 1.5);
    q.approx = i >= na ? QuadConstrApprox::None : (kind_mix == 2 ? (s.boolean() ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint)
                       : tr ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint);
    if (s.boolean()) p.qs.insert(p.qs.begin(), q); else p.qs.push_back(q);
  }
  for (int i = s.integer(0, 2); i > 0; i--) { Vec a = nonzero(s, n, 2); p.rows.push_back({a, a.dot(x0) + s.uniform(0.2, 2), '<'}); }
  p.obj.Q = Mat::Identity(n, n); p.obj.k = s.vec(n, -3, 3); p.obj.w = s.uvec(n, 0.5, 2); p.obj.l = s.vec(n, -2, 2);
  int warm = s.boolean() ? 100 : 0, refs = s.integer(0, 3);
  double thr = s.pick({0.15, 0.5, 0.05}), W = s.pick({1e4, 10.0, 1.0, 1e2});
  p.describe(c.note);
  c.note << " approx:"; for (auto& q : p.qs) c.note << (int)q.approx; c.note << " warm " << warm << " refinements " << refs << " threshold " << thr << " weight " << W;
  Model m; m.configSetting(kStg);
  m.getSetting().set(SolverIntParam_WarmStartIters, warm);
  m.getSetting().set(SolverIntParam_NumberRefinementsTrustRegion, refs);
  m.getSetting().set(SolverDoubleParam_TrustRegionThreshold, thr);
  m.getSetting().set(SolverDoubleParam_SoftConstraintWeightReduced, W);
  Built b = write(m, p, random_writing(s, n));
  ExitCode ec = m.optimize();
  Vec x = b.x();
  // reference sequence
  Vec xp = p.guess;
  bool ok = true;
  auto stage = [&](int iter, bool plain) {
    Problem q = p;
    for (auto& f : q.qs) f.approx = QuadConstrApprox::None;
    if (!plain)
      for (auto& f : p.qs) {
        if (f.approx == QuadConstrApprox::None) continue;
        QForm l = linearised(f, xp);
        if (f.approx == QuadConstrApprox::TrustRegion) q.rows.push_back({-l.l, l.d + std::pow(thr, iter), '<'});
        else {
          Mat Q(q.obj.Q.rows() + 1, n); Q << q.obj.Q, l.l.transpose();
          Vec k(Q.rows()), w(Q.rows()); k << q.obj.k, l.d; w << q.obj.w, W;
          q.obj.Q = Q; q.obj.k = k; q.obj.w = w;
        }
      }
    Solved r = solve(q);
    ok = r.ec == ExitCode::Optimal;
    xp = r.x;
  };
  std::vector<std::pair<int, bool>> seq;
  if (warm > 0) seq.push_back({0, true});
  seq.push_back({1, false});
  for (int r = 1; r <= refs; r++) seq.push_back({r + 1, false});
  for (auto& st : seq) { stage(st.first, st.second); if (!ok) break; }
  c.label(std::string(ecname(ec)) + (ok ? " ref ok" : " ref stops"));
  c.note << " -> " << ecname(ec) << " x=" << pbt::str(x) << " reference " << pbt::str(xp);
  if (!ok) c.discard_if(true);
  // (a step given up for numerical reasons close to the solution is no wrong answer: the point itself is compared)
  PBT_CHECK(c, ec != ExitCode::PrimalInf && ec != ExitCode::DualInf && ec != ExitCode::Indeterminate, "not-solved", "every problem of the sequence has a solution but the answer is " << ecname(ec));
  std::string which;
  double viol = norm_violation(p, x, x0, &which);
  PBT_CHECK(c, !solved(ec) || viol < 1e-4, "infeasible", which << " violated by " << viol);
  PBT_CHECK(c, (x - xp).norm() <= 0.02 * (1 + xp.norm()), "differs-from-sequence", "solution " << pbt::str(x) << ", the written-out sequence gives " << pbt::str(xp));
  c.nontrivial = n >= 2 && seq.size() >= 2;
}
PBT_MAIN
