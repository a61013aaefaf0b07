"""Swing-foot and posture trajectories (min_jerk_traj, EndeffectorTrajectoryGenerator, TrajectoryInterpolator)."""
import sys
import numpy as np
from mopt_env import *
from pypbt import prop, main, close
from momentumopt.kinoptpy.min_jerk_traj import Polynomial, PolynominalList, poly_points, constant_poly
from momentumopt.kinoptpy.momentum_kinematics_optimizer import EndeffectorTrajectoryGenerator, TrajectoryInterpolator


@prop()
def poly_fit(s, c):
    """A polynomial fitted to values and derivatives has these values and derivatives."""
    n = s.integer(1, 7)
    x0, dur = s.real(-2, 2), s.uniform(0.5, 3.)
    ts = [x0 + dur * (i + s.uniform(-.2, .2)) / max(n - 1, 1) for i in range((n + 1) // 2)]
    cons = []
    for i, t in enumerate(ts):
        # Hermite data: value first, then derivatives at the same point
        k = 1 if len(cons) == n - 1 else min(s.integer(1, 3), n - len(cons))
        for o in range(k):
            cons.append((t, s.real(-3, 3), o))
        if len(cons) >= n:
            break
    n = len(cons)
    c.note("constraints", cons)
    p = Polynomial()
    perm = sorted(range(n), key=lambda i: s.draw(1000))
    p.set_constraints([cons[i][0] for i in perm], [cons[i][1] for i in perm], [cons[i][2] for i in perm])
    p.fit()
    c.nontrivial = n >= 3 and len({a[0] for a in cons}) >= 2
    sc = max(abs(a[1]) for a in cons) + np.abs(p.get_coeffs()[:, 0]).max()
    h = 1e-4
    for t, y, o in cons:
        if o == 0:
            got, e = p.eval(t), 1e-7
        elif o == 1:
            got, e = p.deval(t), 1e-7
        else:
            got, e = (p.deval(t + h) - p.deval(t - h)) / (2 * h), 1e-4
        big = max(1., abs(t)) ** n
        c.check(abs(got - y) <= e * (1 + sc * big), "constraint", "order %d at %g: %g, required %g" % (o, t, got, y))
    for i in range(3):
        t = x0 + dur * s.uniform(-.2, 1.2)
        num = (p.eval(t + h) - p.eval(t - h)) / (2 * h)
        c.check(abs(p.deval(t) - num) <= 1e-4 * (1 + sc * max(1., abs(t)) ** n), "derivative", "at %g: %g, difference quotient %g" % (t, p.deval(t), num))
    # the polynomial of least degree: interpolating its own values gives it back
    q = np.polynomial.polynomial.Polynomial.fit(np.linspace(x0 - .1, x0 + dur + .1, n), [p.eval(t) for t in np.linspace(x0 - .1, x0 + dur + .1, n)], n - 1)
    for i in range(3):
        t = x0 + dur * s.uniform(0, 1)
        c.check(abs(q(t) - p.eval(t)) <= 1e-6 * (1 + sc * max(1., abs(t)) ** n), "degree", "not of degree %d" % (n - 1))


@prop()
def min_jerk(s, c):
    """Transitions start and end at rest and pass the via point half way."""
    steps = s.boolean()
    if steps:
        t0 = s.integer(0, 150)
        t1 = t0 + s.integer(2, 60)
    else:
        t0 = s.real(-1, 3)
        t1 = t0 + s.uniform(0.2, 3)
    y0, y1 = s.real(-2, 2), s.real(-2, 2)
    via = None if s.chance(.4) else s.real(-2, 2)
    c.note("t", (t0, t1), "y", (y0, y1), "via", via)
    p = poly_points([t0, t1], y0, y1, via) if via is not None or s.boolean() else poly_points([t0, t1], y0, y1)
    v = 0.5 * (y0 + y1) if via is None else via
    c.nontrivial = y0 != y1 or via is not None
    e = tol(t0, t1, 2.)
    for t in [t0, t1, .5 * (t0 + t1)] + [s.uniform(t0, t1) for _ in range(4)]:
        y, d = minjerk(t0, t1, y0, y1, v, t)
        c.check(abs(p.eval(t) - y) <= e, "position", "at %g: %.9g, expected %.9g" % (t, p.eval(t), y))
        c.check(abs(p.deval(t) - d) <= e * 10 * (1 + 1 / (t1 - t0)), "velocity", "at %g: %.9g, expected %.9g" % (t, p.deval(t), d))
    k = constant_poly(y0)
    for t in (0, t0, t1):
        c.check(k.eval(t) == y0 and k.deval(t) == 0, "constant", "constant polynomial %g at %g: %g, %g" % (y0, t, k.eval(t), k.deval(t)))


@prop()
def windows(s, c):
    """A list of polynomials uses the one of the window which contains the time."""
    n = s.integer(1, 6)
    L, t, W = PolynominalList(), s.real(-2, 2), []
    for i in range(n):
        e = t + s.uniform(0.3, 2)
        y = s.real(-3, 3), s.real(-3, 3)
        L.append([t, e], poly_points([t, e], y[0], y[1]))
        W.append((t, e, y))
        t = e
    c.nontrivial = n >= 2
    for i in range(6):
        t = s.uniform(W[0][0] - 1, W[-1][1] + 1)
        k = min(sum(1 for w in W if w[1] < t), n - 1)
        a, b, y = W[k]
        c.check(L.get_poly(t) is L.polynominals[k], "window", "time %g uses another window than %d" % (t, k))
        if a <= t <= b:
            c.check(abs(L.eval(t) - minjerk(a, b, y[0], y[1], .5 * sum(y), t)[0]) < 1e-4, "value", "at %g" % t)
            c.check(abs(L.deval(t) - minjerk(a, b, y[0], y[1], .5 * sum(y), t)[1]) < 1e-3, "value", "derivative at %g" % t)


class State(object):
    def __init__(self, act, pos):
        self.a, self.p = act, pos

    def effActivation(self, i):
        return self.a[i]

    def eff(self, i):
        return self.p[i]
    effPosition = eff


class Obj(object):
    pass


@prop()
def feet(s, c):
    """Feet stand still where and while the plan has them in contact and swing in between."""
    ne = s.integer(1, 4)
    N = s.integer(2, 60)
    dt = s.uniform(0.005, 0.2)
    act, pos, phases = [], [], []
    for e in range(ne):
        a, ph = [], []
        contact = s.chance(.75)
        p = s.vec(3, -1, 1)
        while len(a) < N:
            k = s.integer(1, 15) if contact else s.integer(2, 12)
            if s.chance(.2):
                k = N
            k = min(k, N - len(a))
            if contact:
                p = p + s.vec(3, -.5, .5)
                ph.append((len(a), len(a) + k - 1, p.copy()))
            a += [contact] * k
            contact = not contact
        act.append(a)
        phases.append(ph)
        # in the air the dynamics plan keeps some position
        x = []
        for t in range(N):
            on = [q for q in ph if q[0] <= t <= q[1]]
            x.append(on[0][2] if on else s.vec(3, -1, 1))
        pos.append(x)
    zoff = s.real(0, 1) * .3
    k = Obj()
    k.eff_names = ["e%d" % e for e in range(ne)]
    k.dt, k.num_time_steps = dt, N
    k.dynamic_sequence = Obj()
    k.dynamic_sequence.dynamics_states = [State([act[e][t] for e in range(ne)], [pos[e][t] for e in range(ne)]) for t in range(N)]
    c.note("N", N, "dt", dt, "z_offset", zoff, "contacts", [[(q[0], q[1], q[2].tolist()) for q in ph] for ph in phases])
    g = EndeffectorTrajectoryGenerator()
    g.z_offset = zoff
    P, V, C = g(k)
    P, V, C = np.asarray(P), np.asarray(V), np.asarray(C)
    c.check(P.shape == (N, ne, 3) and V.shape == (N, ne, 3) and C.shape == (N, ne), "shape", "%s %s %s" % (P.shape, V.shape, C.shape))
    swings = 0
    for e in range(ne):
        ph = phases[e]
        c.label("ends in contact", bool(ph) and ph[-1][1] == N - 1)
        c.label("starts in the air", not act[e][0])
        c.label("never in contact", not ph)
        for t in range(N):
            c.check(bool(C[t, e]) == act[e][t], "contact flag", "effector %d step %d" % (e, t))
        for a, b, p in ph:
            for t in range(a, b + 1):
                c.check(np.abs(P[t, e] - p).max() < 1e-5, "contact position", "effector %d step %d: at %s, contact at %s" % (e, t, P[t, e], p))
                c.check(np.abs(V[t, e]).max() < 1e-4 / dt, "contact velocity", "effector %d step %d: %s" % (e, t, V[t, e]))
        for (a0, b0, p0), (a1, b1, p1) in zip(ph, ph[1:]):
            swings += 1
            for t in range(b0, a1 + 1):
                for x in range(3):
                    via = p0[x] + zoff if x == 2 else .5 * (p0[x] + p1[x])
                    y, d = minjerk(b0, a1, p0[x], p1[x], via, t)
                    er = tol(b0, a1, 2.)
                    c.check(abs(P[t, e, x] - y) <= er, "swing position", "effector %d step %d axis %d: %.9g, expected %.9g" % (e, t, x, P[t, e, x], y))
                    c.check(abs(V[t, e, x] - d / dt) <= er * 10 / dt, "swing velocity", "effector %d step %d axis %d: %.9g, expected %.9g" % (e, t, x, V[t, e, x], d / dt))
        if ph:
            # before the first and after the last contact there is nothing to swing from or to
            for t in list(range(0, ph[0][0])) + list(range(ph[-1][1] + 1, N)):
                c.check(np.all(np.isfinite(P[t, e])) and np.all(np.isfinite(V[t, e])), "finite", "effector %d step %d" % (e, t))
    c.nontrivial = swings > 0


@prop()
def postures(s, c):
    """Posture references start and end at the given posture and pass the via points at their times."""
    nj = s.integer(1, 8)
    N = s.integer(6, 120)
    dt = s.pick([0.01, 0.02, 0.05, 0.1])
    nv = s.integer(1, 3)
    cut = sorted({s.integer(2, N - 2) for _ in range(nv)})
    cut = [x for i, x in enumerate(cut) if i == 0 or x - cut[i - 1] >= 2]
    last_at_end = s.chance(.2)
    if last_at_end:
        cut = [x for x in cut if N - x >= 2] + [N]
    nv = len(cut)
    c.discard_if(nv == 0)
    via = [np.concatenate(([x * dt], s.vec(nj, -2, 2))) for x in cut]
    ini, end = s.vec(nj, -2, 2), s.vec(nj, -2, 2)
    c.note("N", N, "dt", dt, "via", [v.tolist() for v in via], "from", ini, "to", end)
    # a via point must not fall on the end of the horizon up to rounding only
    c.discard_if(any(v[0] / dt != N and abs(v[0] / dt - N) < 1e-6 for v in via))
    T = TrajectoryInterpolator()
    T.num_time_steps, T.init, T.end = N, ini, end
    T.generate_trajectory(nv, via, dt)
    knots = [(0., ini)] + [(v[0] / dt, v[1:]) for v in via] + ([(float(N), end)] if cut[-1] != N else [])
    c.nontrivial = nv >= 2 or cut[-1] == N
    prev = None
    for t in range(N):
        q = np.asarray(T.evaluate_trajecory(t)).reshape(-1)
        c.check(q.shape == (nj,), "shape", str(q.shape))
        k = 0
        while k + 2 < len(knots) and knots[k + 1][0] < t:
            k += 1
        (a, ya), (b, yb) = knots[k], knots[k + 1]
        for j in range(nj):
            y, _ = minjerk(a, b, ya[j], yb[j], .5 * (ya[j] + yb[j]), t)
            c.check(abs(q[j] - y) <= 10 * tol(a, b, 2.) + 1e-7, "posture", "joint %d step %d: %.9g, expected %.9g" % (j, t, q[j], y))


if __name__ == "__main__":
    sys.exit(main())
