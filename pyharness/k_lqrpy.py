"""Feedback gains for centroidal motions on the manifold of states (lqr_gain_manifold)."""
import os
import shutil
import sys
import tempfile
import numpy as np
from mopt_env import *
from pypbt import prop, main, close
from momentumopt.kinoptpy.lqr_gain_manifold import CentroidalLqr

I0 = np.diag([0.00578574, 0.01938108, 0.02476124])
MASS, DT, G = 2.17, 1e-3, 9.81


def unit(s):
    while True:
        q = s.uvec(4, -1, 1)
        n = np.linalg.norm(q)
        if n > .1:
            return q / n


def rot(q):
    return pin.Quaternion(np.asarray(q) / np.linalg.norm(q)).toRotationMatrix()


def mul(a, b):
    """Hamilton product, xyzw"""
    return np.concatenate([a[3] * b[:3] + b[3] * a[:3] + np.cross(a[:3], b[:3]), [a[3] * b[3] - a[:3].dot(b[:3])]])


def turn(w):
    """quaternion of the rotation by |w| about w"""
    a = np.linalg.norm(w)
    return np.concatenate([.5 * np.sinc(a / (2 * np.pi)) * w, [np.cos(.5 * a)]])


def step(x, u, on):
    R = rot(x[6:10])
    I = R.dot(I0).dot(R.T)
    w = x[10:]
    return np.concatenate([x[:3] + DT * x[3:6], x[3:6] + DT / MASS * (on * u[:3] - [0, 0, MASS * G]), mul(turn(DT * w), x[6:10]),
                           w + DT * np.linalg.solve(I, on * u[3:] - np.cross(w, I.dot(w)))])


def plus(x, d):
    return np.concatenate([x[:6] + d[:6], mul(turn(d[6:9]), x[6:10]), x[10:] + d[9:]])


def minus(b, a):
    """d with plus(a, d) = b, for states close to each other"""
    q = mul(b[6:10], np.concatenate([-a[6:9], a[9:10]]))
    if q[3] < 0:
        q = -q
    n = np.linalg.norm(q[:3])
    w = 2 * q[:3] if n < 1e-12 else 2 * np.arctan2(n, q[3]) / n * q[:3]
    return np.concatenate([b[:6] - a[:6], w, b[10:] - a[10:]])


def jac(x, u, on, h=1e-6):
    f0 = step(x, u, on)
    A, B = np.zeros((12, 12)), np.zeros((12, 6))
    for i in range(12):
        e = np.eye(12)[i] * h
        A[:, i] = (minus(step(plus(x, e), u, on), f0) - minus(step(plus(x, -e), u, on), f0)) / (2 * h)
    for i in range(6):
        e = np.eye(6)[i]
        B[:, i] = (minus(step(x, u + e, on), f0) - minus(step(x, u - e, on), f0)) / 2
    return A, B


class Data(object):
    """a plan of N + 1 rows in a scratch directory"""
    def __init__(self, s, N):
        self.N = N
        n = N + 1
        q = unit(s)
        self.ori = [q]
        for _ in range(N):
            q = mul(turn(s.uvec(3, -.05, .05)), q)
            self.ori.append(q / np.linalg.norm(q))
        self.ori = np.array(self.ori)
        self.pos, self.vel, self.ang = s.umat(n, 3, -1, 1), s.umat(n, 3, -1, 1), s.umat(n, 3, -3, 3)
        self.frc, self.mom = s.umat(n, 3, -30, 30), s.umat(n, 3, -1, 1)
        self.con = np.array([[float(s.boolean()) for _ in range(4)] if s.chance(.7) else [0.] * 4 for _ in range(n)])
        self.on = (self.con.sum(axis=1) > 0) * 1.
        self.x = np.hstack([self.pos, self.vel, self.ori, self.ang])
        self.u = np.hstack([self.frc, self.mom])[:-1]

    def open(self, scale=1.):
        self.dir = tempfile.mkdtemp(prefix="klqr")
        i = np.arange(self.N + 1)[:, None]
        for n, a in (("com", self.pos), ("com_vel", self.vel), ("quaternion", self.ori * scale), ("base_ang_velocities", self.ang),
                     ("centroidal_forces", self.frc), ("centroidal_moments", self.mom), ("contact_activation", self.con)):
            np.savetxt(os.path.join(self.dir, "quadruped_%s.dat" % n), np.hstack([i, a]))
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def spd_weights(s, n, lo, hi):
    d = np.diag(np.exp(s.uvec(n, np.log(lo), np.log(hi))))
    if s.boolean():
        return d
    h = np.sqrt(d)
    o = s.orth(n) if n < 7 else np.eye(n)
    return h.dot(np.eye(n) + .3 * o.dot(np.diag(s.uvec(n, 0, 1))).dot(o.T)).dot(h)


@prop()
def quaternions(s, c):
    """Quaternion products, rotations, integration, difference, exponential and logarithm fit together."""
    with Data(s, 1).open() as d:
        L = CentroidalLqr(d.dir)
    p, q = unit(s), unit(s)
    k = s.integer(0, 4)
    a = s.pick([1e-9, 1e-7, 5e-7, 1.1e-6, 1e-5, 1e-3, 1.9e-3, 2.1e-3, .01, .1, 1., 2., 3., 3.1]) * s.uniform(.9, 1.)
    v = s.uvec(3, -1, 1)
    c.discard_if(np.linalg.norm(v) < .1)
    w = a * v / np.linalg.norm(v)
    c.note("p", p, "q", q, "w", w)
    R = L.quaternion_to_rotation(q)
    c.check(close(R, rot(q), 1e-12), "rotation", "%s, expected %s" % (R, rot(q)))
    c.check(close(L.quaternion_product(p, q), mul(p, q), 1e-12), "product", str(L.quaternion_product(p, q)))
    c.check(close(L.skew(v).dot(w), np.cross(v, w), 1e-12), "skew", str(L.skew(v)))
    e = L.exp_quaternion(.5 * w)
    c.check(close(e, turn(w), 2e-7 * a + 1e-12), "exponential", "%s, expected %s" % (e, turn(w)))
    c.check(abs(np.linalg.norm(e) - 1) < 1e-6, "exponential", "not a unit quaternion")
    l = L.log_quaternion(turn(w))
    c.check(np.abs(l - w).max() <= 1e-6 * a, "logarithm", "%s, expected %s" % (l, w))
    r = L.integrate_quaternion(q, w)
    c.check(close(r, mul(turn(w), q), 1e-6), "integration", "%s, expected %s" % (r, mul(turn(w), q)))
    z = L.quaternion_difference(q, mul(turn(w), q))
    c.check(np.abs(z - w).max() <= 1e-6 * a + 1e-12, "difference", "%s, expected %s" % (z, w))
    # states are moved and compared component by component
    x, dx = np.concatenate([s.uvec(6, -2, 2), q, s.uvec(3, -5, 5)]), np.concatenate([s.uvec(6, -1, 1), w, s.uvec(3, -2, 2)])
    y = L.increment_x(x, dx)
    c.check(close(y, plus(x, dx), 1e-6), "increment", "%s, expected %s" % (y, plus(x, dx)))
    c.check(close(L.diff_x(x, plus(x, dx)), dx, 1e-5), "state difference", "%s, expected %s" % (L.diff_x(x, plus(x, dx)), dx))
    c.nontrivial = True
    c.label("small rotation", a < 2e-3)


@prop()
def dynamics(s, c):
    """The reference is the motion which the planned forces cause, its derivatives are those of the dynamics."""
    d = Data(s, s.integer(1, 6))
    with d.open():
        L = CentroidalLqr(d.dir)
    N = d.N
    c.note("N", N, "contacts", list(d.on))
    c.check(close(L.xp, d.x, 1e-12), "planned states", "not those of the files")
    c.check(close(L.u0, d.u, 1e-12), "planned forces", "not those of the files")
    x = d.x[0]
    c.check(L.x0.shape == (N + 1, 13), "reference", "shape %s" % (L.x0.shape,))
    for t in range(N + 1):
        c.check(close(L.x0[t], x, 1e-6), "reference", "step %d: %s, expected %s" % (t, L.x0[t], x))
        if t < N:
            x = step(x, d.u[t], d.on[t])
    for _ in range(3):
        t = s.integer(0, N - 1)
        x = np.concatenate([s.uvec(6, -2, 2), unit(s), s.uvec(3, -5, 5)])
        u = np.concatenate([s.uvec(3, -50, 50), s.uvec(3, -2, 2)])
        y, want = L.integrate_step(t, x, u), step(x, u, d.on[t])
        c.check(np.abs(y - want).max() < 1e-7, "step", "%s, expected %s" % (y, want))
        fx, fu = L.dynamics_derivatives(t, x, u)
        A, B = jac(x, u, d.on[t])
        c.check(close(fx, A, 1e-4), "derivative by the state", "largest error %g" % np.abs(fx - A).max())
        c.check(np.abs(fu - B).max() <= 1e-5 * (1 + np.abs(B).max()), "derivative by the forces", "largest error %g" % np.abs(fu - B).max())
    c.nontrivial = N >= 2
    c.label("flight", bool((d.on == 0).any()))


@prop()
def not_unit(s, c):
    """Quaternions that are not unit quaternions are refused."""
    d = Data(s, s.integer(1, 4))
    f = s.pick([1., 1.0001, .9999, 1.002, .998, .9, 1.1, 2.])
    c.note("factor", f)
    bad = abs(f - 1) > 1.5e-3
    with d.open(f):
        try:
            CentroidalLqr(d.dir)
            ok = True
        except AssertionError:
            ok = False
    c.check(ok != bad, "unit quaternions", "norm %g %s" % (f, "accepted" if ok else "refused"))
    c.nontrivial = bad


def hess(L, d, t):
    return (2 if t == d.N else 1) * .5 * (L.Q[t] + L.Q[t].T)


@prop()
def cost(s, c):
    """The cost is the weighted deviation from the reference plus the weighted forces, and its derivatives are its derivatives."""
    d = Data(s, s.integer(1, 4))
    with d.open():
        L = CentroidalLqr(d.dir)
    N = d.N
    L.Q = [spd_weights(s, 12, .1, 10) for _ in range(N + 1)]
    L.R = [spd_weights(s, 6, 1e-3, 1e-1) for _ in range(N)]
    ref = L.x0.copy()
    for _ in range(2):
        t = s.integer(0, N)
        dx = s.uvec(12, -1, 1) * s.pick([0., 1e-3, .1, 1.])
        x, u = plus(ref[t], dx), np.concatenate([s.uvec(3, -9, 9), s.uvec(3, -1, 1)])
        want = .5 * dx.dot(hess(L, d, t)).dot(dx) + (0 if t == N else .5 * u.dot(L.R[t]).dot(u))
        got = L.cost(t, x, u)
        c.check(abs(got - want) <= 1e-5 * (abs(want) + np.abs(dx).max()) + 1e-12, "cost", "time %d of %d: %.9g, expected %.9g" % (t, N, got, want))
        cx, cu, cxx, cuu, cxu = L.cost_derivatives(t, x, u)

        def at(y, v):
            e = minus(y, ref[t])
            return .5 * e.dot(hess(L, d, t)).dot(e) + (0 if t == N else .5 * v.dot(L.R[t]).dot(v))
        h, E = 1e-4, np.eye(12)
        gx = np.array([(at(plus(x, h * e), u) - at(plus(x, -h * e), u)) / (2 * h) for e in E])
        gu = np.zeros(6) if t == N else L.R[t].dot(u)
        c.check(np.abs(cx - gx).max() <= 1e-3 * (1 + np.abs(gx).max()), "gradient by the state", "%s, expected %s" % (cx, gx))
        c.check(np.abs(cu - gu).max() <= 1e-3 * (1 + np.abs(gu).max()), "gradient by the forces", "%s, expected %s" % (cu, gu))
        c.check(np.array_equal(cuu, np.zeros((6, 6)) if t == N else L.R[t]) or close(cuu, np.zeros((6, 6)) if t == N else L.R[t], 1e-3), "Hessian by the forces", str(cuu))
        c.check(close(cxu, np.zeros((12, 6)), 1e-3), "mixed derivative", str(cxu))
        # second differences of the cost are exact only up to rounding
        h = 1e-3
        gxx = np.array([[(at(plus(x, h * (a + b)), u) - at(plus(x, h * (a - b)), u) - at(plus(x, h * (b - a)), u) + at(plus(x, -h * (a + b)), u)) / (4 * h * h) for a in E] for b in E])
        tol = 5e-3 * (1 + np.abs(gxx).max()) + 2e-3 * abs(want)
        c.check(np.abs(cxx - gxx).max() <= tol, "Hessian by the state", "largest error %g" % np.abs(cxx - gxx).max())
    c.nontrivial = N >= 2
    c.check(np.array_equal(L.x0, ref), "reference", "changed")


@prop(limit=120)
def gains(s, c):
    """The stored gains are those of the linear-quadratic regulator along the reference."""
    d = Data(s, s.integer(1, 4))
    with d.open():
        L = CentroidalLqr(d.dir)
        N = d.N
        if s.chance(.7):
            L.Q = [spd_weights(s, 12, .1, 10) for _ in range(N + 1)]
            L.R = [spd_weights(s, 6, 1e-5, 1e-3) for _ in range(N)]
        else:
            c.label("default weights")
        ref = L.x0.copy()
        L.compute_gains()
        stored = np.loadtxt(os.path.join(d.dir, "quadruped_centroidal_gains_manifold.dat"), ndmin=2)
    S, v, V0 = hess(L, d, N), np.zeros(12), 0.
    for t in range(N - 1, -1, -1):
        A, B = jac(ref[t], d.u[t], d.on[t])
        R = .5 * (L.R[t] + L.R[t].T)
        Quu, Qxu = R + B.T.dot(S).dot(B), A.T.dot(S).dot(B)
        Qx, Qu = A.T.dot(v), R.dot(d.u[t]) + B.T.dot(v)
        K, k = np.linalg.solve(Quu, Qxu.T), np.linalg.solve(Quu, Qu)
        V0 += .5 * d.u[t].dot(R).dot(d.u[t]) - .5 * Qu.dot(k)
        S = hess(L, d, t) + A.T.dot(S).dot(A) - Qxu.dot(K)
        v = Qx - Qu.dot(K)
        S = .5 * (S + S.T)
        big = 1 + np.abs(K).max()
        c.check(L.kfb[t].shape == (6, 12) and np.abs(L.kfb[t] - K).max() <= 5e-3 * big, "feedback", "time %d: largest error %g of %g" % (t, np.abs(L.kfb[t] - K).max(), big))
        c.check(np.abs(L.kff[t] - k).max() <= 5e-3 * (1 + np.abs(k).max()), "feedforward", "time %d: %s, expected %s" % (t, L.kff[t], k))
        c.check(np.abs(L.value_dxdx[t] - S).max() <= 1e-2 * (1 + np.abs(S).max()), "value", "Hessian at time %d: largest error %g" % (t, np.abs(L.value_dxdx[t] - S).max()))
        c.check(np.abs(L.value_dx[t] - v).max() <= 1e-2 * (1 + np.abs(v).max()), "value", "gradient at time %d: largest error %g" % (t, np.abs(L.value_dx[t] - v).max()))
        c.check(abs(L.value[t] - V0) <= 1e-3 * (1 + abs(V0)), "value", "at time %d: %g, expected %g" % (t, L.value[t], V0))
    c.check(stored.shape == (N, 72) and close(stored, L.kfb.reshape(N, 72), 1e-9), "file", "does not contain the gains")
    c.note("N", N, "contacts", list(d.on))
    c.nontrivial = N >= 2


if __name__ == "__main__":
    sys.exit(main())
