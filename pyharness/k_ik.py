"""Inverse kinematics of momentumopt's Python side: quadratic programs, first
and second order solvers and the kinematics optimiser."""
import os
import sys
import numpy as np
from scipy.optimize import nnls
from scipy.interpolate import CubicSpline
from mopt_env import *
from pypbt import prop, main, close
from pymomentum import *
from momentumopt.kinoptpy.qp import QpSolver
from momentumopt.kinoptpy.inverse_kinematics import PointContactInverseKinematics
from momentumopt.kinoptpy.second_order_ik import SecondOrderInverseKinematics
from momentumopt.kinoptpy.momentum_kinematics_optimizer import MomentumKinematicsOptimizer
from momentumopt.robots.blmc_robot_wrapper import QuadrupedWrapper, Quadruped12Wrapper, BipedWrapper

CFGS = {8: "cfg_solo8_jump.yaml", 12: "cfg_solo12_jump.yaml", 6: "cfg_bolt_jump.yaml"}
WRAP = {8: QuadrupedWrapper, 12: Quadruped12Wrapper, 6: BipedWrapper}


@prop()
def quadratic_program(s, c):
    """The returned point satisfies the constraints and no feasible point is better (KKT conditions)."""
    n = s.integer(1, 7)
    P = s.spd(n, 1e-2, 1e2)
    q = s.vec(n, -5, 5)
    x0 = s.vec(n, -2, 2)
    me = s.integer(0, n - 1) if s.boolean() else 0
    mi = s.integer(1, 8) if s.boolean() else 0
    A = b = G = h = None
    if me:
        A = s.orth(n)[:me] * s.uniform(.5, 2)
        b = A.dot(x0)
    if mi:
        G = s.mat(mi, n, -2, 2)
        c.discard_if(np.any(np.abs(G).max(axis=1) < 1e-2))
        h = G.dot(x0) + np.array([s.pick([.1, 1., 3.]) * s.uniform(.1, 1) for _ in range(mi)])
    c.note("P", P, "q", q, "G", G, "h", h, "A", A, "b", b)
    cp = [None if m is None else m.copy() for m in (P, q, G, h, A, b)]
    x = QpSolver().quadprog_solve_qp(P, q, G, h, A, b)
    c.check(x is not None and np.all(np.isfinite(x)), "solution", "none for a problem with an interior point")
    for m, k in zip((P, q, G, h, A, b), cp):
        c.check(m is None or np.array_equal(m, k), "arguments", "changed")
    sc = 1 + np.abs(x).max()
    cols = []
    if me:
        c.check(np.abs(A.dot(x) - b).max() < 1e-7 * sc, "equalities", "violated by %g" % np.abs(A.dot(x) - b).max())
        cols += [A.T, -A.T]
    act = np.zeros(0, int)
    if mi:
        r = G.dot(x) - h
        c.check(r.max() < 1e-7 * sc, "inequalities", "violated by %g" % r.max())
        act = np.flatnonzero(r > -1e-6 * sc)
        if len(act):
            cols += [G[act].T]
    g = -(P.dot(x) + q)
    if cols:
        _, res = nnls(np.hstack(cols), g)
    else:
        res = np.linalg.norm(g)
    c.check(res < 1e-5 * (1 + np.abs(P).max() * sc + np.abs(q).max()), "optimal", "gradient not balanced: %g" % res)
    c.nontrivial = bool(me) or len(act) > 0
    c.label("active inequalities", len(act) > 0)
    c.label("equalities", bool(me))


def frame_jac(model, data, q, fid):
    """world aligned translational Jacobian of a frame by differences of its position"""
    nv, h = model.nv, 1e-6
    J = np.zeros((3, nv))
    for k in range(nv):
        e = np.zeros(nv)
        e[k] = h
        p = []
        for sg in (1, -1):
            pin.forwardKinematics(model, data, pin.integrate(model, q, sg * e))
            p.append(pin.updateFramePlacement(model, data, fid).translation.copy())
        J[:, k] = (p[0] - p[1]) / (2 * h)
    return J


class Tasks(object):
    """Momentum map, end-effector Jacobians and positions, computed apart from the code under test."""
    def __init__(self, model, effs):
        self.model, self.data = model, model.createData()
        self.ids = [model.getFrameId(e) for e in effs]

    def jac(self, q):
        m, d = self.model, self.data
        A = pin.computeCentroidalMap(m, d, q).copy()
        pin.computeJointJacobians(m, d, q)
        pin.updateFramePlacements(m, d)
        F = [pin.getFrameJacobian(m, d, i, pin.ReferenceFrame.LOCAL_WORLD_ALIGNED)[:3].copy() for i in self.ids]
        R = np.hstack([np.zeros((m.nv - 6, 6)), np.eye(m.nv - 6)])
        return np.vstack([A] + F + [R])

    def pos(self, q):
        pin.forwardKinematics(self.model, self.data, q)
        pin.updateFramePlacements(self.model, self.data)
        return np.array([self.data.oMf[i].translation.copy() for i in self.ids])

    def com(self, q):
        return pin.centerOfMass(self.model, self.data, q).copy()

    def place(self, q, name):
        pin.forwardKinematics(self.model, self.data, q)
        pin.updateFramePlacements(self.model, self.data)
        return self.data.oMf[self.model.getFrameId(name)].copy()

    def vel(self, q, dq, name):
        m, d = self.model, self.data
        pin.forwardKinematics(m, d, q, dq)
        pin.updateFramePlacements(m, d)
        return pin.getFrameVelocity(m, d, m.getFrameId(name), pin.ReferenceFrame.LOCAL_WORLD_ALIGNED).linear.copy()

    def drift(self, q, dq):
        h = 1e-5
        return (self.jac(pin.integrate(self.model, q, h * dq)).dot(dq) - self.jac(pin.integrate(self.model, q, -h * dq)).dot(dq)) / (2 * h)


def effs_of(kind):
    return ["%s_ANKLE" % e for e in LEGS[kind][0]]


def weights(o, ne, nv, contact):
    return np.concatenate([[o.w_lin_mom_tracking] * 3, [o.w_ang_mom_tracking] * 3] +
                          [[o.w_endeff_contact if on else o.w_endeff_tracking] * 3 for on in contact] + [[o.w_joint_regularization] * (nv - 6)])


def optimal(c, J, w, des, v, eq, b, tag, extra=0.):
    """v minimises sum w (J v - des)^2 (+ a tiny damping) subject to eq v = b"""
    H = (J.T * w).dot(J)
    g = H.dot(v) - (J.T * w).dot(des)
    # damping of any size up to 1e-5 is accepted
    tol = 1e-5 * (1 + np.abs(v).max()) + 1e-9 * (np.abs(H).max() * (1 + np.abs(v).max()) + np.abs((J.T * w).dot(des)).max()) + extra
    if eq is not None:
        r = eq.dot(v) - b
        c.check(np.abs(r).max() <= 1e-6 * (1 + np.abs(b).max()), tag + ": momentum in flight", "%s instead of %s" % (eq.dot(v), b))
        g = g - eq.T.dot(np.linalg.lstsq(eq.T, g, rcond=None)[0])
    c.check(np.abs(g).max() <= tol, tag, "gradient of the tracking error %.3g (tolerance %.3g) at %s" % (np.abs(g).max(), tol, v))


def set_weights(s, o):
    o.w_endeff_tracking = s.logreal(.01, 100)
    o.w_endeff_contact = s.logreal(.01, 100)
    o.w_lin_mom_tracking = s.logreal(.01, 100)
    o.w_ang_mom_tracking = s.logreal(.01, 100)
    o.w_joint_regularization = s.logreal(1e-3, 10)
    o.p_endeff_tracking = s.uniform(.1, 20)
    o.p_com_tracking = s.uniform(.1, 20)


@prop()
def first_order(s, c):
    """Every velocity minimises the weighted tracking errors, whatever was solved before."""
    kind = s.pick([8, 12, 6])
    rw = robot(s, kind)
    model = rw.model
    effs = effs_of(kind)
    ne, nv = len(effs), model.nv
    ik = PointContactInverseKinematics(model, effs)
    T = Tasks(model, effs)
    set_weights(s, ik)
    calls = s.integer(1, 4)
    q = posture(s, model)
    c.note("robot", kind, "calls", calls)
    for i in range(calls):
        if i and s.chance(.7):
            q = posture(s, model)
        dq = s.uvec(nv, -1, 1) if s.boolean() else np.zeros(nv)
        if s.chance(.3):
            ik.forward_robot(posture(s, model) if s.boolean() else q, dq)
        if s.chance(.3):
            set_weights(s, ik)
        ik.is_init_time = s.integer(0, 1)
        com_ref, lm, am = T.com(q) + s.vec(3, -.2, .2), s.vec(3, -2, 2), s.vec(3, -1, 1)
        P, V = T.pos(q) + s.umat(ne, 3, -.1, .1), s.mat(ne, 3, -1, 1)
        con = np.array([float(s.boolean()) for _ in range(ne)])
        reg = s.uvec(nv - 6, -2, 2) if s.boolean() else None
        flight = s.chance(.3)
        c.label("flight", flight)
        args = [a.copy() for a in (q, dq, com_ref, lm, am, P, V, con)]
        v = ik.compute(q, dq, com_ref, lm, am, P, V, con, reg, flight) if flight or s.boolean() else ik.compute(q, dq, com_ref, lm, am, P, V, con, reg)
        for a, k in zip((q, dq, com_ref, lm, am, P, V, con), args):
            c.check(np.array_equal(a, k), "arguments", "changed")
        c.check(v is not None and v.shape == (nv,) and np.all(np.isfinite(v)), "solution", str(v))
        J = T.jac(q)
        gain = 1. if ik.is_init_time else ik.p_endeff_tracking
        des = np.concatenate([lm + ik.p_com_tracking * (com_ref - T.com(q)), am, (V + gain * (P - T.pos(q))).reshape(-1),
                              np.zeros(nv - 6) if reg is None else reg])
        optimal(c, J, weights(ik, ne, nv, con == 1), des, v, J[:6] if flight else None, np.concatenate([lm, am]), "call %d" % i)
    # the map used above really is the derivative of the positions
    if s.chance(.1):
        for k, i in enumerate(T.ids):
            c.check(np.abs(frame_jac(model, model.createData(), q, i) - J[6 + 3 * k:9 + 3 * k]).max() < 1e-6, "jacobian", effs[k])
    c.nontrivial = calls >= 2


def accel(o, T, q, dq, com_ref, R_ref, mom, dmom, P, V, A, reg, J=None):
    """desired task accelerations"""
    J = T.jac(q) if J is None else J
    ne, nv = len(T.ids), T.model.nv
    vel = J.dot(dq)
    des = np.zeros(J.shape[0])
    des[:6] = dmom + o.p_mom_tracking * (mom - vel[:6])
    des[:3] += o.p_com_tracking * (com_ref - T.com(q))
    R = T.place(q, "base_link").rotation
    des[3:6] += o.p_orient_tracking * pin.log3(R.T.dot(R_ref)) - o.d_orient_tracking * dq[3:6]
    x = T.pos(q)
    for i in range(ne):
        k = slice(6 + 3 * i, 9 + 3 * i)
        des[k] = o.p_endeff_tracking * (P[i] - x[i]) + o.d_endeff_tracking * (V[i] - vel[k]) + A[i]
    if reg is not None:
        des[6 + 3 * ne:] = o.p_joint_regularization * (reg - q[7:]) - o.d_joint_regularization * dq[6:]
    return J, des


def set_weights2(s, o):
    set_weights(s, o)
    o.w_endeff_tracking = s.logreal(1, 1e4)
    o.w_endeff_contact = s.logreal(1, 1e4)
    o.p_endeff_tracking = s.logreal(10, 1e4)
    o.d_endeff_tracking = s.logreal(1, 200)
    o.p_orient_tracking = s.uniform(0, 20)
    o.d_orient_tracking = s.uniform(0, 5)
    o.p_mom_tracking = s.uvec(6, 0, 10)
    o.p_joint_regularization = s.uniform(0, 3)
    o.d_joint_regularization = s.uniform(0, 3)


@prop()
def second_order(s, c):
    """Every acceleration minimises the weighted errors of the task accelerations, velocity-dependent terms included."""
    kind = s.pick([8, 12, 6])
    rw = robot(s, kind)
    model = rw.model
    effs = effs_of(kind)
    ne, nv = len(effs), model.nv
    ik = SecondOrderInverseKinematics(model, effs)
    T = Tasks(model, effs)
    set_weights2(s, ik)
    calls = s.integer(1, 3)
    c.note("robot", kind, "calls", calls)
    for i in range(calls):
        q = posture(s, model)
        dq = s.uvec(nv, -2, 2) if s.chance(.8) else np.zeros(nv)
        if s.chance(.3):
            set_weights2(s, ik)
        com_ref = T.com(q) + s.vec(3, -.2, .2)
        R_ref = pin.exp3(s.uvec(3, -.5, .5))
        mom, dmom = s.vec(6, -2, 2), s.vec(6, -5, 5)
        P, V, A = T.pos(q) + s.umat(ne, 3, -.05, .05), s.mat(ne, 3, -1, 1), s.mat(ne, 3, -5, 5)
        con = np.array([float(s.boolean()) for _ in range(ne)])
        reg = s.uvec(nv - 6, -2, 2) if s.boolean() else None
        a = ik.step(q, dq, com_ref, pin.Quaternion(R_ref), mom, dmom, P, V, A, con, reg)
        c.check(a is not None and a.shape == (nv,) and np.all(np.isfinite(a)), "solution", str(a))
        J, des = accel(ik, T, q, dq, com_ref, R_ref, mom, dmom, P, V, A, reg)
        w = weights(ik, ne, nv, con == 1)
        dr = T.drift(q, dq)
        extra = 1e-6 * np.abs(J.T * w).dot(1 + np.abs(dr)).max()
        optimal(c, J, w, des - dr, a, None, None, "call %d" % i, extra)
        c.nontrivial = c.nontrivial or bool(np.abs(dr).max() > .1)


def integrate2(ik, T, dt, q, dq, com, lm, am, P, V, con, jr, br):
    """second order motion, re-integrated"""
    N = com.shape[0]
    t_ = np.arange(N) * dt
    S = [CubicSpline(t_, x) for x in (com, lm, am, P, V, jr, br)]
    n = max(1, int(round(dt / 0.001)))
    h = dt / n
    Q, D = [q.copy()], [dq.copy()]
    q, dq = q.copy(), dq.copy()
    for it in range(1, N):
        for k in range(n):
            t = (it - 1) * dt + k * h
            R = pin.rpy.rpyToMatrix(S[6](t))
            J, des = accel(ik, T, q, dq, S[0](t), R, np.concatenate([S[1](t), S[2](t)]),
                           np.concatenate([S[1](t, 1), S[2](t, 1)]), S[3](t), S[4](t), S[4](t, 1), S[5](t))
            w = weights(ik, len(T.ids), T.model.nv, con[it] == 1)
            H = (J.T * w).dot(J) + 1e-6 * np.eye(T.model.nv)
            a = np.linalg.solve(H, (J.T * w).dot(des - T.drift(q, dq)))
            dq = dq + h * a
            q = pin.integrate(T.model, q, dq * h)
        Q.append(q.copy())
        D.append(dq.copy())
    return np.array(Q), np.array(D)


@prop(limit=120)
def second_order_motion(s, c):
    """The integrated motion follows the accelerations over the duration of the plan, and what is reported belongs to its postures."""
    kind = s.pick([8, 12, 6])
    rw = robot(s, kind)
    model = rw.model
    effs = effs_of(kind)
    ne, nv = len(effs), model.nv
    ik = SecondOrderInverseKinematics(model, effs)
    T = Tasks(model, effs)
    set_weights2(s, ik)
    ik.w_joint_regularization = s.logreal(.1, 10)
    N = s.integer(2, 4)
    dt = s.pick([.002, .003, .005, .006, .007, .0029 * 10, .0145, .0005, .01])
    q0 = posture(s, model)
    dq0 = s.uvec(nv, -.3, .3) if s.boolean() else np.zeros(nv)

    def ref(x0, v):
        k = [x0]
        for _ in range(N - 1):
            k.append(k[-1] + dt * np.asarray(v()))
        return np.array(k)
    com = ref(T.com(q0), lambda: s.uvec(3, -.5, .5))
    lm, am = ref(np.zeros(3), lambda: s.uvec(3, -5, 5)), ref(np.zeros(3), lambda: s.uvec(3, -2, 2))
    P = ref(T.pos(q0), lambda: s.umat(ne, 3, -.5, .5))
    V = ref(np.zeros((ne, 3)), lambda: s.umat(ne, 3, -2, 2))
    jr = ref(q0[7:].copy(), lambda: s.uvec(nv - 6, -1, 1))
    br = ref(np.zeros(3), lambda: s.uvec(3, -.5, .5))
    con = np.array([[float(s.boolean()) for _ in range(ne)] for _ in range(N)])
    c.note("robot", kind, "N", N, "dt", dt)
    with Quiet():
        out = ik.solve(dt, q0, dq0, com, lm, am, P, V, con, jr, br)
    q, dq, com_k, lm_k, am_k, P_k, V_k = [np.asarray(x) for x in out]
    Q, D = integrate2(ik, T, dt, q0, dq0, com, lm, am, P, V, con, jr, br)
    c.label("dt not a multiple of the inner step", abs(dt * 1000 - round(dt * 1000)) > 1e-9)
    c.check(np.array_equal(q[0], q0) and np.array_equal(dq[0], dq0), "start", "the motion does not start at the given state")
    sc = 1 + np.abs(D).max()
    c.check(close(q, Q, 2e-4 * sc), "positions", "largest difference %g of re-integrated positions" % np.abs(q - Q).max())
    c.check(close(dq, D, 2e-3), "velocities", "largest difference %g of re-integrated velocities (%g)" % (np.abs(dq - D).max(), np.abs(D).max()))
    for i in range(N):
        h = T.jac(q[i]).dot(dq[i])
        c.check(close(com_k[i], T.com(q[i]), 1e-9), "com", "step %d" % i)
        c.check(close(np.concatenate([lm_k[i], am_k[i]]), h[:6], 1e-8), "momentum", "step %d: %s %s, of the posture %s" % (i, lm_k[i], am_k[i], h[:6]))
        c.check(close(P_k[i], T.pos(q[i]), 1e-9), "end-effector positions", "step %d" % i)
        c.check(close(V_k[i].reshape(-1), h[6:6 + 3 * ne], 1e-8), "end-effector velocities", "step %d" % i)
    c.nontrivial = N >= 3


def scenario(s, kind, snd):
    """a robot, settings and a plan of momentum and contacts around a posture"""
    rw = robot(s, kind)
    ROBOT[0] = rw
    model = rw.model
    T = Tasks(model, effs_of(kind))
    ne, nv = len(T.ids), model.nv
    N = s.integer(4, 12) if not snd else s.integer(3, 5)
    dt = s.pick([.01, .02, .05, .1]) if not snd else s.pick([.004, .005, .01])
    q0 = posture(s, model, .1)
    st = PlannerSetting()
    st.initialize(os.path.join(CFG, CFGS[kind]))
    st.set(PlannerIntParam_NumTimesteps, N)
    st.set(PlannerIntParam_NumDofs, nv - 6)
    st.set(PlannerDoubleParam_TimeStep, dt)
    mass = sum(i.mass for i in model.inertias[1:])
    st.set(PlannerDoubleParam_RobotMass, mass)
    st.set(PlannerDoubleParam_RobotWeight, mass * 9.81)
    st.set(PlannerVectorParam_KinematicDefaultJointPositions, q0[7:])
    ini = DynamicsState()
    ini.com = T.com(q0)
    for e, p in enumerate(T.pos(q0)):
        ini.setEffPosition(e, p)
        ini.setEffActivation(e, True)
    # steps in which each foot is in the air: all feet in flight (leaving and landing
    # together or not), or some of them, or all but one
    air = [set() for _ in range(ne)]
    fl = None
    keep = s.integer(0, ne - 1)
    if s.chance(.5):
        a = s.integer(2, max(2, N - 2))
        b = min(N - 1, a + s.integer(1, 3))
        fl = (a, b)
        early = s.chance(.4)
        for e in range(ne):
            air[e] |= set(range(a, b + 1))
            if early and e != keep:
                air[e] |= set(range(a - s.integer(0, 1), min(N, b + 1 + s.integer(0, 2))))
    else:
        alone = s.chance(.4)
        for e in range(ne):
            if e != keep and (alone or s.chance(.4)):
                a = s.integer(1, N - 1)
                air[e] |= set(range(a, min(N, a + s.integer(1, 4))))
                if alone:
                    air[e] |= set(range(1, 1 + s.integer(1, 3)))
    pos = T.pos(q0)
    seq = DynamicsSequence()
    seq.resize(N)
    com, lm, am = T.com(q0), np.zeros(3), np.zeros(3)
    for t in range(N):
        d = seq.dynamics_states[t]
        lm = lm + s.uvec(3, -.3, .3)
        am = am + s.uvec(3, -.05, .05)
        com = com + dt * lm / mass
        d.com, d.lmom, d.amom = com, lm, am
        d.dt = dt
        for e in range(ne):
            if t and (t - 1 in air[e]) and t not in air[e]:
                pos[e] = pos[e] + np.append(s.uvec(2, -.05, .05), 0)
            d.setEffPosition(e, pos[e])
            d.setEffActivation(e, t not in air[e])
    return model, T, st, ini, seq, N, dt, q0, fl, mass, com


def knots_ref(via, n, x0, x1, N, dt, t):
    if n == 0:
        return None
    K = [(0., x0)] + [(v[0] / dt, v[1:]) for v in via[:n]] + ([(float(N), x1)] if via[n - 1][0] / dt != N else [])
    k = 0
    while k + 2 < len(K) and K[k + 1][0] < t:
        k += 1
    (a, ya), (b, yb) = K[k], K[k + 1]
    return np.array([minjerk(a, b, y, z, .5 * (y + z), t)[0] for y, z in zip(ya, yb)])


def run_motion(s, c, snd):
    kind = s.pick([8, 12, 6])
    model, T, st, ini, seq, N, dt, q0, fl, mass, _ = scenario(s, kind, snd)
    effs = effs_of(kind)
    ne, nv = len(effs), model.nv
    K = MomentumKinematicsOptimizer()
    with Quiet():
        K.initialize(st, RobotWrapper=WRAP[kind])
    K.use_second_order_inv_kin = snd
    if snd:
        set_weights2(s, K.snd_order_inv_kin)
        K.snd_order_inv_kin.w_joint_regularization = s.logreal(.1, 10)
    set_weights(s, K.inv_kin)
    K.inv_kin.p_com_tracking = s.uniform(.1, 2.)
    K.inv_kin.p_endeff_tracking = s.uniform(.1, 5)
    K.reg_orientation = s.pick([0., .01, .5])
    K.reg_joint_position = s.uniform(0, 3)
    K.endeff_traj_generator.z_offset = s.uniform(0, .05)
    if N >= 6 and s.chance(.5):
        K.n_via_joint, K.via_joint = 1, [np.concatenate([[s.integer(2, N - 2) * dt], q0[7:] + s.uvec(nv - 6, -.2, .2)])]
        c.label("joint via points")
    if N >= 6 and s.chance(.5):
        K.n_via_base, K.via_base = 1, [np.concatenate([[s.integer(2, N - 2) * dt], s.uvec(3, -.2, .2)])]
        c.label("base via points")
    given = s.boolean()
    if given:
        K.q_init, K.dq_init = q0.copy(), s.uvec(nv, -.2, .2)
    c.label("initial posture given", given)
    c.label("flight", fl is not None)
    on = [[e for e in range(ne) if seq.dynamics_states[t].effActivation(e)] for t in range(N)]
    c.label("one foot on the ground", any(len(x) == 1 for x in on))
    c.note("robot", kind, "N", N, "dt", dt, "flight", fl)
    runs = 1 + (not snd and s.chance(.3))
    for run in range(runs):
        with Quiet():
            K.optimize(ini, None, seq)
    q, dq = K.q_kin, K.dq_kin
    c.check(np.array_equal(q[0], K.q_init) and np.array_equal(dq[0], K.dq_init), "start", "the motion does not start at the initial posture")
    if given:
        c.check(np.array_equal(K.q_init, q0), "start", "given initial posture changed")
    else:
        c.check(np.all(K.dq_init == 0), "start", "initial velocity not zero")
    # stored results belong to the postures
    for i in range(N):
        ks = K.kinematics_sequence.kinematics_states[i]
        h = T.jac(q[i]).dot(dq[i])
        x = T.pos(q[i])
        hips = ["%s_HFE" % l for l in LEGS[kind][0]]
        hp = np.array([T.place(q[i], n).translation for n in hips])
        hv = np.array([T.vel(q[i], dq[i], n) for n in hips])
        for what, got, want in (("com", ks.com, T.com(q[i])), ("lmom", ks.lmom, h[:3]), ("amom", ks.amom, h[3:6]),
                                ("com_kin", K.com_kin[i], T.com(q[i])), ("lmom_kin", K.lmom_kin[i], h[:3]), ("amom_kin", K.amom_kin[i], h[3:6]),
                                ("posture", ks.robot_posture.generalized_joint_positions, q[i]),
                                ("base position", ks.robot_posture.base_position, q[i][:3]), ("base orientation", ks.robot_posture.base_orientation, q[i][3:7]),
                                ("joints", ks.robot_posture.joint_positions, q[i][7:]),
                                ("velocity", ks.robot_velocity.generalized_joint_velocities, dq[i]),
                                ("foot positions", K.motion_eff["trajectory"][i], x.reshape(-1)),
                                ("foot velocities", K.motion_eff["velocity"][i], h[6:6 + 3 * ne]),
                                ("foot positions from hips", K.motion_eff["trajectory_wrt_base"][i], (x - hp).reshape(-1)),
                                ("foot velocities from hips", K.motion_eff["velocity_wrt_base"][i], h[6:6 + 3 * ne] - hv.reshape(-1))):
            c.check(close(np.asarray(got), want, 1e-6), "stored " + what, "step %d: %s, of the posture %s" % (i, got, want))
    P, V, C = K.endeff_pos_ref, K.endeff_vel_ref, K.endeff_contact
    for i in range(N):
        for e in range(ne):
            c.check(bool(C[i][e]) == seq.dynamics_states[i].effActivation(e), "contacts", "step %d effector %d" % (i, e))
            if C[i][e]:
                c.check(np.abs(P[i][e] - seq.dynamics_states[i].effPosition(e)).max() < 1e-6, "contact position", "step %d effector %d" % (i, e))
    dyn = seq.dynamics_states
    jr = np.array([K.q_init[7:] if K.n_via_joint == 0 else knots_ref(K.via_joint, 1, K.q_init[7:], K.q_init[7:], N, dt, i) for i in range(N)])
    br = np.array([np.zeros(3) if K.n_via_base == 0 else knots_ref(K.via_base, 1, np.zeros(3), np.zeros(3), N, dt, i) for i in range(N)])
    if snd:
        com, lm, am = [np.array([getattr(d, n) for d in dyn]) for n in ("com", "lmom", "amom")]
        Q, D = integrate2(K.snd_order_inv_kin, T, dt, K.q_init, K.dq_init, com, lm, am, P, V, C, jr, br)
        sc = 1 + np.abs(D).max()
        c.check(close(q, Q, 5e-4 * sc) and close(dq, D, 5e-3), "motion", "differs from the re-integrated motion by %g, %g" % (np.abs(q - Q).max(), np.abs(dq - D).max()))
        c.nontrivial = True
        return
    w = K.inv_kin
    held = None
    for i in range(N - 1):
        v = dq[i + 1]
        c.check(close(q[i + 1], pin.integrate(model, q[i], v * dt), 1e-9), "integration", "step %d" % i)
        J = T.jac(q[i])
        flight = not any(dyn[i].effActivation(e) for e in range(ne))
        reg = K.reg_joint_position * (jr[i] - q[i][7:])
        if flight:
            m = J[:6].dot(v)
            if held is None:
                # momentum of the last step in contact, measured with the map of that step or the one before
                a, b = T.jac(q[i - 1])[:6].dot(dq[i - 1]), T.jac(q[max(i - 2, 0)])[:6].dot(dq[i - 1])
                slack = 1e-6 + 2 * np.abs(a - b)
                z = dyn[i - 1].lmom[2]
                k = [0, 1, 3, 4, 5]
                c.check(np.all(np.abs(m - a)[k] <= slack[k] + 1e-5 * (1 + np.abs(a[k]))), "momentum kept in flight",
                        "first step %d: %s, before %s" % (i, m, a))
                held = m
            z -= mass * 9.81 * dt
            c.check(np.abs(m - held)[[0, 1, 3, 4, 5]].max() <= 1e-5 * (1 + np.abs(held).max()), "momentum kept in flight", "step %d: %s, before %s" % (i, m, held))
            c.check(abs(m[2] - z) <= 1e-5 * (1 + abs(z)), "vertical momentum in flight", "step %d: %g, expected %g" % (i, m[2], z))
            lm, am = m[:3], m[3:]
        else:
            held = None
            lm = dyn[i].lmom
            Rq = pin.Quaternion(q[i][3:7]).toRotationMatrix()
            am = dyn[i].amom + K.reg_orientation * pin.log3(pin.rpy.rpyToMatrix(br[i]).dot(Rq.T))
        des = np.concatenate([lm + w.p_com_tracking * (dyn[i].com - T.com(q[i])), am,
                              (V[i] + w.p_endeff_tracking * (P[i] - T.pos(q[i]))).reshape(-1), reg])
        optimal(c, J, weights(w, ne, nv, C[i] == 1), des, v, J[:6] if flight else None, np.concatenate([lm, am]), "step %d" % i)
    c.nontrivial = True


@prop()
def initial_posture(s, c):
    """The initial posture stands on the given contacts with its centre of mass where it should be, flat, near the default joints."""
    kind = s.pick([8, 12, 6])
    rw = robot(s, kind)
    ROBOT[0] = rw
    model = rw.model
    effs = effs_of(kind)
    T = Tasks(model, effs)
    ne, nv = len(effs), model.nv
    q0 = posture(s, model, 0.)
    q0[:2] *= .3
    sd = s.pick([0., .05, .15])
    dflt = q0[7:] + s.uvec(nv - 6, -1, 1) * sd
    st = PlannerSetting()
    st.initialize(os.path.join(CFG, CFGS[kind]))
    st.set(PlannerVectorParam_KinematicDefaultJointPositions, dflt)
    st.set(PlannerIntParam_NumTimesteps, 2)
    st.set(PlannerIntParam_NumDofs, nv - 6)
    K = MomentumKinematicsOptimizer()
    with Quiet():
        K.initialize(st, RobotWrapper=WRAP[kind])
    ini = DynamicsState()
    ini.com = T.com(q0)
    for e, p in enumerate(T.pos(q0)):
        ini.setEffPosition(e, p)
        ini.setEffActivation(e, True)
    with Quiet():
        K.optimize_initial_position(ini)
    q = K.q_init
    c.check(np.all(K.dq_init == 0) and len(K.dq_init) == nv, "start", "not at rest")
    e = np.abs(T.pos(q) - T.pos(q0)).max()
    f = np.abs(T.com(q) - T.com(q0)).max()
    r = np.abs(pin.log3(pin.Quaternion(q[3:7]).toRotationMatrix())).max()
    j = np.abs(q[7:] - q0[7:]).max()
    c.note("robot", kind, "distance of default joints", sd, "errors", e, f, r, j)
    c.check(e < 5e-3, "feet", "%g away from the contacts" % e)
    c.check(f < 5e-3, "com", "%g away" % f)
    c.check(r < .12, "base", "rotated by %g" % r)
    c.nontrivial = sd > 0


@prop(limit=120)
def motion(s, c):
    """The first order kinematic motion follows the plan and is stored with its own quantities."""
    run_motion(s, c, False)


@prop(limit=120)
def motion_second(s, c):
    """The same for the second order motion."""
    run_motion(s, c, True)


if __name__ == "__main__":
    sys.exit(main())
