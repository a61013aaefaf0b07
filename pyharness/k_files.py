"""What the planner hands to the robot: interpolated desired states and the files written from them."""
import os
import shutil
import sys
import tempfile
import numpy as np
from mopt_env import *
from pypbt import prop, main, close
from pymomentum import *
from momentumopt.motion_execution import desired_state, interpolate
from momentumopt.motion_planner import create_time_vector
from momentumopt.kinoptpy.create_data_file import create_file, create_qp_files, create_lqr_files


class Gains(object):
    def __init__(self, g):
        self.g = g

    def forceGain(self, i):
        return self.g[i]


class Plan(object):
    """plans with random contents, kept a second time in plain arrays"""
    def __init__(self, s, N=None, times=None, nj=None):
        self.N = N = s.integer(1, 9) if N is None else N
        self.nj = nj = s.pick([8, 12, 6]) if nj is None else nj
        self.ne = ne = 4
        f = self.f = {}
        f["q"] = s.umat(N, nj + 7, -3, 3)
        f["v"] = s.umat(N, nj + 6, -5, 5)
        f["a"] = s.umat(N, nj + 6, -50, 50)
        f["com"], f["lmom"], f["amom"] = s.umat(N, 3, -2, 2), s.umat(N, 3, -9, 9), s.umat(N, 3, -1, 1)
        f["pos"], f["frc"] = s.umat(N, 12, -1, 1), s.umat(N, 12, -1, 1)
        f["dcom"] = s.umat(N, 3, -2, 2)
        air = s.integer(0, 3)
        for e in range(ne):
            # vertical forces are positive or exactly zero
            for i in range(N):
                f["frc"][i, 3 * e + 2] = abs(f["frc"][i, 3 * e + 2])
                if s.chance(.2 * air):
                    f["frc"][i, 3 * e:3 * e + 3] = 0
        self.eff = {k: s.umat(N, 12, -1, 1) for k in ("trajectory", "velocity", "trajectory_wrt_base", "velocity_wrt_base")}
        self.gain = Gains([s.umat(12, 9, -9, 9) for _ in range(N)])
        self.weight = s.uniform(5, 800)
        kin, dyn = KinematicsSequence(), DynamicsSequence()
        kin.resize(N, nj)
        dyn.resize(N)
        dt = s.pick([.01, .05, .1, .125]) if s.boolean() else None
        self.dts = []
        for i in range(N):
            k = kin.kinematics_states[i]
            k.com, k.lmom, k.amom = f["com"][i], f["lmom"][i], f["amom"][i]
            k.robot_posture.base_position = f["q"][i][:3]
            k.robot_posture.base_orientation = f["q"][i][3:7]
            k.robot_posture.joint_positions = f["q"][i][7:]
            k.robot_velocity.generalized_joint_velocities = f["v"][i]
            k.robot_acceleration.generalized_joint_accelerations = f["a"][i]
            d = dyn.dynamics_states[i]
            h = dt or s.uniform(.01, .2)
            self.dts.append(h)
            d.dt = h
            d.com = f["dcom"][i]
            for e in range(ne):
                d.setEffForce(e, f["frc"][i][3 * e:3 * e + 3])
                d.setEffPosition(e, f["pos"][i][3 * e:3 * e + 3])
                d.setEffActivation(e, True)
        # a quaternion comes back as it was given
        for i in range(N):
            f["q"][i][3:7] = kin.kinematics_states[i].robot_posture.generalized_joint_positions[3:7]
        self.kin, self.dyn = kin, dyn
        self.time = np.concatenate([[0.], np.cumsum(self.dts)[:-1]])

    def table(self):
        f, w = self.f, self.weight
        n = dyn_n = self.dyn.dynamics_states[0].effNum()
        frc = np.zeros((self.N, 3 * n))
        frc[:, :12] = f["frc"][:, :3 * n]
        F = f["frc"].reshape(self.N, 4, 3) * w
        r = f["pos"].reshape(self.N, 4, 3) - f["dcom"][:, None, :]
        both = {"COM": f["com"], "LMOM": f["lmom"], "AMOM": f["amom"], "FORCES": frc, "DYN_FEEDBACK": np.array(self.gain.g)}
        des = dict(both, POSITION=f["q"][:, 7:], VELOCITY=f["v"][:, 6:], GENERALIZED_POSITION=f["q"], GENERALIZED_VELOCITY=f["v"], GENERALIZED_ACCELERATION=f["a"])
        inter = dict(both, POSITION=self.eff["trajectory_wrt_base"], VELOCITY=self.eff["velocity_wrt_base"], POSITION_ABSOLUTE=self.eff["trajectory"],
                     VELOCITY_ABSOLUTE=self.eff["velocity"], CENTROIDAL_FORCES=F.sum(axis=1), CENTROIDAL_MOMENTS=np.cross(r, F).sum(axis=1),
                     QUATERNION=f["q"][:, 3:7], BASE_ANGULAR_VELOCITY=f["v"][:, 3:6])
        return des, inter


def at(T, X, t):
    """piecewise linear, constant outside"""
    X = np.asarray(X)
    Y = X.reshape(len(T), -1)
    return np.array([np.interp(t, T, Y[:, k]) for k in range(Y.shape[1])]).reshape(X.shape[1:])


@prop()
def interpolated(s, c):
    """Between time steps quantities change linearly, before and after the plan they are held."""
    p = Plan(s)
    c.check(close(create_time_vector(p.dyn), p.time, 1e-12), "time vector", "%s, durations %s" % (create_time_vector(p.dyn), p.dts))
    T = p.time + (s.uniform(-1, 1) if s.chance(.3) else 0.)
    des, inter = p.table()
    which = s.boolean()
    tab = des if which else inter
    k = s.pick(sorted(tab))
    if which:
        fn = desired_state(k, T, optimized_sequence=p.kin, dynamics_feedback=p.gain, optimized_dyn_plan=p.dyn)
    else:
        fn = interpolate(k, T, optimized_motion_eff=p.eff, optimized_sequence=p.kin, dynamics_feedback=p.gain, optimized_dyn_plan=p.dyn, robot_weight=p.weight)
    c.note("steps", p.N, "quantity", k)
    ts = [T[s.integer(0, p.N - 1)], T[0] - s.uniform(0, 1), T[-1] + s.uniform(0, 1), T[0], T[-1]] + [s.uniform(T[0] - .1, T[-1] + .1) for _ in range(s.integer(1, 6))]
    if p.N > 1:
        i = s.integer(0, p.N - 2)
        ts += [T[i] + f * (T[i + 1] - T[i]) for f in (.001, .5, .999, s.uniform(0, 1))]
    for t in ts:
        got, want = np.asarray(fn(t)), at(T, tab[k], t)
        sc = 1 + np.abs(tab[k]).max()
        c.check(got.shape == want.shape and np.abs(got - want).max() <= 1e-9 * sc, k, "at %.9g of %s: %s, expected %s" % (t, T, got, want))
    c.nontrivial = p.N >= 2
    c.label("desired_state" if which else "interpolate")
    c.label(k)


def in_scratch(f):
    d = tempfile.mkdtemp(prefix="kfiles")
    o = os.getcwd()
    os.chdir(d)
    try:
        with Quiet():
            f()
        r = {}
        for n in sorted(os.listdir(d)):
            r[n] = np.loadtxt(os.path.join(d, n), ndmin=2)
        return r
    finally:
        os.chdir(o)
        shutil.rmtree(d)


def rows(T, X, n, scale=1.):
    X = np.asarray(X)
    t = np.arange(n) / 1e3
    return np.column_stack([np.arange(n)] + [scale * np.interp(t, T, X[:, k]) for k in range(X.shape[1])])


def compare(c, files, want, rel):
    c.check(sorted(files) == sorted(want), "files", "%s instead of %s" % (sorted(files), sorted(want)))
    for n in sorted(want):
        a, b = files[n], want[n]
        c.check(a.shape == b.shape, n, "shape %s instead of %s" % (a.shape, b.shape))
        e = np.abs(a - b)
        ok = e <= rel * (1 + np.abs(b).max())
        if not ok.all():
            i, j = np.argwhere(~ok)[0]
            c.check(False, n, "row %d column %d: %.12g, expected %.12g" % (i, j, a[i, j], b[i, j]))


@prop(limit=120)
def joint_files(s, c):
    """The files for joint control contain the plan at 1 kHz."""
    p = Plan(s, N=s.integer(2, 5))
    n = int(round(p.time[-1] * 1000))
    c.note("steps", p.N, "rows", n)
    files = in_scratch(lambda: create_file(p.time, p.kin, p.dyn, p.gain, p.weight))
    des, _ = p.table()
    T = p.time
    want = {"quadruped_%s.dat" % k: rows(T, des[v], n, w) for k, v, w in (
        ("positions", "POSITION", 1.), ("velocities", "VELOCITY", 1.), ("forces", "FORCES", p.weight), ("generalized_positions", "GENERALIZED_POSITION", 1.),
        ("generalized_velocities", "GENERALIZED_VELOCITY", 1.), ("generalized_acceleration", "GENERALIZED_ACCELERATION", 1.), ("com_old", "COM", 1.),
        ("lmom_old", "LMOM", 1.), ("amom_old", "AMOM", 1.))}
    compare(c, files, want, 1e-7)
    c.nontrivial = p.N >= 3


def legs(M, order):
    """leg blocks of three columns behind the index column in another order"""
    return np.column_stack([M[:, 0]] + [M[:, 1 + 3 * k:4 + 3 * k] for k in order])


def horizon(s, p):
    """stretch the plan to about one second"""
    end = s.pick([.3, .99, 1., 1.0004, 1.3]) if s.chance(.7) else s.uniform(.2, 1.4)
    p.time = p.time * (end / p.time[-1])
    p.time[-1] = end
    return 1000 * (int(end) + (end - int(end) > .001))


@prop(limit=120)
def impedance_files(s, c):
    """The files for impedance control contain the plan at 1 kHz, legs in the order of the robot, up to a whole number of seconds."""
    p = Plan(s, N=s.integer(2, 6))
    n = horizon(s, p)
    c.note("steps", p.N, "rows", n, "end", p.time[-1])
    files = in_scratch(lambda: create_qp_files(p.time, p.eff, p.kin, p.dyn, p.gain, p.weight))
    des, it = p.table()
    T = p.time
    swap = [1, 0, 3, 2]
    frc = legs(rows(T, it["FORCES"], n), swap)
    R = {k: rows(T, it[k], n) for k in it if k != "DYN_FEEDBACK"}

    def wide(M):
        out = np.zeros((n, 24))
        for e in range(4):
            out[:, 6 * e:6 * e + 3] = M[:, 1 + 3 * e:4 + 3 * e]
        return out
    want = {
        "quadruped_positions.dat": rows(T, des["POSITION"], n), "quadruped_velocities.dat": rows(T, des["VELOCITY"], n),
        "quadruped_positions_eff.dat": wide(legs(R["POSITION"], swap)), "quadruped_velocities_eff.dat": wide(legs(R["VELOCITY"], swap)),
        "quadruped_com.dat": R["COM"], "quadruped_com_vel.dat": rows(T, it["LMOM"], n, 9.81 / p.weight),
        "quadruped_centroidal_forces.dat": R["CENTROIDAL_FORCES"], "quadruped_centroidal_moments.dat": R["CENTROIDAL_MOMENTS"],
        "quadruped_quaternion.dat": R["QUATERNION"], "quadruped_base_ang_velocities.dat": R["BASE_ANGULAR_VELOCITY"],
        "quadruped_positions_abs.dat": legs(R["POSITION_ABSOLUTE"], swap), "quadruped_velocities_abs.dat": legs(R["VELOCITY_ABSOLUTE"], swap),
        "quadruped_contact_activation.dat": np.column_stack([np.arange(n)] + [(frc[:, 3 + 3 * e] > 0) * 1. for e in range(4)]),
        "quadruped_gain_ratio.dat": np.column_stack([np.arange(n), np.zeros((n, 8))])}
    # rows where a force is just about to vanish may be counted either way
    a, b = files.get("quadruped_contact_activation.dat"), want["quadruped_contact_activation.dat"]
    if a is not None and a.shape == b.shape:
        for e in range(4):
            near = np.abs(frc[:, 3 + 3 * e]) < 1e-9
            b[near, e + 1] = np.where(np.isin(a[near, e + 1], (0, 1)), a[near, e + 1], b[near, e + 1])
    compare(c, files, want, 1e-9)
    c.nontrivial = p.N >= 3
    c.label("plan ends on a full second", n == 1000 * int(round(p.time[-1])) and abs(p.time[-1] - round(p.time[-1])) <= 1e-3)


@prop(limit=120)
def horizon_files(s, c):
    """The file for the feedback controller contains the absolute foot positions, legs in the order of its robot."""
    p = Plan(s, N=s.integer(2, 6))
    n = horizon(s, p)
    c.note("steps", p.N, "rows", n, "end", p.time[-1])
    files = in_scratch(lambda: create_lqr_files(p.time, p.eff, p.kin, p.dyn, p.gain, p.weight))
    _, it = p.table()
    compare(c, files, {"quadruped_positions_abs_with_horizon_part.dat": legs(rows(p.time, it["POSITION_ABSOLUTE"], n), [3, 2, 1, 0])}, 1e-9)
    c.nontrivial = p.N >= 3


if __name__ == "__main__":
    sys.exit(main())
