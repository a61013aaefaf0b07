"""Access to momentumopt's Python side: search path, stand-ins for packages
which are not installed (robot descriptions, simulator, plotting, ROS) and
generated robots."""
import importlib.abc, importlib.machinery, os, sys, types
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
MOPT = os.path.join(REPO, "momentumopt", "python")
if MOPT not in sys.path:
    sys.path.insert(0, MOPT)
CFG = os.path.join(REPO, "momentumopt", "config")

ROBOT = [None]           # what the robot description packages hand out


class _Config(object):
    @staticmethod
    def buildRobotWrapper():
        return ROBOT[0]


class _Any(object):
    """Stand-in: any attribute, any call."""
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __iter__(self):
        return iter(())


class _AnyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


def _stub(name, **attrs):
    m = _AnyModule(name)
    m.__path__ = []
    for k, v in attrs.items():
        setattr(m, k, v)
    sys.modules[name] = m


def stubs():
    for n in ("pybullet", "pybullet_data", "rospkg", "matplotlib", "matplotlib.pyplot", "matplotlib.pylab", "mpl_toolkits",
              "mpl_toolkits.mplot3d", "py_blmc_robots"):
        _stub(n)
    _stub("robot_properties_solo")
    _stub("robot_properties_solo.config", Solo8Config=_Config, Solo12Config=_Config)
    _stub("robot_properties_bolt")
    _stub("robot_properties_bolt.config", BoltConfig=_Config)


stubs()
import pinocchio as pin
from pinocchio.robot_wrapper import RobotWrapper

LEGS = {8: (["FR", "FL", "HR", "HL"], ["HFE", "KFE"]), 12: (["FR", "FL", "HR", "HL"], ["HAA", "HFE", "KFE"]), 6: (["FL", "FR"], ["HAA", "HFE", "KFE"])}
ORDER = {8: ["FL", "FR", "HL", "HR"], 12: ["FL", "FR", "HL", "HR"], 6: ["FL", "FR"]}


def inertia(s, m):
    c = s.uvec(3, -0.03, 0.03)
    I = s.spd(3, 1e-3, 2e-2) * m
    # triangle inequality of principal moments: a body with equal-ish moments
    I = I + np.eye(3) * np.trace(I)
    return pin.Inertia(m, c, I)


def robot(s, kind):
    """A legged robot with the frame names momentumopt expects: floating base,
    legs with random offsets, masses and link lengths."""
    model = pin.Model()
    root = model.addJoint(0, pin.JointModelFreeFlyer(), pin.SE3.Identity(), "root_joint")
    model.addJointFrame(root)
    model.appendBodyToJoint(root, inertia(s, s.uniform(0.5, 3.)), pin.SE3.Identity())
    model.addBodyFrame("base_link", root, pin.SE3.Identity(), -1)
    effs, joints = LEGS[kind]
    up, lo = s.uniform(0.12, 0.25), s.uniform(0.12, 0.25)
    for leg in ORDER[kind]:
        x = 0.2 if leg[0] == "F" else -0.2
        y = 0.15 if leg[1] == "L" else -0.15
        if kind == 6:
            x = 0.
        par, off = root, pin.SE3(np.eye(3), np.array([x, y, 0.]) + s.uvec(3, -0.02, 0.02))
        for j in joints:
            jm = pin.JointModelRX() if j == "HAA" else pin.JointModelRY()
            par = model.addJoint(par, jm, off, "%s_%s" % (leg, j))
            model.addJointFrame(par)
            model.appendBodyToJoint(par, inertia(s, s.uniform(0.05, 0.4)), pin.SE3.Identity())
            if j == "HAA":
                off = pin.SE3(np.eye(3), np.array([0., 0.01 * s.integer(-2, 2), 0.]))
            elif j == "HFE":
                off = pin.SE3(np.eye(3), np.array([0., 0., -up]))
            else:
                off = pin.SE3(np.eye(3), np.array([0., 0., -lo]))
        model.addBodyFrame("%s_ANKLE" % leg, par, off, -1)
    return RobotWrapper(model)


def posture(s, model, scale=1.0):
    """base pose anywhere, legs bent, so that no leg is stretched"""
    q = pin.neutral(model)
    q[:3] = s.uvec(3, -1, 1)
    w = s.uvec(3, -0.4, 0.4) * scale
    q[3:7] = pin.Quaternion(pin.exp3(w)).coeffs()
    for j in range(2, model.njoints):
        n = model.names[j]
        i = model.joints[j].idx_q
        a = s.uniform(-0.15, 0.15)
        if n.endswith("HFE"):
            a += 0.7
        elif n.endswith("KFE"):
            a -= 1.3
        q[i] = a
    return q


def minjerk(t0, t1, y0, y1, via, t):
    """value and derivative of the curve at rest at both ends and through `via` half way"""
    u = (t - t0) / (t1 - t0)
    c = 64. * (via - 0.5 * (y0 + y1))
    v = u * (1 - u)
    y = y0 + (y1 - y0) * (10 * u ** 3 - 15 * u ** 4 + 6 * u ** 5) + c * v ** 3
    d = (y1 - y0) * 30 * u ** 2 * (1 - u) ** 2 + c * 3 * v ** 2 * (1 - 2 * u)
    return y, d / (t1 - t0)


def tol(t0, t1, scale):
    """accuracy of a fit in powers of t: the error grows with (t/duration)^6"""
    return (1e-7 + 4e-12 * (1 + max(abs(t0), abs(t1)) / (t1 - t0)) ** 6) * (1 + scale)


class Quiet(object):
    """momentumopt prints a lot"""
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o
