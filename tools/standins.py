"""Stand-ins for packages which the demonstrations do not need."""
import os, re, sys, types
sys.path.insert(0, os.path.join(os.getcwd(), "momentumopt", "python"))


class Any(object):
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Any()
    def __call__(self, *a, **k): return Any()
    def __iter__(self): return iter(())


class AnyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Any


for n in ("pybullet", "pybullet_data", "rospkg", "matplotlib", "matplotlib.pyplot", "matplotlib.pylab", "mpl_toolkits", "mpl_toolkits.mplot3d", "py_blmc_robots",
          "robot_properties_solo", "robot_properties_solo.config", "robot_properties_bolt", "robot_properties_bolt.config", "pymomentum", "pysolver", "pysolverlqr"):
    m = AnyModule(n)
    m.__path__ = []
    sys.modules[n] = m


class Sequence(object):
    """KinematicsSequence: states that keep whatever is put in"""
    def __init__(self): self.kinematics_states = []
    def resize(self, n, dofs): self.kinematics_states = [types.SimpleNamespace(robot_posture=types.SimpleNamespace(), robot_velocity=types.SimpleNamespace()) for _ in range(n)]


P = sys.modules["pymomentum"]
P.KinematicsSequence = Sequence
names = set()
for root, _, files in os.walk("momentumopt/python"):
    for f in files:
        if f.endswith(".py"):
            names |= set(re.findall(r"\bPlanner\w*Param_\w+", open(os.path.join(root, f)).read()))
for n in names:
    setattr(P, n, n)           # every parameter stands for its name
P.__all__ = sorted(names) + ["KinematicsSequence", "PlannerSetting", "DynamicsState", "TerrainDescription", "ContactPlanFromFile", "DynamicsOptimizer", "DynamicsFeedback", "DynamicsSequence", "KinematicsState", "ContactState"]


class Dyn(object):
    """a state of the dynamics plan"""
    def __init__(self, com, lmom, amom, eff, on): self.com, self.lmom, self.amom, self.pos, self.on = com, lmom, amom, eff, on
    def eff(self, i): return self.pos[i]
    effPosition = eff
    def effActivation(self, i): return self.on[i]
    def effNum(self): return len(self.on)
