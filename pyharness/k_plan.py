"""Python bindings and the planner that alternates dynamics and kinematics."""
import os
import re
import shutil
import sys
import tempfile
import time
import numpy as np
from mopt_env import *
from pypbt import prop, main, close
from pysolver import *
from pymomentum import *
from pysolverlqr import *
import pymomentum, pysolverlqr
from momentumopt.kinoptpy.momentum_kinematics_optimizer import MomentumKinematicsOptimizer
from momentumopt.kinoptpy.create_data_file import create_file, create_qp_files, create_lqr_files
from momentumopt.motion_planner import MotionPlanner, create_time_vector
from momentumopt import kino_dyn_planner
from momentumopt.robots.blmc_robot_wrapper import QuadrupedWrapper, Quadruped12Wrapper, BipedWrapper

WRAP = {8: QuadrupedWrapper, 12: Quadruped12Wrapper, 6: BipedWrapper}
EFF = ["rf", "lf", "rh", "lh"]

# entry of the configuration, name of the parameter (, size; -1: joints)
DBL = [
    ("min_rel_height", "MinRelHeight"), ("gravity", "Gravity"), ("robot_mass", "RobotMass"), ("floor_height", "FloorHeight"),
    ("friction_coeff", "FrictionCoefficient"), ("w_trq_arm", "WeightArmTorque"), ("w_trq_leg", "WeightLegTorque")]
DBL_TIME = [
    ("max_time_residual_tolerance", "MaxTimeResidualTolerance"), ("min_time_residual_improvement", "MinTimeResidualImprovement"),
    ("w_time", "WeightTimeRegularization"), ("w_time_penalty", "WeightTimePenalty")]
DBL_KIN = [
    ("slacks_penalty", None), ("integration_step", None), ("lambda_regularization", None), ("convergence_tolerance", "KinConvergenceTolerance")]
DBL_FIRST = [
    ("swing_traj_via_z", "SwingTrajViaZ"), ("w_lin_mom_tracking", "WeightLinMomentumTracking"), ("w_ang_mom_tracking", "WeightAngMomentumTracking"),
    ("w_endeff_contact", "WeightEndEffContact"), ("w_endeff_tracking", "WeightEndEffTracking"), ("p_endeff_tracking", "PGainEndEffTracking"),
    ("p_com_tracking", "PGainComTracking"), ("w_joint_regularization", "WeightJointReg"), ("reg_orientation", "PGainOrientationTracking"),
    ("reg_joint_position", "PGainPositionTracking")]
DBL_SECOND = [
    ("swing_traj_via_z_second", "SwingTrajViaZ_Second"), ("w_lin_mom_tracking_second", "WeightLinMomentumTracking_Second"),
    ("w_ang_mom_tracking_second", "WeightAngMomentumTracking_Second"), ("w_endeff_contact_second", "WeightEndEffContact_Second"),
    ("w_endeff_tracking_second", "WeightEndEffTracking_Second"), ("p_endeff_tracking_second", "PGainEndEffTracking_Second"),
    ("p_com_tracking_second", "PGainComTracking_Second"), ("w_joint_regularization_second", "WeightJointReg_Second"),
    ("d_endeff_tracking_second", "DGainEndEffTracking_Second"), ("p_orient_tracking_second", "PGainBaseOrientationTracking_Second"),
    ("d_orient_tracking_second", "DGainBaseOrientationTracking_Second"), ("p_joint_regularization_second", "PGainJointRegularization_Second"),
    ("d_joint_regularization_second", "DGainJointRegularization_Second")]
VEC = [
    ("external_force", "ExternalForce", 3), ("com_displacement", "CenterOfMassMotion", 3), ("torque_range", "TorqueRange", 2),
    ("max_eef_lengths", "MaxEndeffectorLengths", 4), ("w_frc_arm", "WeightArmForce", 3), ("w_frc_leg", "WeightLegForce", 3),
    ("w_com", "WeightCenterOfMass", 3), ("w_lmom", "WeightLinearMomentum", 3), ("w_amom", "WeightAngularMomentum", 3),
    ("w_dfrc_arm", "WeightArmForceRate", 3), ("w_dfrc_leg", "WeightLegForceRate", 3), ("w_lmomd", "WeightLinearMomentumRate", 3),
    ("w_amomd", "WeightAngularMomentumRate", 3), ("w_com_via", "WeightCenterOfMassViapoint", 3), ("w_lmom_final", "WeightFinalLinearMomentum", 3),
    ("w_amom_final", "WeightFinalAngularMomentum", 3), ("w_com_track", None, 3),
    ("w_lmom_track", "WeightDynamicTrackingLinearMomentum", 3), ("w_amom_track", "WeightDynamicTrackingAngularMomentum", 3)]
VEC_TIME = [("time_range", "TimeRange", 2)]
VEC_KIN = [
    ("min_joint_limits", "MinJointAngles", -1), ("max_joint_limits", "MaxJointAngles", -1),
    ("default_joint_positions", "KinematicDefaultJointPositions", -1), ("w_kin_com", "WeightKinematicTrackingCenterOfMass", 3),
    ("w_kin_lmom", "WeightKinematicTrackingLinearMomentum", 3), ("w_kin_amom", "WeightKinematicTrackingAngularMomentum", 3),
    ("w_kin_lmomd", "WeightKinematicTrackingLinearMomentumRate", 3), ("w_kin_amomd", "WeightKinematicTrackingAngularMomentumRate", 3),
    ("w_kin_eff_pos", "WeightKinematicTrackingEndeffectorPosition", 3), ("w_kin_base_ori", "WeightKinematicTrackingBaseOrientation", 3),
    ("w_kin_joint_vel", "WeightJointVelocity", -1), ("w_kin_joint_acc", "WeightJointAcceleration", -1),
    ("w_kin_eff_pos_nonact", None, 3), ("w_kin_default_joints", "WeightKinematicDefaultJointPositions", -1)]
VEC_SECOND = [("p_mom_tracking_second", "PGainMomentumTracking_Second", 6)]
INTS = [("n_act_eefs", "NumActiveEndeffectors")]
INTS_KIN = [("num_dofs", "NumDofs"), ("kd_iterations", "KinDynIterations"), ("num_subsamples", "NumSubsamples"),
            ("max_trajectory_iters", None), ("max_convergence_iters", "MaxKinConvergenceIterations")]

LQR_DBL = [("cost_change_tolerance", "CostChangeTolerance"), ("divergence_limit_check", "DivergenceLimitCheck"), ("bpass_min_regularization", "BackPassMinRegularization"),
           ("bpass_max_regularization", "BackPassMaxRegularization"), ("control_gradient_tolerance", "ControlGradientTolerance"),
           ("bpass_initial_regularization", "BackPassInitialRegularization"), ("min_expected_cost_improvement", "MinExpectedCostImprovement"),
           ("bpass_mult_regularization_incr", "BackPassMultRegularizationIncr"), ("bpass_initial_mult_regularization_incr", "BackPassInitialMultRegularizationIncr")]
LQR_INT = [("verbosity", "Verbosity"), ("decimal_digits", "PrecisionDigits"), ("lqr_max_iters", "LqrMaxIterations"), ("bpass_regularization_type", "BackPassRegulatizationType"),
           ("state_dimension", "StateDimension"), ("control_dimension", "ControlDimension")]


def num(v):
    t = repr(float(v))
    return t


def seq(v):
    return "[" + ", ".join(num(x) for x in v) + "]"


def yes(b):
    return "true" if b else "false"


def par(kind, name):
    return getattr(pymomentum, "Planner%sParam_%s" % (kind, name))


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="kplan")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def put(self, name, text):
        p = os.path.join(self.d, name)
        with open(p, "w") as f:
            f.write(text)
        return p


def section(name, entries):
    return "%s:\n%s" % (name, "".join("  %s: %s\n" % kv for kv in entries.items()))


# ------------------------------------------------------------- parameters ---
@prop()
def parameters(s, c):
    """Every parameter has, from Python, the value of its entry in the configuration; writing one changes that one only."""
    dofs = s.integer(1, 12)
    kin, time, second = s.chance(.8), s.boolean(), s.boolean()
    k, m = {}, {}

    def D(t):
        for e, p in t:
            v = s.uniform(.5, 90.) if p in ("RobotMass", "Gravity") else s.uniform(-20, 20)
            k[e] = num(v)
            if p:
                m["Double", p] = v

    def W(t):
        for e, p, n in t:
            v = s.uvec(dofs if n < 0 else n, -20, 20)
            k[e] = seq(v)
            if p:
                m["Vector", p] = v

    def I(t):
        for e, p in t:
            v = dofs if p == "NumDofs" else s.integer(0, 50)
            k[e] = str(v)
            if p:
                m["Int", p] = v

    def B(e, p, v):
        k[e] = yes(v)
        m["Bool", p] = v

    def V(cnt, e, ip, p, dim):
        n = s.integer(0, 3)
        vs = [s.uvec(dim, -5, 5) for _ in range(n)]
        k[cnt] = str(n)
        k[e] = "{" + ", ".join("via%d: %s" % (i, seq(v)) for i, v in enumerate(vs)) + "}"
        m["Int", ip] = n
        m["CVector", p] = vs
    D(DBL), W(VEC), I(INTS)
    B("store_data", "StoreData", s.boolean()), B("use_default_solver_setting", "UseDefaultSolverSetting", s.boolean()), B("load_kinematics", "LoadKinematics", kin)
    k["heuristic"] = "TimeOptimization" if time else s.pick(["SoftConstraint", "TrustRegion"])
    lin = s.boolean()
    k["friction_cone"] = "LinearCone" if lin else "SocCone"
    m["Bool", "IsFrictionConeLinear"] = lin
    if time:
        D(DBL_TIME), W(VEC_TIME)
        m["Int", "MaxNumTimeIterations"] = s.integer(0, 99)
        k["max_time_iterations"] = str(m["Int", "MaxNumTimeIterations"])
        B("is_time_horizon_fixed", "IsTimeHorizonFixed", s.boolean())
    V("num_com_viapoints", "com_viapoints", "NumViapoints", "Viapoints", 4)
    for e in EFF:
        k["cop_range_" + e], k["eff_offset_" + e] = seq(s.uvec(4, -1, 1)), seq(s.uvec(3, -1, 1))
    N = s.integer(1, 60)
    k["time_step"], k["time_horizon"] = "0.125", num(.125 * N)
    m["Double", "TimeStep"], m["Double", "TimeHorizon"], m["Int", "NumTimesteps"] = .125, .125 * N, N
    if kin:
        W(VEC_KIN), D(DBL_KIN), I(INTS_KIN)
        B("display_motion", "DisplayMotion", s.boolean()), B("use_second_order_inv_kin", "UseSecondOrderInverseKinematics", second)
        na = s.integer(1, dofs)
        k["active_dofs"] = str(list(range(na)))
        m["Int", "NumActiveDofs"], m["Int", "NumExtendedActiveDofs"] = na, na + 6
        if second:
            D(DBL_SECOND), W(VEC_SECOND)
            V("num_joint_viapoints_second", "joint_viapoints_second", "NumJointViapoints_Second", "JointViapoints_Second", dofs + 1)
            V("num_base_viapoints_second", "base_viapoints_second", "NumBaseViapoints_Second", "BaseViapoints_Second", 4)
        else:
            D(DBL_FIRST)
            V("num_joint_viapoints", "joint_viapoints", "NumJointViapoints", "JointViapoints", dofs + 1)
            V("num_base_viapoints", "base_viapoints", "NumBaseViapoints", "BaseViapoints", 4)
    m["Double", "RobotWeight"] = m["Double", "MassTimesGravity"] = m["Double", "RobotMass"] * m["Double", "Gravity"]
    m["Vector", "GravityVector"] = np.array([0, 0, -m["Double", "Gravity"]])
    # settings of the feedback controller
    L = {"problem_name": "test", "linesearch_coeff": "1.1", "linesearch_num_coeffs": "5", "time_step": ".125", "time_horizon": num(.125 * N), "has_control_limits": "false",
         "store_data": "false", "user_parameters": "{a: [1.0]}"}
    lm = {("Int", "TimeDimension"): N}
    for e, p in LQR_DBL:
        lm["Double", p] = s.uniform(.1, 20)
        L[e] = num(lm["Double", p])
    for e, p in LQR_INT:
        lm["Int", p] = s.integer(1, 9)
        L[e] = str(lm["Int", p])
    lm["Double", "TimeStep"], lm["Double", "TimeHorizon"] = .125, .125 * N
    lm["Bool", "HasControlLimits"], lm["Bool", "StoreData"] = False, s.boolean()
    L["store_data"] = yes(lm["Bool", "StoreData"])
    lm["Vector", "InitialState"] = s.uvec(lm["Int", "StateDimension"], -3, 3)
    L["initial_state"] = seq(lm["Vector", "InitialState"])
    if s.boolean():
        L["has_control_limits"], lm["Bool", "HasControlLimits"] = "true", True
        for e, p in (("min_control_limits", "MinControlLimits"), ("max_control_limits", "MaxControlLimits")):
            lm["Vector", p] = s.uvec(lm["Int", "ControlDimension"], -3, 3)
            L[e] = seq(lm["Vector", p])
    name, lname = s.pick(["planner_variables", "my_variables"]), s.pick(["solverlqr_variables", "solverlqr_dynamics"])
    c.note("kinematics", kin, "second order", second, "time", time, "steps", N, "joints", dofs)
    st, lq = PlannerSetting(), SolverLqrSetting()
    with Scratch() as d:
        f = d.put("cfg.yaml", section(name, k) + section(lname, L))
        with Quiet():
            if name == "planner_variables" and s.boolean():
                st.initialize(f)
            else:
                st.initialize(f, name)
            lq.initialize(f, lname)
    m["String", "ConfigFile"] = f
    lm["String", "ConfigFile"] = f

    def same(a, b):
        if isinstance(b, list):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(b, np.ndarray):
            a = np.asarray(a).reshape(-1)
            return a.shape == b.shape and np.abs(a - b).max() <= 1e-12 * (1 + np.abs(b).max()) if b.size else a.size == 0
        if isinstance(b, float):
            return abs(a - b) <= 1e-12 * (1 + abs(b))
        return a == b

    def verify(when):
        for (kind, p), v in m.items():
            g = st.get(par(kind, p))
            c.check(same(g, v), "parameter", "%s: %s is %s instead of %s" % (when, p, g, v))
    verify("after reading")
    for (kind, p), v in lm.items():
        g = lq.get(getattr(pysolverlqr, "SolverLqr%sParam_%s" % (kind, p)))
        c.check(same(g, v), "feedback parameter", "%s is %s instead of %s" % (p, g, v))
    keys = sorted(m)
    for _ in range(6):
        kind, p = s.pick(keys)
        old = m[kind, p]
        if kind == "Double":
            v = s.uniform(-9, 9)
        elif kind == "Int":
            v = s.integer(0, 99)
        elif kind == "Bool":
            v = not old
        elif kind == "String":
            v = "file%d" % s.integer(0, 99)
        elif kind == "CVector":
            v = [s.uvec(4, -1, 1) for _ in range(s.integer(0, 3))]
        else:
            v = s.uvec(old.size, -9, 9)
        st.set(par(kind, p), v)
        m[kind, p] = v
        if p in ("RobotWeight", "MassTimesGravity"):
            m["Double", "RobotWeight"] = m["Double", "MassTimesGravity"] = v
    verify("after writing")
    c.nontrivial = kin


# ----------------------------------------------------------------- states ---
def quat(s):
    return np.asarray(s.orth(4)[0])


@prop()
def states(s, c):
    """States, postures, contacts and sequences give back what was put in, each field and each element apart."""
    N, nj = s.integer(1, 5), s.integer(1, 12)
    dyn, kin, plan = DynamicsSequence(), KinematicsSequence(), ContactSequence()
    if s.boolean():
        dyn.resize(s.integer(1, 6)), kin.resize(s.integer(1, 6), 3)
    dyn.resize(N), kin.resize(N, nj)
    c.check(dyn.size() == N and kin.size() == N and len(dyn.dynamics_states) == N and len(kin.kinematics_states) == N, "size", "not %d" % N)
    ne = dyn.dynamics_states[0].effNum()
    c.check(ne == 4 and plan.eff_num() == 4, "effectors", "%d" % ne)
    z = np.zeros(3)
    md = [dict(com=z, lmom=z, amom=z, lmomd=z, amomd=z, P=[z] * 4, F=[z] * 4, T=[z] * 4, A=[False] * 4) for _ in range(N)]
    for i in range(N):
        md[i]["dt"] = dyn.dynamics_states[i].dt
    mk = [dict(com=z, lmom=z, amom=z, bp=z, bo=np.array([0, 0, 0, 1.]), q=np.zeros(nj), v=np.zeros(nj + 6), a=np.zeros(nj + 6), E=[z] * 4) for _ in range(N)]
    mc = [[] for _ in range(4)]
    ops = s.integer(1, 25)
    for _ in range(ops):
        i, e, v = s.integer(0, N - 1), s.integer(0, 3), s.uvec(3, -9, 9)
        o = s.integer(0, 19)
        D, K = dyn.dynamics_states[i], kin.kinematics_states[i]
        if o < 5:
            f = ["com", "lmom", "amom", "lmomd", "amomd"][o]
            setattr(D, f, v)
            md[i] = dict(md[i], **{f: v})
        elif o == 5:
            D.dt = v[0]
            md[i] = dict(md[i], dt=v[0])
        elif o < 9:
            f, g = [("P", D.setEffPosition), ("F", D.setEffForce), ("T", D.setEffTorque)][o - 6]
            g(e, v)
            l = list(md[i][f])
            l[e] = v
            md[i] = dict(md[i], **{f: l})
        elif o == 9:
            b = s.boolean()
            D.setEffActivation(e, b)
            l = list(md[i]["A"])
            l[e] = b
            md[i] = dict(md[i], A=l)
        elif o < 13:
            f = ["com", "lmom", "amom"][o - 10]
            setattr(K, f, v)
            mk[i] = dict(mk[i], **{f: v})
        elif o == 13:
            P = K.robot_posture
            x = s.integer(0, 2)
            if x == 0:
                P.base_position = v
                mk[i] = dict(mk[i], bp=v)
            elif x == 1:
                q = quat(s)
                P.base_orientation = q
                mk[i] = dict(mk[i], bo=q)
            else:
                q = s.uvec(nj, -3, 3)
                P.joint_positions = q
                mk[i] = dict(mk[i], q=q)
        elif o < 16:
            f, R, names = [("v", K.robot_velocity, ("generalized_joint_velocities", "base_linear_velocity", "base_angular_velocity", "joint_velocities")),
                           ("a", K.robot_acceleration, ("generalized_joint_accelerations", "base_linear_acceleration", "base_angular_acceleration", "joint_accelerations"))][o - 14]
            x = s.integer(0, 3)
            n, a = [(nj + 6, 0), (3, 0), (3, 3), (nj, 6)][x]
            w = s.uvec(n, -9, 9)
            setattr(R, names[x], w)
            g = mk[i][f].copy()
            g[a:a + n] = w
            mk[i] = dict(mk[i], **{f: g})
        elif o == 16:
            l = list(mk[i]["E"])
            l[e] = v
            K.endeffector_positions[e] = v
            mk[i] = dict(mk[i], E=l)
        elif o == 17:
            # a state copied to another place
            j = s.integer(0, N - 1)
            if s.boolean():
                dyn.dynamics_states[j] = D
                md[j] = md[i]
            else:
                kin.kinematics_states[j] = K
                mk[j] = mk[i]
        else:
            if len(mc[e]) < 3 and s.boolean():
                r = ContactState()
                plan.contact_states(e).append(r)
                mc[e].append(dict(start_time=r.start_time, end_time=r.end_time, position=r.position, active=r.active, contactType=r.contactType, R=r.placement[:3, :3]))
            if mc[e]:
                j = s.integer(0, len(mc[e]) - 1)
                r, w = plan.contact_states(e)[j], mc[e][j]
                x = s.integer(0, 5)
                if x == 0:
                    r.start_time = w["start_time"] = v[0]
                elif x == 1:
                    r.end_time = w["end_time"] = v[0]
                elif x == 2:
                    r.position = w["position"] = v
                elif x == 3:
                    r.active = w["active"] = s.boolean()
                elif x == 4:
                    r.contactType = w["contactType"] = s.pick([ContactType.FreeContact, ContactType.FlatContact, ContactType.FullContact])
                else:
                    T = np.eye(4)
                    T[:3, :3], T[:3, 3] = rotation(quat(s)), v
                    r.placement = T
                    w["R"], w["position"] = T[:3, :3], v
    c.note("operations", ops, "steps", N)

    def eq(a, b, what):
        c.check(np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= 1e-12 * (1 + np.abs(b))), what, "%s instead of %s" % (a, b))
    for i in range(N):
        D, K, x = dyn.dynamics_states[i], kin.kinematics_states[i], md[i]
        for f in ("com", "lmom", "amom", "lmomd", "amomd", "dt"):
            eq(getattr(D, f), x[f], "dynamics state %d: %s" % (i, f))
        for e in range(4):
            eq(D.effPosition(e), x["P"][e], "position of effector"), eq(D.eff(e), x["P"][e], "position of effector"), eq(D.effForce(e), x["F"][e], "force")
            eq(D.effTorque(e), x["T"][e], "torque"), eq(D.effCoP(e), z, "center of pressure"), eq(D.effVelocity(e), z, "velocity of effector")
            eq(D.effAcceleration(e), z, "acceleration of effector")
            c.check(D.effActivation(e) == x["A"][e], "activation", "effector %d at %d" % (e, i))
        x = mk[i]
        for f in ("com", "lmom", "amom"):
            eq(getattr(K, f), x[f], "kinematics state %d: %s" % (i, f))
        P, V, A = K.robot_posture, K.robot_velocity, K.robot_acceleration
        eq(P.base_position, x["bp"], "base position"), eq(P.base_orientation, x["bo"], "base orientation"), eq(P.joint_positions, x["q"], "joints")
        eq(P.generalized_joint_positions, np.concatenate([x["bp"], x["bo"], x["q"]]), "generalised positions")
        eq(V.generalized_joint_velocities, x["v"], "generalised velocities"), eq(V.base_linear_velocity, x["v"][:3], "base velocity")
        eq(V.base_angular_velocity, x["v"][3:6], "angular velocity of the base"), eq(V.joint_velocities, x["v"][6:], "joint velocities")
        eq(A.generalized_joint_accelerations, x["a"], "generalised accelerations"), eq(A.base_linear_acceleration, x["a"][:3], "base acceleration")
        eq(A.base_angular_acceleration, x["a"][3:6], "angular acceleration of the base"), eq(A.joint_accelerations, x["a"][6:], "joint accelerations")
        c.check(K.numJoints == nj, "joints", "%d instead of %d" % (K.numJoints, nj))
        for e in range(4):
            eq(K.endeffector_positions[e], x["E"][e], "position of effector")
    for e in range(4):
        cs = plan.contact_states(e)
        c.check(len(cs) == len(mc[e]), "contacts", "%d instead of %d" % (len(cs), len(mc[e])))
        for r, w in zip(cs, mc[e]):
            for f in ("start_time", "end_time", "position"):
                eq(getattr(r, f), w[f], "contact: " + f)
            c.check(r.active == w["active"] and r.contactType == w["contactType"], "contact", "selection or type")
            T = np.eye(4)
            T[:3, :3], T[:3, 3] = w["R"], w["position"]
            c.check(np.abs(r.placement - T).max() < 1e-9, "placement", "%s instead of %s" % (r.placement, T))
    c.nontrivial = ops >= 5


def rotation(q):
    return pin.Quaternion(np.asarray(q)).toRotationMatrix()


# ---------------------------------------------------------------- planner ---
def solver_text():
    t = open(os.path.join(CFG, "cfg_solo8_jump.yaml")).read()
    return t[t.index("\nsolver_variables:"):]


def plan_config(s, c, kind):
    ne = 2 if kind == 6 else 4
    N, dt = s.integer(4, 7), s.pick([.05, .1])
    mass = s.uniform(1.5, 4.)
    h = .22
    feet = [np.array([.2 * (1 - 2 * (e // 2)) if ne == 4 else 0., .15 * (2 * (e % 2) - 1), 0.]) for e in range(ne)]
    com = np.array([0., 0., h]) + s.uvec(3, -.02, .02)
    ini = {"com": seq(com), "lmom": seq(s.uvec(3, -.1, .1)), "amom": seq(s.uvec(3, -.01, .01))}
    ini["eef_ctrl"] = "{" + ", ".join("eef_frc_%s: %s" % (EFF[e], seq([0, 0, 1. / ne])) for e in range(4)) + "}"
    pose = lambda e: list(feet[e]) if e < ne else [0, 0, 0.]
    ini["eef_pose"] = "{" + ", ".join("eef_%s: %s" % (EFF[e], seq([1. if e < ne else 0.] + pose(e) + [1, 0, 0, 0])) for e in range(4)) + "}"
    cnt = {}
    for e in range(4):
        rows = []
        if e < ne:
            if N >= 6 and s.chance(.4):
                a = s.integer(2, N - 3)
                to = feet[e] + np.append(s.uvec(2, -.03, .03), 0.)
                rows = [[0., a * dt] + list(feet[e]), [(a + 2) * dt, N * dt + 1] + list(to)]
                c.label("step")
            else:
                rows = [[0., N * dt + 1] + list(feet[e])]
        cnt["effcnt_" + EFF[e]] = "[" + ", ".join(seq(r + [1, 0, 0, 0, 1., -1.]) for r in rows) + "]"
        cnt["effvia_" + EFF[e]] = "[]"
    k, m = {}, {}
    second = s.boolean()
    for e, p, n in VEC:
        k[e] = seq([0.] * n)
    k.update(com_displacement=seq(s.uvec(3, -.02, .02)), torque_range="[0.0, 0.0]", max_eef_lengths=seq([.45] * 4))
    for e in ("w_com", "w_lmom", "w_amom", "w_lmomd", "w_amomd", "w_amom_final", "w_lmom_final", "w_frc_leg", "w_dfrc_leg", "w_com_track", "w_lmom_track", "w_amom_track"):
        k[e] = seq(np.exp(s.uvec(3, np.log(.01), np.log(10))))
    nk = s.integer(0, 2)
    k.update(gravity="9.81", robot_mass=num(mass), friction_coeff=num(s.uniform(.4, 1.)), floor_height="0.0", min_rel_height=".05", w_trq_arm="0.0", w_trq_leg="0.0",
             friction_cone=s.pick(["LinearCone", "SocCone"]), heuristic=s.pick(["SoftConstraint", "TrustRegion"]), n_act_eefs=str(ne), time_step=num(dt), time_horizon=num(N * dt),
             num_com_viapoints="0", com_viapoints="{via0: [1.0, 0.0, 0.0, 0.0]}", store_data="false", use_default_solver_setting="false", load_kinematics="true",
             display_motion="false", num_dofs=str(kind), kd_iterations=str(nk), num_subsamples="1", active_dofs=str(list(range(kind))), max_trajectory_iters="1",
             max_convergence_iters="1", use_second_order_inv_kin=yes(second))
    for e in EFF:
        k["cop_range_" + e], k["eff_offset_" + e] = seq([0.] * 4), seq([0.] * 3)
    for e, p, n in VEC_KIN:
        k[e] = seq([0.] * (kind if n < 0 else n))
    q = [(.7 if (i % (kind // ne)) == (kind // ne) - 2 else -1.3 if (i % (kind // ne)) == (kind // ne) - 1 else 0.) for i in range(kind)]
    k["default_joint_positions"] = seq(q)
    for e, p in DBL_KIN:
        k[e] = "0.01"
    for e, p in DBL_FIRST + DBL_SECOND:
        v = s.uniform(.5, 3.)
        if e.startswith("swing"):
            v = s.uniform(.02, .06)
        elif "w_joint_reg" in e:
            v = s.uniform(.01, .1)
        k[e] = num(v)
        m[p] = v
    k["p_mom_tracking_second"] = seq(s.uvec(6, .5, 3))
    for e, dim in (("joint_viapoints", kind + 1), ("base_viapoints", 4)):
        for x in ("", "_second"):
            n = s.integer(0, 1)
            k["num_" + e + x] = str(n)
            v = s.uvec(dim, -.1, .1)
            v[0] = s.uniform(.3, .7) * N * dt
            if e[0] == "j":
                v[1:] += q
            k[e + x] = "{via0: %s}" % seq(v)
    L = {"problem_name": "feedback", "verbosity": "0", "decimal_digits": "4", "lqr_max_iters": "2", "linesearch_coeff": "1.1", "linesearch_num_coeffs": "10", "cost_change_tolerance": "1.0e-9",
         "divergence_limit_check": "1.0e6", "bpass_regularization_type": "2", "bpass_min_regularization": "1.0e-6", "bpass_max_regularization": "1.0e10", "control_gradient_tolerance": "1.0e-6",
         "bpass_initial_regularization": ".1", "min_expected_cost_improvement": ".2", "bpass_mult_regularization_incr": "1.2", "bpass_initial_mult_regularization_incr": "1.0",
         "time_step": num(dt), "time_horizon": num(N * dt), "state_dimension": "9", "control_dimension": str(3 * ne), "initial_state": seq([0.] * 9), "has_control_limits": "false",
         "store_data": "false", "user_parameters": "{" + ", ".join("%s: %s" % (n, seq(np.exp(s.uvec(3, -2, 1)))) for n in (
             "control_cost", "com_tracking", "lmom_tracking", "amom_tracking", "com_final_tracking", "lmom_final_tracking", "amom_final_tracking")) + "}"}
    text = section("initial_robot_configuration", ini) + section("terrain_description", {"regions": "[[[1.0, 1.0, 0.0], [-1.0, 1.0, 0.0], [-1.0, -1.0, 0.0], [1.0, -1.0, 0.0]]]"})
    text += section("contact_plan", cnt) + section("planner_variables", k) + section("solverlqr_dynamics", L) + solver_text()
    c.note("robot", kind, "steps", N, "time step", dt, "rounds", nk, "second order", second)
    c.label("second order", second)
    c.label("rounds %d" % nk)
    return text, dict(N=N, nk=nk, second=second, ne=ne)


INVKIN = {"w_lin_mom_tracking": "WeightLinMomentumTracking", "w_ang_mom_tracking": "WeightAngMomentumTracking", "w_endeff_contact": "WeightEndEffContact",
          "w_endeff_tracking": "WeightEndEffTracking", "w_joint_regularization": "WeightJointReg", "p_endeff_tracking": "PGainEndEffTracking", "p_com_tracking": "PGainComTracking"}
SECOND = {"d_endeff_tracking": "DGainEndEffTracking_Second", "p_orient_tracking": "PGainBaseOrientationTracking_Second", "d_orient_tracking": "DGainBaseOrientationTracking_Second",
          "p_joint_regularization": "PGainJointRegularization_Second", "d_joint_regularization": "DGainJointRegularization_Second"}


def configure(ko, st, second):
    """the kinematics optimiser as the configuration asks for it"""
    D = lambda p: st.get(par("Double", p))
    x = "_Second" if second else ""
    ko.use_second_order_inv_kin = second
    ik = ko.snd_order_inv_kin if second else ko.inv_kin
    want = {}
    for a, p in INVKIN.items():
        want[ik, a] = D(p + x)
    want[ko.endeff_traj_generator, "z_offset"] = D("SwingTrajViaZ" + x)
    if second:
        for a, p in SECOND.items():
            want[ik, a] = D(p)
        want[ik, "p_mom_tracking"] = np.array(st.get(par("Vector", "PGainMomentumTracking_Second")))
    else:
        want[ko, "reg_orientation"], want[ko, "reg_joint_position"] = D("PGainOrientationTracking"), D("PGainPositionTracking")
    for w in ("joint", "base"):
        n = "%sViapoints" % w.capitalize()
        want[ko, "n_via_" + w] = st.get(par("Int", "Num" + n + x))
        want[ko, "via_" + w] = [np.array(v) for v in st.get(par("CVector", n + x))]
    return want


class Recorder(MomentumKinematicsOptimizer):
    log = []

    def optimize(self, ini, contacts, dyn, plotting=False):
        Recorder.log.append(("kin", len(dyn.dynamics_states)))
        return MomentumKinematicsOptimizer.optimize(self, ini, contacts, dyn, plotting=plotting)


@prop(limit=120)
def planner(s, c):
    """The planner alternates dynamics and kinematics as configured and returns the plans of the last round."""
    kind = s.pick([8, 12, 6])
    text, X = plan_config(s, c, kind)
    ROBOT[0] = robot(s, kind)
    lqr = s.chance(.3)
    with Scratch() as d, Quiet():
        f = d.put("cfg.yaml", text)
        Recorder.log = []
        if s.boolean():
            got = kino_dyn_planner.build_and_optimize_motion(f, WRAP[kind], lqr)
            mp, got = got[0], got[1:]
            c.label("in one go")
        else:
            mp = MotionPlanner(f, KinOpt=Recorder, RobotWrapper=WRAP[kind], with_lqr=lqr)
            mp.init_from_settings()
            got = mp.optimize_motion(plot_com_motion=False)
            c.check(len(Recorder.log) == X["nk"], "rounds", "%d kinematic plans instead of %d" % (len(Recorder.log), X["nk"]))
        kinp, eff, dynp, feedback, setting, times = got
        tv = mp.time_vector()
        args = ["-i", f] + ({8: [], 12: ["--solo12"], 6: ["--bolt"]}[kind] if s.boolean() else [])
        parsed = kino_dyn_planner.parse_arguments(args)
        # the same by hand
        st = PlannerSetting()
        st.initialize(f)
        ini = DynamicsState()
        ini.fillInitialRobotState(f)
        terrain = TerrainDescription()
        terrain.loadFromFile(f)
        plan = ContactPlanFromFile()
        plan.initialize(st)
        plan.optimize(ini, terrain)
        do = DynamicsOptimizer()
        do.initialize(st)
        ko = MomentumKinematicsOptimizer()
        ko.initialize(st, RobotWrapper=WRAP[kind])
        want = configure(ko, st, X["second"])
        for (o, a), v in want.items():
            setattr(o, a, v)
        do.optimize(ini, plan, ko.kinematics_sequence, False)
        for _ in range(X["nk"]):
            ko.optimize(ini, plan.contactSequence(), do.dynamicsSequence())
            do.optimize(ini, plan, ko.kinematics_sequence, True)
    c.check(parsed[0] == f and parsed[1] is WRAP[kind if len(args) > 2 else 8] and parsed[2] is False, "arguments", "%s" % (parsed,))
    cc = mp.kin_optimizer
    have = configure(cc, mp.planner_setting, X["second"])
    names = {id(cc): "kin_optimizer", id(cc.inv_kin): "inv_kin", id(cc.snd_order_inv_kin): "snd_order_inv_kin", id(cc.endeff_traj_generator): "endeff_traj_generator"}
    for (o, a), v in have.items():
        g = getattr(o, a)
        same = len(g) == len(v) and all(np.array_equal(np.asarray(x).reshape(-1), y) for x, y in zip(g, v)) if isinstance(v, list) else np.array_equal(np.asarray(g).reshape(-1), np.asarray(v).reshape(-1))
        c.check(same, "settings", "%s.%s is %s instead of %s" % (names[id(o)], a, g, v))
    c.check(bool(cc.use_second_order_inv_kin) == X["second"], "settings", "order of the inverse kinematics")
    ref = do.dynamicsSequence().dynamics_states
    c.check(len(dynp.dynamics_states) == X["N"] == len(ref), "size", "%d states" % len(dynp.dynamics_states))

    def eq(a, b, what):
        a, b = np.asarray(a, float), np.asarray(b, float)
        c.check(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(b).max())), what, "%s instead of %s" % (a, b))
    for i in range(X["N"]):
        a, b = dynp.dynamics_states[i], ref[i]
        for n in ("com", "lmom", "amom", "dt"):
            eq(getattr(a, n), getattr(b, n), "dynamic plan: %s at %d" % (n, i))
        for e in range(X["ne"]):
            eq(a.effForce(e), b.effForce(e), "dynamic plan: force %d at %d" % (e, i))
            c.check(a.effActivation(e) == b.effActivation(e), "dynamic plan", "activation")
    t = np.concatenate([[0.], np.cumsum([x.dt for x in ref])[:-1]])
    eq(times, t, "times"), eq(tv, t, "times")
    if X["nk"]:
        for i, (a, b) in enumerate(zip(kinp.kinematics_states, ko.kinematics_sequence.kinematics_states)):
            for n in ("com", "lmom", "amom"):
                eq(getattr(a, n), getattr(b, n), "kinematic plan: %s at %d" % (n, i))
            eq(a.robot_posture.generalized_joint_positions, b.robot_posture.generalized_joint_positions, "kinematic plan: posture %d" % i)
            eq(a.robot_velocity.generalized_joint_velocities, b.robot_velocity.generalized_joint_velocities, "kinematic plan: velocity %d" % i)
        for n in ("trajectory", "velocity", "trajectory_wrt_base", "velocity_wrt_base"):
            eq(eff[n], ko.motion_eff[n], "end-effector motion: " + n)
    if lqr:
        ls = SolverLqrSetting()
        with Scratch() as d, Quiet():
            f = d.put("cfg.yaml", text)
            ls.initialize(f, "solverlqr_dynamics")
            fb = DynamicsFeedback()
            fb.initialize(ls, st)
            fb.optimize(ini, do.dynamicsSequence())
        for i in range(X["N"]):
            eq(feedback.forceGain(i), fb.forceGain(i), "feedback gain %d" % i)
        c.label("feedback")
    else:
        c.check(feedback is None, "feedback", "computed without being asked for")
    # replaying shows the planned postures in their order
    if X["nk"]:
        shown = []

        class Viewer(object):
            def __getattr__(self, n):
                return lambda *a, **k: None

            def display(self, q):
                shown.append(np.array(q, float).reshape(-1))
        bot, sleep = mp.kin_optimizer.robot, time.sleep
        a0, a1 = s.integer(0, 2), s.pick([None, X["N"] - 1, 1])
        try:
            bot.initMeshcat = lambda *a, **k: Viewer()
            time.sleep = lambda x: None
            with Quiet():
                mp.replay_kinematics(a0, a1, viz="meshcat")
        finally:
            time.sleep = sleep
        del bot.initMeshcat
        plan = [x.robot_posture.generalized_joint_positions for x in kinp.kinematics_states][a0:a1]
        c.check(len(shown) == len(plan), "replay", "%d postures shown, %d planned" % (len(shown), len(plan)))
        for i, (x, y) in enumerate(zip(shown, plan)):
            eq(x, np.asarray(y).reshape(-1), "replay: posture %d" % i)
    # stored files are those of the last plans
    if X["nk"] and s.chance(.5):
        def run(fn):
            with Scratch() as d, Quiet():
                o = os.getcwd()
                os.chdir(d.d)
                try:
                    fn()
                finally:
                    os.chdir(o)
                return {n: np.loadtxt(os.path.join(d.d, n), ndmin=2) for n in sorted(os.listdir(d.d))}
        w = st.get(par("Double", "RobotWeight"))

        def direct():
            create_file(t, kinp, dynp, feedback, w)
            if lqr:
                create_lqr_files(t, eff, kinp, dynp, feedback, w)
        todo = [("files", mp.save_files, direct)]
        if kind != 6:
            todo.append(("controller files", mp.save_qp_files, lambda: create_qp_files(t, eff, kinp, dynp, feedback, w)))
        for what, fn, gn in todo:
            if kind == 6 and lqr:
                continue
            A, B = run(fn), run(gn)
            c.check(sorted(A) == sorted(B), what, "%s instead of %s" % (sorted(A), sorted(B)))
            for n in A:
                eq(A[n], B[n], what + " " + n)
        c.label("files")
    c.nontrivial = X["nk"] >= 1


# -------------------------------------------------------- Python interface ---
def rlog(q):
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q)
    if q[3] < 0:
        q = -q
    n = np.linalg.norm(q[:3])
    return 2 * q[:3] if n < 1e-12 else 2 * np.arctan2(n, q[3]) / n * q[:3]


def rexp(w):
    a = np.linalg.norm(w)
    return np.append(.5 * np.sinc(a / (2 * np.pi)) * w, np.cos(.5 * a))


class Linear(KinematicsInterface):
    """a robot whose center of mass, momentum and end-effectors are linear in its configuration"""
    def __init__(self, R):
        KinematicsInterface.__init__(self)
        self.R, self.calls, self.steps, self.shown, self.seen, self.limit = R, 0, [], [], [], 0.

    def conf(self, k):
        g = k.robot_posture.generalized_joint_positions
        return np.concatenate([g[:3], rlog(g[3:7]), g[7:]])

    def setconf(self, k, x):
        k.robot_posture.base_position = x[:3]
        k.robot_posture.base_orientation = rexp(x[3:6])
        k.robot_posture.joint_positions = x[6:]

    def initialize(self, setting):
        self.started = setting.get(PlannerIntParam_NumDofs)

    def displayPosture(self, k, dt):
        self.shown.append((self.conf(k), dt))

    def logarithmicMap(self, q):
        return rlog(np.array([q[1], q[2], q[3], q[0]]))

    def integratePosture(self, k, dt):
        self.steps.append(dt)
        x = self.conf(k) + dt * k.robot_velocity.generalized_joint_velocities
        self.limit = max(self.limit, np.linalg.norm(x[3:6]))
        self.setconf(k, x)
        return k

    def differentiatePostures(self, a, b, dt):
        b.robot_velocity.generalized_joint_velocities = (self.conf(b) - self.conf(a)) / dt
        return b

    def updateJacobiansAndState(self, k, dt):
        self.calls += 1
        R, x, v = self.R, self.conf(k), k.robot_velocity.generalized_joint_velocities
        self.seen.append((x, v))
        h = R["H"].dot(v)
        k.com, k.lmom, k.amom = R["c0"] + R["Jc"].dot(x), h[:3], h[3:]
        self.center_of_mass_jacobian, self.centroidal_momentum_matrix, self.centroidal_momentum_matrix_variation = R["Jc"], R["H"], np.zeros_like(R["H"])
        self.constraints_vector, self.constraints_matrix = np.zeros(0), np.zeros((0, len(x)))
        for e in range(4):
            k.endeffector_positions[e] = R["e0"][e] + R["Je"][e][:3].dot(x)
            self.endeffector_jacobians[e] = R["Je"][e]
        return k


@prop(limit=120)
def python_interface(s, c):
    """A robot described in Python is moved by the kinematics optimiser as it describes itself, towards its targets."""
    kind = s.integer(1, 4)
    N = s.integer(1, 4)
    D = 6 + kind
    R = {"c0": s.uvec(3, -.5, .5), "Jc": s.umat(3, D, -.2, .2), "H": s.umat(6, D, -1, 1), "e0": s.umat(4, 3, -.5, .5), "Je": [s.umat(6, D, -.5, .5) for _ in range(4)]}
    R["Jc"][:, :3] = np.eye(3)
    for J in R["Je"]:
        J[:3, :3] = np.eye(3)
    lo, hi, df = -s.uvec(kind, .1, .5), s.uvec(kind, .1, .5), s.uvec(kind, -.05, .05)
    k = {}
    for e, p, n in VEC + VEC_TIME + VEC_KIN + VEC_SECOND:
        k[e] = seq([0.] * (kind if n < 0 else n))
    for e, p in DBL + DBL_TIME + DBL_KIN + DBL_FIRST + DBL_SECOND:
        k[e] = "0.0"
    ne = s.integer(1, 4)
    dt = s.pick([.1, .125])
    show = s.boolean()
    step = s.pick([.5, 1.])
    k.update(gravity="9.81", robot_mass="10.0", floor_height="-100.0", heuristic="SoftConstraint", friction_cone="LinearCone", n_act_eefs=str(ne), time_step=num(dt), time_horizon=num(N * dt),
             num_com_viapoints="0", com_viapoints="{}", store_data="false", use_default_solver_setting="false", load_kinematics="true", display_motion=yes(show), num_dofs=str(kind),
             kd_iterations="1", num_subsamples="2", active_dofs=str(list(range(kind))), max_trajectory_iters="2", max_convergence_iters="40", use_second_order_inv_kin="false",
             min_joint_limits=seq(lo), max_joint_limits=seq(hi), default_joint_positions=seq(df), w_kin_com="[10.0, 10.0, 10.0]", w_kin_joint_vel=seq([1e-5] * D), w_kin_joint_acc=seq([1e-6] * D),
             w_kin_default_joints=seq([1e-4] * kind), slacks_penalty="1.0", integration_step=num(step), lambda_regularization="1.0e-3", convergence_tolerance="1.0e-7")
    for e in ("joint_viapoints", "base_viapoints"):
        k["num_" + e], k[e] = "0", "{}"
    for e in EFF:
        k["cop_range_" + e], k["eff_offset_" + e] = seq([0.] * 4), seq([0.] * 3)
    seqn, target = DynamicsSequence(), s.umat(N, 3, -.5, .5)
    seqn.resize(N)
    for i, x in enumerate(seqn.dynamics_states):
        x.dt, x.com = dt, target[i]
    ini = DynamicsState()
    ini.com = target[0] + s.uvec(3, -.1, .1)
    c.note("joints", kind, "steps", N, "effectors", ne)
    with Scratch() as d, Quiet():
        f = d.put("cfg.yaml", section("planner_variables", k) + section("contact_plan", dict([("effcnt_" + e, "[]") for e in EFF] + [("effvia_" + e, "[]") for e in EFF])) +
                  section("terrain_description", {"regions": "[[[1.0, 1.0, 0.0], [-1.0, 1.0, 0.0], [-1.0, -1.0, 0.0], [1.0, -1.0, 0.0]]]"}) + solver_text())
        st = PlannerSetting()
        st.initialize(f)
        F = Linear(R)
        terrain = TerrainDescription()
        terrain.loadFromFile(f)
        plan = ContactPlanFromFile()
        plan.initialize(st)
        plan.optimize(ini, terrain)
        K = KinematicsOptimizer()
        K.initialize(st, F)
        K.optimize(ini, plan, seqn, True)
        out = K.kinematicsSequence().kinematics_states
    c.check(F.started == kind, "settings", "the robot was initialised with other settings")
    c.check(len(out) == N and F.calls > 0 and len(F.steps) > 0, "callbacks", "%d states, %d updates, %d steps" % (len(out), F.calls, len(F.steps)))
    c.check(all(abs(x - step) < 1e-12 for x in F.steps), "integration step", "not %g" % step)
    c.label("turns over", F.limit > 2.9)
    for i in range(N):
        x = F.conf(out[i])
        # what the state tells about itself is what its description told for one posture
        told = min(np.abs(np.concatenate([out[i].com - R["c0"] - R["Jc"].dot(y), np.append(out[i].lmom, out[i].amom) - R["H"].dot(v)] +
                                         [out[i].endeffector_positions[e] - R["e0"][e] - R["Je"][e][:3].dot(y) for e in range(4)])).max() for y, v in F.seen)
        c.check(told < 1e-9, "state", "center of mass, momentum and end-effectors of state %d are not those told for any posture (%g)" % (i, told))
        c.check(np.all(x[6:] >= lo - 1e-4) and np.all(x[6:] <= hi + 1e-4), "limits", "joints %s outside [%s, %s]" % (x[6:], lo, hi))
        if F.limit <= 2.5:
            c.check(np.abs(out[i].com - target[i]).max() < .02, "target", "center of mass %s instead of %s" % (out[i].com, target[i]))
    c.check((len(F.shown) > 0) == show, "display", "%d postures shown" % len(F.shown))
    c.nontrivial = N >= 2


if __name__ == "__main__":
    sys.exit(main())
