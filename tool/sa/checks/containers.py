"""P22: measurement containers."""
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .state import at_of
from .eqs import enum_of

M = "measurement::"
MB = M + "Measurement"
# class -> (type, [(setter, value per parameter -> getters)])
BOX = {
    "ImuMeasurement": ("IMU", ("get_quaternion", "get_angular_velocity", "get_lin_acc")),
    "VelocityMeasurement": ("VELOCITY", ("get_velocity",)),
    "AngularVelocityMeasurement": ("ANGULAR_VELOCITY", ("get_angular_velocity",)),
    "JointStateMeasurement": ("JOINT_STATE", ("get_joint_pos", "get_joint_vel", "get_joint_effort")),
    "ContactMeasurement": ("CONTACT", ("get_contact",)),
    "OdomMeasurement": ("ODOM", ("get_transformation",)),
}
# (class, setter) -> [(getter, how the value is made of the parameters)]
SETS = {
    ("ImuMeasurement", "set_quaternion"): [("get_quaternion", "quat")],
    ("ImuMeasurement", "set_angular_velocity"): [("get_angular_velocity", "vec")],
    ("ImuMeasurement", "set_lin_acc"): [("get_lin_acc", "vec")],
    ("VelocityMeasurement", "set_velocity"): [("get_velocity", "vec")],
    ("AngularVelocityMeasurement", "set_angular_velocity"): [("get_angular_velocity", "vec")],
    ("JointStateMeasurement", "set_joint_state"): [("get_joint_pos", 0), ("get_joint_vel", 1), ("get_joint_effort", 2)],
    ("JointStateMeasurement", "set_encoders"): [("get_joint_pos", 0)],
    ("ContactMeasurement", "set_contact"): [("get_contact", 0)],
}
DERIVED = {"ImuMeasurement": {"get_rotation_matrix": ("get_quaternion", "toR")},
           "VelocityMeasurement": {"get_vel_mag": ("get_velocity", "norm"), "get_vel_unit_vec": ("get_velocity", "unit")},
           "AngularVelocityMeasurement": {"get_angular_velocity_magnitude": ("get_angular_velocity", "norm"), "get_ang_vel_unit_vec": ("get_angular_velocity", "unit")}}


def arg(p, i):
    t = p["t"]
    if "Matrix<bool" in t:
        v = sym("arg%d" % i, t)
        return v
    if "Matrix" in t and ", 1>" in t:
        return sym("arg%d" % i, t)
    return dsym("arg%d:%s" % (i, p["n"]))


def norm_of(v):
    s = ZERO
    for i in range(3):
        s = add(s, mul(el(v, i, 0), el(v, i, 0)))
    return fn("sqrt", s)


class Box:
    def __init__(self, ctx, cls, nparams=0, args=()):
        self.W = World(ctx)
        self.cls = M + cls
        self.ptr = self.W.new(self.cls, "m")
        self.ct = self.W.fn(self.cls + "::" + cls.split("::")[-1], nparams)
        self.W.run(self.ct, self.ptr, list(args))

    def get(self, g):
        return self.W.getter(self.ptr, self.cls + "::" + g)

    def all(self, gs):
        d = {g: self.get(g) for g in gs}
        d["get_time"] = self.get("get_time")
        d["get_type"] = self.get("get_type")
        for f in ("seq", "frame_id"):
            d["header." + f] = self.header(f)
        return d

    def header(self, f):
        l = self.W.loc(self.ptr)
        return self.W.I.read(self.W.st, (l[0], l[1] + (("f", MB + "::header"), ("f", MB + "::MeasurementHeader::" + f))))


def p22(ctx):
    ctx.rule("P22.type", "every container reports the type it represents, from construction on, and keeps it")
    ctx.rule("P22.initial", "a new container has time stamp 0 and neutral content")
    ctx.rule("P22.store", "every getter returns exactly what its setter stored last; every other quantity is untouched")
    ctx.rule("P22.derived", "derived quantities (rotation matrix, magnitude, unit vector) belong to the stored value")
    ctx.rule("P22.quaternion", "a quaternion is rejected iff its (squared) norm is off by the tolerance or more, without modifying the stored value")
    ctx.rule("P22.header", "time stamp, sequence number and frame are stored as given")
    names = set()
    for cls, (ty, gs) in BOX.items():
        names.add(cls)
        b = Box(ctx, cls)
        W, I = b.W, b.W.I
        want = enum_of(W.F, "MeasurementType", ty)
        ctx.ob("P22.type", b.get("get_type") is want, cls, "reports the type %s" % show(b.get("get_type"), 3), **at_of(b.ct))
        ctx.ob("P22.initial", b.get("get_time") is ZERO, cls + " time", "initial time stamp %s" % show(b.get("get_time"), 3), **at_of(b.ct))
        for g in gs:
            v = b.get(g)
            ok = {"get_quaternion": lambda: v is mk("quat", ONE, ZERO, ZERO, ZERO), "get_transformation": lambda: v is dag.I(4)}.get(
                g, lambda: not dag.is_int(shape(v)[0]) or 0 in shape(v) or v is Z(3, 1))()
            ctx.ob("P22.initial", ok, cls + " " + g, "initial value %s" % show(v, 4), **at_of(b.ct))
        # first and repeated stores
        for (c, s), outs in SETS.items():
            if c != cls:
                continue
            f = W.member(b.cls, s)
            for rnd in (1, 2):
                pre = b.all(gs)
                args = [sym("%s#%d" % (x.a[0], rnd), p["t"]) if x.op == "sym" and "Matrix" in p["t"] else dsym("%s#%d" % (x.a[0], rnd))
                        for x, p in ((arg(p, i), p) for i, p in enumerate(f["params"]))]
                I.throws = []
                W.run(f, b.ptr, args)
                W.st.gate = TRUE
                post = b.all(gs)
                exp = {g: {"vec": lambda: mat(3, 1, args), "quat": lambda: mk("quat", *args)}.get(how, lambda: args[how])() for g, how in outs}
                for g in post:
                    w = exp.get(g, pre[g])
                    ctx.ob("P22.store" if g != "get_type" else "P22.type", post[g] is w or (g in exp and mat_or_same(post[g], w)), "%s::%s, %s, store %d" % (cls, s, g, rnd),
                           "after %s, %s returns %s instead of %s" % (s, g, show(post[g], 4), show(w, 4)), **at_of(f), sample=show(w, 4))
                if s == "set_quaternion":
                    quat_check(ctx, b, f, args, pre, gs)
        for d, (g, how) in DERIVED.get(cls, {}).items():
            f = W.member(b.cls, d)
            v, got = b.get(g), b.get(d)
            if how == "toR":
                from ..lib import toR
                exp = toR(v)
            elif how == "norm":
                exp, got = norm_of(v), scal(got)
            else:
                n = norm_of(v)
                exp = mscale(div(ONE, n), v)
            ok = got is exp or (how == "unit" and got.op == "call" and "normalized" in str(got.a[0]) and got.a[1] is v) or mat_or_same(got, exp)
            ctx.ob("P22.derived", ok, "%s::%s" % (cls, d), "is %s instead of %s" % (show(got, 5), show(exp, 5)), **at_of(f))
        headers(ctx, b, cls, gs)
        ctx.used(I)
    odom(ctx)
    legged(ctx)
    base(ctx)
    ctx.require("P22.store", 60, "stores")
    ctx.require("P22.type", 15, "types")


def mat_or_same(a, b):
    if a is b:
        return True
    try:
        return shape(a)[0] is not None and mat_equal(a, b)
    except Exception:
        return False


def headers(ctx, b, cls, gs):
    W = b.W
    pre = b.all(gs)
    f = W.fn(MB + "::set_time")
    t = dsym("stamp")
    W.run(f, b.ptr, [t])
    post = b.all(gs)
    for g in post:
        w = t if g == "get_time" else pre[g]
        ctx.ob("P22.header", post[g] is w, "%s set_time, %s" % (cls, g), "%s becomes %s" % (g, show(post[g], 4)), **at_of(f))
    f = W.fn(MB + "::set_header", 3)
    for k in (1, 2):
        args = [sym("seq#%d" % k, "uint64_t"), dsym("stamp2#%d" % k), sym("frame#%d" % k, "std::string")]
        pre = b.all(gs)
        W.run(f, b.ptr, args)
        post = b.all(gs)
        exp = {"header.seq": args[0], "get_time": args[1], "header.frame_id": args[2]}
        for g in post:
            w = exp.get(g, pre[g])
            ctx.ob("P22.header", post[g] is w, "%s set_header %d, %s" % (cls, k, g), "%s becomes %s instead of %s" % (g, show(post[g], 4), show(w, 4)), **at_of(f))


def base(ctx):
    """the base class's own constructors and the header structure"""
    W = World(ctx)
    for n, want in ((0, "EMPTY"), (1, "CONTACT")):
        p = W.new(MB, "base%d" % n)
        ct = W.fn(MB + "::Measurement", n)
        e = enum_of(W.F, "MeasurementType", want)
        W.run(ct, p, [e] if n else [])
        got = W.getter(p, MB + "::get_type")
        ctx.ob("P22.type", got is e, "Measurement, %d-argument constructor" % n, "reports %s" % show(got, 3), **at_of(ct))
        ctx.ob("P22.initial", W.getter(p, MB + "::get_time") is ZERO, "Measurement, %d-argument constructor" % n, "initial time stamp", **at_of(ct))
    p = W.new(MB, "b2")
    W.run(W.fn(MB + "::Measurement", 0), p)
    f = W.fn(MB + "::set_header", 1)
    h = sym("hdr", MB + "::MeasurementHeader")
    W.run(f, p, [h])
    l = W.loc(p)
    got = W.I.read(W.st, (l[0], l[1] + (("f", MB + "::header"),)))
    ctx.ob("P22.header", got is h, "Measurement::set_header(header)", "the header becomes %s" % show(got, 4), **at_of(f))
    ctx.used(W.I)


# -------------------------------------------------------------------- rejected quaternions
def quat_check(ctx, b, f, args, pre, gs):
    W, I = b.W, b.W.I
    key = "ImuMeasurement::set_quaternion"
    thr = I.throws
    if not ctx.ob("P22.quaternion", bool(thr), key, "never rejects a quaternion", **at_of(f)):
        return
    g = FALSE
    for v, es in thr:
        g = or_(g, es.gate)
        for x in gs:
            got = W.getter(b.ptr, b.cls + "::" + x, st=es)
            ctx.ob("P22.quaternion", got is pre[x], key + " " + x, "%s is modified although the quaternion is rejected: %s" % (x, show(got, 4)), **at_of(f))
    r = rejected(g, args)
    ctx.ob("P22.quaternion", r is not None and 0 < r <= Fraction(1, 100), key + " tolerance",
           "the rejection condition %s is not 'norm off by more than the tolerance'" % show(g, 8), **at_of(f), sample="tolerance %s" % r)


def rejected(gate, qs):
    """tolerance t such that the gate is |n-1| >= t (or > t), n the squared norm or the norm; None otherwise"""
    n2 = ZERO
    for q in qs:
        n2 = add(n2, mul(q, q))
    qs = set(qs)

    def free(v):
        return not (set(subterms(v)) | {v}) & qs

    def ev(v, x, root):
        """value at squared norm / norm x"""
        v = scal(v)
        if v.op == "num":
            return Fraction(v.a[0])
        if v is n2 and not root:
            return x
        if v.op == "fn" and v.a[0] == "sqrt" and v.a[1] is n2 and root:
            return x
        if v.op == "fn" and v.a[0] == "abs":
            return abs(ev(v.a[1], x, root))
        if v.op == "P" or poly(v):
            p = dict(poly(v))
            tot = Fraction(0)
            rest = ZERO
            # split into the part proportional to n2 and atoms
            c2 = None
            for mono, c in list(p.items()):
                for a, k in mono:
                    if a in qs:
                        c2 = c if c2 is None else c2
            if c2 is not None:
                if root:
                    raise Unsupported("mixed")
                d = sub(v, mul(num(c2), n2))
                if not free(d):
                    raise Unsupported("not a function of the norm")
                return c2 * x + ev(d, x, root)
            if any(a is v for mono in p for a, k in mono):
                raise Unsupported(show(v, 4))
            for mono, c in p.items():
                t = Fraction(c)
                for a, k in mono:
                    t *= ev(a, x, root) ** k
                tot += t
            return tot
        raise Unsupported(show(v, 4))

    def truth_at(g, x, root):
        if g is TRUE or g is FALSE:
            return g is TRUE
        if g.op == "ite":
            return truth_at(g.a[1], x, root) if truth_at(g.a[0], x, root) else truth_at(g.a[2], x, root)
        if g.op == "pos":
            return ev(g.a[0], x, root) > 0
        raise Unsupported(show(g, 4))

    root = any(x.op == "fn" and x.a[0] == "sqrt" for x in subterms(gate))
    try:
        if truth_at(gate, Fraction(1), root) or not truth_at(gate, Fraction(2), root) or not truth_at(gate, Fraction(0), root):
            return None
        # the boundary above 1: candidate constants of the condition
        cands = set()
        for x in subterms(gate):
            if x.op == "num":
                cands.add(abs(Fraction(x.a[0])))
            if x.op == "P" or (x.op == "pos"):
                for c in poly(scal(x.a[0] if x.op == "pos" else x)).values():
                    cands.add(abs(Fraction(c)))
                    cands.add(abs(abs(Fraction(c)) - 1))
        cands = sorted(c for c in cands if 0 < c < 1)
        for t in cands:
            e = t / 10 ** 6
            if not truth_at(gate, 1 + t - e, root) and not truth_at(gate, 1 - t + e, root) and truth_at(gate, 1 + t + e, root) and truth_at(gate, 1 - t - e, root):
                pts = [1 + s * t * k for s in (1, -1) for k in (Fraction(1, 3), Fraction(2, 3), Fraction(3, 2), 3) if 0 <= 1 + s * t * k]
                if all(truth_at(gate, p, root) == (abs(p - 1) > t) for p in pts):
                    return t
        return None
    except Unsupported:
        return None


# -------------------------------------------------------------------- odometry, legs
def odom(ctx):
    cls = "OdomMeasurement"
    W = World(ctx)
    p = W.new(M + cls, "odom")
    ct = W.fn(M + cls + "::" + cls, 5)
    tr, q = msym("translation", 3, 1), sym("quaternion", "Eigen::Quaternion<double>")
    seq, t, fr = sym("seq", "uint64_t"), dsym("stamp"), sym("frame", "std::string")
    W.run(ct, p, [tr, q, seq, t, fr])
    want = enum_of(W.F, "MeasurementType", "ODOM")
    ctx.ob("P22.type", W.getter(p, M + cls + "::get_type") is want, cls + " (pose)", "reports another type", **at_of(ct))
    ctx.ob("P22.header", W.getter(p, M + cls + "::get_time") is t, cls + " (pose)", "time stamp is %s" % show(W.getter(p, M + cls + "::get_time"), 3), **at_of(ct))
    from ..lib import toR

    def chk(R, x, key, f):
        T_ = W.getter(p, M + cls + "::get_transformation")
        exp = mset(mset(dag.I(4), 0, 0, 3, 3, R), 0, 3, 3, 1, x)
        ctx.ob("P22.store", mat_equal(T_, exp), key, "the transformation is %s" % show(T_, 5)[:300], **at_of(f))
    chk(toR(q), tr, cls + " (pose)", ct)
    x2, q2 = msym("translation2", 3, 1), sym("quaternion2", "Eigen::Quaternion<double>")
    W.run(W.fn(M + cls + "::set_translation"), p, [x2])
    W.run(W.fn(M + cls + "::set_rotation"), p, [q2])
    f = W.fn(M + cls + "::set_transformation")
    W.run(f, p)
    chk(toR(q2), x2, cls + " set_translation, set_rotation, set_transformation", f)
    ctx.used(W.I)


def legged(ctx):
    """the legged measurement: encoders, contacts and kinematic slots, for the robot classes derived from it"""
    cls = M + "LeggedKinematicsMeasurement"
    rob = M + "kinematics::MiniCheetahKinematics"
    for n in (0, 3):
        W = World(ctx)
        ct = W.fn(rob + "::MiniCheetahKinematics", n)
        p = W.new(rob, "legs%d" % n)
        enc, den = msym("encoders", 12, 1), msym("d_encoders", 12, 1)
        con = mat(4, 1, [sym("contact%d" % i, "bool") for i in range(4)])
        W.run(ct, p, [enc, den, con][:n])
        want = enum_of(W.F, "MeasurementType", "LEGGED_KINEMATICS")
        ctx.ob("P22.type", W.getter(p, MB + "::get_type") is want, "legs, %d-argument constructor" % n, "reports another type", **at_of(ct))
        if not n:
            for s, v in (("set_joint_state", enc), ("set_contact", con), ("set_joint_state_velocity", den)):
                W.run(W.fn(cls + "::" + s), p, [v])
        for i in range(12):
            got = scal(W.getter(p, cls + "::get_joint_state", n=1, args=[num(i)]))
            ctx.ob("P22.store", got is el(enc, i, 0), "legs, %d-argument constructor, encoder %d" % (n, i), "get_joint_state is %s" % show(got, 3), **at_of(ct))
        for i in range(4):
            got = truth(scal(W.getter(p, cls + "::get_contact", n=1, args=[num(i)])))
            ctx.ob("P22.store", got is truth(el(con, i, 0)), "legs, %d-argument constructor, contact %d" % (n, i), "get_contact is %s" % show(got, 3), **at_of(ct))
        # content set through the class's own members is found in the slot of its leg
        l = W.loc(p)
        pos_, jac = msym("positions", 3, 4), msym("jacobians", 3, 12)
        W.I.write(W.st, (l[0], l[1] + (("f", cls + "::positions_"),)), pos_)
        W.I.write(W.st, (l[0], l[1] + (("f", cls + "::jacobians_"),)), jac)
        for i in range(4):
            got = W.getter(p, cls + "::get_kin_pos", n=1, args=[num(i)])
            ctx.ob("P22.store", mat_equal(got, blk(pos_, 0, i, 3, 1)), "legs, position of leg %d (%d)" % (i, n), "get_kin_pos is %s" % show(got, 3), **at_of(W.fn(cls + "::get_kin_pos")))
            got = W.getter(p, cls + "::get_J", n=1, args=[num(i)])
            ctx.ob("P22.store", mat_equal(got, blk(jac, 0, 3 * i, 3, 3)), "legs, Jacobian of leg %d (%d)" % (i, n), "get_J is %s" % show(got, 3), **at_of(W.fn(cls + "::get_J")))
        ctx.used(W.I)
