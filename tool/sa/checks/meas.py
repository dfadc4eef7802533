"""P18: measurement models of the corrections."""
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .eqs import enum_of, lincomb, mprod, ykeys, quat_R, vecel
from . import leg

VCQ = "filter::inekf::VelocityCorrection"
VM = "measurement::VelocityMeasurement"


def present(W, extra):
    """every optional configuration entry is present; selected entries get the given value"""
    for root, v in list(W.st.env.items()):
        if isinstance(v, N):
            m = {}
            for x in subterms(v):
                if x.op == "bsym" and x.a[0] == "yhas":
                    m[x] = TRUE
                elif x.op == "yas":
                    k = ykeys(x.a[0])[-1]
                    if k in extra:
                        m[x] = extra[k]
            if m:
                W.st.env[root] = subst(v, m)


def nonempty(c):
    m = {}
    for x in subterms(c):
        if x.op == "size" and x.a[0].op in ("qv", "pop"):
            m[pos(x)] = TRUE
    return subst(c, m) if m else c


def capture(calls):
    def mk_(side):
        def h(I, e, st):
            pts = e.get("pt", [])
            vals = []
            for i, a in enumerate(e["args"]):
                x = I.ev_arg(a, pts[i] if i < len(pts) else "", st)
                if isinstance(x, tuple):
                    if "RobotState" in pts[i]:
                        continue
                    x = I.read(st, x, a.get("t"))
                vals.append(x)
            calls.append(dict(side=side, vals=vals, gate=st.gate, line=e.get("l"), fn=I.stack[-1].fn["q"], file=I.stack[-1].fn.get("file")))
            return UNIT
        return h
    return {"filter::inekf::Correct%sInvariant" % s: mk_(s) for s in ("Right", "Left")}


def vel_world(ctx, err, n, calls):
    op = dict(GAMMA_SKEW)
    op.update(capture(calls))
    op[VM + "::get_velocity"] = lambda I, e, st: msym("vmeas", 3, 1)
    op[leg.MQ + "::get_time"] = lambda I, e, st: sub(dsym("tpS"), num(Fraction(1, 10)))
    W = World(ctx, opaque=op, assume=nonempty)
    vc = W.new(VCQ, "velc")
    ct = W.fn(VCQ + "::VelocityCorrection")
    W.run(ct, vc, [enum_of(W.F, "ErrorType", err) if "ErrorType" in p["t"] else sym("ctor:" + p["n"], p["t"]) for p in ct["params"]])
    present(W, {"correction_time_threshold": ONE})
    st, S = W.robot_state(n, "S")
    return W, vc, st, S


from fractions import Fraction


def model_vel(W, S, vals):
    c = leg.split_cov(W, vals)
    q = c.get("rotation_vel2body", sym("unused rotation_vel2body"))
    sc = c.get("velocity_scale", dsym("unused velocity_scale"))
    Rv = quat_R(q)
    dag.ORTHO.add(Rv)
    return Rv, mscale(sc, mprod([S["R"], Rv, msym("vmeas", 3, 1)])), c


def renorm(v):
    """normalise again after rotation matrices were declared"""
    return subst_all(v)


def subst_all(v):
    m = msym("__none__", 1, 1)
    from ..dag import rebuild
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(v)


def p18(ctx):
    ctx.rule("P18.innovation", "innovation compares the measurement with the estimate of the same quantity, in the world frame")
    ctx.rule("P18.jacobian", "the Jacobian selects exactly the compared quantities with the matching sign")
    ctx.rule("P18.noise", "the noise is the measurement covariance rotated into the world frame")
    ctx.rule("P18.convention", "the update is the right-invariant one with the configured error convention")
    ctx.rule("P18.init", "initialisation sets the velocity to the same mapped measurement that the correction compares with")
    for err in ("RightInvariant", "LeftInvariant"):
        for n in (5,) if ctx.tier == "conf" else (5, 6, 9):
            calls = []
            W, vc, st, S = vel_world(ctx, err, n, calls)
            f = W.fn(VCQ + "::Correct")
            at = dict(file=f.get("file"), line=f.get("l", 0), fn=f["q"])
            label = "velocity, %s, %d columns" % (err, n)
            pre = W.st.clone()
            W.run(f, vc, [W.loc(st)])
            ctx.used(W.I)
            live = [c for c in calls if c["gate"] is not FALSE]
            ctx.ob("P18.convention", len(live) == 1 and live[0]["gate"] is TRUE and live[0]["side"] == "Right" and
                   [v.a[2].split("::")[-1] for v in live[0]["vals"] if v.op == "enum"] == [err], label,
                   "an acceptable velocity sample leads to the update(s) %s" % [(c["side"], show(c["gate"], 3), [show(v) for v in c["vals"] if v.op == "enum"]) for c in live], **at)
            if len(live) != 1:
                continue
            mats = [v for v in live[0]["vals"] if v.op != "enum"]
            Rv, mapped, c = model_vel(W, S, mats)
            Z_, H_, N_ = [renorm(x) for x in mats[:3]]
            val = msub(mapped, S["v"])
            ctx.ob("P18.innovation", mat_equal(Z_, val), label, "innovation is %s, expected %s" % (show(Z_, 6)[:300], show(val, 6)[:300]), **at, sample=show(val, 4))
            okH = shape(H_) == (3, 3 * n) and all(blk(H_, 0, 3 * j, 3, 3) is (I(3) if j == 1 else Z(3, 3)) for j in range(n))
            ctx.ob("P18.jacobian", okH, label, "Jacobian is %s" % show(H_, 6)[:300], **at)
            sd = c.get("velocity_std", dsym("unused velocity_std"))
            val = mscale(mul(sd, sd), I(3))
            alt = mprod([S["R"], val, T(S["R"])])
            ctx.ob("P18.noise", mat_equal(N_, alt), label, "noise is %s, expected %s" % (show(N_, 6)[:300], show(alt, 6)[:300]), **at)
            if n == 5:
                W.st = pre
                g = W.fn(VCQ + "::initialize")
                W.run(g, vc, [W.loc(st)])
                got = W.rs(st, "get_velocity")
                got, mp = renorm(got), renorm(mapped)
                ctx.ob("P18.init", eqm(got, mp), "velocity " + err, "initial velocity is %s, expected %s" % (show(got, 6)[:300], show(mp, 6)[:300]),
                       file=g.get("file"), line=g.get("l", 0), fn=g["q"])
    for err in ("RightInvariant", "LeftInvariant"):
        L = leg.LegWorld(ctx, err)
        W = L.W
        W.I.opaque[leg.LKM + "::get_init_velocity"] = init_vel
        g = W.fn(leg.LKQ + "::initialize")
        w = msym("bodyw", 3, 1)
        W.run(W.fn(RSQ + "::set_body_angular_velocity"), L.stp, [w])
        W.run(g, L.lk, [W.loc(L.stp)])
        got = W.rs(L.stp, "get_velocity")
        v = mk("call", "init_velocity", w)
        val = mmul(L.S["R"], v)
        ctx.ob("P18.init", eqm(got, val), "legs " + err, "initial velocity is %s, expected %s" % (show(got, 6)[:300], show(val, 6)[:300]),
               file=g.get("file"), line=g.get("l", 0), fn=g["q"])
    rules = {"P18.innovation", "P18.jacobian", "P18.noise", "P18.convention"}
    leg.explore(ctx, rules, {"quick": 2, "conf": 1}.get(ctx.tier))
    ctx.require("P18.innovation", 50, "measurement models")


def init_vel(I, e, st):
    a = I.ev_arg(e["args"][0], "const Eigen::Vector3d &", st)
    if isinstance(a, tuple):
        a = I.read(st, a, e["args"][0].get("t"))
    n = mk("call", "init_velocity", a)
    dag.SHAPE[n] = (3, 1)
    return n
