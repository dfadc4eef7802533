"""P12, P13, P32: dimensions, slot layout and views of the robot state."""
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .eqs import set_state_type, PropRun, run_update, where, lincomb
from . import leg, meas

CONT = ("get_X", "get_P", "get_theta", "get_continuous_noise_covariance", "get_time", "get_propagate_time",
        "get_body_angular_velocity", "get_enable_imu_bias_update", "get_slip_flag")
SYMS = {"get_X": "X", "get_P": "P", "get_theta": "Theta", "get_continuous_noise_covariance": "Qc", "get_time": "t", "get_propagate_time": "tp"}


def at_of(f):
    return dict(file=f.get("file"), line=f.get("l", 0), fn=f["q"])


def slots(d):
    """scalar-indexed quantities: name -> (container, row, col, nrows, ncols)"""
    b = d - 6
    return {
        "rotation": ("get_X", 0, 0, 3, 3), "velocity": ("get_X", 0, 3, 3, 1), "position": ("get_X", 0, 4, 3, 1),
        "gyroscope_bias": ("get_theta", 0, 0, 3, 1), "accelerometer_bias": ("get_theta", 3, 0, 3, 1),
        "rotation_covariance": ("get_P", 0, 0, 3, 3), "velocity_covariance": ("get_P", 3, 3, 3, 3), "position_covariance": ("get_P", 6, 6, 3, 3),
        "gyroscope_bias_covariance": ("get_P", b, b, 3, 3), "accelerometer_bias_covariance": ("get_P", b + 3, b + 3, 3, 3)}


def handle(W, j):
    """the caller's column handle of the j-th added column (holds its current column)"""
    p = W.I.addr_of((("o", "handle%d" % j), ()))
    W.I.write(W.st, W.loc(p), num(5 + j))
    return p


def snap(W, st):
    return {c: W.rs(st, c) for c in CONT}


def diff(a, b, skip=()):
    return [c for c in CONT if c not in skip and a[c] is not b[c] and not (is_mat(a[c]) and mat_equal(a[c], b[c]))]


def is_mat(x):
    r, c = shape(x)
    return r is not None and (r, c) != (1, 1)


def removed(M, at, k):
    """matrix with k rows and columns at position `at` removed"""
    r, c = shape(M)
    out = undefM(r - k, c - k)
    for i0, h, si in ((0, at, 0), (at, r - at - k, at + k)):
        for j0, w, sj in ((0, at, 0), (at, c - at - k, at + k)):
            if h > 0 and w > 0:
                out = mset(out, i0, j0, h, w, blk(M, si, sj, h, w))
    return out


def inserted(M, at, V):
    """square matrix with the block V inserted on the diagonal at position `at`, zero coupling"""
    r, c = shape(M)
    k = shape(V)[0]
    out = Z(r + k, c + k)
    for i0, h, si in ((0, at, 0), (at + k, r - at, at)):
        for j0, w, sj in ((0, at, 0), (at + k, c - at, at)):
            if h > 0 and w > 0:
                out = mset(out, i0, j0, h, w, blk(M, si, sj, h, w))
    return mset(out, at, at, k, k, V)


def ns(ctx):
    return (5, 6, 7, 8, 9)


def p13(ctx):
    ctx.rule("P13.get", "each getter returns the slot of its own quantity")
    ctx.rule("P13.set", "each setter writes the slot of its own quantity and nothing else")
    ctx.rule("P13.aug", "augmented quantities of column i live in column i of the mean and in block i-2 of covariance and noise")
    ctx.rule("P13.remove", "removing column i removes exactly its own mean, covariance and noise entries and re-numbers the later ones")
    ctx.rule("P13.copy", "block-diagonal copies hold the state matrix (or its inverse) in every block")
    for n in ns(ctx):
        W = World(ctx, opaque=GAMMA_SKEW)
        st, S = W.robot_state(n, "S")
        base = W.st
        d = 3 * n
        pre = snap(W, st)
        for c, k in SYMS.items():
            f = W.fn(RSQ + "::" + c)
            ctx.ob("P13.get", pre[c] is S[k], "%s n=%d" % (c, n), "%s returns %s" % (c, show(pre[c], 4)), **at_of(f))
        for q, (c, r0, c0, h, w) in slots(d).items():
            f = W.fn(RSQ + "::get_" + q)
            got = W.rs(st, "get_" + q)
            ctx.ob("P13.get", eqm(got, blk(pre[c], r0, c0, h, w)), "%s n=%d" % (q, n), "get_%s returns %s, expected %s(%d,%d)" % (q, show(got, 4), c, r0, c0), **at_of(f))
            f = W.fn(RSQ + "::set_" + q)
            v = msym("new_" + q, h, w)
            W.st = base.clone()
            W.run(f, st, [v])
            post = snap(W, st)
            val = mset(pre[c], r0, c0, h, w, v)
            ok = mat_equal(post[c], val) and not diff(pre, post, (c,))
            ctx.ob("P13.set", ok, "%s n=%d" % (q, n), "set_%s leaves %s = %s and changes %s" % (q, c, show(post[c], 4), diff(pre, post, (c,))), **at_of(f))
            ctx.ob("P13.set", W.rs(st, "get_" + q) is v, "%s n=%d round trip" % (q, n), "get_%s after set_%s returns %s" % (q, q, show(W.rs(st, "get_" + q), 4)), **at_of(f))
            W.st = base
        whole = {"set_X": ("get_X", msym("newX", n, n)), "set_P": ("get_P", msym("newP", d, d)), "set_theta": ("get_theta", msym("newTheta", 6, 1)),
                 "set_continuous_noise_covariance": ("get_continuous_noise_covariance", msym("newQ", d, d)), "set_time": ("get_time", dsym("newt")),
                 "set_propagate_time": ("get_propagate_time", dsym("newtp")), "set_body_angular_velocity": ("get_body_angular_velocity", msym("neww", 3, 1)),
                 "set_enable_imu_bias_update": ("get_enable_imu_bias_update", sym("newflag", "bool")), "set_slip_flag": ("get_slip_flag", sym("newslip", "int"))}
        for q, (c, v) in whole.items():
            f = W.fn(RSQ + "::" + q)
            W.st = base.clone()
            W.run(f, st, [v])
            post = snap(W, st)
            ctx.ob("P13.set", post[c] is v and not diff(pre, post, (c,)), "%s n=%d" % (q, n), "%s makes %s return %s and changes %s" % (q, c, show(post[c], 4), diff(pre, post, (c,))), **at_of(f))
            W.st = base
        # ---- augmented columns
        for i in range(3, n):
            f = W.fn(RSQ + "::get_vector")
            got = W.getter(st, RSQ + "::get_vector", n=1, args=[num(i)])
            ctx.ob("P13.aug", eqm(got, blk(S["X"], 0, i, 3, 1)), "get_vector(%d) n=%d" % (i, n), "returns " + show(got, 4), **at_of(f))
        for i in range(5, n):
            for q, val in (("get_aug_state", blk(S["X"], 0, i, 3, 1)), ("get_aug_cov", blk(S["P"], 3 * i - 6, 3 * i - 6, 3, 3))):
                f = W.fn(RSQ + "::" + q)
                got = W.getter(st, RSQ + "::" + q, n=1, args=[num(i)])
                ctx.ob("P13.aug", got is val or (shape(got) == shape(val) and eqm(got, val)), "%s(%d) n=%d" % (q, i, n), "returns %s, expected %s" % (show(got, 4), show(val, 4)), **at_of(f))
            f = W.fn(RSQ + "::set_aug_state")
            W.st = base.clone()
            v = msym("newaug", 3, 1)
            W.run(f, st, [num(i), v])
            post = snap(W, st)
            val = mset(S["X"], 0, i, 3, 1, v)
            ctx.ob("P13.set", mat_equal(post["get_X"], val) and not diff(pre, post, ("get_X",)), "set_aug_state(%d) n=%d" % (i, n),
                   "X becomes %s; changed %s" % (show(post["get_X"], 4), diff(pre, post, ("get_X",))), **at_of(f))
            for q, c in (("del_aug_cov", "get_P"), ("del_aug_noise_cov", "get_continuous_noise_covariance")):
                f = W.fn(RSQ + "::" + q)
                W.st = base.clone()
                W.run(f, st, [num(i)])
                post = snap(W, st)
                val = removed(pre[c], 3 * i - 6, 3)
                ctx.ob("P13.remove", mat_equal(post[c], val) and not diff(pre, post, (c,)), "%s(%d) n=%d" % (q, i, n),
                       "%s becomes %s; changed %s" % (c, show(post[c], 4)[:200], diff(pre, post, (c,))), **at_of(f))
            W.st = base
        f = W.fn(RSQ + "::add_aug_cov")
        W.st = base.clone()
        v = msym("newcov", 3, 3)
        W.run(f, st, [v])
        post = snap(W, st)
        ctx.ob("P13.aug", mat_equal(post["get_P"], inserted(S["P"], d - 6, v)) and not diff(pre, post, ("get_P",)), "add_aug_cov n=%d" % n,
               "covariance becomes %s; changed %s" % (show(post["get_P"], 4)[:200], diff(pre, post, ("get_P",))), **at_of(f))
        W.st = base
        # ---- block-diagonal copies
        for q, g in (("copy_diag_X", "get_X"), ("copy_diag_Xinv", "get_Xinv")):
            f = W.fn(RSQ + "::" + q)
            for k in (0, 1, 3):
                for r0 in (0, 4):
                    W.st = base.clone()
                    big = (("o", "big"), ())
                    W.I.write(W.st, big, Z(0, 0) if not r0 else msym("Big", r0, r0))
                    W.run(f, st, [num(k), big])
                    got = W.I.read(W.st, big, "Eigen::MatrixXd")
                    val = Z(r0 + k * n, r0 + k * n)
                    if r0:
                        val = mset(val, 0, 0, r0, r0, msym("Big", r0, r0))
                    M = W.rs(st, g)
                    for b in range(k):
                        val = mset(val, r0 + b * n, r0 + b * n, n, n, M)
                    ok = mat_equal(got, val) if k or r0 else shape(got) == (0, 0)
                    ctx.ob("P13.copy", ok, "%s(%d) n=%d, onto %dx%d" % (q, k, n, r0, r0), "result %s is %s" % (shape(got), show(got, 4)[:250]), **at_of(f))
            W.st = base
        if n <= 7:
            p13_bias(ctx, W, st, S, pre, n)
        ctx.used(W.I)
    p13_columns(ctx)
    ctx.require("P13.get", 50, "accessors")
    ctx.require("P13.remove", 10, "removals")


def p13_bias(ctx, W, st, S, pre, n):
    base = W.st
    for k in range(0, 3):
        W.st = base.clone()
        cur = S["Theta"]
        for j in range(k):
            v = msym("aug_bias%d" % j, 3, 1)
            f = W.fn(RSQ + "::add_aug_bias")
            W.run(f, st, [v])
            new = mset(mset(undefM(9 + 3 * j, 1), 0, 0, 6 + 3 * j, 1, cur), 6 + 3 * j, 0, 3, 1, v)
            got = W.rs(st, "get_theta")
            ctx.ob("P13.aug", mat_equal(got, new) and not diff(pre, snap(W, st), ("get_theta",)), "add_aug_bias #%d n=%d" % (j, n), "biases become %s" % show(got, 4), **at_of(f))
            cur = new
        b2 = W.st
        for j in range(k):
            i = 5 + j
            f = W.fn(RSQ + "::get_aug_bias")
            got = W.getter(st, RSQ + "::get_aug_bias", n=1, args=[num(i)])
            ctx.ob("P13.aug", eqm(got, msym("aug_bias%d" % j, 3, 1)), "get_aug_bias(%d) of %d n=%d" % (i, k, n), "returns " + show(got, 4), **at_of(f))
            f = W.fn(RSQ + "::del_aug_bias")
            W.st = b2.clone()
            W.run(f, st, [num(i)])
            got = W.rs(st, "get_theta")
            want = S["Theta"]
            for jj in [x for x in range(k) if x != j]:
                r = shape(want)[0]
                want = mset(mset(undefM(r + 3, 1), 0, 0, r, 1, want), r, 0, 3, 1, msym("aug_bias%d" % jj, 3, 1))
            ctx.ob("P13.remove", mat_equal(got, want) and not diff(pre, snap(W, st), ("get_theta",)), "del_aug_bias(%d) of %d n=%d" % (i, k, n), "biases become %s" % show(got, 4), **at_of(f))
            W.st = b2
    W.st = base


def p13_columns(ctx):
    """add k columns, delete any one of them: column handles of the others follow their columns"""
    for k in range(1, 5):
        W = World(ctx, opaque=GAMMA_SKEW)
        st, S = W.robot_state(5, "S")
        f = W.fn(RSQ + "::add_aug_state")
        g = W.fn(RSQ + "::del_aug_state")
        ptrs = []
        for j in range(k):
            v, P, Qn = msym("aug%d" % j, 3, 1), msym("Paug%d" % j, 18 + 3 * j, 18 + 3 * j), msym("qaug%d" % j, 3, 3)
            pre = snap(W, st)
            p = handle(W, j)
            ptrs.append(W.loc(p))
            ret = W.run(f, st, [v, P, Qn, p])
            post = snap(W, st)
            n = 6 + j
            X = mset(mset(I(n), 0, 0, n - 1, n - 1, pre["get_X"]), 0, n - 1, 3, 1, v)
            q = inserted(pre["get_continuous_noise_covariance"], 3 * (n - 1) - 6, Qn)
            ok = mat_equal(post["get_X"], X) and post["get_P"] is P and mat_equal(post["get_continuous_noise_covariance"], q) and not diff(pre, post, ("get_X", "get_P", "get_continuous_noise_covariance"))
            ctx.ob("P13.aug", ok, "add_aug_state #%d" % j, "X=%s P=%s Qc=%s" % (show(post["get_X"], 3)[:120], show(post["get_P"], 3)[:80], show(post["get_continuous_noise_covariance"], 3)[:160]), **at_of(f))
            ctx.ob("P13.aug", ret is num(n - 1), "add_aug_state #%d index" % j, "returned column %s, the new column is %d" % (show(ret, 3), n - 1), **at_of(f))
        base = W.st
        pre = snap(W, st)
        for i in range(5, 5 + k):
            W.st = base.clone()
            W.run(g, st, [num(i)])
            post = snap(W, st)
            ok = mat_equal(post["get_X"], removed(pre["get_X"], i, 1)) and mat_equal(post["get_P"], removed(pre["get_P"], 3 * i - 6, 3)) and mat_equal(
                post["get_continuous_noise_covariance"], removed(pre["get_continuous_noise_covariance"], 3 * i - 6, 3))
            ok = ok and not diff(pre, post, ("get_X", "get_P", "get_continuous_noise_covariance"))
            ctx.ob("P13.remove", ok, "del_aug_state(%d) of %d" % (i, k), "X=%s P=%s" % (show(post["get_X"], 3)[:160], show(post["get_P"], 3)[:160]), **at_of(g))
            got = [W.I.read(W.st, l, "int") for l in ptrs]
            want = {j: 5 + j - (1 if 5 + j > i else 0) for j in range(k) if 5 + j != i}
            bad = [j for j in want if got[j] is not num(want[j])]
            ctx.ob("P13.remove", not bad, "del_aug_state(%d) of %d handles" % (i, k), "column handles become %s, expected %s" % ([show(x, 2) for x in got], want), **at_of(g))
            # the next augmentation goes behind the remaining ones
            got = W.run(f, st, [msym("augN", 3, 1), msym("PaugN", 15 + 3 * k, 15 + 3 * k), msym("qaugN", 3, 3), handle(W, 9)])
            ctx.ob("P13.aug", got is num(4 + k), "add_aug_state after del_aug_state(%d) of %d" % (i, k), "returned column %s" % show(got, 3), **at_of(f))
        W.st = base
        ctx.used(W.I)


# -------------------------------------------------------------------- P12
def oob(M):
    return [x for x in subterms(M) if x.op == "oob"]


def consistent(ctx, rule, key, W, st, at, n=None, theta=6):
    X, P, Q, th = (W.rs(st, g) for g in ("get_X", "get_P", "get_continuous_noise_covariance", "get_theta"))
    sx, sp, sq, sth = shape(X), shape(P), shape(Q), shape(th)
    ok = is_int(sx[0]) and is_int(sth[0]) and sx[0] == sx[1] and sth[1] == 1
    d = 3 * sx[0] - 6 + sth[0] if ok else None
    ok = ok and sp == (d, d) and sq == (d, d) and (n is None or sx[0] == n) and sth[0] == theta
    ctx.ob(rule, ok, key, "mean %s, biases %s, covariance %s, noise %s do not belong together" % (sx, sth, sp, sq), **at)
    b = [x for M in (X, P, Q, th) for x in oob(M)]
    ctx.ob(rule, not b, key + " bounds", "access outside a matrix: %s" % [show(x, 3)[:120] for x in b[:2]], **at)
    dims_ = [W.rs(st, g) for g in ("dimX", "dimP", "dimQc", "dimTheta")]
    if ok:
        want = [num(sx[0]), num(d), num(d), num(sth[0])]
        ctx.ob(rule, all(a is b for a, b in zip(dims_, want)), key + " reported", "dimX/dimP/dimQc/dimTheta report %s" % [show(x, 3) for x in dims_], **at)


def p12(ctx):
    ctx.rule("P12.state", "mean, bias, covariance and noise have matching dimensions and no block operation leaves its matrix")
    ctx.rule("P12.update", "innovation, Jacobian, noise and covariance fit together at every update")
    ctx.rule("P12.defined", "every element handed to an update was written")
    ctx.rule("P12.ctor", "every constructor and clear() give a state with matching dimensions")
    ctx.rule("P12.propagate", "propagation keeps all dimensions for every augmentation count and configuration")
    # constructors
    F = ctx.facts()
    nc = 0
    for f in F.by_q.get(RSQ + "::RobotState", []):
        if not f.get("params") and f.get("body") is None and not f.get("ctor"):
            continue
        if any("RobotState" in p["t"] for p in f["params"]):
            continue
        for n, nt in (((5, 6), (6, 6), (8, 6), (6, 9)) if f["params"] else ((5, 6),)):
            W = World(ctx, opaque=GAMMA_SKEW)
            st = W.new(RSQ, "st")
            sek = any("SEK3" in p["t"] for p in f["params"])
            if len(f["params"]) == 1:
                if nt != 6:
                    continue
                nt = 3 * (n - 3) if sek else 6
            args = []
            for k, p in enumerate(f["params"]):
                if "SEK3" in p["t"]:
                    o = W.new("math::SEK3", "grp")
                    W.run(W.fn("math::SEK3::SEK3", 1, lambda f: "SEK3" not in f["params"][0]["t"]), o, [msym("X", n, n)])
                    args.append(W.loc(o))
                else:
                    args.append(msym("a%d" % k, *((n, n) if k == 0 else (nt, 1) if k == 1 else (3 * n + nt - 6, 3 * n + nt - 6))))
            W.run(f, st, args)
            nc += 1
            consistent(ctx, "P12.ctor", "RobotState(%s) n=%d biases=%d" % (", ".join(p["t"] for p in f["params"]), n, nt), W, st, at_of(f), n, nt)
    if nc < 5:
        raise AnalysisBroken("constructors of RobotState not found")
    for n in ns(ctx):
        W = World(ctx, opaque=GAMMA_SKEW)
        st, S = W.robot_state(n, "S")
        f = W.fn(RSQ + "::clear")
        W.run(f, st, [])
        consistent(ctx, "P12.ctor", "clear() n=%d" % n, W, st, at_of(f), 5)
    # augmentation
    for k in range(0, 5):
        W = World(ctx, opaque=GAMMA_SKEW)
        st, S = W.robot_state(5, "S")
        f, g = W.fn(RSQ + "::add_aug_state"), W.fn(RSQ + "::del_aug_state")
        for j in range(k):
            W.run(f, st, [msym("aug%d" % j, 3, 1), msym("Paug%d" % j, 18 + 3 * j, 18 + 3 * j), msym("qaug%d" % j, 3, 3), handle(W, j)])
            consistent(ctx, "P12.state", "add_aug_state #%d" % j, W, st, at_of(f), 6 + j)
        base = W.st
        for i in range(5, 5 + k):
            W.st = base.clone()
            W.run(g, st, [num(i)])
            consistent(ctx, "P12.state", "del_aug_state(%d) of %d" % (i, k), W, st, at_of(g), 4 + k)
        ctx.used(W.I)
    # propagation
    for stype, err in (("WorldCentric", "RightInvariant"), ("WorldCentric", "LeftInvariant"), ("BodyCentric", "RightInvariant"), ("BodyCentric", "LeftInvariant")):
        for n in ns(ctx):
            r = PropRun(ctx, n, stype, err)
            consistent(ctx, "P12.propagate", "Propagate %s/%s n=%d" % (stype, err, n), r.W, r.st, where(r), n)
    # updates
    for side in ("Right", "Left"):
        for err in ("RightInvariant", "LeftInvariant"):
            for n in ns(ctx):
                for m in (3, 6, 9, 12) if ctx.tier == "thorough" else (3, 12):
                    W, f, st, S, Zv, H, Nn, pre, post = run_update(ctx, side, err, True, n, m)
                    consistent(ctx, "P12.update", "Correct%sInvariant/%s n=%d m=%d" % (side, err, n, m), W, st, at_of(f), n)
    # measurement models
    for n in ns(ctx):
        calls = []
        W, vc, st, S = meas.vel_world(ctx, "RightInvariant", n, calls)
        f = W.fn(meas.VCQ + "::Correct")
        W.run(f, vc, [W.loc(st)])
        live = [c for c in calls if c["gate"] is not FALSE]
        for c in live:
            M = [v for v in c["vals"] if v.op != "enum"]
            ok = len(M) >= 3 and shape(M[0]) == (3, 1) and shape(M[1]) == (3, 3 * n) and shape(M[2]) == (3, 3)
            ctx.ob("P12.update", ok, "velocity n=%d" % n, "innovation %s, Jacobian %s, noise %s for %d columns" % (tuple(map(shape, M[:3])) + (n,)) if len(M) > 2 else "arguments missing", **at_of(f))
            for nm, x in zip(("innovation", "Jacobian", "noise"), M):
                u = leg.uninit_part(x)
                ctx.ob("P12.defined", u is None, "velocity n=%d %s" % (n, nm), "%s: %s" % (nm, u), **at_of(f))
        ctx.used(W.I)
    leg.explore(ctx, {"P12.update", "P12.defined", "P12.state"}, 2 if ctx.tier == "quick" else None)
    ctx.require("P12.update", 30, "updates")
    ctx.require("P12.propagate", 20, "propagation")


# -------------------------------------------------------------------- P32
def p32(ctx):
    ctx.rule("P32.inverse", "the inverse of the state matrix has R^T and -R^T x columns")
    ctx.rule("P32.view", "world and body views return the stored quantity or its rotated counterpart according to the convention")
    for n in ns(ctx):
        for stype in ("WorldCentric", "BodyCentric"):
            W = World(ctx, opaque=GAMMA_SKEW)
            st, S = W.robot_state(n, "S")
            if stype != "WorldCentric":
                set_state_type(W, st, stype)
            X, R, v, p = S["X"], S["R"], S["v"], S["p"]
            Xi = mset(I(n), 0, 0, 3, 3, T(R))
            for j in range(3, n):
                Xi = mset(Xi, 0, j, 3, 1, mneg(mmul(T(R), blk(X, 0, j, 3, 1))))
            world = stype == "WorldCentric"
            want = {
                "get_Xinv": Xi,
                "get_world_X": X if world else Xi, "get_body_X": Xi if world else X,
                "get_world_rotation": R if world else T(R), "get_body_rotation": T(R) if world else R,
                "get_world_velocity": v if world else mneg(mmul(T(R), v)), "get_body_velocity": mmul(T(R), v) if world else v,
                "get_world_position": p if world else mneg(mmul(T(R), p)), "get_body_position": mmul(T(R), p) if world else p}
            pre = snap(W, st)
            for g, val in want.items():
                f = W.fn(RSQ + "::" + g)
                got = W.rs(st, g)
                ok = mat_equal(got, val)
                ctx.ob("P32.inverse" if g.endswith("inv") else "P32.view", ok, "%s %s n=%d" % (g, stype, n), "%s returns %s, expected %s" % (g, show(got, 5)[:250], show(val, 5)[:250]), **at_of(f))
            ctx.used(W.I)
    ctx.require("P32.view", 50, "views")
