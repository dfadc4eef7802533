"""P14, P15: IMU propagation; compared with the strapdown equations as value-flow normal forms."""
from ..dag import *
from .. import dag
from ..vf import stript, notmpl, qfront
from ..model import *
from ..facts import AnalysisBroken
from fractions import Fraction

IMU = "measurement::ImuMeasurement"
IPQ = "filter::inekf::ImuPropagation"
ET = {"RightInvariant": None, "LeftInvariant": None}


def enum_of(F, name, const):
    for q, e in F.enums.items():
        if q.split("::")[-1] == name:
            for c in e["vals"]:
                if c["n"] == const:
                    return enum(q + "::" + const, int(c["v"]), q)
    raise AnalysisBroken("no enumerator %s::%s" % (name, const))


def set_state_type(W, st, const):
    """give the robot state object the other frame convention (the library has no setter)"""
    f = W.fn(RSQ + "::get_state_type")
    save, W.I.track = W.I.track, []
    W.probe(f, st)
    tr, W.I.track = W.I.track, save
    fields = {t[1] for t in tr if t[0] == "r"}
    if len(fields) != 1:
        raise AnalysisBroken("get_state_type reads %s" % sorted(fields))
    root, path = W.loc(st)
    W.I.write(W.st, (root, path + (("f", fields.pop()),)), enum_of(W.F, "StateType", const))


def make_prop(W, err):
    ip = W.new(IPQ, "prop")
    ct = W.fn(IPQ + "::ImuPropagation")
    args = []
    for p in ct["params"]:
        if "ErrorType" in p["t"]:
            args.append(enum_of(W.F, "ErrorType", err))
        else:
            args.append(sym("ctor:" + p["n"], p["t"]))
    W.run(ct, ip, args)
    return ip


def popped(W, since):
    """the sample removed from a shared queue by the events recorded since index `since`"""
    for e in W.I.events[since:]:
        if e.kind == "qop" and e.d["op"].startswith("pop"):
            pre = e.d["pre"]
            return qfront(pre)
    raise AnalysisBroken("no sample is taken from the queue")


def assume_present(*vals):
    """every optional configuration entry is present; queues are not empty"""
    m = nonempty_all(*vals)
    for v in vals:
        for x in subterms(v):
            if x.op == "bsym" and x.a[0] == "yhas":
                m[x] = TRUE
    return m


def cfg(W, path, ty):
    """value of the configuration entry `path` (list of keys) as the code reads it, for any root file"""
    raise NotImplementedError


def yas_nodes(*vals):
    out = {}
    for v in vals:
        for x in subterms(v):
            if x.op == "yas":
                out.setdefault(ykeys(x.a[0]), set()).add(x)
    return out


def ykeys(n):
    ks = []
    while n.op == "ynode":
        k = n.a[1]
        ks.append(str(k.a[0]) if isinstance(k, N) else str(k))
        n = n.a[0]
    return tuple(reversed(ks))


class PropRun:
    """ctor -> set_initial_state(other state) -> Propagate(symbolic state)"""

    def __init__(self, ctx, n, stype, err, opaque=GAMMA_SKEW, qc=None):
        W = self.W = World(ctx, opaque=opaque)
        ip = self.ip = make_prop(W, err)
        st0, _ = W.robot_state(5, "init")
        e0 = len(W.I.events)
        W.run(W.fn(IPQ + "::set_initial_state"), ip, [W.loc(st0)])
        self.m = popped(W, e0)
        self.st, self.S = W.robot_state(n, "S")
        if qc is not None:
            self.S["Qc"] = qc(self.S)
            W.run(W.fn(RSQ + "::set_continuous_noise_covariance"), self.st, [self.S["Qc"]])
        if stype != "WorldCentric":
            set_state_type(W, self.st, stype)
        self.e1 = len(W.I.events)
        self.fn = W.fn(IPQ + "::Propagate")
        self.pre = W.st.clone()
        self.ret = W.run(self.fn, ip, [W.loc(self.st)])
        self.X = W.rs(self.st, "get_X")
        self.P = W.rs(self.st, "get_P")
        self.th = W.rs(self.st, "get_theta")
        self.amap = assume_present(self.ret, self.X, self.P, self.th)
        ctx.used(W.I)

    def v(self, x):
        return subst(x, self.amap)

    def meas(self, g):
        return self.W.getter(self.m, IMU + "::" + g)


def fix(v, key, val, amap=None):
    """fix the boolean configuration entry with this key"""
    m = {}
    for x in subterms(v):
        if x.op == "yas" and ykeys(x.a[0])[-1:] == (key,):
            m[x] = val
            m[truth(x)] = val
    return subst(v, m) if m else v


def cfgval(W, vals, key):
    from .. import lib
    if lib.neutral(key) is not None:
        return lib.neutral(key)
    xs = {x for v in vals for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == (key,)}
    return xs.pop() if len(xs) == 1 else None


def vecel(x, i):
    from ..vf import vget
    return vget(x, num(i), "double")


def cfg_node(W, vals, *keys):
    """configuration entry read in the values, or a fresh symbol (so that the comparison fails) when it is not used"""
    x = cfgval(W, vals, keys[-1])
    return x if x is not None else sym("unused configuration entry " + "/".join(keys))


def vnorm(v):
    from ..lib import norm
    return norm(v)


def quat_R(q):
    from .. import lib
    return lib.toR(mk("quat", *[vecel(q, i) for i in range(4)]))


def strapdown(r, vals):
    """the quantities of the specification: bias-corrected body rate and acceleration, time step"""
    W, S = r.W, r.S
    Ri = quat_R(cfg_node(W, vals, "settings", "rotation_imu2body"))
    t = cfg_node(W, vals, "settings", "translation_imu2body")
    t = mat(3, 1, [vecel(t, i) for i in range(3)])
    w = msub(mmul(Ri, r.meas("get_angular_velocity")), S["bg"])
    a = msub(msub(mmul(Ri, r.meas("get_lin_acc")), S["ba"]), mmul(skew(w), mmul(skew(w), t)))
    dt = sub(r.meas("get_time"), S["tp"])
    return w, a, dt


def gravity():
    """documented default: 9.80 m/s^2, z up"""
    return mat(3, 1, [ZERO, ZERO, num(Fraction(-98, 10))])


def lincomb(*cs):
    out = None
    for c, m in cs:
        x = mscale(c, m)
        out = x if out is None else madd(out, x)
    return out


PROP_FILE = "src/filter/inekf/propagation/imu_propagation.cpp"


def where(r):
    f = r.fn
    return dict(file=f.get("file") or PROP_FILE, line=f.get("l", 0), fn=f["q"])


def dims(ctx):
    if ctx.tier == "conf":
        return (5,)
    return (5, 6, 7, 8, 9) if ctx.tier == "thorough" else (5, 6, 9)


HALF = num(Fraction(1, 2))


def p14(ctx):
    ctx.rule("P14.mean", "after one propagation step the rotation, velocity, position and augmented columns are the strapdown equations (normal-form equality)")
    ctx.rule("P14.rest", "the last rows of the state matrix, the biases and all other columns are unchanged")
    for stype in ("WorldCentric", "BodyCentric"):
        for n in dims(ctx):
            r = PropRun(ctx, n, stype, "RightInvariant")
            X = r.v(r.X)
            w, a, dt = [r.v(x) for x in strapdown(r, [r.X])]
            S, g = r.S, gravity()
            R, v, p = S["R"], S["v"], S["p"]
            phi = mscale(dt, w)
            A0, A1, A2 = gamma(phi, 0), gamma(phi, 1), gamma(phi, 2)
            dt2 = mul(dt, dt)
            if stype == "WorldCentric":
                exp = {"rotation": (0, 0, 3, 3, mmul(R, A0)),
                       "velocity": (0, 3, 3, 1, lincomb((ONE, v), (dt, mmul(R, mmul(A1, a))), (dt, g))),
                       "position": (0, 4, 3, 1, lincomb((ONE, p), (dt, v), (dt2, mmul(R, mmul(A2, a))), (mul(HALF, dt2), g)))}
                for i in range(5, n):
                    exp["column %d" % i] = (0, i, 3, 1, blk(S["X"], 0, i, 3, 1))
            else:
                A0t = T(A0)
                exp = {"rotation": (0, 0, 3, 3, mmul(A0t, R)),
                       "velocity": (0, 3, 3, 1, mmul(A0t, lincomb((ONE, v), (neg(dt), mmul(A1, a)), (neg(dt), mmul(R, g))))),
                       "position": (0, 4, 3, 1, mmul(A0t, lincomb((ONE, p), (dt, v), (neg(dt2), mmul(A2, a)), (neg(mul(HALF, dt2)), mmul(R, g)))))}
                for i in range(5, n):
                    exp["column %d" % i] = (0, i, 3, 1, mmul(A0t, blk(S["X"], 0, i, 3, 1)))
            exp["last rows"] = (3, 0, n - 3, n, blk(S["X"], 3, 0, n - 3, n))
            ok_shape = shape(X) == (n, n)
            for nm, (i, j, h, k, val) in exp.items():
                got = blk(X, i, j, h, k) if ok_shape else X
                ctx.ob("P14.rest" if nm in ("last rows",) or nm.startswith("column") else "P14.mean", eqm(got, val),
                       "%s, %s, %d columns" % (nm, stype, n),
                       "propagated %s is %s, the equations give %s" % (nm, show(got, 5)[:400], show(val, 5)[:400]), **where(r),
                       sample=show(val, 4)[:200])
            ctx.ob("P14.rest", r.v(r.th) is S["Theta"], "biases, %s, %d columns" % (stype, n),
                   "propagation changed the bias estimates", **where(r))
    ctx.require("P14.mean", 12, "mean propagation")


def phi_left(r, n, w, a, dt, bias, small):
    S = r.S
    d = 3 * n
    phi = mscale(dt, w)
    A0, A1, A2 = gamma(phi, 0), gamma(phi, 1), gamma(phi, 2)
    G0t, G1t = T(A0), T(A1)
    dt2 = mul(dt, dt)
    g = {(i, i): I(3) for i in range(n)}
    g[(0, 0)] = G0t
    g[(1, 0)] = mneg(mscale(dt, mmul(G0t, skew(mmul(A1, a)))))
    g[(2, 0)] = mneg(mscale(dt2, mmul(G0t, skew(mmul(A2, a)))))
    g[(1, 1)] = G0t
    g[(2, 1)] = mscale(dt, G0t)
    g[(2, 2)] = G0t
    for i in range(5, n):
        g[(i - 2, i - 2)] = G0t
    b = n - 2
    if bias:
        p25, p35 = bias_blocks(w, a, dt, small)
        g[(0, b)] = mneg(mscale(dt, G1t))
        g[(1, b)] = p25
        g[(2, b)] = p35
        g[(1, b + 1)] = mneg(mscale(dt, G1t))
        g[(2, b + 1)] = mneg(mscale(dt2, mmul(G0t, A2)))
    else:
        for i in (b, b + 1):
            g.pop((i, i))
    return g


def phi_right(r, n, w, a, dt, bias, small):
    S = r.S
    R, v, p = S["R"], S["v"], S["p"]
    phi = mscale(dt, w)
    A0, A1, A2 = gamma(phi, 0), gamma(phi, 1), gamma(phi, 2)
    dt2 = mul(dt, dt)
    gv = gravity()
    gx = skew(gv)
    g = {(i, i): I(3) for i in range(n)}
    g[(1, 0)] = mscale(dt, gx)
    g[(2, 0)] = mscale(mul(HALF, dt2), gx)
    g[(2, 1)] = mscale(dt, I(3))
    b = n - 2
    if bias:
        p25, p35 = bias_blocks(w, a, dt, small)
        RG0, RG1, RG2 = mmul(R, A0), mscale(dt, mmul(R, A1)), mscale(dt2, mmul(R, A2))
        g[(0, b)] = mneg(RG1)
        g[(1, b)] = madd(mneg(mmul(skew(lincomb((ONE, v), (ONE, mmul(RG1, a)), (dt, gv))), RG1)), mmul(RG0, p25))
        g[(2, b)] = madd(mneg(mmul(skew(lincomb((ONE, p), (dt, v), (ONE, mmul(RG2, a)), (mul(HALF, dt2), gv))), RG1)), mmul(RG0, p35))
        for i in range(5, n):
            g[(i - 2, b)] = mneg(mmul(skew(blk(S["X"], 0, i, 3, 1)), RG1))
        g[(1, b + 1)] = mneg(RG1)
        g[(2, b + 1)] = mneg(RG2)
    else:
        for i in (b, b + 1):
            g.pop((i, i))
    return g


def bias_blocks(w, a, dt, small):
    """coupling of velocity and position errors with the gyroscope bias (left-invariant form; closed forms of
    the time integrals of G0^T (G1 a)^ G1 ..., Hartley et al., IJRR 2020)"""
    ax, wx = skew(a), skew(w)
    dt2, dt3 = mul(dt, dt), mul(dt, mul(dt, dt))
    if small:
        return mscale(mul(HALF, dt2), ax), mscale(mul(num(Fraction(1, 6)), dt3), ax)
    phi = mscale(dt, w)
    G0t, G2t, G3t = T(gamma(phi, 0)), T(gamma(phi, 2)), T(gamma(phi, 3))
    th = vnorm(w)
    x = mul(th, dt)
    s, c, s2, c2 = fn("sin", x), fn("cos", x), fn("sin", mul(num(2), x)), fn("cos", mul(num(2), x))
    x2, x3 = mul(x, x), mul(x, mul(x, x))

    def pw(k):
        o = ONE
        for _ in range(k):
            o = mul(o, th)
        return o

    def lc(*ts):
        o = ZERO
        for k, t in ts:
            o = add(o, mul(num(Fraction(k)), t))
        return o
    xs, xc = mul(x, s), mul(x, c)
    m = lambda *ms: mprod(ms)
    wx2 = mmul(wx, wx)
    p25 = lincomb(
        (dt2, m(ax, G2t)),
        (div(lc((1, s), (-1, xc)), pw(3)), m(wx, ax)),
        (neg(div(lc((1, c2), (-4, c), (3, ONE)), mul(num(4), pw(4)))), m(wx, ax, wx)),
        (div(lc((4, s), (1, s2), (-4, xc), (-2, x)), mul(num(4), pw(5))), m(wx, ax, wx2)),
        (div(lc((1, x2), (-2, xs), (-2, c), (2, ONE)), mul(num(2), pw(4))), m(wx2, ax)),
        (neg(div(lc((6, x), (-8, s), (1, s2)), mul(num(4), pw(5)))), m(wx2, ax, wx)),
        (div(lc((2, x2), (-4, xs), (-1, c2), (1, ONE)), mul(num(4), pw(6))), m(wx2, ax, wx2)))
    p35 = lincomb(
        (dt3, m(ax, G3t)),
        (neg(div(lc((1, xs), (2, c), (-2, ONE)), pw(4))), m(wx, ax)),
        (neg(div(lc((6, x), (-8, s), (1, s2)), mul(num(8), pw(5)))), m(wx, ax, wx)),
        (neg(div(lc((2, x2), (8, xs), (16, c), (1, c2), (-17, ONE)), mul(num(8), pw(6)))), m(wx, ax, wx2)),
        (div(lc((1, x3), (6, x), (-12, s), (6, xc)), mul(num(6), pw(5))), m(wx2, ax)),
        (neg(div(lc((6, x2), (16, c), (-1, c2), (-15, ONE)), mul(num(8), pw(6)))), m(wx2, ax, wx)),
        (div(lc((4, x3), (6, x), (-24, s), (-3, s2), (24, xc)), mul(num(24), pw(7))), m(wx2, ax, wx2)))
    return mmul(G0t, p25), mmul(G0t, p35)


def mprod(ms):
    o = None
    for x in ms:
        o = x if o is None else mmul(o, x)
    return o


def small_rate(ctx, r, P, w, where_):
    """the conditions on which the propagated covariance branches: 'rate below a small tolerance' only"""
    out = []
    th = vnorm(w)
    for b in bool_atoms_deep(P):
        ok = False
        if b.op == "pos":
            q = add(b.a[0], th)           # tol - |w| > 0
            q = scal(q)
            ok = q.op == "num" and 0 < q.a[0] <= Fraction(1, 1000)
        out.append((b, ok))
    return out


def bool_atoms_deep(n):
    from ..dag import _isboolean
    return {x.a[0] for x in subterms(n) if x.op == "ite"}


def diag_qc(S, n):
    """process noise handed to the filter: only the position and contact entries are non-zero"""
    m = Z(3 * n, 3 * n)
    for i in range(2, n - 2):
        m = mset(m, 3 * i, 3 * i, 3, 3, msym("q%d" % i, 3, 3))
    return m


def p15(ctx):
    ctx.rule("P15.cov", "every 3x3 block of the propagated covariance equals the block of Phi P Phi^T + Phi G Q G^T Phi^T dt for the configured convention")
    ctx.rule("P15.bias-off", "without bias estimation the bias block is decoupled and reset to a positive multiple of the identity")
    ctx.rule("P15.branch", "the covariance only branches on the angular rate being below a small tolerance, where the limits of the closed forms are used")
    confs = [("WorldCentric", "RightInvariant", True), ("WorldCentric", "RightInvariant", False),
             ("WorldCentric", "LeftInvariant", True), ("WorldCentric", "LeftInvariant", False),
             ("BodyCentric", "RightInvariant", True), ("BodyCentric", "RightInvariant", False)]
    for stype, err, bias in confs:
        for n in dims(ctx):
            r = PropRun(ctx, n, stype, err, qc=lambda S: diag_qc(S, n))
            S = r.S
            P = fix(r.v(r.P), "enable_imu_bias_update", TRUE if bias else FALSE)
            w, a, dt = [r.v(x) for x in strapdown(r, [r.X])]
            label = "%s/%s, bias estimation %s, %d columns" % (stype, err, "on" if bias else "off", n)
            at = where(r)
            conds = small_rate(ctx, r, P, w, at)
            for b, ok in conds:
                ctx.ob("P15.branch", ok, label, "the propagated covariance branches on %s" % show(b, 5), **at)
            left = (stype == "WorldCentric") == (err == "LeftInvariant")
            nb = n - 2
            for small in ((True, False) if conds else (False,)):
                Pv = subst(P, {b: (TRUE if small else FALSE) for b, _ in conds})
                phi = (phi_left if left else phi_right)(r, n, w, a, dt, bias, small)
                names = Names()
                phi = {k: names.of(x) for k, x in phi.items() if x.op != "Z"}
                Xw = S["X"]
                G = {(i, i): I(3) for i in range(n)}
                if not left:
                    A = adj(Xw) if stype == "WorldCentric" else None
                    AT = gadj(Xw, n)
                    G.update(AT)
                Q = grid(S["Qc"], names)
                for k, key in ((0, "gyroscope_std"), (1, "accelerometer_std")) + (((nb, "gyroscope_bias_std"), (nb + 1, "accelerometer_bias_std")) if bias else ()):
                    sd = cfg_node(r.W, [r.P], "noises", key)
                    Q[(k, k)] = mscale(mul(sd, sd), I(3))
                Pg = grid(S["P"], names)
                phiG = gmul(phi, {k: names.of(x) for k, x in G.items()})
                spec_ = gadd(gmul(gmul(phi, Pg), gT(phi)), gscale(dt, gmul(gmul(phiG, Q), gT(phiG))))
                if shape(Pv) != (3 * n, 3 * n):
                    ctx.ob("P15.cov", False, label, "the propagated covariance is %s" % show(Pv, 3), **at)
                    continue
                got = grid(Pv, names)
                if not bias:
                    for k in list(got):
                        if k[0] >= nb or k[1] >= nb:
                            x = got.pop(k)
                            ok = k[0] == k[1] and x.op != "Z" and posdiag(x)
                            ctx.ob("P15.bias-off", ok, "%s block %s" % (label, k), "bias block %s is %s" % (k, show(x, 4)), **at)
                    spec_ = {k: x for k, x in spec_.items() if k[0] < nb and k[1] < nb}
                bad = gdiff(got, spec_)
                ctx.ob("P15.cov", not bad, label + (", small rate" if small else ""),
                       "covariance block(s) %s differ: computed %s, expected %s" % (
                           bad[:4], show(got.get(bad[0], Z(3, 3)), 4)[:300] if bad else "", show(spec_.get(bad[0], Z(3, 3)), 4)[:300] if bad else ""), **at,
                       sample="%d blocks, %d product terms" % (n * n, sum(len(terms(x)) for x in spec_.values())))
    ctx.require("P15.cov", 18, "covariance propagation")


def posdiag(x):
    ts = terms(x)
    if x.op == "I":
        return True
    if len(ts) == 1:
        c, w = ts[0]
        c = scal(c)
        return all(y.op == "I" for y in w) and c.op == "num" and c.a[0] > 0
    return False


def gadj(X, n):
    """adjoint of the state matrix, block by block"""
    R = blk(X, 0, 0, 3, 3)
    g = {}
    for i in range(n - 2):
        g[(i, i)] = R
        if i:
            g[(i, 0)] = mmul(skew(blk(X, 0, 2 + i, 3, 1)), R)
    return g


# -------------------------------------------------------------------- P16: invariant Kalman update
def consts_for_bias(vals, what):
    """numeric regularisation constant written to the bias block (0.0001 in this code base)"""
    return num(Fraction(1, 10000))


def embed(A, d):
    """group part of the transformation, identity on the biases"""
    k = d - 6
    return mset(I(d), 0, 0, k, k, A)


def decoupled(P, d, c):
    k = d - 6
    P = mset(P, k, k, 6, 6, mscale(c, I(6)))
    P = mset(P, 0, k, k, 6, Z(k, 6))
    return mset(P, k, 0, 6, k, Z(6, k))


def update_args(W, f, Zv, H, N_, st, err):
    mats = [Zv, H, N_]
    out = []
    for p in f["params"]:
        if "RobotState" in p["t"]:
            out.append(W.loc(st))
        elif "ErrorType" in p["t"]:
            out.append(enum_of(W.F, "ErrorType", err))
        elif mats:
            out.append(mats.pop(0))
    return out


def run_update(ctx, side, err, bias, n, m):
    W = World(ctx, opaque=LIE_OPAQUE)
    st, S = W.robot_state(n, "S")
    W.run(W.fn(RSQ + "::set_enable_imu_bias_update"), st, [TRUE if bias else FALSE])
    f = W.fn("filter::inekf::Correct%sInvariant" % side)
    Zv, H, Nn = msym("Z", m, 1), msym("H", m, 3 * n), msym("N", m, m)
    dag.SYM.add(Nn)                 # a noise covariance
    pre = {"Xinv": W.rs(st, "get_Xinv")}
    W.run(f, None, update_args(W, f, Zv, H, Nn, st, err))
    ctx.used(W.I)
    post = {k: W.rs(st, g) for k, g in (("X", "get_X"), ("theta", "get_theta"), ("P", "get_P"), ("Xinv", "get_Xinv"))}
    return W, f, st, S, Zv, H, Nn, pre, post


def p16(ctx):
    ctx.rule("P16.state", "new state = Exp(K Z) X (right observation) or X Exp(K Z) (left observation) with K = P H^T (H P H^T + N)^-1 and P in the error convention of the observation")
    ctx.rule("P16.bias", "the bias estimate gets the bias part of K Z (the right-invariant update leaves the yaw rate bias alone)")
    ctx.rule("P16.cov", "new covariance = Joseph form, converted to the observation's convention before and back afterwards, with the state of that moment")
    ctx.rule("P16.rest", "an update changes nothing else of the state")
    for side in ("Right", "Left"):
        for err in ("RightInvariant", "LeftInvariant"):
            for bias in (True, False):
                for n in (dims(ctx) if ctx.tier == "thorough" else (5, 7)):
                    for m in ((3, 6) if ctx.tier == "thorough" else (3,) if n == 5 else (6,)):
                        W, f, st, S, Zv, H, Nn, pre, post = run_update(ctx, side, err, bias, n, m)
                        d = 3 * n
                        k = d - 6
                        X, P = S["X"], S["P"]
                        c = consts_for_bias(None, None)
                        if not bias:
                            P = decoupled(P, d, c)
                        same_ = err.startswith(side)
                        if not same_:
                            A = embed(adj(X) if side == "Right" else adj(pre["Xinv"]), d)
                            P = mprod([A, P, T(A)])
                        PHT = mmul(P, T(H))
                        K = mmul(PHT, inv(madd(mmul(H, PHT), Nn)))
                        delta = mmul(K, Zv)
                        dX = expk(blk(delta, 0, 0, k, 1))
                        Xn = mmul(dX, X) if side == "Right" else mmul(X, dX)
                        dth = blk(delta, k, 0, 6, 1)
                        if side == "Right":
                            dth = mset(dth, 2, 0, 1, 1, Z(1, 1))
                        thn = madd(S["Theta"], dth)
                        IKH = msub(I(d), mmul(K, H))
                        # the Joseph form and what it equals for the optimal gain
                        Sn = madd(mmul(H, PHT), Nn)
                        cores = (lambda: madd(mprod([IKH, P, T(IKH)]), mprod([K, Nn, T(K)])), lambda: mmul(IKH, P), lambda: mmul(P, T(IKH)),
                                 lambda: msub(P, mprod([K, Sn, T(K)])))

                        def finish(Pn):
                            if side == "Right":
                                y = k + 2
                                Pn = mset(Pn, y, 0, 1, d, Z(1, d))
                                Pn = mset(Pn, 0, y, d, 1, Z(d, 1))
                                Pn = mset(Pn, y, y, 1, 1, mat(1, 1, [c]))
                            if not same_:
                                A = embed(adj(post["Xinv"]) if side == "Right" else adj(Xn), d)
                                Pn = mprod([A, Pn, T(A)])
                            return Pn
                        Pn = finish(cores[0]())
                        for core in cores[1:]:
                            if post["P"] is Pn or mat_equal(post["P"], Pn):
                                break
                            alt = finish(core())
                            if post["P"] is alt or mat_equal(post["P"], alt):
                                Pn = alt
                                break
                        label = "Correct%sInvariant, %s error, bias estimation %s, %d columns, %d rows" % (side, err, "on" if bias else "off", n, m)
                        at = dict(file=f.get("file"), line=f.get("l", 0), fn=f["q"])
                        for rule, nm, got, val in (("P16.state", "state matrix", post["X"], Xn), ("P16.bias", "bias estimate", post["theta"], thn),
                                                   ("P16.cov", "covariance", post["P"], Pn)):
                            ok = mat_equal(got, val)
                            ctx.ob(rule, ok, label, "%s after the update is %s, expected %s" % (nm, show(got, 6)[:350], show(val, 6)[:350]) if not ok else "", **at,
                                   sample=show(val, 4)[:160])
                        for g, val in (("get_time", S["t"]), ("get_propagate_time", S["tp"]), ("get_continuous_noise_covariance", S["Qc"])):
                            got = W.rs(st, g)
                            ctx.ob("P16.rest", got is val or (g != "get_time" and g != "get_propagate_time" and eqm(got, val)), label + " " + g, "the update changed %s to %s" % (g, show(got, 4)), **at)
    ctx.require("P16.state", 8, "invariant updates")
