"""P11: every covariance is formed by operations that keep it symmetric positive semi-definite.

Abstract domain: facts "this value is symmetric positive semi-definite" attached to value-flow nodes.  The source of
the facts is how the code formed the value (recorded operation by operation) plus structural rules for block writes."""
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .eqs import (enum_of, set_state_type, make_prop, popped, IPQ, IMU, update_args, mprod, decoupled, consts_for_bias, embed)
from .meas import present, nonempty
from .state import at_of
from . import leg, meas, gyro


class Facts:
    def __init__(self):
        self.prods, self.sums, self.subs, self.scales, self.blocks = {}, {}, {}, {}, {}
        self.base, self.nonneg = set(), set()
        self.memo, self.why = {}, {}

    def prod(self, r, a, b):
        self.prods.setdefault(r, {})[(a, b)] = 1

    def sum(self, r, a, b, s):
        (self.sums if s == 1 else self.subs).setdefault(r, {})[(a, b)] = 1

    def scale(self, r, c, a):
        if r is not a:
            self.scales.setdefault(r, {})[(c, a)] = 1

    def block(self, r, M, i, j, h, w):
        if r is not M and same(i, j) and same(h, w):
            self.blocks.setdefault(r, {})[M] = 1

    def on(self):
        dag.TRACK = self

    @staticmethod
    def off():
        dag.TRACK = None

    # ---------------------------------------------------------- scalars
    def nn(self, c):
        """is the scalar never negative?"""
        c = scal(c)
        if c.op == "num":
            return c.a[0] >= 0
        if c in self.nonneg:
            return True
        if c.op == "ite":
            return self.nn(c.a[1]) and self.nn(c.a[2])
        if c.op == "fn":
            return c.a[0] in ("sqrt", "abs", "exp") or (c.a[0] in ("max", "fmax") and any(self.nn(x) for x in c.a[1:])) or \
                (c.a[0] in ("min", "fmin") and all(self.nn(x) for x in c.a[1:])) or (c.a[0] == "pow" and self.even(c.a[2]))
        if c.op == "yas":
            return True              # noise parameters are not negative (configuration assumption)
        if c.op == "el":
            return c.a[1] is c.a[2] or c.a[1] == c.a[2] and c.a[0] in self.base
        if c.op == "P":
            return all(k > 0 and all(e % 2 == 0 or self.nn(x) for x, e in m) for m, k in c.a[0])
        return False

    @staticmethod
    def even(k):
        k = scal(k)
        return k.op == "num" and k.a[0].denominator == 1 and int(k.a[0]) % 2 == 0

    # ---------------------------------------------------------- matrices
    def psd(self, v):
        r = self.memo.get(v)
        if r is None:
            self.memo[v] = False
            was, dag.TRACK = dag.TRACK, None
            r = self._psd(v)
            dag.TRACK = was
            self.memo[v] = r
        return r

    def _psd(self, v):
        h, w = shape(v)
        if v in self.base:
            return True
        if h is None or not same(h, w):
            return False
        op = v.op
        if op in ("I", "Z"):
            return True
        if op == "full":
            return self.nn(v.a[2])
        if op == "inv":
            return self.psd(v.a[0])
        if op == "ite":
            return self.psd(v.a[1]) and self.psd(v.a[2])
        if op == "T":
            return self.psd(v.a[0])
        if op == "blk" and same(v.a[1], v.a[2]) and self.psd(v.a[0]):
            return True
        if op == "mat":
            n = v.a[0]
            if all(v.a[2][i * n + j] is ZERO for i in range(n) for j in range(n) if i != j):
                return all(self.nn(v.a[2][i * n + i]) for i in range(n))
        for (X, C) in self.prods.get(v, ()):
            if self.congruence(X, C):
                return True
        for a, b in self.sums.get(v, ()):
            if self.psd(a) and self.psd(b):
                return True
        for c, a in self.scales.get(v, ()):
            if self.nn(c) and self.psd(a):
                return True
        for M in self.blocks.get(v, ()):
            if self.psd(M):
                return True
        if op in ("set", "mat") and self.blockwise(v):
            return True
        if op == "MP":
            ts = terms(v)
            if all(self.nn(c) and self.palin(w) for c, w in ts):
                return True
            if self.halves(ts, v):
                return True
            if any(y.op == "inv" for c, w in ts for y in w) and self.schur(v):
                return True
        return False

    def tr(self, A, C):
        return T(A) is C or mat_equal(T(A), C)

    def congruence(self, X, C):
        if shape(X)[0] is not None and same(shape(X)[0], shape(C)[1]) and self.tr(X, C):
            return True                                           # A A^T
        for (A, M) in self.prods.get(X, ()):
            if self.psd(M) and self.tr(A, C):
                return True                                       # (A M) A^T
            if M in self.scales:
                for c, M2 in self.scales[M]:
                    if self.nn(c) and self.psd(M2) and self.tr(A, C):
                        return True
        for (M, C2) in self.prods.get(C, ()):
            if self.psd(M) and self.tr(X, C2):
                return True                                       # A (M A^T)
        for c, A in self.scales.get(X, ()):                       # (c A M) A^T
            if self.nn(c) and self.congruence(A, C):
                return True
        for c, A in self.scales.get(C, ()):
            if self.nn(c) and self.congruence(X, A):
                return True
        return False

    def palin(self, w):
        k = len(w) // 2
        if any(not self.tr(w[i], w[-1 - i]) for i in range(k)):
            return False
        return len(w) % 2 == 0 or self.psd(w[k])

    def halves(self, ts, v):
        """(M + M^T) / 2 of a value that is already semi-definite"""
        for (a, b) in self.sums.get(v, ()):
            for x, y in ((a, b), (b, a)):
                if T(x) is y and self.psd(x):
                    return True
        for c, a in self.scales.get(v, ()):
            if self.nn(c) and a.op == "MP" and self.halves(terms(a), a):
                return True
        return False

    def factors(self, v, n=0):
        """readings of v as H M H^T with M semi-definite: (H, M)"""
        for (X, C) in self.prods.get(v, ()):
            for (H, M) in self.prods.get(X, ()):
                if self.psd(M) and self.tr(H, C):
                    yield H, M
            for (M, C2) in self.prods.get(C, ()):
                if self.psd(M) and self.tr(X, C2):
                    yield X, M
        if v.op == "MP" and n == 0:
            for c, a in self.scales.get(v, ()):
                if c is ONE:
                    yield from self.factors(a, 1)

    def schur(self, v):
        """M - M H^T (H M H^T + N)^-1 H M, in any algebraically equal arrangement the code may use"""
        for S in {x.a[0] for x in subterms(v) if x.op == "inv"}:
            for (a, b) in self.sums.get(S, ()):
                for X, Nn in ((a, b), (b, a)):
                    if not self.psd(Nn):
                        continue
                    for H, M in self.factors(X):
                        MHT = mmul(M, T(H))
                        K = mmul(MHT, inv(S))
                        forms = [msub(M, mprod([K, H, M])), msub(M, mprod([K, S, T(K)])), madd(msub(msub(M, mprod([K, H, M])), mprod([M, T(H), T(K)])), mprod([K, S, T(K)]))]
                        if any(f is v or mat_equal(f, v) for f in forms):
                            return True
        return False

    def blockwise(self, v):
        """block writes: the connected blocks are semi-definite, everything else is zero"""
        n = shape(v)[0]
        if not is_int(n):
            return False
        cut = {0, n}
        srcs = []
        seen = set()

        def gather(V, r, c):
            """cuts of a chain of block writes placed at (r, c), and what sits on the diagonal"""
            if (V, r, c) in seen:
                return True
            seen.add((V, r, c))
            if r == c and is_int(shape(V)[0]):
                srcs.append((r, shape(V)[0], V))
            while V.op == "set":
                if not all(is_int(k) for k in V.a[1:5]):
                    return False
                b, i, j, h, w, U = V.a
                cut.update((r + i, r + i + h, c + j, c + j + w))
                if not gather(U, r + i, c + j):
                    return False
                V = b
            if r == c and is_int(shape(V)[0]):
                srcs.append((r, shape(V)[0], V))
            return True
        if not gather(v, 0, 0):
            return False
        if v.op == "mat":
            cut.update(range(n + 1))
        cs = sorted(cut)
        if cs[-1] != n or len(cs) > 40:
            return False
        idx = list(zip(cs, cs[1:]))
        k = len(idx)
        cell = {}
        for i, (a, b) in enumerate(idx):
            for j, (c, d) in enumerate(idx):
                cell[(i, j)] = blk(v, a, c, b - a, d - c)
        zero_ = lambda x: x.op == "Z" or (x.op == "mat" and all(y is ZERO for y in x.a[2]))
        comp = list(range(k))
        for i in range(k):
            for j in range(k):
                if i != j and not zero_(cell[(i, j)]):
                    a, b = comp[i], comp[j]
                    comp = [a if z == b else z for z in comp]
        for cid in set(comp):
            members = [i for i in range(k) if comp[i] == cid]
            if len(members) == 1:
                x = cell[(members[0], members[0])]
                if x is v or not self.psd(x):
                    return False
                continue
            if len(members) == k and all(r == 0 and h == n for r, h, V in srcs if V is not v) and v.op == "mat":
                return False
            if not self.same_source(cell, idx, members, srcs, v):
                return False
        return True

    def same_source(self, cell, idx, members, srcs, v):
        """all blocks of the component come from the same positions (kept or consistently moved) of one
        semi-definite value"""
        cands = [(V, r) for r, h, V in srcs if V is not v]
        x = cell[(members[0], members[0])]
        if x.op == "blk" and same(x.a[1], x.a[2]):
            cands.append((x.a[0], None))
        for V, r in cands:
            n = shape(V)[0]
            if not is_int(n) or V is v:
                continue
            if r is not None:
                at = {i: idx[i][0] - r for i in members}
                if any(a < 0 or a + idx[i][1] - idx[i][0] > n for i, a in at.items()):
                    continue
            else:
                at = {}
                for i in members:
                    d = cell[(i, i)]
                    if d.op == "blk" and d.a[0] is V and same(d.a[1], d.a[2]) and is_int(d.a[1]):
                        at[i] = d.a[1]
                if len(at) != len(members) or len(set(at.values())) != len(at):
                    continue
            ok = True
            for i in members:
                for j in members:
                    hi, hj = idx[i][1] - idx[i][0], idx[j][1] - idx[j][0]
                    if blk(V, at[i], at[j], hi, hj) is not cell[(i, j)]:
                        ok = False
                        break
                if not ok:
                    break
            if ok and self.psd(V):
                return True
        return False


def culprit(fx, v, depth=0):
    """the smallest part that could not be shown semi-definite, for the report"""
    if depth > 6:
        return v
    if v.op == "ite":
        for x in (v.a[1], v.a[2]):
            if not fx.psd(x):
                return culprit(fx, x, depth + 1)
    for a, b in fx.sums.get(v, ()):
        if fx.psd(a) != fx.psd(b):
            return culprit(fx, b if fx.psd(a) else a, depth + 1)
    return v


def bd_psd(fx, name, n):
    """process noise: block diagonal with semi-definite 3x3 blocks"""
    m = Z(3 * n, 3 * n)
    for i in range(n):
        q = msym("%s%d" % (name, i), 3, 3)
        dag.SYM.add(q)
        fx.base.add(q)
        m = mset(m, 3 * i, 3 * i, 3, 3, q)
    return m


def blockdiag(m):
    n = shape(m)
    if not (is_int(n[0]) and n[0] == n[1] and n[0] % 3 == 0):
        return False
    for i in range(0, n[0], 3):
        for j in range(0, n[0], 3):
            if i != j and blk(m, i, j, 3, 3).op != "Z":
                return False
    return True


def start(ctx):
    fx = Facts()
    fx.on()
    return fx


def base(fx, *ms):
    for m in ms:
        dag.SYM.add(m)
        fx.base.add(m)


def judge(ctx, fx, rid, v, key, what, at):
    ok = fx.psd(v)
    c = v if ok else culprit(fx, v)
    ctx.ob(rid, ok, key, "%s is not formed by operations that keep a covariance symmetric and semi-definite: %s" % (what, show(c, 6)[:500]), **at,
           sample=show(v, 4)[:160] if ok else None)
    return ok


def p11(ctx):
    ctx.rule("P11.propagate", "the propagated covariance is semi-definite whenever the previous one and the noise blocks are")
    ctx.rule("P11.update", "the corrected covariance is semi-definite whenever the previous one and the measurement noise are")
    ctx.rule("P11.contact", "removing and adding contact points keeps covariance and process noise semi-definite, the process noise block diagonal")
    ctx.rule("P11.noise", "the noise handed to every update is semi-definite")
    ctx.rule("P11.init", "constructors, clear() and initialisation leave semi-definite covariances")
    ctx.rule("P11.gyro", "the covariance of the gyro filter stays semi-definite in every step")
    try:
        propagation(ctx)
        updates(ctx)
        contacts(ctx)
        velocity(ctx)
        initial(ctx)
        gyros(ctx)
    finally:
        Facts.off()
    ctx.require("P11.propagate", 12, "propagation steps")
    ctx.require("P11.update", 8, "updates")
    ctx.require("P11.contact", 60, "contact histories")
    ctx.require("P11.noise", 20, "noise matrices")
    ctx.require("P11.init", 10, "initial covariances")
    ctx.require("P11.gyro", 10, "gyro filter steps")


def sizes(ctx):
    return (5, 6, 7, 8, 9) if ctx.tier == "thorough" else (5, 7)


def prop_world(ctx, err, bias):
    W = World(ctx, opaque=GAMMA_SKEW, assume=nonempty)
    ip = make_prop(W, err)
    present(W, {"enable_imu_bias_update": TRUE if bias else FALSE})
    return W, ip


def propagation(ctx):
    for stype in ("WorldCentric", "BodyCentric"):
        for err in ("RightInvariant", "LeftInvariant"):
            for bias in (True, False):
                for n in sizes(ctx):
                    fx = start(ctx)
                    W, ip = prop_world(ctx, err, bias)
                    st0, _ = W.robot_state(5, "init")
                    e0 = len(W.I.events)
                    W.run(W.fn(IPQ + "::set_initial_state"), ip, [W.loc(st0)])
                    m = popped(W, e0)
                    st, S = W.robot_state(n, "S")
                    base(fx, S["P"])
                    W.run(W.fn(RSQ + "::set_continuous_noise_covariance"), st, [bd_psd(fx, "qn", n)])
                    if stype != "WorldCentric":
                        set_state_type(W, st, stype)
                    dt = dsym("dt")
                    fx.nonneg.add(dt)
                    t = W.getter(m, IMU + "::get_time")
                    W.run(W.fn(RSQ + "::set_propagate_time"), st, [sub(t, dt)])
                    f = W.fn(IPQ + "::Propagate")
                    W.run(f, ip, [W.loc(st)])
                    label = "%s/%s, bias estimation %s, %d columns" % (stype, err, "on" if bias else "off", n)
                    judge(ctx, fx, "P11.propagate", W.rs(st, "get_P"), label, "the propagated covariance", at_of(f))
                    Qc = W.rs(st, "get_continuous_noise_covariance")
                    ctx.ob("P11.propagate", blockdiag(Qc) and fx.psd(Qc), label + ", process noise", "the process noise is %s" % show(Qc, 4)[:200], **at_of(f))
                    ctx.used(W.I)
                    fx.off()


def updates(ctx):
    for side in ("Right", "Left"):
        for err in ("RightInvariant", "LeftInvariant"):
            for bias in (True, False):
                for n, m in (((5, 3), (6, 6), (7, 9), (9, 12)) if ctx.tier == "thorough" else ((5, 3), (7, 6))):
                    fx = start(ctx)
                    W = World(ctx, opaque=LIE_OPAQUE)
                    st, S = W.robot_state(n, "S")
                    W.run(W.fn(RSQ + "::set_enable_imu_bias_update"), st, [TRUE if bias else FALSE])
                    f = W.fn("filter::inekf::Correct%sInvariant" % side)
                    Zv, H, Nn = msym("Z", m, 1), msym("H", m, 3 * n), msym("N", m, m)
                    base(fx, S["P"], Nn)
                    W.run(f, None, update_args(W, f, Zv, H, Nn, st, err))
                    label = "Correct%sInvariant, %s error, bias estimation %s, %d columns, %d rows" % (side, err, "on" if bias else "off", n, m)
                    judge(ctx, fx, "P11.update", W.rs(st, "get_P"), label, "the corrected covariance", at_of(f))
                    Qc = W.rs(st, "get_continuous_noise_covariance")
                    ctx.ob("P11.update", Qc is S["Qc"], label + ", process noise", "the update changes the process noise to %s" % show(Qc, 4)[:200], **at_of(f))
                    ctx.used(W.I)
                    fx.off()


def contacts(ctx):
    for err in ("RightInvariant", "LeftInvariant"):
        fx = start(ctx)
        depth = 2 if ctx.tier != "thorough" else None

        def emit(h, label, col, pat, S, ret, post):
            fx.base.add(S["P"])
            for c in h.L.calls:
                if c["gate"] is FALSE:
                    continue
                mats = [v for v in c["vals"] if isinstance(v, N) and v.op != "enum"]
                judge(ctx, fx, "P11.noise", mats[2], label, "the measurement noise of the leg update", h.at)
            judge(ctx, fx, "P11.contact", post["P"], label, "the covariance after the contact changes", h.at)
            Q = post["Qc"]
            judge(ctx, fx, "P11.contact", Q, label + ", process noise", "the process noise after the contact changes", h.at)
            ctx.ob("P11.contact", blockdiag(Q), label + ", process noise structure", "the process noise after the contact changes is not block diagonal", **h.at)
            return leg.analyse(h, label, col, pat, S, ret, post, lambda *a: None)
        old = leg.History.fresh

        def fresh(self, n):
            S = old(self, n)
            Q = bd_psd(fx, "qc", n)
            W = self.L.W
            W.run(W.fn(RSQ + "::set_continuous_noise_covariance"), self.L.stp, [Q])
            S["Qc"] = Q
            return S

        class H(leg.History):
            pass
        H.fresh = fresh
        h = H(ctx, err, emit, depth=depth)
        ctx.notes.append("%s: %d contact steps, %d leg-to-column assignments" % (err, h.steps, h.states))
        fx.off()


def velocity(ctx):
    for err in ("RightInvariant", "LeftInvariant"):
        for n in (5, 7):
            fx = start(ctx)
            calls = []
            W, vc, st, S = meas.vel_world(ctx, err, n, calls)
            f = W.fn(meas.VCQ + "::Correct")
            W.run(f, vc, [W.loc(st)])
            for c in calls:
                if c["gate"] is FALSE:
                    continue
                mats = [v for v in c["vals"] if v.op != "enum"]
                judge(ctx, fx, "P11.noise", mats[2], "velocity, %s, %d columns" % (err, n), "the measurement noise of the velocity update", at_of(f))
            ctx.used(W.I)
            fx.off()


def initial(ctx):
    # constructors and clear
    for f in ctx.facts().by_q.get(RSQ + "::RobotState", []):
        if not f.get("params") and f.get("body") is None and not f.get("ctor"):
            continue
        if any("RobotState" in p["t"] for p in f["params"]):
            continue
        for n in (5, 7) if f["params"] else (5,):
            fx = start(ctx)
            W = World(ctx, opaque=GAMMA_SKEW)
            st = W.new(RSQ, "rs")
            args = []
            nt = 3 * (n - 3) if len(f["params"]) == 1 and "SEK3" in f["params"][0]["t"] else 6
            for k, p in enumerate(f["params"]):
                if "SEK3" in p["t"]:
                    o = W.new("math::SEK3", "grp")
                    W.run(W.fn("math::SEK3::SEK3", 1, lambda f: "SEK3" not in f["params"][0]["t"]), o, [msym("X", n, n)])
                    args.append(W.loc(o))
                elif k == 2:
                    m = msym("argP", 3 * n, 3 * n)
                    base(fx, m)
                    args.append(m)
                else:
                    args.append(msym("a%d" % k, *((n, n) if k == 0 else (nt, 1))))
            W.run(f, st, args)
            lab = "RobotState(%s), %d columns, " % (", ".join(p["t"] for p in f["params"]), n)
            for g, nm in (("get_P", "covariance"), ("get_continuous_noise_covariance", "process noise")):
                v = W.rs(st, g)
                if judge(ctx, fx, "P11.init", v, lab + nm, "the %s of a new state" % nm, at_of(f)) and nm == "process noise":
                    ctx.ob("P11.init", blockdiag(v), lab + nm + " structure", "the process noise of a new state is not block diagonal", **at_of(f))
            ctx.used(W.I)
            fx.off()
    for n in (5, 7):
        fx = start(ctx)
        W = World(ctx, opaque=GAMMA_SKEW)
        st, S = W.robot_state(n, "S")
        f = W.fn(RSQ + "::clear")
        W.run(f, st)
        for g, nm in (("get_P", "covariance"), ("get_continuous_noise_covariance", "process noise")):
            judge(ctx, fx, "P11.init", W.rs(st, g), "clear with %d columns, %s" % (n, nm), "the %s after clear()" % nm, at_of(f))
        ctx.used(W.I)
        fx.off()
    # initialisation on top of a block diagonal covariance (what constructors and clear leave)
    for bias in (True, False):
        fx = start(ctx)
        W, ip = prop_world(ctx, "RightInvariant", bias)
        st, S = W.robot_state(5, "S")
        W.run(W.fn(RSQ + "::set_P"), st, [bd_psd(fx, "p0", 5)])
        W.run(W.fn(RSQ + "::set_continuous_noise_covariance"), st, [Z(15, 15)])
        f = W.fn(IPQ + "::set_initial_state")
        W.run(f, ip, [W.loc(st)])
        for g, nm in (("get_P", "covariance"), ("get_continuous_noise_covariance", "process noise")):
            v = W.rs(st, g)
            judge(ctx, fx, "P11.init", v, "ImuPropagation::set_initial_state, bias estimation %s, %s" % ("on" if bias else "off", nm), "the initial %s" % nm, at_of(f))
            ctx.ob("P11.init", blockdiag(v), "ImuPropagation::set_initial_state, bias estimation %s, %s structure" % ("on" if bias else "off", nm), "the initial %s is not block diagonal" % nm, **at_of(f))
        ctx.used(W.I)
        fx.off()
    # the corrections' own initialisation
    for who in ("velocity", "legs"):
        fx = start(ctx)
        if who == "velocity":
            W, o, st, S = meas.vel_world(ctx, "RightInvariant", 5, [])
            f = W.fn(meas.VCQ + "::initialize")
        else:
            L = leg.LegWorld(ctx, "RightInvariant")
            W, o, st, S = L.W, L.lk, L.stp, L.S
            W.I.opaque[leg.LKM + "::get_init_velocity"] = meas.init_vel
            f = W.fn(leg.LKQ + "::initialize")
        W.run(W.fn(RSQ + "::set_P"), st, [bd_psd(fx, "p0", 5)])
        W.run(W.fn(RSQ + "::set_continuous_noise_covariance"), st, [bd_psd(fx, "qi", 5)])
        W.run(f, o, [W.loc(st)])
        for g, nm in (("get_P", "covariance"), ("get_continuous_noise_covariance", "process noise")):
            v = W.rs(st, g)
            judge(ctx, fx, "P11.init", v, who + " initialize, " + nm, "the initial %s" % nm, at_of(f))
            ctx.ob("P11.init", blockdiag(v), who + " initialize, %s structure" % nm, "the initial %s is not block diagonal" % nm, **at_of(f))
        ctx.used(W.I)
        fx.off()
    # the estimator's initialisation, after steps that leave block diagonal covariances
    from .estim import Est, EQ
    for ks in ("", "v", "vl"):
        fx = start(ctx)
        E = Est(ctx, ks)
        E.new_P = lambda k, r: bd_psd(fx, "p%d_" % k, r // 3)
        W = E.W
        p0 = E.state()["get_P"]
        judge(ctx, fx, "P11.init", p0, "InekfEstimator, corrections [%s]" % ks, "the covariance of a new estimator", at_of(W.fn(EQ + "::InekfEstimator", 2)))
        E.call("InitState")
        v = E.state()["get_P"]
        # what earlier rounds of the initialisation loops leave
        m = {x: bd_psd(fx, "loop", 5) for x in subterms(v) if x.op == "mu" and str(x.a[1]).count("RobotState::P_")}
        m.update({x.a[0]: bd_psd(fx, "loop", 5) for x in subterms(v) if x.op == "set" and x.a[0].op == "mu"})
        v = subst(v, m) if m else v
        judge(ctx, fx, "P11.init", v, "InekfEstimator::InitState, corrections [%s]" % ks, "the covariance after the initialisation", E.at)
        ctx.used(W.I)
        fx.off()


def gyros(ctx):
    for mode in gyro.MODES:
        for gy in (True, False):
            for flat in (True, False):
                fx = start(ctx)
                nimu, nang = gyro.MODES[mode]
                g = gyro.Gyro(ctx, nimu, nang, gy, {"flat_ground": TRUE if flat else FALSE})
                label = "%s, %s propagation, %s" % (mode, "gyro" if gy else "random walk", "flat ground" if flat else "3D")
                ats = at_of(g.once)
                new = g.fields()
                g.step()
                g.before = g.fields()
                g.step()
                g.roles = g.havoc()
                if "covariance" not in g.roles:
                    raise AnalysisBroken("the gyro filter step does not change a 6x6 matrix")
                P0 = g.roles["covariance"]
                base(fx, P0)
                q = g.roles[("field", P0)]
                judge(ctx, fx, "P11.gyro", new[q][1], label + ", new", "the covariance of a new filter", at_of(g.ct))
                W2 = g.W.st.clone()
                fc = g.W.fn(gyro.GQ + "::clear")
                g.W.run(fc, g.o)
                judge(ctx, fx, "P11.gyro", g.fields()[q][1], label + ", clear", "the covariance after clear()", at_of(fc))
                g.W.st = W2
                g.cut()
                # named intermediate covariances are judged one by one
                on = g.W.I.on_event

                def hook(e, st, on=on, g=g, fx=fx):
                    k = len(g.cuts)
                    on(e, st)
                    for role, n, v in g.cuts[k:]:
                        if role == "covariance":
                            fx.base.add(n)
                            judge(ctx, fx, "P11.gyro", v, label + ", step", "the covariance during a step", ats)
                g.W.I.on_event = hook
                g.step()
                g.W.I.on_event = None
                v = g.value(g.roles, "covariance", P0)
                judge(ctx, fx, "P11.gyro", v, label + ", after a step", "the covariance after a step", ats)
                ctx.used(g.W.I)
                fx.off()

