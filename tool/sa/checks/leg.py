"""Contact histories of the leg correction: P18 (leg part), P19, P12, P13 (removal)."""
import itertools
from ..dag import *
from .. import dag
from ..model import *
from ..vf import qfront, stript, notmpl
from ..facts import AnalysisBroken
from .eqs import enum_of, lincomb, mprod, ykeys, gadj

LKQ = "filter::inekf::LeggedKinematicsCorrection"
LKM = "measurement::LeggedKinematicsMeasurement"
MQ = "measurement::Measurement"


class LegWorld:
    """LeggedKinematicsCorrection fed with a concrete sequence of contact patterns; everything continuous is symbolic"""

    def __init__(self, ctx, err, nlegs=4):
        self.ctx, self.nlegs, self.k = ctx, nlegs, 0
        self.pattern = None
        op = dict(GAMMA_SKEW)
        op[LKM + "::get_contact"] = lambda I, e, st: TRUE if self.pattern[self.idx(I, e, st)] else FALSE
        op[LKM + "::get_kin_pos"] = lambda I, e, st: msym("pos%d_%d" % (self.idx(I, e, st), self.k), 3, 1)
        op[LKM + "::get_J"] = lambda I, e, st: msym("J%d_%d" % (self.idx(I, e, st), self.k), 3, 3)
        op[LKM + "::get_num_legs"] = lambda I, e, st: num(nlegs)
        op[LKM + "::ComputeKinematics"] = lambda I, e, st: (I.event("kin", st, e.get("l"), step=self.k), UNIT)[1]
        op[MQ + "::get_time"] = lambda I, e, st: dsym("tpS")
        self.calls = []
        for side in ("Right", "Left"):
            op["filter::inekf::Correct%sInvariant" % side] = self.h_update(side)
        W = self.W = World(ctx, opaque=op, assume=self.assume)
        self.err = err
        self.lk = W.new(LKQ, "legs")
        ct = W.fn(LKQ + "::LeggedKinematicsCorrection")
        args = [enum_of(W.F, "ErrorType", err) if "ErrorType" in p["t"] else sym("ctor:" + p["n"], p["t"]) for p in ct["params"]]
        W.run(ct, self.lk, args)
        # every optional entry is present
        for root, v in list(W.st.env.items()):
            if isinstance(v, N):
                m = {x: TRUE for x in subterms(v) if x.op == "bsym" and x.a[0] == "yhas"}
                if m:
                    W.st.env[root] = subst(v, m)
        self.stp, self.S = W.robot_state(5, "S")
        self.correct = W.fn(LKQ + "::Correct")

    def idx(self, I, e, st):
        a = I.ev(e["args"][0], st)
        a = scal(a)
        if a.op != "num":
            raise Unsupported("leg index " + show(a, 4))
        return int(a.a[0])

    def assume(self, c):
        m = {}
        for x in subterms(c):
            if x.op == "size" and x.a[0].op in ("qv", "pop"):
                m[pos(x)] = TRUE
            elif x.op == "yas" and ykeys(x.a[0])[-1:] == ("correction_time_threshold",):
                m[pos(neg(x))] = FALSE           # the threshold is not negative
        return subst(c, m) if m else c

    def h_update(self, side):
        def h(I, e, st):
            pts = e.get("pt", [])
            vals = []
            for i, a in enumerate(e["args"]):
                x = I.ev_arg(a, pts[i] if i < len(pts) else "", st)
                if isinstance(x, tuple):
                    if "RobotState" in pts[i]:
                        vals.append(("state", x))
                        continue
                    x = I.read(st, x, a.get("t"))
                vals.append(x)
            self.calls.append(dict(side=side, vals=vals, gate=st.gate, step=self.k, line=e.get("l"),
                                   fn=I.stack[-1].fn["q"], file=I.stack[-1].fn.get("file"),
                                   X=self.peek(st, "get_X"), P=self.peek(st, "get_P")))
            I.event("update", st, e.get("l"), side=side)
            return UNIT
        return h

    def peek(self, st, g):
        return None

    def step(self, pattern):
        self.pattern = pattern
        self.k += 1
        self.calls = []
        e0 = len(self.W.I.events)
        ret = self.W.run(self.correct, self.lk, [self.W.loc(self.stp)])
        self.evs = self.W.I.events[e0:]
        return ret

    def get(self, what):
        return self.W.rs(self.stp, what)


def uninit_part(M):
    """does a matrix of concrete shape contain cells that were never written, or an access outside its bounds?"""
    for x in subterms(M):
        if x.op == "oob":
            return "block outside the matrix"
    r, c = shape(M)
    if not (is_int(r) and is_int(c)):
        return "size not determined"
    for i in range(r):
        for j in range(c):
            e = el(M, i, j)
            if any(y.op in ("undef", "undefM", "oob") for y in ([e] + list(subterms(e)))):
                return "element (%d,%d) was never written" % (i, j)
    return None


class History:
    """exhaustive exploration of contact histories: closure over (leg -> column) assignments"""

    def __init__(self, ctx, err, emit, nlegs=4, depth=None, only=None):
        self.ctx, self.err, self.emit = ctx, err, emit
        self.L = LegWorld(ctx, err, nlegs)
        self.nlegs = nlegs
        self.steps = 0
        L = self.L
        f = L.correct
        self.at = dict(file=f.get("file"), line=f.get("l", 0), fn=f["q"])
        self.base = L.W.st.clone()
        todo = [({}, L.W.st.clone(), "")]
        seen = {()}
        d = 0
        self.states = 1
        while todo and (depth is None or d < depth):
            d += 1
            nxt = []
            for col, st, hist in todo:
                for pat in itertools.product((0, 1), repeat=nlegs):
                    r = self.one(col, st.clone(), pat, hist)
                    if r is None:
                        continue
                    col2, st2 = r
                    key = tuple(sorted(col2.items()))
                    if key not in seen:
                        seen.add(key)
                        self.states += 1
                        nxt.append((col2, st2, hist + "".join(map(str, pat)) + ">"))
            todo = nxt
        ctx.used(L.W.I)

    def one(self, col, st, pat, hist):
        L, W = self.L, self.L.W
        W.st = st
        n = 5 + len(col)
        S = self.fresh(n)
        del W.I.events[:]
        self.steps += 1
        label = "%s, contacts %s%s" % (self.err, hist, "".join(map(str, pat)))
        ret = L.step(pat)
        post = {k: L.get(g) for k, g in (("X", "get_X"), ("P", "get_P"), ("Qc", "get_continuous_noise_covariance"), ("th", "get_theta"), ("t", "get_time"))}
        return self.emit(self, label, col, pat, S, ret, post)

    def fresh(self, n):
        """arbitrary continuous content of matching size"""
        W, L = self.L.W, self.L
        d = 3 * n
        X, P, Q, th = msym("XS", n, n), msym("PS", d, d), msym("QcS", d, d), msym("ThetaS", 6, 1)
        dag.SYM.update((P, Q))
        dag.ORTHO.add(blk(X, 0, 0, 3, 3))
        a = L.stp
        for g, v in (("set_X", X), ("set_P", P), ("set_continuous_noise_covariance", Q), ("set_theta", th), ("set_time", dsym("tS")), ("set_propagate_time", dsym("tpS"))):
            W.run(W.fn(RSQ + "::" + g), a, [v])
        return dict(X=X, P=P, Qc=Q, th=th, R=blk(X, 0, 0, 3, 3), p=blk(X, 0, 4, 3, 1), n=n, d=d)


def split_cov(L, vals):
    """noise parameters as named by the configuration"""
    names = {}
    for v in vals:
        for x in subterms(v):
            if x.op == "yas":
                names[ykeys(x.a[0])[-1]] = x
    from .. import lib
    names.update(lib.NEUTRAL or {})
    return names


def leg_cov(L, leg, cfgv):
    J = msym("J%d_%d" % (leg, L.k), 3, 3)
    e = cfgv.get("encoder_std", dsym("unused encoder_std"))
    k = cfgv.get("kinematics_additive_std", dsym("unused kinematics_additive_std"))
    return madd(mscale(mul(e, e), mmul(J, T(J))), mscale(mul(k, k), I(3)))


def expected(h, col, pat):
    tracked = set(col)
    con = {i for i, x in enumerate(pat) if x}
    return sorted(tracked & con), sorted(tracked - con), sorted(con - tracked)


def analyse(h, label, col, pat, S, ret, post, ob):
    """compare one correction step with the specification; ob(rule, ok, key, msg); -> (new columns, state) or None"""
    L, W = h.L, h.L.W
    A, Rm, New = expected(h, col, pat)
    R, p, X, P, Q, n = S["R"], S["p"], S["X"], S["P"], S["Qc"], S["n"]
    vals = [v for c in L.calls for v in c["vals"] if isinstance(v, N)] + list(post.values())
    cfgv = split_cov(L, vals)
    gate_ok = [c for c in L.calls if c["gate"] is not FALSE]
    # ---- correction
    ob("P19.correct", len(gate_ok) == (1 if A else 0) and all(c["gate"] is TRUE for c in gate_ok), label,
       "%d update(s) for tracked legs %s with contacts %s" % (len(gate_ok), sorted(col), pat))
    for c in gate_ok[:1]:
        if not A:
            break
        mats = [v for v in c["vals"] if isinstance(v, N) and v.op != "enum"]
        en = [v for v in c["vals"] if isinstance(v, N) and v.op == "enum"]
        ob("P18.convention", c["side"] == "Right" and len(en) == 1 and en[0].a[2].endswith(h.err), label,
           "world-centric foot positions are a right-invariant observation under the configured error convention; used Correct%sInvariant with %s" % (c["side"], [show(x) for x in en]))
        Z_, H_, N_ = mats[:3]
        m, d = 3 * len(A), 3 * n
        shp = shape(Z_) == (m, 1) and shape(H_) == (m, d) and shape(N_) == (m, m)
        ob("P12.update", shp, label, "innovation %s, Jacobian %s and noise %s do not fit %d legs and a %dx%d covariance" % (shape(Z_), shape(H_), shape(N_), len(A), d, d))
        if not shp:
            return None
        for nm, M in (("innovation", Z_), ("Jacobian", H_), ("noise", N_)):
            u = uninit_part(M)
            ob("P12.defined", u is None, label + " " + nm, "%s: %s" % (nm, u))
            if u:
                return None
        rows_ = {}
        for b in range(len(A)):
            z = blk(Z_, 3 * b, 0, 3, 1)
            for leg in A:
                dcol = blk(X, 0, col[leg], 3, 1)
                val = lincomb((ONE, mmul(R, msym("pos%d_%d" % (leg, L.k), 3, 1))), (num(-1), dcol), (ONE, p))
                if eqm(z, val):
                    rows_[b] = leg
        ob("P18.innovation", sorted(rows_.values()) == A, label,
           "innovations %s are not R*measured foot - (foot - body) of legs %s in columns %s" % ([show(blk(Z_, 3 * b, 0, 3, 1), 5) for b in range(len(A))], A, {a: col[a] for a in A}))
        for b, leg in rows_.items():
            want = {2: mneg(I(3)), col[leg] - 2: I(3)}
            bad = [j for j in range(n) if not eqm(blk(H_, 3 * b, 3 * j, 3, 3), want.get(j, Z(3, 3)))]
            ob("P18.jacobian", not bad, label + " leg %d" % leg,
               "Jacobian of leg %d (column %d) has %s in block(s) %s" % (leg, col[leg], [show(blk(H_, 3 * b, 3 * j, 3, 3), 3) for j in bad[:3]], bad))
            for b2 in range(len(A)):
                got = blk(N_, 3 * b, 3 * b2, 3, 3)
                val = mprod([R, leg_cov(L, leg, cfgv), T(R)]) if b == b2 else Z(3, 3)
                ob("P18.noise", eqm(got, val), label + " leg %d/%d" % (b, b2), "noise block is %s, expected %s" % (show(got, 5)[:200], show(val, 5)[:200]))
    ob("P19.report", ret is TRUE or (ret.op == "b" and ret is TRUE), label, "an accepted sample was reported as %s" % show(ret, 4))
    # ---- bookkeeping
    keep = [l for l in sorted(col, key=lambda l: col[l]) if l not in Rm]
    n2 = 5 + len(keep) + len(New)
    okd = shape(post["X"]) == (n2, n2) and shape(post["P"]) == (3 * n2, 3 * n2) and shape(post["Qc"]) == (3 * n2, 3 * n2) and shape(post["th"]) == (6, 1)
    ob("P12.state", okd, label, "after contacts %s (tracked %s): state %s, covariance %s, noise %s, biases %s, expected %d columns" % (
        pat, sorted(col), shape(post["X"]), shape(post["P"]), shape(post["Qc"]), shape(post["th"]), n2))
    if not okd:
        ob("P19.columns", False, label, "number of columns is %s instead of %d" % (shape(post["X"]), n2))
        return None
    for nm in ("X", "P", "Qc"):
        if any(x.op == "oob" for x in subterms(post[nm])):
            ob("P12.state", False, label + " " + nm, "a block outside the matrix is used")
            return None
    Xp = post["X"]
    col2, used = {}, set()
    for k, l in enumerate(keep):
        j = 5 + k
        if blk(Xp, 0, j, 3, 1) is blk(X, 0, col[l], 3, 1):
            col2[l] = j
            used.add(j)
    for l in New:
        val = madd(p, mmul(R, msym("pos%d_%d" % (l, L.k), 3, 1)))
        for j in range(5 + len(keep), n2):
            if j not in used and eqm(blk(Xp, 0, j, 3, 1), val):
                col2[l] = j
                used.add(j)
                break
    ob("P19.columns", len(col2) == len(keep) + len(New) and blk(Xp, 0, 0, 3, 5) is blk(X, 0, 0, 3, 5), label,
       "columns after the step: %s; expected legs %s kept in order and %s added at body + R*measured foot" % (
           [show(blk(Xp, 0, j, 3, 1), 4)[:80] for j in range(5, n2)], keep, New))
    lower = all(blk(Xp, 3, j, n2 - 3, 1) is mat(n2 - 3, 1, [ONE if i + 3 == j else ZERO for i in range(n2 - 3)]) for j in range(5 + len(keep), n2))
    ob("P19.columns", lower, label + " (group structure)", "a new column does not have the identity pattern below its position")
    if len(col2) != n2 - 5:
        return None
    # ---- covariance and noise, block by block
    src = list(range(3)) + [col[l] - 2 for l in keep]     # old block index of every kept block

    def old(M, i, j):
        return blk(M, 3 * i, 3 * j, 3, 3)
    nb_old, nb = n - 2, n2 - 2
    order = src + [None] * len(New) + [nb_old, nb_old + 1]
    newleg = {j - 2: l for l, j in col2.items() if l in New}
    right = h.err == "RightInvariant"

    def lin(i):
        """row i of the new error as combination of old blocks: [(matrix, old block)]"""
        if order[i] is not None:
            return [(I(3), order[i])]
        pos_ = msym("pos%d_%d" % (newleg[i], L.k), 3, 1)
        return [(I(3), 2)] if right else [(I(3), 2), (mneg(skew(pos_)), 0)]
    badP, badQ = [], []
    Pp, Qp = post["P"], post["Qc"]
    names = Names()
    gP = grid(Pp, names)
    for i in range(n2):
        for j in range(n2):
            val = Z(3, 3)
            for a, x in lin(i):
                for b, y in lin(j):
                    val = madd(val, mprod([a, old(P, x, y), T(b)]))
            if i == j and order[i] is None:
                cv = leg_cov(L, newleg[i], cfgv)
                val = madd(val, mprod([R, cv, T(R)]) if right else cv)
            got = gP.get((i, j), Z(3, 3))
            if not eqm(got, val):
                badP.append((i, j, got, val))
            got = blk(Qp, 3 * i, 3 * j, 3, 3)
            if order[i] is not None and order[j] is not None:
                val = old(Q, order[i], order[j])
            elif i == j:
                c = cfgv.get("contact_noise_std", dsym("unused contact_noise_std"))
                val = mscale(mul(c, c), I(3))
            else:
                val = Z(3, 3)
            if not eqm(got, val):
                badQ.append((i, j, got, val))
    ob("P19.cov", not badP, label, "covariance block(s) %s after adding %s and removing %s: %s, expected %s" % (
        [b[:2] for b in badP[:4]], New, Rm, show(badP[0][2], 4)[:250], show(badP[0][3], 4)[:250]) if badP else "")
    ob("P19.noise", not badQ, label, "process noise block(s) %s after adding %s and removing %s: %s, expected %s" % (
        [b[:2] for b in badQ[:4]], New, Rm, show(badQ[0][2], 4)[:250], show(badQ[0][3], 4)[:250]) if badQ else "")
    ob("P19.rest", post["th"] is S["th"] and post["t"] is dsym("tpS"), label, "biases or the time are not those of the sample: %s %s" % (show(post["th"], 3), show(post["t"], 3)))
    ki = [e for e in L.evs if e.kind == "kin"]
    ob("P19.kinematics", len(ki) == 1, label, "kinematics were computed %d times before use" % len(ki))
    return col2, W.st


def explore(ctx, rules, depth):
    hs = []
    for err in ("RightInvariant", "LeftInvariant"):
        def emit(h, label, col, pat, S, ret, post):
            if getattr(h, "probing", False):
                # every leg tracked after a step must be corrected through the column it was stored in
                def ob(rule, ok, key, msg):
                    if rule in ("P18.innovation", "P18.jacobian", "P19.correct", "P12.update"):
                        ctx.ob("P19.table", ok, key, msg, **h.at)
                return analyse(h, label, col, pat, S, ret, post, ob)

            def ob(rule, ok, key, msg):
                if rule in rules:
                    ctx.ob(rule, ok, key, msg, **h.at)
            r = analyse(h, label, col, pat, S, ret, post, ob)
            if r is not None and r[0] and "P19.table" in rules and pat != tuple(int(i in col) for i in range(h.nlegs)):
                h.probing = True
                try:
                    h.one(r[0], r[1].clone(), tuple(int(i in r[0]) for i in range(h.nlegs)), label.split(" contacts ")[-1] + ">")
                finally:
                    h.probing = False
            return r
        h = History(ctx, err, emit, depth=depth)
        hs.append(h)
    ctx.notes.append("contact histories: %d correction steps analysed, %d leg-to-column assignments reached (%s)" % (
        sum(h.steps for h in hs), sum(h.states for h in hs), "closed" if depth is None else "depth %d" % depth))
    return hs


RULES = {
    "P19.correct": "one update iff at least one tracked leg is in contact",
    "P19.report": "an accepted leg sample is reported as used",
    "P19.columns": "kept legs keep their column content in order, new legs are appended at body + R * measured foot position",
    "P19.table": "each leg tracked after a step is corrected in the next one through the column it was stored in",
    "P19.cov": "covariance after removal/augmentation, block by block",
    "P19.noise": "process noise after removal/augmentation, block by block",
    "P19.rest": "biases unchanged, time is that of the sample",
    "P19.kinematics": "kinematics of the sample are computed once before they are used",
}


def p19(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    hs = explore(ctx, set(RULES), 2 if ctx.tier == "quick" else None)
    ctx.require("P19.columns", 100, "contact histories")
