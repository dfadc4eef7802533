"""P05, P06, P07: what one propagation / correction step consumes, stamps and leaves alone."""
from ..dag import *
from .. import dag
from ..model import *
from ..vf import qfront, stript, notmpl
from ..facts import AnalysisBroken
from fractions import Fraction
from .eqs import enum_of, make_prop, ykeys, IPQ, IMU
from .state import snap, diff, at_of, CONT
from . import leg, meas

VCQ, LKQ, MQ = meas.VCQ, leg.LKQ, leg.MQ


# -------------------------------------------------------------------- case analysis
def _atoms(v, deep=False):
    out = []
    if v.op == "ite":
        for x in subterms(v) if deep else _spine(v):
            if x.op == "ite" and x.a[0] not in out:
                out.append(x.a[0])
    elif is_atom(v) and dag._isboolean(v):
        out.append(v)
    return out


def _spine(v):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        yield x
        todo += [x.a[2], x.a[1]]


class Leaf:
    def __init__(self, lits, vals):
        self.lits, self.vals, self.care = lits, vals, TRUE

    def sub(self, v):
        return subst(v, self.lits) if self.lits else v

    def text(self):
        return "; ".join("%s%s" % ("" if b is TRUE else "not ", show(a, 5)[:110]) for a, b in self.lits.items())

    def path(self):
        p = self.care
        for a, b in self.lits.items():
            p = and_(p, a if b is TRUE else not_(a))
        return p


def cases(I, bools, vals=(), facts=TRUE, limit=4096):
    """Shannon expansion over the conditions of the boolean values and the top-level conditions of the others;
    combinations that contradict each other, or that would still be inside a loop, are dropped"""
    ends = [i["end_gate"] for i in I.loopinfo.values() if i["end_gate"] is not None]
    for i in I.loopinfo.values():
        for f in i.get("inv", ()):
            facts = and_(facts, f)
    bools, vals = list(bools), list(vals)
    nb = len(bools)
    out = []

    def go(lits, cur, path, ends):
        if len(out) > limit:
            raise Unsupported("too many cases")
        at = None
        for i, v in enumerate(cur):
            for a in _atoms(v):
                at = a
                break
            if at is not None:
                break
        if at is None:
            if any(e is TRUE for e in ends):
                return
            l = Leaf(lits, cur)
            for e in ends:
                l.care = and_(l.care, not_(e))
            l.care = and_(l.care, facts)
            if satisfiable(l.path()):
                out.append(l)
            return
        for b in (TRUE, FALSE):
            p = and_(path, at if b is TRUE else not_(at))
            if p is FALSE or not satisfiable(p):
                continue
            m = {at: b}
            go({**lits, at: b}, [subst(v, m) for v in cur], p, [subst(e, m) for e in ends])
    go({}, bools + vals, facts, ends)
    for l in out:
        l.bools, l.vals = l.vals[:nb], l.vals[nb:]
    return out


def holds(I, leaf, fact, ptr):
    """does fact(ptr) hold on this leaf?  For a loop-carried element: inductively over the loop"""
    if implies(leaf.path(), fact(ptr)):
        return True
    r = loop_of(I, ptr)
    if r is None:
        return False
    info, first, back = r
    if first is None or back is None:
        return False
    return _ind(I, info["entry_gate"], fact, first) and _ind(I, info["end_gate"], fact, back)


def _ind(I, gate, fact, v):
    if v.op == "ite":
        return _ind(I, and_(gate, v.a[0]), fact, v.a[1]) and _ind(I, and_(gate, not_(v.a[0])), fact, v.a[2])
    return gate is None or implies(gate, fact(v))


def loop_of(I, v):
    for i in I.loopinfo.values():
        if v in i["mu"]:
            f, b, _ = i["mu"][v]
            return i, f, b
    return None


def origins(I, v, seen=None):
    """queue elements a (possibly loop-carried) pointer can stand for"""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    if v.op == "ite":
        return origins(I, v.a[1], seen) | origins(I, v.a[2], seen)
    r = loop_of(I, v)
    if r is None:
        return {v}
    return set().union(*[origins(I, x, seen) for x in r[1:] if x is not None])


def is_elem(I, v):
    return all(x.op == "qf" for x in origins(I, v))


def elements(I, v, typ="Ptr"):
    """queue elements whose content occurs in a value"""
    out = []
    for x in subterms(v):
        if x.op == "qf" or (x.op == "mu" and is_elem(I, x)):
            if x not in out:
                out.append(x)
    inner = {y for x in out if x.op == "qf" for y in subterms(x) if y is not x}
    return [x for x in out if x not in inner]


def pops_of(evs, p):
    """events that remove the element p from its queue"""
    return [e for e in evs if e.kind == "qop" and e.d["op"] == "pop" and qfront(e.d["pre"]) is p]


def removed_once(I, leaf, evs, p):
    """the element is removed from its queue on this path (inductively for loop-carried ones) -> problem or None"""
    def gate(v):
        g = FALSE
        for e in pops_of(evs, v):
            g = or_(g, e.gate)
        return g
    if loop_of(I, p) is None:
        g = leaf.sub(gate(p))
        return None if g is TRUE or implies(leaf.path(), g) else "stays in the queue"
    if holds(I, leaf, gate, p):
        return None
    return "stays in the queue"


# -------------------------------------------------------------------- set-ups
def mark(calls):
    """updates: captured, and visible in the state afterwards"""
    def mk_(side):
        def h(I, e, st):
            pts = e.get("pt", [])
            vals, loc = [], None
            for i, a in enumerate(e["args"]):
                x = I.ev_arg(a, pts[i] if i < len(pts) else "", st)
                if isinstance(x, tuple):
                    if "RobotState" in pts[i]:
                        loc = x
                        continue
                    x = I.read(st, x, a.get("t"))
                vals.append(x)
            calls.append(dict(vals=vals, gate=st.gate, line=e.get("l")))
            W = calls_world[0]
            save = W.st
            W.st = st
            try:
                p = I.addr_of(loc)
                for g, s in (("get_X", "set_X"), ("get_P", "set_P")):
                    r, c = shape(W.rs(p, g))
                    v = msym("updated:" + g, r, c)
                    I.run(W.fn(RSQ + "::" + s), p, [v], st)
            finally:
                W.st = save
            return UNIT
        return h
    return {"filter::inekf::Correct%sInvariant" % s: mk_(s) for s in ("Right", "Left")}


calls_world = [None]


class Vel:
    label = "velocity"
    cls = VCQ

    def __init__(self, ctx, n=5):
        self.calls = []
        op = dict(GAMMA_SKEW)
        op.update(mark(self.calls))
        W = self.W = World(ctx, opaque=op)
        calls_world[0] = W
        self.ptr = W.new(VCQ, "velc")
        ct = W.fn(VCQ + "::VelocityCorrection")
        W.run(ct, self.ptr, [enum_of(W.F, "ErrorType", "RightInvariant") if "ErrorType" in p["t"] else sym("ctor:" + p["n"], p["t"]) for p in ct["params"]])
        meas.present(W, {})
        self.st, self.S = W.robot_state(n, "S")

    def used(self, leaf):
        """samples that enter the update on this leaf"""
        out = []
        for c in self.calls:
            if leaf.sub(c["gate"]) is not FALSE:
                for v in c["vals"]:
                    out += [p for p in elements(self.W.I, leaf.sub(v)) if p not in out]
        return out


class Leg:
    label = "legs"
    cls = LKQ

    def __init__(self, ctx, pattern=(0, 0, 0, 0), tracked=()):
        self.calls = []
        self.kin = []
        L = self.L = leg.LegWorld(ctx, "RightInvariant")
        W = self.W = L.W
        calls_world[0] = W
        self.ptr, self.st = L.lk, L.stp
        if tracked:
            L.step(tuple(1 if i in tracked else 0 for i in range(4)))
        n = 5 + len(tracked)
        d = 3 * n
        self.label = "legs (contacts %s, tracked %s)" % ("".join(map(str, pattern)), sorted(tracked))
        for g, v in (("set_X", msym("XS", n, n)), ("set_P", msym("PS", d, d)), ("set_continuous_noise_covariance", msym("QcS", d, d)),
                     ("set_theta", msym("ThetaS", 6, 1)), ("set_time", dsym("tS")), ("set_propagate_time", dsym("tpS"))):
            W.run(W.fn(RSQ + "::" + g), self.st, [v])
        op = W.I.opaque
        op.update(mark(self.calls))
        op.pop(MQ + "::get_time")
        op[leg.LKM + "::ComputeKinematics"] = self.h_kin
        W.I.assume = None
        W.I.loopinfo.clear()
        self.L.pattern = pattern
        self.L.k += 1

    def h_kin(self, I, e, st):
        o = e["obj"]
        p = I.ev(o, st) if e.get("arrow") else I.addr_of(I.lv(o, st))
        self.kin.append((p, st.gate))
        return UNIT

    def used(self, leaf):
        out = []
        for p, g in self.kin:
            if leaf.sub(g) is not FALSE:
                x = leaf.sub(p)
                if x not in out:
                    out.append(x)
        return out


def threshold(W, ptr):
    """the configured time threshold as stored in the object"""
    xs = set()
    for v in W.st.env.values():
        if isinstance(v, N):
            xs |= {x for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == ("correction_time_threshold",)}
    if len(xs) != 1:
        raise AnalysisBroken("time threshold configuration: %d entries" % len(xs))
    return xs.pop()


def inspected(I, evs):
    """queue elements looked at: (element, gate)"""
    g = {}
    for e in evs:
        if e.kind == "qop" and e.d["op"] == "front":
            p = qfront(e.d["pre"])
            g[p] = or_(g.get(p, FALSE), e.gate)
    return g


def mus_of(I, ps):
    return [m for i in I.loopinfo.values() for m in i["mu"] if m not in ps and is_elem(I, m) and origins(I, m)]


class StepRun:
    """one call of a step function on a symbolic state and arbitrary queues"""

    def __init__(self, w, q):
        W = self.W = w.W
        self.w = w
        self.f = W.fn(w.cls + "::" + q)
        self.at = at_of(self.f)
        self.pre = snap(W, w.st)
        self.base = W.st.clone()
        e0 = len(W.I.events)
        W.I.loopinfo.clear()
        self.ret = W.run(self.f, w.ptr, [W.loc(w.st)])
        self.evs = W.I.events[e0:]
        self.post = snap(W, w.st)
        self.th = threshold(W, w.ptr)
        self.front = inspected(W.I, self.evs)
        self.elems = list(self.front) + mus_of(W.I, self.front)
        facts = not_(pos(neg(self.th)))
        for p in self.elems:
            facts = and_(facts, or_(not_(self.stale(p)), self.older(p)))
        self.facts = facts
        self.leaves = cases(W.I, [self.ret], [self.post[c] for c in CONT], facts)

    def stamp(self, p):
        return self.W.getter(p, MQ + "::get_time")

    def age(self, p):
        return sub(self.pre["get_propagate_time"], self.stamp(p))

    def stale(self, p):
        return pos(sub(self.age(p), self.th))

    def older(self, p):
        return pos(self.age(p))

    def early(self, p):
        return pos(sub(neg(self.age(p)), self.th))

    def key(self, l, what):
        return "%s::%s %s: %s" % (self.w.cls.split("::")[-1], self.f["q"].split("::")[-1], self.w.label, what)


LEGCONF = [((0, 0, 0, 0), ()), ((1, 0, 0, 0), ()), ((0, 0, 0, 0), (0,)), ((0, 1, 0, 0), (1,)), ((0, 1, 0, 1), (0, 1))]


def harnesses(ctx):
    yield lambda: Vel(ctx), "Correct"
    for pat, tr in LEGCONF if ctx.tier == "quick" else [(p, t) for p in __import__("itertools").product((0, 1), repeat=4) for t in ((), (0,), (1, 3), (0, 1, 2, 3))]:
        yield (lambda pat=pat, tr=tr: Leg(ctx, pat, tr)), "Correct"
    yield lambda: Vel(ctx, 7), "initialize"
    yield lambda: Leg(ctx), "initialize"


def used_by(w, r, l):
    if r.f["q"].endswith("initialize"):
        v = l.sub(r.W.rs(w.st, "get_velocity"))
        return elements(r.W.I, v)
    return w.used(l)


def verdicts(ctx, w, r, rule):
    for l in r.leaves:
        b = l.bools[0]
        if not ctx.ob(rule, b is TRUE or b is FALSE, r.key(l, "result"), "the result is %s" % show(b, 4), **r.at):
            continue
        yield l, b is TRUE


def p05(ctx):
    ctx.rule("P05.nothing", "on every path that reports 'nothing done' every container of the robot state has its previous value")
    ctx.rule("P05.stamp", "on every path that reports success the state time is the stamp of the one sample that was used")
    ctx.rule("P05.consume", "on every path that reports success the used sample has been removed from its queue")
    ctx.rule("P05.result", "every path has a definite result")
    for mkw, q in harnesses(ctx):
        w = mkw()
        r = StepRun(w, q)
        ti = CONT.index("get_time")
        for l, ok in verdicts(ctx, w, r, "P05.result"):
            if not ok:
                ch = [c for c, v in zip(CONT, l.vals) if v is not l.sub(r.pre[c])]
                ctx.ob("P05.nothing", not ch, r.key(l, "nothing done"), "reports that nothing was done, but changes %s when %s" % (ch, l.text()), **r.at, sample=l.text()[:200])
                continue
            us = used_by(w, r, l)
            t = l.vals[ti]
            ctx.ob("P05.stamp", len(us) == 1 and t is l.sub(r.stamp(us[0])), r.key(l, "time stamp"),
                   "the state time becomes %s, the used sample(s) are %s, when %s" % (show(t, 5), [show(u, 4) for u in us], l.text()), **r.at, sample=show(t, 5))
            for p in us:
                x = removed_once(r.W.I, l, r.evs, p)
                ctx.ob("P05.consume", x is None, r.key(l, "used sample"), "the used sample %s %s when %s" % (show(p, 4), x, l.text()), **r.at)
        ctx.used(r.W.I)
    p05_prop(ctx)
    ctx.require("P05.nothing", 10, "rejecting paths")
    ctx.require("P05.stamp", 6, "accepting paths")


class Mode:
    """queue emptiness chosen by the analysis"""

    def __init__(self):
        self.empty = None

    def __call__(self, c):
        if self.empty is None:
            return c
        m = {}
        for x in subterms(c):
            if x.op == "size" and x.a[0].op in ("qv", "pop"):
                m[pos(x)] = FALSE if self.empty else TRUE
        return subst(c, m) if m else c


def prop_world(ctx, n, err="RightInvariant", opaque=GAMMA_SKEW):
    mode = Mode()
    W = World(ctx, opaque=opaque, assume=mode)
    ip = make_prop(W, err)
    meas.present(W, {})
    return W, ip, mode


def one_pop(evs):
    ps = [e for e in evs if e.kind == "qop" and e.d["op"] == "pop" and e.gate is not FALSE]
    return (qfront(ps[0].d["pre"]), ps) if len(ps) == 1 and ps[0].gate is TRUE else (None, ps)


def p05_prop(ctx):
    W, ip, mode = prop_world(ctx, 5)
    for q in ("set_initial_state", "Propagate"):
        f = W.fn(IPQ + "::" + q)
        st, S = W.robot_state(6 if q == "Propagate" else 5, "S" + q)
        base = W.st.clone()
        for empty in (True, False):
            W.st = base.clone()
            pre = snap(W, st)
            mode.empty = empty
            e0 = len(W.I.events)
            ret = W.run(f, ip, [W.loc(st)])
            evs = W.I.events[e0:]
            post = snap(W, st)
            key = "%s, queue %s" % (q, "empty" if empty else "not empty")
            if not ctx.ob("P05.result", ret is (FALSE if empty else TRUE), key, "reports %s" % show(ret, 5), **at_of(f)):
                continue
            if empty:
                ctx.ob("P05.nothing", not diff(pre, post), key, "reports that nothing was done, but changes %s" % diff(pre, post), **at_of(f))
                continue
            p, ps = one_pop(evs)
            if q == "set_initial_state":
                base = W.st.clone()     # the sample becomes the one used by the next step
                prev = p
            ok = p is not None and prev is not None and post["get_time"] is W.getter(prev, MQ + "::get_time")
            ctx.ob("P05.stamp", ok, key, "the state time becomes %s" % show(post["get_time"], 5), **at_of(f), sample=show(post["get_time"], 5))
            ctx.ob("P05.consume", p is not None, key, "%d removals from the queue" % len(ps), **at_of(f))
    ctx.used(W.I)


def p06(ctx):
    ctx.rule("P06.window", "a fused sample is not older than the last propagation by more than the threshold (and, for body velocities, strictly older; for legs, not newer by more than the threshold)")
    ctx.rule("P06.discard", "a stale sample that was looked at is removed from the queue")
    ctx.rule("P06.continue", "a step gives up only when the queue is empty or the sample looked at is not stale")
    ctx.rule("P06.keep", "a body-velocity sample that is not strictly older than the last propagation stays in the queue")
    ctx.rule("P06.result", "every path has a definite result")
    for mkw, q in harnesses(ctx):
        if q != "Correct":
            continue
        w = mkw()
        r = StepRun(w, q)
        I = r.W.I
        vel = isinstance(w, Vel)
        for l, ok in verdicts(ctx, w, r, "P06.result"):
            us = w.used(l)
            if not us and vel and ok:
                ctx.ob("P06.window", False, r.key(l, "fused sample"), "success without fusing a sample when %s" % l.text(), **r.at)
            for p in us:
                reqs = [("is older than the threshold allows", lambda x: not_(r.stale(x)))]
                reqs.append(("is not strictly older than the last propagation", r.older) if vel else ("is newer than the threshold allows", lambda x: not_(r.early(x))))
                for what, fact in reqs:
                    g = holds(I, l, fact, p)
                    ctx.ob("P06.window", g, r.key(l, "fused sample"), "a sample that %s can be fused when %s" % (what, l.text()), **r.at, sample=l.text()[:200])
            if not ok:
                why = any(b is FALSE and a.op == "pos" and any(x.op == "size" for x in subterms(a)) for a, b in l.lits.items()) or \
                    any(implies(l.path(), not_(r.stale(p))) for p in r.elems)
                ctx.ob("P06.continue", why, r.key(l, "gives up"), "gives up although the queue may hold further samples, when %s" % l.text(), **r.at)
            if vel:
                for p in r.front:
                    if implies(l.path(), not_(r.older(p))) and not implies(l.path(), r.older(p)):
                        g = FALSE
                        for e in pops_of(r.evs, p):
                            g = or_(g, e.gate)
                        ctx.ob("P06.keep", not satisfiable(and_(l.path(), g)), r.key(l, "later sample"), "a sample that is not older than the last propagation is removed when %s" % l.text(), **r.at)
        for p, g in r.front.items():
            pg = FALSE
            for e in pops_of(r.evs, p):
                pg = or_(pg, e.gate)
            ctx.ob("P06.discard", implies(and_(and_(g, r.stale(p)), r.facts), pg), r.key(None, "stale sample"), "a stale sample can stay in the queue: looked at under %s, removed under %s" % (show(g, 4)[:300], show(pg, 4)[:300]), **r.at)
        ctx.used(I)
    from . import gyro
    ctx.rule("P06.gyro", "the gyro filter fuses only samples that are not older than its last propagation by more than the threshold")
    gyro.explore(ctx, {"P06.gyro"})
    ctx.require("P06.gyro", 30, "samples fused by the gyro filter")
    ctx.require("P06.window", 6, "fused samples")
    ctx.require("P06.keep", 1, "later samples")


def p07(ctx):
    ctx.rule("P07.interval", "a step integrates the previously received sample over the time from the last propagation to that sample's stamp")
    ctx.rule("P07.times", "both state times become the stamp of the integrated sample")
    ctx.rule("P07.once", "each step takes exactly one sample from the queue and keeps it for the next step; without a new sample nothing is consumed")
    for err in ("RightInvariant", "LeftInvariant"):
        for plan in ("++", "-+", "+-+", "+++", "+i+", "+-i-+"):
            W, ip, mode = prop_world(ctx, 5, err)
            f0, f = W.fn(IPQ + "::set_initial_state"), W.fn(IPQ + "::Propagate")
            st0, _ = W.robot_state(5, "init")
            mode.empty = False
            e0 = len(W.I.events)
            W.run(f0, ip, [W.loc(st0)])
            prev, ps = one_pop(W.I.events[e0:])
            if not ctx.ob("P07.once", prev is not None, "set_initial_state %s" % err, "takes %d samples from the queue" % len(ps), **at_of(f0)):
                continue
            got = (W.rs(st0, "get_time"), W.rs(st0, "get_propagate_time"))
            t = W.getter(prev, MQ + "::get_time")
            ctx.ob("P07.times", got == (t, t), "set_initial_state %s" % err, "times become %s / %s" % tuple(show(x, 5) for x in got), **at_of(f0))
            for k, c in enumerate(plan):
                st, S = W.robot_state(6, "S%d" % k)
                pre = snap(W, st)
                mode.empty = c == "-"
                e0 = len(W.I.events)
                if c == "i":
                    W.run(f0, ip, [W.loc(st)])
                    prev, ps = one_pop(W.I.events[e0:])
                    if not ctx.ob("P07.once", prev is not None, "set_initial_state again, %s, steps %s" % (err, plan), "takes %d samples from the queue" % len(ps), **at_of(f0)):
                        break
                    continue
                ret = W.run(f, ip, [W.loc(st)])
                evs = W.I.events[e0:]
                key = "Propagate %s, steps %s, step %d" % (err, plan, k + 1)
                if mode.empty:
                    post = snap(W, st)
                    pops = [e for e in evs if e.kind == "qop" and e.d["op"] == "pop" and e.gate is not FALSE]
                    ctx.ob("P07.once", not pops and not diff(pre, post), key, "without a sample: %d removals, %s changed" % (len(pops), diff(pre, post)), **at_of(f))
                    continue
                new, ps = one_pop(evs)
                if not ctx.ob("P07.once", new is not None and new is not prev, key, "%d samples are taken from the queue" % len(ps), **at_of(f)):
                    break
                t = W.getter(prev, MQ + "::get_time")
                got = (W.rs(st, "get_time"), W.rs(st, "get_propagate_time"))
                ctx.ob("P07.times", got == (t, t), key, "times become %s / %s, the integrated sample has %s" % (show(got[0], 5), show(got[1], 5), show(t, 5)), **at_of(f), sample=show(t, 5))
                X = W.rs(st, "get_X")
                exp = mean_of(W, S, prev, X)
                bad = [nm for nm, (i, j, h, w_, v) in exp.items() if blk(X, i, j, h, w_) is not v]
                ctx.ob("P07.interval", not bad, key, "%s is not the previous sample integrated from the last propagation to its stamp: %s" % (
                    bad, show(blk(X, *exp[bad[0]][:4]), 6)[:300] if bad else ""), **at_of(f))
                prev = new
            ctx.used(W.I)
    ctx.require("P07.interval", 8, "propagation steps")


def mean_of(W, S, m, X):
    from .eqs import strapdown, gravity, lincomb, HALF

    class R:
        pass
    r = R()
    r.W, r.S = W, S
    r.meas = lambda g: W.getter(m, IMU + "::" + g)
    w, a, dt = strapdown(r, [X])
    g = gravity()
    phi = mscale(dt, w)
    A0, A1, A2 = gamma(phi, 0), gamma(phi, 1), gamma(phi, 2)
    dt2 = mul(dt, dt)
    R_, v, p = S["R"], S["v"], S["p"]
    return {"rotation": (0, 0, 3, 3, mmul(R_, A0)),
            "velocity": (0, 3, 3, 1, lincomb((ONE, v), (dt, mmul(R_, mmul(A1, a))), (dt, g))),
            "position": (0, 4, 3, 1, lincomb((ONE, p), (dt, v), (dt2, mmul(R_, mmul(A2, a))), (mul(HALF, dt2), g)))}
