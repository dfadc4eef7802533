"""P08, P09, P10: one estimator step, initialisation and reset as a whole."""
from ..dag import *
from .. import dag
from ..model import *
from ..vf import notmpl, csize
from ..facts import AnalysisBroken
from .eqs import enum_of, ykeys, IPQ
from .state import snap, diff, at_of, CONT
from .steps import cases
from . import leg, meas

EQ = "estimator::InekfEstimator"
FI = "filter::inekf::"
PROPS = (FI + "ImuPropagation", "filter::Propagation")
CORRS = (FI + "VelocityCorrection", FI + "LeggedKinematicsCorrection", "filter::Correction")


def given(c):
    """pointers handed in by the user are valid"""
    m = {x: TRUE for x in subterms(c) if x.op == "bsym" and x.a[0] == "nonnull" and x.a[1].op == "sym"}
    return subst(c, m) if m else c


class Est:
    """an estimator with one propagation and a chosen list of corrections, whose steps report arbitrary results"""

    def __init__(self, ctx, kinds, err="RightInvariant", filt=False):
        self.ctx, self.kinds, self.n, self.new_P = ctx, kinds, 0, None
        self.steps = []
        op = dict(GAMMA_SKEW)
        for c in PROPS:
            op[c + "::Propagate"] = self.h("Propagate")
            op[c + "::set_initial_state"] = self.h("set_initial_state")
        for c in CORRS:
            op[c + "::Correct"] = self.h("Correct")
            op[c + "::initialize"] = self.h("initialize")
        W = self.W = World(ctx, opaque=op, assume=given)
        self.ptr = W.new(EQ, "est")
        W.run(W.fn(EQ + "::InekfEstimator", 2), self.ptr, [enum_of(W.F, "ErrorType", err), sym("config_file", "std::string")])
        meas.present(W, {})
        self.queues = {}
        if filt:
            f = W.fn(EQ + "::add_imu_ang_vel_ekf")
            W.run(f, self.ptr, self.args(f, "gyro filter"))
        self.add("add_imu_propagation", "imu")
        for k, c in enumerate(kinds):
            self.add({"v": "add_velocity_correction", "l": "add_legged_kinematics_correction"}[c], "corr%d" % k)

    def args(self, f, who):
        out = []
        for i, p in enumerate(f["params"]):
            v = sym("%s:%d:%s" % (who, i, p["n"]), p["t"])
            if "mutex" not in p["t"] and ("Queue" in p["t"] or "queue" in p["t"]):
                self.queues["%s input %d" % (who, i)] = v
            out.append(v)
        return out

    def add(self, name, who):
        W = self.W
        f = W.fn(EQ + "::" + name)
        W.run(f, self.ptr, self.args(f, who))

    def h(self, what):
        def run(I, e, st):
            o = e["obj"]
            p = I.ev(o, st) if e.get("arrow") else I.addr_of(I.lv(o, st))
            self.n += 1
            r = truth(sym("%s#%d" % (what, self.n), "bool"))
            a = I.ev_arg(e["args"][0], e["pt"][0], st)
            if not isinstance(a, tuple):
                raise Unsupported("step on a copy of the state")
            W = self.W
            save, gate = W.st, st.gate
            W.st = st
            try:
                sp = I.addr_of(a)
                base = "filter::Propagation" if what in ("Propagate", "set_initial_state") else "filter::Correction"
                who = self.who(W.getter(p, base + "::get_mutex_ptr"))
                ev = len(I.events)
                for g, s in (("get_X", "set_X"), ("get_P", "set_P"), ("get_time", "set_time")):
                    old = W.rs(sp, g)
                    r_, c_ = shape(old)
                    if not is_int(r_):
                        r_, c_ = (5, 5) if g == "get_X" else (15, 15)
                    new = msym("%s after %s#%d" % (g, what, self.n), r_, c_) if g != "get_time" else dsym("t#%d" % self.n)
                    if g == "get_P":
                        new = self.new_P(self.n, r_) if self.new_P else new
                        dag.SYM.add(new)
                    I.run(W.fn(RSQ + "::" + s), sp, [ite(r, new, old)], st)
                del I.events[ev:]
            finally:
                W.st = save
            I.event("step", st, e.get("l"), what=what, who=who, arg=a, ret=r)
            return r
        return run

    def who(self, m):
        if m.op == "sym" and ":" in str(m.a[0]):
            return str(m.a[0]).split(":")[0]
        return show(m, 4)

    def call(self, name, args=()):
        W = self.W
        f = self.f = W.fn(EQ + "::" + name)
        self.at = at_of(f)
        e0 = len(W.I.events)
        W.I.loopinfo.clear()
        W.run(f, self.ptr, list(args))
        self.evs = W.I.events[e0:]
        W.st.gate = TRUE            # the call has returned
        return self.evs

    def put(self, v, name):
        """place a by-value RobotState in an object of its own"""
        p = self.W.new(RSQ, name)
        self.W.I.write(self.W.st, self.W.loc(p), v)
        return p

    def state(self):
        W = self.W
        v, s = W.I.run(W.fn(EQ + "::get_state"), self.ptr, [], W.st.clone())
        if isinstance(v, tuple):
            v = W.I.read(W.st, v, None)
        self.n += 1
        w = World.__new__(World)
        w.__dict__.update(W.__dict__)
        w.st = W.st.clone()
        p = w.new(RSQ, "final#%d" % self.n)
        w.I.write(w.st, w.loc(p), v)
        return snap(w, p)

    def out(self):
        """locations of the output queue and of every other queue that receives states"""
        W = self.W
        q = W.getter(self.ptr, EQ + "::get_robot_state_queue_ptr")
        return W.loc(q)

    def enabled(self):
        return truth(self.W.getter(self.ptr, EQ + "::is_enabled"))

    def pushes(self):
        ps = [e for e in self.evs if e.kind == "qop" and e.d["op"] == "push" and e.gate is not FALSE]
        o = self.out()
        return [e for e in ps if e.d["loc"] == o], [e for e in ps if e.d["loc"] != o]


def looped(e):
    return any(str(l[-1]).startswith("g") for l in e.loops)


def same(a, b, facts=TRUE):
    return implies(and_(a, facts), b) and implies(and_(b, facts), a)


def logging(E):
    xs = set()
    for v in E.W.st.env.values():
        if isinstance(v, N):
            xs |= {x for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == ("enable_pose_logger",)}
    if len(xs) != 1:
        raise AnalysisBroken("logger switch: %d configuration entries" % len(xs))
    return truth(xs.pop())


def once(ctx, rule, key, at, ps, want, what, E):
    """exactly one append, under exactly the condition `want`"""
    g = FALSE
    twice = False
    for e in ps:
        twice = twice or satisfiable(and_(g, e.gate))
        g = or_(g, e.gate)
    if any(looped(e) for e in ps):
        ctx.ob(rule, False, key, "appends to the %s in a loop" % what, **at)
        return
    ctx.ob(rule, not twice, key, "two snapshots can be appended to the %s" % what, **at)
    ctx.ob(rule, same(g, want), key, "a snapshot is appended to the %s under %s instead of %s" % (what, show(g, 6)[:300], show(want, 6)[:300]), **at)


def fresh_copy(ctx, rule, key, at, E, ps, final, what):
    W = E.W
    news = {}
    for e in E.evs:
        if e.kind == "new":
            news[e.d["ptr"]] = e
    for e in ps:
        v = e.d["val"]
        alts = [v]
        while any(x.op == "ite" for x in alts):
            alts = [y for x in alts for y in ((x.a[1], x.a[2]) if x.op == "ite" else (x,))]
        ok = all(x in news for x in alts)
        ctx.ob(rule, ok, key, "the element appended to the %s was not allocated in this step: %s" % (what, show(v, 4)), **at)
        if ok:
            got = snap(W, v)
            bad = [c for c in CONT if not same_val(got[c], final[c], e.gate)]
            ctx.ob(rule, not bad, key, "the element appended to the %s differs from the final state in %s" % (what, bad), **at)


def same_val(a, b, gate):
    if a is b:
        return True
    return restrict(a, gate) is restrict(b, gate)


def restrict(v, gate):
    """value under an assumption: conditions decided by the assumption are resolved"""
    if v.op == "ite":
        if implies(gate, v.a[0]):
            return restrict(v.a[1], gate)
        if implies(gate, not_(v.a[0])):
            return restrict(v.a[2], gate)
        return ite(v.a[0], restrict(v.a[1], and_(gate, v.a[0])), restrict(v.a[2], and_(gate, not_(v.a[0]))))
    return v


def kinds(ctx):
    if ctx.tier == "quick":
        return ("", "v", "l", "vl", "lvv")
    import itertools
    return tuple("".join(p) for k in range(5) for p in itertools.product("vl", repeat=k))


def p08(ctx):
    ctx.rule("P08.order", "a step propagates once and then offers the state to every registered correction once, in order of registration, unconditionally")
    ctx.rule("P08.state", "every sub-step works on the estimator's own state")
    ctx.rule("P08.publish", "exactly one snapshot is appended to the output queue iff a sub-step reported new information")
    ctx.rule("P08.log", "exactly one snapshot is appended to the log queue iff a sub-step reported new information and logging is enabled")
    ctx.rule("P08.fresh", "the appended snapshot is newly allocated and holds the state at the end of the step")
    for ks in kinds(ctx):
        for err in ("RightInvariant",) if ctx.tier == "quick" else ("RightInvariant", "LeftInvariant"):
            E = Est(ctx, ks, err)
            lg = logging(E)
            home = None
            for k in (1, 2):
                evs = E.call("RunOnce")
                key = "RunOnce, corrections [%s], step %d" % (ks, k)
                ss = [e for e in evs if e.kind == "step" and e.gate is not FALSE]
                want = [("Propagate", "imu")] + [("Correct", "corr%d" % i) for i in range(len(ks))]
                got = [(e.d["what"], e.d["who"]) for e in ss]
                ctx.ob("P08.order", got == want and all(e.gate is TRUE and not looped(e) for e in ss), key,
                       "the sub-steps are %s%s" % (got, "".join("; %s only if %s" % (e.d["who"], show(e.gate, 4)[:200]) for e in ss if e.gate is not TRUE)), **E.at, sample=str(got))
                home = home or (ss[0].d["arg"] if ss else None)
                ctx.ob("P08.state", all(e.d["arg"] == home for e in ss), key, "sub-steps work on different states", **E.at)
                anyr = FALSE
                for e in ss:
                    anyr = or_(anyr, and_(e.gate, e.d["ret"]))
                out, rest = E.pushes()
                once(ctx, "P08.publish", key, E.at, out, anyr, "output queue", E)
                qs = {e.d["key"] for e in rest}
                ctx.ob("P08.log", len(qs) <= 1, key, "states are appended to %d further queues" % len(qs), **E.at)
                once(ctx, "P08.log", key, E.at, rest, and_(anyr, lg), "log queue", E)
                final = E.state()
                fresh_copy(ctx, "P08.fresh", key, E.at, E, out, final, "output queue")
                fresh_copy(ctx, "P08.fresh", key, E.at, E, rest, final, "log queue")
                ptrs = [e.d["val"] for e in out]
                if k == 2:
                    ctx.ob("P08.fresh", not (set(ptrs) & set(old)), key, "the same object is appended in both steps", **E.at)
                old = ptrs
            ctx.used(E.W.I)
    ctx.require("P08.order", 8, "estimator steps")
    ctx.require("P08.fresh", 16, "snapshots")


# -------------------------------------------------------------------- P09
def success(E, who, what):
    """conditions that imply that `what` of `who` reported success (inductively over the loops)"""
    I = E.W.I
    good = []
    for e in E.evs:
        if e.kind == "step" and e.d["what"] == what and e.d["who"] == who:
            good.append(e.d["ret"])
    cand = []
    for info in I.loopinfo.values():
        for m, (first, back, key) in info["mu"].items():
            if first is None or back is None or not dag._isboolean(m):
                continue
            for pol in (m, not_(m)):
                cand.append((pol, m, first if pol is m else not_(first), back if pol is m else not_(back), info))
    changed = True
    done = set()
    while changed:
        changed = False
        g = FALSE
        for x in good:
            g = or_(g, x)
        for c in cand:
            pol, m, f, b, info = c
            if pol in done:
                continue
            if implies(and_(info["entry_gate"], f), g) and implies(and_(info["end_gate"] if info["end_gate"] is not None else TRUE, b), or_(g, pol)):
                done.add(pol)
                good.append(pol)
                changed = True
                g = or_(g, pol)
    g = FALSE
    for x in good:
        g = or_(g, x)
    return g


COVS = {"rotation": "rotation_std_value", "velocity": "velocity_std_value", "position": "position_std_value"}


def cov_of(E, final, what):
    """configured initial covariance"""
    P = final["get_P"]
    o = {"rotation": 0, "velocity": 3, "position": 6}[what]
    return blk(P, o, o, 3, 3)


def cfg(E, name):
    xs = set()
    for v in E.W.st.env.values():
        if isinstance(v, N):
            xs |= {x for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-2:] == ("state", name)}
    return xs


def p09(ctx):
    ctx.rule("P09.enable", "the estimator becomes enabled only if the propagation and every correction reported successful initialisation")
    ctx.rule("P09.covariance", "when it becomes enabled the rotation, velocity and position covariances are the configured ones")
    ctx.rule("P09.publish", "exactly one snapshot of the initialised state is published when it becomes enabled")
    ctx.rule("P09.wait", "without propagation data nothing but the propagation is touched")
    ctx.rule("P09.others", "no constructor and no other operation enables the estimator")
    for ks in kinds(ctx):
        for was in (FALSE, TRUE):
            E = Est(ctx, ks)
            W, I = E.W, E.W.I
            key = "InitState, corrections [%s]%s" % (ks, "" if was is FALSE else ", enabled before")
            ctx.ob("P09.others", E.enabled() is FALSE, "constructor and add_*", "enabled is %s after construction" % show(E.enabled(), 4), **at_of(W.fn(EQ + "::InekfEstimator", 2)))
            covs = {w: cfg(E, n) for w, n in COVS.items()}
            if was is TRUE:
                E.call("EnableFilter")
                ctx.ob("P09.others", E.enabled() is TRUE, "EnableFilter", "enabled is %s" % show(E.enabled(), 4), **E.at)
            pre = E.state()
            evs = E.call("InitState")
            post = E.state()
            en = E.enabled()
            ready = [e for e in evs if e.kind == "step" and e.d["what"] == "set_initial_state"]
            ok = len(ready) == 1 and ready[0].gate is TRUE and not looped(ready[0])
            ctx.ob("P09.enable", ok, key, "%d attempts to initialise the propagation" % len(ready), **E.at)
            if not ok:
                continue
            out, rest = E.pushes()
            pg = FALSE
            for e in out:
                pg = or_(pg, e.gate)
            inits = FALSE
            for e in evs:
                if e.kind == "step" and e.d["what"] == "initialize":
                    inits = or_(inits, e.gate)
            ps = success(E, "imu", "set_initial_state")
            cs = [success(E, "corr%d" % i, "initialize") for i in range(len(ks))]
            vals = [post[c] for c in CONT]
            enabled_once = False
            for l in cases(I, [ready[0].d["ret"], en, pg, inits], vals):
                rdy, ena, pub, ini = l.bools
                what = l.text()[:300]
                if rdy is FALSE:
                    ctx.ob("P09.wait", ini is FALSE and pub is FALSE, key, "without propagation data, %s when %s" % ("corrections are initialised" if ini is not FALSE else "a state is published", what), **E.at)
                    ch = [c for c, v in zip(CONT, l.vals) if v is not l.sub(pre[c]) and not (v.op == "ite")]
                    ctx.ob("P09.wait", not ch and ena is was, key, "without propagation data %s changes" % (ch or "the enabled flag"), **E.at)
                    continue
                if ena is FALSE:
                    ctx.ob("P09.publish", pub is FALSE, key, "publishes a state without becoming enabled when %s" % what, **E.at)
                    continue
                if was is FALSE:
                    enabled_once = True
                    for i, c in enumerate(cs):
                        ctx.ob("P09.enable", implies(l.path(), c), key, "can become enabled although correction %d did not report a successful initialisation, when %s" % (i, what), **E.at, sample=what)
                    ctx.ob("P09.enable", implies(l.path(), ps), key, "can become enabled although the propagation did not report a successful initialisation", **E.at)
                    ctx.ob("P09.publish", pub is TRUE, key, "becomes enabled without publishing the state when %s" % what, **E.at)
                fin = dict(zip(CONT, l.vals))
                for w in COVS:
                    if len(covs[w]) != 1:
                        raise AnalysisBroken("configuration of the initial %s covariance" % w)
                    (x,) = covs[w]
                    exp = mscale(mul(x, x), I_(3))
                    got = cov_of(E, fin, w)
                    ctx.ob("P09.covariance", mat_equal(got, exp), key, "initial %s covariance is %s" % (w, show(got, 5)[:200]), **E.at, sample=show(exp, 5))
            if was is FALSE:
                ctx.ob("P09.enable", enabled_once, key, "never becomes enabled", **E.at)
            twice = [1 for i, a in enumerate(out) for b in out[:i] if satisfiable(and_(a.gate, b.gate))]
            ctx.ob("P09.publish", not twice and not any(looped(e) for e in out), key, "publishes more than one state", **E.at)
            for e in out:
                got = snap(W, e.d["val"])
                bad = [c for c in CONT if not same_val(got[c], post[c], e.gate)]
                ctx.ob("P09.publish", not bad, key, "the published state differs from the initialised one in %s" % bad, **E.at)
            ctx.used(I)
        for name in ("RunOnce", "InitBias", "clear"):
            E = Est(ctx, ks)
            E.call(name)
            bad = [l for l in cases(E.W.I, [E.enabled()]) if l.bools[0] is not FALSE]
            ctx.ob("P09.others", not bad, "%s, corrections [%s]" % (name, ks), "enables the estimator", **E.at)
    ctx.require("P09.enable", 8, "initialisations")
    ctx.require("P09.covariance", 9, "initial covariances")


I_ = dag.I


# -------------------------------------------------------------------- P10
def p10(ctx):
    ctx.rule("P10.disabled", "a reset estimator is disabled")
    ctx.rule("P10.queues", "every queue the estimator owns or reads is empty when its lock is released for the last time")
    ctx.rule("P10.state", "the robot state equals a newly constructed one")
    ctx.rule("P10.contacts", "after a reset the leg correction behaves like a new one for every contact pattern")
    ref = None
    for ks, filt, was in (("v", False, True), ("vl", False, True), ("l", False, False), ("vl", True, True), ("vl", True, False)):
        E = Est(ctx, ks, filt=filt)
        W, I = E.W, E.W.I
        E.call("InitState")
        E.call("RunOnce")
        logs = E.pushes()[1]
        key = "clear, corrections [%s]%s" % (ks, ", gyro filter" if filt else "")
        if was:
            E.call("EnableFilter")
        qs = {n: W.loc(v) for n, v in E.queues.items()}
        qs["output"] = E.out()
        for e in logs:
            qs["log"] = e.d["loc"]
        if filt:
            qs["filtered gyro data"] = filtered(E)
        if not logs:
            raise AnalysisBroken("log queue not found")
        # an arbitrary state
        scramble(E)
        E.call("clear")
        for n, l in qs.items():
            emptied(ctx, E, key, n, l)
        ctx.ob("P10.disabled", all(l.bools[0] is FALSE for l in cases(I, [E.enabled()])), key, "the estimator can stay enabled", **E.at)
        post = E.state()
        new = W.new(RSQ, "newstate")
        W.run(W.fn(RSQ + "::RobotState", 0), new)
        ref = snap(W, new)
        ch = diff(ref, {c: restrict_loops(I, post[c]) for c in CONT})
        ctx.ob("P10.state", not ch, key, "after the reset %s differs from a new state: %s" % (ch, show(post[ch[0]], 4)[:200] if ch else ""), **E.at, sample=str(len(CONT)))
        ctx.used(I)
    filter_queues(ctx)
    state_clear(ctx)
    contacts(ctx)
    ctx.require("P10.queues", 12, "queues")
    ctx.require("P10.contacts", 16, "contact patterns")


def restrict_loops(I, v):
    ls = cases(I, [], [v])
    vs = {l.vals[0] for l in ls}
    return vs.pop() if len(vs) == 1 else v


def filtered(E):
    """queue handed out by the gyro filter: the only queue it publishes to"""
    W = E.W
    for root in W.st.env:
        if root[0] == "o" and len(root) > 2 and "ImuAngVelEKF" in str(root[2]):
            p = W.I.addr_of((root, ()))
            return W.loc(W.getter(p, "imu_filter::ImuAngVelEKF::get_filtered_imu_data_buffer_ptr"))
    raise AnalysisBroken("gyro filter object not found")


def emptied(ctx, E, key, n, loc):
    I = E.W.I
    last = None
    for i, e in enumerate(E.evs):
        if e.kind == "qop" and e.d["loc"] == loc:
            last = i
    if last is None:
        ctx.ob("P10.queues", False, key + ": " + n, "the %s queue is not touched" % n, **E.at)
        return
    rel = [e for e in E.evs[last:] if e.kind == "unlock" and loc in e.d["q"]][:1]
    if not rel:
        ctx.ob("P10.queues", False, key + ": " + n, "the %s queue is not emptied under a lock" % n, **E.at)
        return
    v = rel[0].d["q"][loc]
    bad = [l for l in cases(I, [rel[0].gate, pos(csize(v))]) if l.bools[0] is not TRUE or l.bools[1] is not FALSE]
    ctx.ob("P10.queues", not bad, key + ": " + n, "the %s queue can keep elements (or is skipped)%s" % (n, " when " + bad[0].text()[:300] if bad else ""), **E.at, sample=show(v, 4))


def scramble(E):
    """the estimator's state becomes an arbitrary one with two augmented columns"""
    W = E.W
    p, S = W.robot_state(7, "used")
    W.run(W.fn(RSQ + "::set_body_angular_velocity"), p, [msym("wS", 3, 1)])
    W.run(W.fn(EQ + "::set_state"), E.ptr, [W.I.read(W.st, W.loc(p), RSQ)])


def state_clear(ctx):
    W = World(ctx, opaque=GAMMA_SKEW)
    f = W.fn(RSQ + "::clear")
    new = W.new(RSQ, "newstate")
    W.run(W.fn(RSQ + "::RobotState", 0), new)
    ref = snap(W, new)
    for n in (5, 6, 8, 9):
        st, S = W.robot_state(n, "used%d" % n)
        W.run(f, st)
        got = snap(W, st)
        ctx.ob("P10.state", not diff(ref, got), "RobotState::clear, %d columns" % n, "%s differs from a new state" % diff(ref, got), **at_of(f))
        for g in ("dimX", "dimTheta", "dimP"):
            a, b = W.rs(st, g), W.rs(new, g)
            ctx.ob("P10.state", a is b, "RobotState::clear, %d columns, %s" % (n, g), "%s is %s, %s for a new state" % (g, show(a, 3), show(b, 3)), **at_of(f))
    ctx.used(W.I)


def contacts(ctx):
    import itertools
    for tracked in ((0,), (1, 3), (0, 1, 2, 3)):
        L = leg.LegWorld(ctx, "RightInvariant")
        W = L.W
        ref = leg.LegWorld(ctx, "RightInvariant")
        ref.k = 1
        L.step(tuple(1 if i in tracked else 0 for i in range(4)))
        f = W.fn(leg.LKQ + "::clear")
        W.run(f, L.lk)
        W.run(W.fn(RSQ + "::clear"), L.stp)
        base = (W.st.clone(), ref.W.st.clone())
        for pat in itertools.product((0, 1), repeat=4):
            res = []
            for w, b in ((L, base[0]), (ref, base[1])):
                w.W.st = b.clone()
                w.k = 1
                for g, v in (("set_X", msym("XS", 5, 5)), ("set_P", msym("PS", 15, 15)), ("set_continuous_noise_covariance", msym("QcS", 15, 15)),
                             ("set_theta", msym("ThetaS", 6, 1)), ("set_time", dsym("tS")), ("set_propagate_time", dsym("tpS"))):
                    w.W.run(w.W.fn(RSQ + "::" + g), w.stp, [v])
                r = w.step(pat)
                calls = [(c["side"], c["gate"]) + tuple(v for v in c["vals"] if isinstance(v, N)) for c in w.calls if c["gate"] is not FALSE]
                res.append((r, snap(w.W, w.stp), calls))
            (r1, s1, c1), (r2, s2, c2) = res
            ch = diff(s1, s2)
            ctx.ob("P10.contacts", r1 is r2 and not ch and c1 == c2, "legs %s tracked before the reset, contacts %s" % (list(tracked), "".join(map(str, pat))),
                   "after clear() the correction does not behave like a new one: %s" % (ch or "different updates"), **at_of(f))
        ctx.used(W.I)


def filter_queues(ctx):
    """the gyro filter's own reset, for every constructor"""
    cls = "imu_filter::ImuAngVelEKF"
    W0 = World(ctx, opaque=GAMMA_SKEW)
    for ct in W0.F.by_q.get(cls + "::ImuAngVelEKF", []):
        if not ct["params"] or ct.get("body") is None:
            continue
        W = World(ctx, opaque=GAMMA_SKEW, assume=given)
        ct = next(f for f in W.F.by_q[cls + "::ImuAngVelEKF"] if f["fid"] == ct["fid"])
        E = Est.__new__(Est)
        E.W, E.queues, E.ctx = W, {}, ctx
        E.ptr = W.new(cls, "filter")
        W.run(ct, E.ptr, E.args(ct, "filter"))
        meas.present(W, {})
        f = W.fn(cls + "::clear")
        E.at = at_of(f)
        qs = {n: W.loc(v) for n, v in E.queues.items()}
        qs["filtered gyro data"] = W.loc(W.getter(E.ptr, cls + "::get_filtered_imu_data_buffer_ptr"))
        e0 = len(W.I.events)
        W.I.loopinfo.clear()
        W.run(f, E.ptr)
        E.evs = W.I.events[e0:]
        for n, l in qs.items():
            emptied(ctx, E, "ImuAngVelEKF::clear, %d-argument constructor" % len(ct["params"]), n, l)
        ctx.used(W.I)
