"""P37: the wheel-odometry baseline - what one step consumes, integrates and logs."""
from ..dag import *
from .. import dag
from ..model import *
from ..vf import notmpl, stript
from ..facts import AnalysisBroken
from ..lib import qc, loc_key
from .state import at_of
from .eqs import ykeys
from . import logs
from .ros import v3

WO = "baseline::WheelOdometry"
VM, AM = "measurement::VelocityMeasurement", "measurement::AngularVelocityMeasurement"
GR = ("core", "inst", "wheel")
FILE = ("logger", "pose_log_file")


class Given:
    """sample times are positive and increase; configuration entries as chosen"""

    def __init__(self):
        self.facts, self.log = TRUE, None

    def __call__(self, c):
        m = {}
        for x in subterms(c):
            if x.op == "bsym" and x.a[0] == "nonnull" and x.a[1].op == "sym":
                m[x] = TRUE
            elif x.op == "yas" and ykeys(x.a[0])[-1:] == ("enable_pose_logger",) and self.log is not None:
                m[x] = TRUE if self.log else FALSE
            elif x.op in ("pos", "zero") and self.facts is not TRUE:
                if implies(self.facts, x):
                    m[x] = TRUE
                elif implies(self.facts, not_(x)):
                    m[x] = FALSE
        return subst(c, m) if m else c


class Wheel:
    def __init__(self, ctx, log):
        self.ctx, self.given = ctx, Given()
        self.given.log = log
        W = self.W = World(ctx, GR, opaque=GAMMA_SKEW, assume=self.given)
        cs = [f for f in W.F.by_q.get(WO + "::WheelOdometry", []) if f.get("body") and len(f["params"]) > 1]
        if len(cs) != 1:
            raise AnalysisBroken("%d constructors of %s" % (len(cs), WO))
        self.ct = cs[0]
        self.p = W.new(WO, "wo")
        self.arg, args = {}, []
        last = None
        for q in self.ct["params"]:
            v = sym(q["n"], q["t"])
            t = q["t"]
            if "mutex" in t:
                self.arg[last + " mutex"] = v
            elif "ueue" in t:
                last = "angular velocity" if "ngularVelocity" in t else "velocity"
                self.arg[last + " queue"] = v
            args.append(v)
        if len(self.arg) != 4:
            raise AnalysisBroken("queues and mutexes of %s: %s" % (WO, sorted(self.arg)))
        W.run(self.ct, self.p, args)
        self.ctor_events = list(W.I.events)
        r = W.F.rec(WO)
        fs = [f for f in r["fields"] if notmpl(stript(f["t"])).endswith("RobotState")]
        if len(fs) != 1:
            raise AnalysisBroken("%d state members of %s" % (len(fs), WO))
        l = W.loc(self.p)
        self.state = W.I.addr_of((l[0], l[1] + (("f", WO + "::" + fs[0]["n"]),)))
        self.q = {k: W.loc(self.arg[k + " queue"]) for k in ("velocity", "angular velocity")}
        W.I.keep_q = set(self.q.values())
        self.m = {k: loc_key(W.loc(self.arg[k + " mutex"])) for k in self.q}
        self.fn = W.fn(WO + "::RunOnce", 0)
        ctx.functions.update((self.ct["q"], self.fn["q"]))

    def sample(self, k):
        """one pair of measurements of the instant t_k"""
        W = self.W
        out = {}
        for what, cls, setter in (("velocity", VM, "set_velocity"), ("angular velocity", AM, "set_angular_velocity")):
            p = W.new(cls, "%s#%d" % (what, k))
            f = [x for x in W.F.by_q.get(cls + "::" + cls.split("::")[-1], []) if x.get("ctor") and not x["params"]]
            W.run(f[0] if f else W.fn(cls + "::" + cls.split("::")[-1], 0), p, [])
            xs = [dsym("%s%d%s" % ("w" if what[0] == "a" else "v", k, c)) for c in "xyz"]
            sf = W.fn(cls + "::" + setter)
            if len(sf["params"]) == 3:
                W.run(sf, p, xs)
            else:
                raise AnalysisBroken("setter " + setter)
            # the linear velocity's stamp drives the integration, whatever the other one's stamp
            W.run(W.member(cls, "set_time"), p, [dsym(("u%d" if what[0] == "a" else "t%d") % k)])
            out[what] = p
            out[what + " value"] = v3(xs)
        return out

    def fill(self, items):
        for k, l in self.q.items():
            self.W.st.q[l] = mk("seq", tuple(s[k] for s in items[k]))

    def once(self):
        W = self.W
        W.st.gate = TRUE
        n, u = len(W.I.events), len(W.I.uninit_reads)
        W.run(self.fn, self.p, [])
        self.held = {k for k, v in W.st.locks.items() if v is not FALSE}
        W.st.gate = TRUE
        self.ctx.used(W.I)
        self.unread = W.I.uninit_reads[u:]
        return W.I.events[n:]

    def snap(self):
        return {k: self.W.rs(self.state, k) for k in ("get_X", "get_time", "get_rotation", "get_velocity", "get_position", "get_P", "get_theta") if self.W.F.by_q.get(RSQ + "::" + k)}


def same(a, b):
    if a is b:
        return True
    try:
        return bool(mat_equal(a, b))
    except Exception:
        return False


def left(W, l):
    v = W.st.q.get(l)
    return v.a[0] if v is not None and v.op == "seq" else None


def p37(ctx):
    ctx.rule("P37.take", "a step removes one measurement from each queue, the oldest, when both have one, and nothing otherwise")
    ctx.rule("P37.lock", "each queue is only touched under the mutex handed in together with it; none is held when the step ends")
    ctx.rule("P37.seed", "the first pair sets the time and moves nothing")
    ctx.rule("P37.law", "each later pair moves the pose by R Exp(w dt), p + R v dt, with velocity R v, over the time since the previous pair; the pose stays in SE_2(3)")
    ctx.rule("P37.time", "the state's time is the stamp of the last velocity measurement")
    ctx.rule("P37.log", "with logging, a pose that is at least one log period after the last logged one is written as one line time, x y z, qx qy qz qw with enough digits; otherwise nothing is written")
    ctx.rule("P37.init", "no member is read before it was given a value")
    for log in (False, True):
        for pat in ("none", "velocity only", "angular velocity only"):
            for n in (1, 3) if pat != "none" else (0,):
                idle(ctx, log, pat, n)
        history(ctx, log)
    ctx.require("P37.take", 6, "steps")
    ctx.require("P37.law", 4, "integrated pairs")


def locks(ctx, H, evs, key):
    for e in evs:
        if e.kind == "qop":
            k = next((k for k, l in H.q.items() if l == e.d["loc"]), None)
            ok = k is not None and e.locks.get(H.m[k], FALSE) is not FALSE and implies(e.gate, e.locks[H.m[k]])
            ctx.ob("P37.lock", ok, "%s, %s line %s" % (key, e.d["op"], e.line), "the %s queue is accessed without its mutex" % (k or "unknown"), **ctx.at(e))
    ctx.ob("P37.lock", not H.held, key + ", exit", "a mutex is still held when the step returns", **at_of(H.fn))


def fresh(ctx, H, key):
    seen = set()
    for fn, line, name, g, t in H.unread:
        if name not in seen and satisfiable(g):
            seen.add(name)
            ctx.ob("P37.init", False, "%s, %s" % (key, name), "%s may be read before it has a value" % name, file=fn.get("file"), line=line, fn=fn["q"])
    if not seen:
        ctx.ob("P37.init", True, key, **at_of(H.fn))


def idle(ctx, log, pat, n):
    H = Wheel(ctx, log)
    ss = [H.sample(k + 1) for k in range(n)]
    H.fill({k: ss if pat == k + " only" else [] for k in H.q})
    pre = H.snap()
    evs = H.once()
    key = "logging %s, queued: %s, %d" % ("on" if log else "off", pat, n)
    A = at_of(H.fn)
    n = {k: left(H.W, l) for k, l in H.q.items()}
    ctx.ob("P37.take", all(n[k] == (tuple(s[k] for s in ss) if pat == k + " only" else ()) for k in n), key, "a measurement is removed although its counterpart is missing", **A)
    post = H.snap()
    ch = [k for k in pre if not same(pre[k], post[k])]
    ctx.ob("P37.take", not ch, key + ", state", "the state changes (%s) without a pair of measurements" % ", ".join(ch), **A)
    locks(ctx, H, evs, key)
    fresh(ctx, H, key)
    ctx.ob("P37.log", not any(e.kind == "out" and e.gate is not FALSE for e in evs), key, "writes a line without a pair of measurements", **A)


def history(ctx, log):
    H = Wheel(ctx, log)
    W = H.W
    A = at_of(H.fn)
    who = "logging %s" % ("on" if log else "off")
    stream = opened(ctx, H, who, log)
    S = [H.sample(k) for k in range(1, 5)]
    t = [dsym("t%d" % k) for k in range(1, 5)]
    for i in range(4):
        for x in [t[i]] + [sub(t[j], t[i]) for j in range(i + 1, 4)]:
            H.given.facts = and_(H.given.facts, pos(x))
    rate = None
    last = None
    for k in range(4):
        key = "%s, pair %d" % (who, k + 1)
        H.fill({q: S[k:] for q in H.q})
        if k:
            X = msym("X#%d" % k, 5, 5)
            for i, j, h, w, v in ((3, 0, 2, 3, dag.Z(2, 3)), (3, 3, 2, 2, dag.I(2))):
                X = mset(X, i, j, h, w, v)
            dag.ORTHO.add(blk(X, 0, 0, 3, 3))
            W.run(W.fn(RSQ + "::set_X"), H.state, [X])
        pre = H.snap()
        evs = H.once()
        post = H.snap()
        n = {q: left(W, l) for q, l in H.q.items()}
        ctx.ob("P37.take", all(n[q] == tuple(s[q] for s in S[k + 1:]) for q in n), key, "not exactly the oldest measurement of each queue is removed", **A)
        locks(ctx, H, evs, key)
        fresh(ctx, H, key)
        ctx.ob("P37.time", same(post["get_time"], t[k]), key, "the state's time becomes %s" % show(post["get_time"], 5), **A)
        outs = [e for e in evs if e.kind == "out" and satisfiable(e.gate)]
        if k == 0:
            ch = [x for x in pre if x != "get_time" and not same(pre[x], post[x])]
            ctx.ob("P37.seed", not ch, key, "the first pair changes %s" % ", ".join(ch), **A)
            ctx.ob("P37.log", not outs, key, "a line is written for the first pair", **A)
            continue
        dt = sub(t[k], t[k - 1])
        R, p = pre["get_rotation"], pre["get_position"]
        v, w = S[k]["velocity value"], S[k]["angular velocity value"]
        want = {"get_rotation": mmul(R, gamma(mscale(dt, w), 0)), "get_velocity": mmul(R, v), "get_position": madd(p, mscale(dt, mmul(R, v)))}
        for g, e in want.items():
            ctx.ob("P37.law", same(post[g], e), "%s, %s" % (key, g[4:]), "the %s becomes %s instead of %s" % (g[4:], show(post[g], 6)[:200], show(e, 6)[:200]), **A)
        X = post["get_X"]
        ok = shape(X) == (5, 5) and same(blk(X, 3, 0, 2, 3), dag.Z(2, 3)) and same(blk(X, 3, 3, 2, 2), dag.I(2))
        ctx.ob("P37.law", ok, key + ", group", "the pose matrix leaves SE_2(3): its last rows are %s" % show(blk(X, 3, 0, 2, 5), 4)[:150] if shape(X) == (5, 5) else "the pose matrix changes its size", **A)
        if not log:
            ctx.ob("P37.log", not outs, key, "a line is written although logging is disabled", **A)
            continue
        last = line(ctx, H, key, outs, stream, post, t[k], last, A)


def opened(ctx, H, who, log):
    evs = H.ctor_events
    opens = [e for e in evs if e.kind == "open" and satisfiable(e.gate)]
    A = at_of(H.ct)
    if not log:
        ctx.ob("P37.log", not opens, who + ", file", "a log file is opened although logging is disabled", **A)
        return None
    ok = ctx.ob("P37.log", len(opens) == 1, who + ", file", "%d log files are opened" % len(opens), **A)
    if not ok:
        return None
    o = opens[0]
    bad = None
    for d in logs.DIRS:
        for x in logs.EXTS:
            name = d + "pose" + x
            got = logs.names(o.d["path"], {FILE: name})
            if got != logs.stem(name) + ".txt":
                bad = (name, got)
    ctx.ob("P37.log", bad is None, who + ", file name", "for the configured name %s the file is %s" % bad if bad else "", **ctx.at(o))
    fm = [logs.digits(e) for e in evs if e.kind == "fmt" and e.d["stream"] == o.d["stream"]]
    ctx.ob("P37.log", bool(fm) and all(x >= 17 for x in fm), who + ", digits", "the log keeps too few digits to read the values back", **A)
    return o.d["stream"]


def line(ctx, H, key, outs, stream, post, t, last, A):
    """-> [(time, condition)] of the lines written so far"""
    W = H.W
    last = last or []
    rate = {x for e in outs for x in subterms(e.gate) if x.op == "yas" and ykeys(x.a[0])[-1:] == ("pose_log_rate",)}
    if not ctx.ob("P37.log", bool(outs) and len(rate) == 1, key + ", written", "no line is written at the configured rate" , **A):
        return last
    rate = rate.pop()
    ctx.ob("P37.log", all(e.d["stream"] == stream for e in outs), key + ", stream", "a stream other than the log file is written", **A)
    g = scaled(outs[0].gate, rate)
    ctx.ob("P37.log", all(scaled(e.gate, rate) is g for e in outs), key + ", line atomic", "parts of a line are written under different conditions", **A)
    # due: one period after the latest line written before (time 0 before the first)
    ref = ZERO
    for tt, gg in last:
        ref = ite(gg, tt, ref)
    due = not_(lt(mul(sub(t, ref), rate), ONE))
    for a, b, c in cases_of(g, due):
        if a is not b:
            ctx.ob("P37.log", False, key + ", due", "a line is written although no log period has passed, or is not written although one has: %s instead of %s" % (show(a, 6)[:200], show(b, 6)[:200]), **dict(A, line=outs[0].line))
            break
    else:
        ctx.ob("P37.log", True, key + ", due", **A)
    toks, nl, bad = logs.tokens(outs)
    ctx.ob("P37.log", bad is None, key + ", layout", "log line: %s" % bad, **dict(A, line=outs[0].line))
    R = W.rs(H.state, "get_world_rotation")
    q = [qc(mk("quatR", R), c) for c in ("x", "y", "z", "w")]
    exp = [t] + logs.coords(W, W.rs(H.state, "get_world_position"), 3) + q
    lab = ["time", "x", "y", "z", "qx", "qy", "qz", "qw"]
    ctx.ob("P37.log", len(toks) == 8, key + ", fields", "a line has %d fields instead of 8" % len(toks), **dict(A, line=outs[0].line))
    for l, x, y in zip(lab, toks, exp):
        ctx.ob("P37.log", same(x, y), "%s, field %s" % (key, l), "field %s of the log line is %s instead of %s" % (l, show(x, 5)[:150], show(y, 5)[:150]), **dict(A, line=outs[0].line))
    return last + [(t, g)]


def scaled(v, rate):
    while True:
        w = logs.scale(v, rate)
        if w is v:
            return v
        v = w


def cases_of(a, b):
    """joint case split over the conditions of two booleans"""
    at = next((x.a[0] for v in (a, b) for x in subterms(v) if x.op == "ite"), None)
    if at is None:
        at = next((x for v in (a, b) for x in subterms(v) if x.op in ("pos", "zero", "bsym") and is_atom(x)), None)
    if at is None:
        yield a, b, TRUE
        return
    for v in (TRUE, FALSE):
        m = {at: v}
        yield from cases_of(subst(a, m), subst(b, m))
