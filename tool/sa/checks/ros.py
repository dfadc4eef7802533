"""P29: the ROS bridge, parsed against declarations of the ROS interface (tool/stubs)."""
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from ..vf import stript, notmpl, csize, vget, truth, Dead
from ..lib import pseudo_fn, tmp, toR, qc, loc_key, ros_sec, ros_time, qfront
from .state import at_of
from .init import check_members

GROUPS = ("core", "inst", "ros")
SUB, PUB = "ros_wrapper::ROSSubscriber", "ros_wrapper::ROSPublisher"
M = "measurement::"


class RosWorld(World):
    def __init__(self, ctx):
        super().__init__(ctx, GROUPS)

    def path(self, cls, dotted):
        """access path of a (nested) field"""
        out = ()
        for n in dotted.split("."):
            r = self.F.rec(notmpl(stript(cls)))
            f = [x for x in r["fields"] if x["n"] == n] if r else []
            if not f:
                raise AnalysisBroken("no field %s in %s" % (n, cls))
            out += (("f", r["q"] + "::" + n),)
            cls = f[0]["t"]
        return out, cls

    def msg(self, cls, name, lens=None):
        """a message with arbitrary fields; lens: number of elements of its array fields"""
        p = self.new(cls, name)
        l = self.loc(p)
        for f, n in (lens or {}).items():
            q, t = self.path(cls, f)
            el_t = stript(t)[len("std::vector<"):].split(",")[0].rstrip(">")
            items = []
            for i in range(n):
                if el_t.startswith("custom_sensor_msgs::Contact"):
                    items.append(mk("rec", "custom_sensor_msgs::Contact", (("custom_sensor_msgs::Contact::id", sym("%s.%s[%d].id" % (name, f, i), "int")),
                                                                         ("custom_sensor_msgs::Contact::indicator", sym("%s.%s[%d].indicator" % (name, f, i), "unsigned char")))))
                else:
                    items.append(dsym("%s.%s[%d]" % (name, f, i)))
            self.I.write(self.st, (l[0], l[1] + q), mk("seq", tuple(items)))
        return p

    def field(self, p, cls, dotted, st=None):
        q, t = self.path(cls, dotted)
        l = self.loc(p)
        return self.I.read(st or self.st, (l[0], l[1] + q), t)

    def vec(self, p, cls, dotted, names="xyz"):
        return [self.field(p, cls, dotted + "." + k) for k in names]

    def stamp(self, p, cls):
        return ros_sec(self.field(p, cls, "header.stamp.sec"), self.field(p, cls, "header.stamp.nsec"))

    def invoke(self, cb, msgs):
        """call a stored callback on messages"""
        I = self.I
        if cb.op == "lam":
            L = I.lams[cb]
            fn = pseudo_fn(L, (L.frame.fn.get("q") or "") + "::lambda")
            byref = [c for c in L.node.get("caps", []) if isinstance(c, dict) and c.get("ref") and c.get("id") in L.frame.vars and L.frame.vars[c["id"]][0][0] == "v"]
            args, this = list(msgs), L.frame.this
            res = I.call_fn(fn, this, args, self.st, 0, lam=L)
        elif cb.op == "bind" and cb.a[0].op == "fun":
            fn = I.F.functions.get(cb.a[0].a[1])
            if fn is None or not fn.get("body"):
                raise AnalysisBroken("callback without a body: %s" % show(cb.a[0], 2))
            byref, rest, this = [], list(cb.a[1:]), None
            if fn.get("rec") and not fn.get("static"):
                this, rest = rest[0], rest[1:]
            args = []
            for a, p in zip(rest, fn["params"]):
                k = placeholder(a)
                v = msgs[k - 1] if k else a
                if v.op == "refto":
                    v = I.deref_loc(v.a[0])
                elif p["t"].rstrip().endswith("&"):
                    v = tmp(I, self.st, v)
                args.append(v)
            res = I.call_fn(fn, this, args, self.st, 0)
        else:
            raise AnalysisBroken("callback is neither a bound function nor a lambda: %s" % show(cb, 3))
        return fn, byref


def placeholder(v):
    s = v.a[0] if v.op == "sym" else (show(v, 2) if v.op in ("g", "glob", "init") else "")
    s = str(s)
    return int(s.rsplit("_", 1)[1]) if "placeholders::_" in s or s.startswith("_") and s[1:].isdigit() else 0


def members(v):
    if v.op in ("pair", "tuple"):
        return list(v.a)
    if v.op == "seq":
        return list(v.a[0])
    raise AnalysisBroken("subscription result %s" % show(v, 3))


class Sub:
    """one call of an Add... function and everything it registers"""

    def __init__(self, W, sub, fn, args):
        self.W, self.fn = W, fn
        ev = len(W.I.events)
        v = W.run(fn, sub, args)
        if isinstance(v, tuple):
            v = W.I.read(W.st, v)
        self.ret = members(v)
        self.queues = [x for x in self.ret if "queue<" in (W.I.pointee_t(x) if hasattr(W.I, "pointee_t") else str(x))]
        self.events = [e for e in W.I.events[ev:] if e.kind == "subscribe"]


def topic_args(fn):
    return [sym("topic%d" % i, "std::string") if "string" in p["t"] else
            (sym("vec:" + p["n"], "std::vector<double,std::allocator<double>>") if "vector" in p["t"] else dsym("param:" + p["n"]))
            for i, p in enumerate(fn["params"])]


IMU, TW, TWC, JS, CA, V3, OD = ("sensor_msgs::Imu", "geometry_msgs::TwistStamped", "geometry_msgs::TwistWithCovarianceStamped", "sensor_msgs::JointState",
                                "custom_sensor_msgs::ContactArray", "geometry_msgs::Vector3Stamped", "nav_msgs::Odometry")
BOXES = {"Imu": M + "ImuMeasurement", "Vel": M + "VelocityMeasurement", "Ang": M + "AngularVelocityMeasurement", "Kin": M + "LeggedKinematicsMeasurement"}


def v3(x):
    return mat(3, 1, list(x))


def x_only(v):
    return mat(3, 1, [v, ZERO, ZERO])


def want_imu(W, m, P, offset=False):
    q = [W.field(m[0], IMU, "orientation." + k) for k in "wxyz"]
    s = ZERO
    for k in q:
        s = add(s, mul(k, k))
    w = W.vec(m[0], IMU, "angular_velocity")
    if offset:
        w = [add(a, b) for a, b in zip(w, W.vec(m[1], V3, "vector"))]
    none = [eq(fn("sqrt", s), ZERO), eq(s, ZERO)]
    return [("Imu", {"get_angular_velocity": v3(w), "get_lin_acc": v3(W.vec(m[0], IMU, "linear_acceleration")),
                     "get_quaternion": [ite(c, mk("quat", ONE, ZERO, ZERO, ZERO), mk("quat", *q)) for c in none]})]


def want_twist(cls, where):
    return lambda W, m, P: [("Vel", {"get_velocity": v3(W.vec(m[0], cls, where))})]


def want_wheels(right, left, track=False):
    def f(W, m, P):
        v = W.field(m[0], JS, "velocity")
        side = lambda idx: mul(div(sum_(vget(v, num(i)) for i in idx), num(len(idx))), P[0])
        vr, vl = side(right), side(left)
        out = [("Vel", {"get_velocity": x_only(div(add(vr, vl), num(2)))})]
        if track:
            out.append(("Ang", {"get_angular_velocity": mat(3, 1, [ZERO, ZERO, div(sub(vr, vl), P[1])])}))
        return out
    return f


def sum_(xs):
    s = ZERO
    for x in xs:
        s = add(s, x)
    return s


def want_legs(W, m, P):
    ct, pos, vel = W.field(m[0], CA, "contacts"), W.field(m[1], JS, "position"), W.field(m[1], JS, "velocity")
    ind = [fld(vget(ct, num(i))) for i in range(4)]
    return [("Kin", {"contacts": ind, "joint positions": [vget(pos, num(i)) for i in range(12)],
                     "joint velocities": [vget(vel, num(i)) for i in range(12)]})]


def fld(v):
    return dict(v.a[1])["custom_sensor_msgs::Contact::indicator"]


# Add function -> number of its parameters, messages, needed array lengths per message, expected measurements
SPEC = {
    ("AddIMUSubscriber", 1): ([IMU], [{}], want_imu),
    ("AddFetchIMUSubscriber", 2): ([IMU, V3], [{}, {}], lambda W, m, P: want_imu(W, m, P, True)),
    ("AddVelocitySubscriber", 1): ([TW], [{}], want_twist(TW, "twist.linear")),
    ("AddVelocityWithCovarianceSubscriber", 1): ([TWC], [{}], want_twist(TWC, "twist.twist.linear")),
    ("AddDifferentialDriveVelocitySubscriber", 2): ([JS], [{"velocity": 4}], want_wheels((1, 3), (0, 2))),
    ("AddDifferentialDriveVelocitySubscriber", 3): ([JS], [{"velocity": 4}], want_wheels((1, 3), (0, 2), True)),
    ("AddDifferentialDriveLinearVelocitySubscriber_Fetch", 2): ([JS], [{"velocity": 3}], want_wheels((1,), (0,))),
    ("AddDifferentialDriveVelocitySubscriber_Fetch", 3): ([JS], [{"velocity": 3}], want_wheels((1,), (0,), True)),
    ("AddMiniCheetahKinematicsSubscriber", 2): ([CA, JS], [{"contacts": 4}, {"position": 12, "velocity": 12}], want_legs),
    ("AddOdom2VelocityCallback", 3): ([OD], [{}], None),
}


def fresh_sub(ctx):
    W = RosWorld(ctx)
    p = W.new(SUB, "sub")
    W.run(W.fn(SUB + "::ROSSubscriber"), p, [sym("nh", "ros::NodeHandle*")])
    return W, p


def params(fn):
    """the numeric parameters in order (wheel radius, track width)"""
    return [a for a in topic_args(fn) if a.op == "sym" and a.a[0].startswith("param:")]


def short(fn):
    return fn["q"].rsplit("::", 1)[1] + "/%d" % len(fn["params"])


class Step:
    """what one delivery of messages does"""

    def __init__(self, W, cb, msgs):
        self.W = W
        n = len(W.I.events)
        W.st.gate = TRUE
        W.I.throws = []
        self.fn, self.byref = W.invoke(cb, msgs)
        self.ev = W.I.events[n:]
        self.gate = W.st.gate
        self.locks = {k for k, v in W.st.locks.items() if v is not FALSE}
        W.st.gate = TRUE

    def pushes(self, q=None):
        l = self.W.loc(q) if q is not None else None
        return [e for e in self.ev if e.kind == "qop" and e.d["op"] in ("push", "emplace", "push_back", "emplace_back") and (l is None or e.d["loc"] == l)]


def deliver(ctx, W, S, cb, msgs, want, key, must):
    """deliver the messages; check what reaches the queues.  want: expected measurements, None: nothing may be pushed"""
    s = Step(W, cb, msgs)
    fn, I = s.fn, W.I
    A = at_of(fn)
    ctx.ob("P29.bind", not s.byref, key + ", captures", "the callback refers to locals of the function that registered it, which are gone when a message arrives", **A)
    for e in s.ev:
        if e.kind == "vidx":
            n = csize(e.d["vec"])
            ok = n.op != "num" or e.d["idx"].op == "num" and 0 <= e.d["idx"].a[0] < n.a[0]
            ctx.ob("P29.bounds", ok, "%s, line %s" % (key, e.line), "element %s of an array of %s elements is read" % (show(e.d["idx"], 2), show(n, 2)), **ctx.at(e))
        if e.kind == "qop":
            m = [x for x, q in zip(mutexes(S), S.queues) if W.loc(q) == e.d["loc"]]
            held = bool(m) and e.locks.get(loc_key(W.loc(m[0])), FALSE) is not FALSE
            ctx.ob("P29.lock", held, "%s, line %s" % (key, e.line), "the queue is changed without holding the mutex that was returned together with it" if m else "a queue that was not returned to the caller is changed", **ctx.at(e))
    ctx.ob("P29.lock", not s.locks, key + ", exit", "a mutex is still held when the callback returns", **A)
    for i, q in enumerate(S.queues):
        ps = s.pushes(q)
        w = want[i] if want else None
        if w is None:
            ctx.ob("P29.deliver", not [p for p in ps if satisfiable(p.gate)], "%s, queue %d" % (key, i), "a measurement is pushed although the message does not determine one", **A)
            continue
        g = FALSE
        twice = False
        for p in ps:
            twice = twice or satisfiable(and_(g, p.gate))
            g = or_(g, p.gate)
        all_ = not satisfiable(and_(s.gate, not_(g))) and (not must or bool(ps))
        ctx.ob("P29.deliver", all_ and not twice, "%s, queue %d" % (key, i),
               "a message is pushed twice" if twice else "a valid message does not reach the queue: pushed if %s" % show(g, 4), **(ctx.at(ps[0]) if ps else A))
        for p in ps:
            after = [e for e in s.ev[s.ev.index(p) + 1:] if e.kind == "write" and e.d["loc"][0] == W.loc(p.d["val"])[0]]
            ctx.ob("P29.complete", not after, "%s, queue %d" % (key, i), "the measurement is still being filled in after it was handed over", **(ctx.at(after[0]) if after else ctx.at(p)))
            box, fields = w
            content(ctx, W, p, msgs, BOXES[box], fields, "%s, queue %d" % (key, i))
    ctx.used(I)
    ctx.functions.add(fn["q"])
    return s


def mutexes(S):
    return [x for x in S.ret if "mutex" in str(x.a[-1])]


def content(ctx, W, p, msgs, cls, fields, key):
    v = p.d["val"]
    dyn = str(v.a[1]) if v.op == "obj" else cls
    cut = lambda x: x if p.gate is TRUE else constrain(x, p.gate)
    get = lambda g: cut(W.getter(v, (notmpl(dyn) if W.F.by_q.get(notmpl(dyn) + "::" + g) else cls) + "::" + g))
    head = msgs[0]
    hc = str(head.a[1])
    t = get("get_time")
    ctx.ob("P29.stamp", same(t, W.stamp(head, hc)), key + ", time", "time stamp %s instead of %s" % (show(t, 5), show(W.stamp(head, hc), 5)), **ctx.at(p))
    l = W.loc(v)
    for f, h in (("seq", "header.seq"), ("frame_id", "header.frame_id")):
        x = cut(W.I.read(W.st, (l[0], l[1] + (("f", M + "Measurement::header"), ("f", M + "Measurement::MeasurementHeader::" + f)))))
        ctx.ob("P29.stamp", x is W.field(head, hc, h), "%s, %s" % (key, f), "%s is %s" % (f, show(x, 4)), **ctx.at(p))
    for g, exp in fields.items():
        if g == "joint positions":
            for i in range(12):
                got = cut(W.getter(v, cls + "::get_joint_state", n=1, args=[num(i)]))
                ctx.ob("P29.fields", same(got, exp[i]), "%s, joint %d" % (key, i), "joint position %d is %s instead of %s" % (i, show(got, 4), show(exp[i], 4)), **ctx.at(p))
            continue
        if g == "joint velocities":
            got = cut(stored_by(W, cls + "::set_joint_state_velocity", v))
            ctx.ob("P29.fields", same(got, mat(12, 1, exp)), "%s, joint velocities" % key, "joint velocities are %s" % show(got, 6)[:300], **ctx.at(p))
            continue
        if g == "contacts":
            got = [cut(W.getter(v, cls + "::get_contact", n=1, args=[num(i)])) for i in range(4)]
            for i in range(4):
                val = [truth(subst(got[i], {exp[i]: num(k)})) for k in (0, 1)]
                ok = val[0] is FALSE and val[1] is TRUE
                ctx.ob("P29.fields", ok, "%s, contact %d" % (key, i), "contact flag %d is %s instead of %s" % (i, show(got[i], 4), show(exp[i], 4)), **ctx.at(p))
            continue
        got = get(g)
        alts = exp if isinstance(exp, list) else [exp]
        ok = any(same(got, x) for x in alts) or g == "get_quaternion" and by_cases(W, head, hc, got, alts[0])
        ctx.ob("P29.fields", ok, "%s, %s" % (key, g), "%s is %s instead of %s" % (g, show(got, 6)[:260], show(alts[0], 6)[:260]), **ctx.at(p), sample=show(alts[0], 4))


def by_cases(W, m, cls, got, exp):
    """equality decided separately for all sign and zero patterns of the orientation"""
    import itertools
    from fractions import Fraction
    q = [W.field(m, cls, "orientation." + c) for c in "wxyz"]
    vals = [(0, Fraction(3, 7), Fraction(-3, 7)), (0, Fraction(2, 5), Fraction(-3, 7)), (0, Fraction(3, 7), Fraction(-2, 5)), (0, Fraction(1, 9), Fraction(-1, 9))]
    return all(same(subst(got, dict(zip(q, map(num, v)))), subst(exp, dict(zip(q, map(num, v))))) for v in itertools.product(*vals))


def stored_by(W, setter, v):
    """the content of the member of object v that a setter stores into"""
    f = W.fn(setter)
    t = W.new(notmpl(str(v.a[1])), "scratch")
    n = len(W.I.events)
    st = W.st.clone()
    W.I.run(f, t, [sym("probe", f["params"][0]["t"])], st)
    fs = {e.d["loc"][1][0] for e in W.I.events[n:] if e.kind == "write" and e.d["loc"][0] == W.loc(t)[0]}
    del W.I.events[n:]
    if len(fs) != 1:
        raise AnalysisBroken("%s stores into %d members" % (setter, len(fs)))
    l = W.loc(v)
    return W.I.read(W.st, (l[0], l[1] + (fs.pop(),)))


def same(a, b):
    if a is b:
        return True
    try:
        if shape(a) == shape(b) and shape(a)[0] is not None:
            return mat_equal(a, b)
    except Exception:
        pass
    try:
        return scal(a) is scal(b)
    except Exception:
        return False


def registered(ctx, W, S, key, msgcls):
    """the registrations one Add call made; -> the callback"""
    A = at_of(S.fn)
    want = [a for a in topic_args(S.fn) if a.op == "sym" and a.a[0].startswith("topic")]
    ok = len(S.events) == 1 and S.events[0].gate is TRUE
    ctx.ob("P29.subscribe", ok, key + ", registrations", "%d registrations" % len(S.events), **A)
    if len(S.events) != 1:
        return None
    e = S.events[0]
    ctx.ob("P29.subscribe", list(e.d["topics"]) == want, key + ", topic", "subscribes to %s instead of %s" % ([show(x, 3) for x in e.d["topics"]], [show(x, 3) for x in want]), **ctx.at(e))
    ctx.ob("P29.subscribe", all(c in "".join(e.d["types"]) for c in msgcls), key + ", message type", "subscribes to messages of type %s" % (e.d["types"],), **ctx.at(e))
    n = len(mutexes(S))
    ctx.ob("P29.subscribe", n == len(S.queues) and n + len(S.queues) == len(S.ret) and len({W.loc(x) for x in S.ret}) == len(S.ret), key + ", result",
           "returns %d queues and %d mutexes" % (len(S.queues), n), **A)
    return e.d["cb"]


def p29(ctx):
    ctx.rule("P29.subscribe", "every Add function registers exactly one callback, for the given topic(s), and returns the queue and mutex that the callback uses")
    ctx.rule("P29.bind", "registered callbacks do not refer to locals of the function that registered them")
    ctx.rule("P29.deliver", "every valid message yields exactly one measurement per returned queue, an unusable one none")
    ctx.rule("P29.fields", "every field of the measurement is the corresponding field of the message")
    ctx.rule("P29.stamp", "header fields and time stamp (seconds plus nanoseconds) are those of the message")
    ctx.rule("P29.lock", "queues are changed under the mutex returned with them, which is released again")
    ctx.rule("P29.complete", "a measurement is not changed after it was handed over")
    ctx.rule("P29.bounds", "no array element beyond the end of a message's array is read")
    ctx.rule("P29.distinct", "subscriptions do not share queues, mutexes or calibration")
    F = ctx.facts(*GROUPS)
    adds = [f for q, fs in F.by_q.items() if q.startswith(SUB + "::Add") for f in fs if f.get("body")]
    seen = set()
    for f in sorted(adds, key=short):
        if id(f) in seen:
            continue
        seen.add(id(f))
        spec = SPEC.get((f["q"].rsplit("::", 1)[1], len(f["params"])))
        if spec is None:
            ctx.notes.append("no specification for " + short(f))
            continue
        cls, need, want = spec
        if want is None:
            odometry(ctx, f)
            continue
        lens = [(j, k) for j, d in enumerate(need) for k in d]
        top = max([n for d in need for n in d.values()] or [0])
        cases = [None] if not lens else []
        for j, k in lens:
            n = need[j][k]
            cases += [(j, k, x) for x in (range(n + 3) if ctx.tier == "thorough" or n <= 4 else (0, 1, n - 1, n, n + 2))]
        for c in cases:
            W, p = fresh_sub(ctx)
            S = Sub(W, p, f, topic_args(f))
            key = short(f) + ("" if c is None else ", %d of %s" % (c[2], c[1]))
            cb = registered(ctx, W, S, short(f), cls)
            if cb is None:
                break
            ls = [{k: (c[2] if c and (j, k) == c[:2] else n) for k, n in d.items()} for j, d in enumerate(need)]
            ms = [W.msg(m, "msg%d" % j, ls[j]) for j, m in enumerate(cls)]
            enough = c is None or c[2] >= need[c[0]][c[1]]
            deliver(ctx, W, S, cb, ms, want(W, ms, params(f)) if enough else None, key, enough)
        # two subscriptions at a time
        W, p = fresh_sub(ctx)
        a, b = Sub(W, p, f, topic_args(f)), Sub(W, p, f, topic_args(f))
        ctx.ob("P29.distinct", not {W.loc(x) for x in a.ret} & {W.loc(x) for x in b.ret}, short(f), "two subscriptions share a queue or a mutex", **at_of(f))
        if a.events:
            ms = [W.msg(m, "msg%d" % j, need[j]) for j, m in enumerate(cls)]
            deliver(ctx, W, a, a.events[0].d["cb"], ms, want(W, ms, params(f)), short(f) + ", after a second subscription", True)
    publisher(ctx)
    check_members(ctx, GROUPS, "P29.init", (SUB, PUB), 6)
    ctx.require("P29.fields", 40, "fields")
    ctx.require("P29.deliver", 30, "deliveries")


def transform(R, t):
    X = dag.I(4)
    return mset(mset(X, 0, 0, 3, 3, R), 0, 3, 3, 1, t)


def odometry(ctx, f):
    """successive odometry samples: velocity = log(T_s^-1 T_a^-1 T_b T_s) / dt"""
    ctx.rule("P29.odometry", "the velocity is the translational part of the logarithm of the relative motion between consecutive samples of the same source, seen from the body, over their time difference")
    W, p = fresh_sub(ctx)
    key = short(f)
    args = [[sym("topic%d" % k, "std::string"), sym("t_src%d" % k, "std::vector<double,std::allocator<double>>"), sym("q_src%d" % k, "std::vector<double,std::allocator<double>>")] for k in (0, 1)]
    subs = []
    for k in (0, 1):
        S = Sub(W, p, f, args[k])
        ok = len(S.events) == 1
        ctx.ob("P29.subscribe", ok, "%s #%d, registrations" % (key, k), "%d registrations" % len(S.events), **at_of(f))
        if not ok:
            return
        e = S.events[0]
        ctx.ob("P29.subscribe", list(e.d["topics"]) == [args[k][0]] and OD in "".join(e.d["types"]), "%s #%d, topic" % (key, k), "subscribes to %s" % [show(x, 2) for x in e.d["topics"]], **ctx.at(e))
        subs.append(S)
    ctx.ob("P29.distinct", not {W.loc(x) for x in subs[0].ret} & {W.loc(x) for x in subs[1].ret}, key, "two subscriptions share a queue or a mutex", **at_of(f))
    # messages of the two sources arrive interleaved
    hist = {0: [], 1: []}
    for n, k in enumerate((0, 1, 0, 1, 0)):
        m = W.msg(OD, "odom%d_%d" % (k, len(hist[k])))
        hist[k].append(m)
        S = subs[k]
        want = None
        last = len(hist[k])
        if last >= 2:
            a, b = hist[k][-2:]
            q = args[k][2]
            src = transform(toR(mk("quat", *[vget(q, num(i)) for i in range(4)])), v3([vget(args[k][1], num(i)) for i in range(3)]))
            Ts = [transform(toR(mk("quat", *[W.field(x, OD, "pose.pose.orientation." + c) for c in "wxyz"])), v3(W.vec(x, OD, "pose.pose.position"))) for x in (a, b)]
            rel = mmul(mmul(mmul(inv(src), inv(Ts[0])), Ts[1]), src)
            L = mk("call", "matrix_log", rel)
            dag.SHAPE.setdefault(L, (4, 4))
            ta, tb = W.stamp(a, OD), W.stamp(b, OD)
            want = [("Vel", {"get_velocity": mscale(div(ONE, sub(tb, ta)), blk(L, 0, 3, 3, 1))})]
        step(ctx, W, S, m, want, "%s source %d, sample %d" % (key, k, last), hist[k])


def step(ctx, W, S, m, want, key, hist):
    cb = S.events[0].d["cb"]
    s = Step(W, cb, [m])
    A = at_of(s.fn)
    q = S.queues[0]
    ps = s.pushes(q)
    for e in s.ev:
        if e.kind == "qop":
            held = e.d["loc"] == W.loc(q) and e.locks.get(loc_key(W.loc(mutexes(S)[0])), FALSE) is not FALSE
            ctx.ob("P29.lock", held, "%s, line %s" % (key, e.line), "the queue is changed without holding the mutex that was returned together with it", **ctx.at(e))
    ctx.ob("P29.lock", not s.locks, key + ", exit", "a mutex is still held when the callback returns", **A)
    if want is None:
        ctx.ob("P29.deliver", not ps, key, "a velocity is pushed although there is no earlier sample of this source", **A)
        return
    ta, tb = W.stamp(hist[-2], OD), W.stamp(hist[-1], OD)
    g = FALSE
    for p in ps:
        g = or_(g, p.gate)
    later = lt(ta, tb)
    ok = bool(ps) and not satisfiable(and_(later, not_(g)))
    ctx.ob("P29.deliver", ok and len(ps) == 1, key, "a later sample does not yield exactly one velocity", **A)
    ctx.ob("P29.odometry", not satisfiable(and_(g, eq(ta, tb))) if ps else True, key + ", equal stamps", "two samples with the same time stamp yield a velocity, divided by a zero time difference", **A)
    for p in ps:
        box, fields = want[0]
        content(ctx, W, p, [m], BOXES[box], fields, key)
    ctx.used(W.I)
    ctx.functions.add(s.fn["q"])


PCS, PS, PATH = "geometry_msgs::PoseWithCovarianceStamped", "geometry_msgs::PoseStamped", "nav_msgs::Path"
ROSORDER = (6, 7, 8, 0, 1, 2)       # x, y, z, rotation about X, Y, Z in terms of the error state


def part(W, v, cls, dotted):
    """a (nested) field of a message value"""
    q, t = W.path(cls, dotted)
    for s in q:
        v = W.I.get(v, s, t)
    return v


class Pub:
    def __init__(self, ctx, kind):
        """kind: "config", "flag" (constructor), or None for a publisher in an arbitrary state"""
        self.ctx = ctx
        self.W = W = RosWorld(ctx)
        self.p = W.new(PUB, "pub")
        self.ct = None
        if kind:
            ct = self.ct = W.fn(PUB + "::ROSPublisher", 4, lambda f: ("string" in f["params"][3]["t"]) == (kind == "config"))
            self.cfg = sym("cfg", "std::string")
            W.run(ct, self.p, [sym("nh", "ros::NodeHandle*"), W.I.param_sym(ct["params"][1]), sym("mtx", ct["params"][2]["t"]),
                               self.cfg if kind == "config" else mk("bsym", "slip")])
        self.q = None

    def call(self, name, this=None):
        W = self.W
        W.st.gate = TRUE
        n = len(W.I.events)
        fn = W.fn(PUB + "::" + name) if isinstance(name, str) else name
        W.run(fn, self.p, [])
        self.exit = {k for k, v in W.st.locks.items() if v is not FALSE}
        W.st.gate = TRUE
        self.ctx.functions.add(fn["q"])
        return W.I.events[n:]

    def thread(self, th):
        """run the function of a thread object -> (events, accesses)"""
        W = self.W
        v = th.a[0]
        if v.op == "fun":
            v = mk("bind", *th.a)
        n = len(W.I.events)
        W.I.track = []
        W.st.gate = TRUE
        try:
            W.invoke(v, [])
        except Dead:
            pass               # a loop without an end: judged by its events
        W.st.gate = TRUE
        tr, W.I.track = W.I.track, None
        return W.I.events[n:], tr


def pubs(ev, cls):
    return [e for e in ev if e.kind == "publish" and satisfiable(e.gate) and (e.d["val"].op in ("rec", "upd", "ite")) and msgtype(e.d["val"]) == cls]


def msgtype(v):
    while v.op in ("upd", "ite"):
        v = v.a[0] if v.op == "upd" else v.a[1]
    return v.a[0] if v.op == "rec" else None


def under(g, a, b):
    """are two values equal whenever g holds?"""
    if same(a, b):
        return True
    try:
        return same(constrain(a, g), constrain(b, g)) or not satisfiable(and_(g, not_(eq(a, b))))
    except Exception:
        return False


def publisher(ctx):
    ctx.rule("P29.publish", "every state taken from the queue is published once, with its time, world position, orientation and pose covariance, under consecutive sequence numbers")
    ctx.rule("P29.config", "topics, frame and rates are those of the configuration file")
    ctx.rule("P29.queue", "the state queue is examined and changed only under the mutex handed over with it, which is released again")
    ctx.rule("P29.path", "every k-th pose, k = pose rate / path rate but at least 1, is appended to the path; a non-empty path is published with all its poses and the stamp of the last one")
    ctx.rule("P29.shared", "members used by both publishing threads, and changed by one, are used under a common mutex")
    ctx.rule("P29.threads", "starting creates the threads, which publish until ROS shuts down; destruction joins them")
    pose(ctx)
    path(ctx)
    threads(ctx)


def popped(W, ev):
    pops = [e for e in ev if e.kind == "qop" and e.d["op"] in ("pop", "pop_front") and satisfiable(e.gate)]
    return pops


def pose(ctx):
    for kind in ("config", "flag", None):
        P = Pub(ctx, kind)
        W = P.W
        fn = W.fn(PUB + "::PosePublish")
        A = at_of(fn)
        key = {"config": "with a configuration file", "flag": "without a configuration file", None: "in any state"}[kind]
        seqs = []
        for round_ in (0, 1):
            ev = P.call("PosePublish")
            out = pubs(ev, PCS)
            pops = popped(W, ev)
            k = "%s, call %d" % (key, round_ + 1)
            ctx.ob("P29.publish", len(pops) == 1 and len(out) == 1 and out[0].gate is pops[0].gate, k + ", once", "%d states are taken from the queue, %d poses are published" % (len(pops), len(out)), **A)
            queue(ctx, P, ev, k)
            if len(out) != 1 or len(pops) != 1:
                continue
            e, v = out[0], out[0].d["val"]
            size0 = [x for x in ev if x.kind == "qop"][0].d["pre"]
            nonempty = lt(ZERO, csize(size0))
            ctx.ob("P29.publish", not satisfiable(and_(nonempty, not_(e.gate))) and not satisfiable(and_(e.gate, not_(nonempty))), k + ", when",
                   "publishes if %s, not whenever the queue is not empty" % show(e.gate, 3), **ctx.at(e))
            front = qfront(pops[0].d["pre"], "front", "std::shared_ptr<state::RobotState>")
            at = ctx.at(e)
            f = lambda d: part(W, v, PCS, d)
            chk = lambda ok, what, got: ctx.ob("P29.publish", ok, "%s, %s" % (k, what), "%s is %s" % (what, show(got, 5)[:300]), **at)
            t = W.rs(front, "get_time")
            s = ros_time(t)
            got = f("header.stamp")
            chk(under(e.gate, part(W, got, "ros::Time", "sec"), part(W, s, "ros::Time", "sec")) and under(e.gate, part(W, got, "ros::Time", "nsec"), part(W, s, "ros::Time", "nsec")), "time stamp", got)
            pos = W.rs(front, "get_world_position")
            for i, c in enumerate("xyz"):
                got = f("pose.pose.position." + c)
                ref = el(pos, i, 0)
                if kind is None:
                    # relative to a fixed origin, the same for every pose
                    off = sub(got, ref)
                    chk(not depends(off, front), "position " + c, got)
                else:
                    chk(under(e.gate, got, ref), "position " + c, got)
            quat = mk("quatR", W.rs(front, "get_world_rotation"))
            for c in "wxyz":
                got = f("pose.pose.orientation." + c)
                chk(under(e.gate, got, qc(quat, c)), "orientation " + c, got)
            Pm = W.rs(front, "get_P")
            cov = f("pose.covariance")
            for i in range(6):
                for j in range(6):
                    got = vget(cov, num(6 * i + j))
                    chk(under(e.gate, got, el(Pm, ROSORDER[i], ROSORDER[j])), "covariance (%d,%d)" % (i, j), got)
            seqs.append((e, f("header.seq")))
            if kind == "config" and round_ == 0:
                config(ctx, P, e, v)
        if kind is None and len(seqs) == 2:
            (e1, a), (e2, b) = seqs
            ctx.ob("P29.publish", under(and_(e1.gate, e2.gate), b, add(a, ONE)) and under(and_(not_(e1.gate), e2.gate), b, a), key + ", sequence numbers",
                   "sequence number %s is followed by %s" % (show(a, 3), show(b, 4)), **ctx.at(e2))
        elif seqs:
            ctx.ob("P29.publish", seqs[0][1] is ZERO, key + ", first sequence number", "the first sequence number is %s" % show(seqs[0][1], 3), **ctx.at(seqs[0][0]))
        ctx.used(W.I)
    ctx.require("P29.publish", 150, "fields of published poses")


def depends(v, x):
    return x in nodes(v)


def queue(ctx, P, ev, k):
    W = P.W
    ms = None
    for e in ev:
        if e.kind != "qop":
            continue
        held = {m for m, g in e.locks.items() if g is not FALSE and not satisfiable(and_(e.gate, not_(g)))}
        held = {m for m in held if P.ct is None or "mtx" in show(m, 4)}
        ctx.ob("P29.queue", bool(held), "%s, %s in line %s" % (k, e.d["op"], e.line), "%s of the state queue without holding its mutex" % e.d["op"], **ctx.at(e))
    ctx.ob("P29.queue", not P.exit, k + ", exit", "a mutex is still held on return", **at_of(W.fn(PUB + "::PosePublish")))


def key_of(cfg, *keys):
    n = mk("yfile", cfg)
    for k in keys:
        n = mk("ynode", n, dag.string(k) if hasattr(dag, "string") else k)
    return n


def is_key(v, *keys):
    """v is the value of the entry keys of the configuration file"""
    if v.op != "yas":
        return False
    n, got = v.a[0], []
    while n.op == "ynode":
        got.insert(0, n.a[1] if isinstance(n.a[1], str) else str(n.a[1].a[0] if hasattr(n.a[1], "a") else n.a[1]))
        n = n.a[0]
    return n.op == "yfile" and [g.strip("'\"") for g in got] == list(keys)


def config(ctx, P, e, v):
    W = P.W
    A = at_of(P.ct)
    pub = e.d["pub"]
    ok = pub.op == "publisher" and pub.a[0] == PCS and is_key(pub.a[1], "publishers", "pose_publish_topic")
    ctx.ob("P29.config", ok, "pose topic", "poses are published through %s" % show(pub, 5), **A)
    fr = part(W, v, PCS, "header.frame_id")
    ctx.ob("P29.config", is_key(fr, "publishers", "pose_frame"), "pose frame", "the frame of a pose is %s" % show(fr, 5), **A)
    ev = P.call("PathPublish")
    out = pubs(ev, PATH)
    ctx.ob("P29.config", len(out) == 1, "path", "%d paths are published" % len(out), **at_of(W.fn(PUB + "::PathPublish")))
    for x in out:
        pub = x.d["pub"]
        ok = pub.op == "publisher" and pub.a[0] == PATH and is_key(pub.a[1], "publishers", "path_publish_topic")
        ctx.ob("P29.config", ok, "path topic", "paths are published through %s" % show(pub, 5), **A)
        fr = part(W, x.d["val"], PATH, "header.frame_id")
        ctx.ob("P29.config", is_key(fr, "publishers", "pose_frame"), "path frame", "the frame of a path is %s" % show(fr, 5), **A)


def rates(ctx, P):
    """the rates of the two threads"""
    W = P.W
    ev = P.call("StartPublishingThread")
    ths = [e.d["ret"] for e in ev if e.kind == "thread_start" and satisfiable(e.gate)]
    res = {}
    for th in ths:
        evs, tr = P.thread(th)
        for cls in (PCS, PATH):
            if pubs(evs, cls):
                r = [e for e in evs if e.kind == "ros" and e.d["f"] == "ros::Rate::Rate"]
                res[cls] = (th, evs, tr, r[0].d["val"].a[0] if r else None)
    return ths, res


def path(ctx):
    P = Pub(ctx, None)
    W = P.W
    ev = P.call("PosePublish")
    out = pubs(ev, PCS)
    app = [e for e in ev if e.kind == "vpush" and satisfiable(e.gate) and e.d["loc"][0] == W.loc(P.p)[0]]
    A = at_of(W.fn(PUB + "::PosePublish"))
    ctx.ob("P29.path", len(app) == 1 and len(out) == 1, "append", "%d poses are appended to the path" % len(app), **A)
    if len(app) != 1 or len(out) != 1:
        return
    a, msg = app[0], out[0].d["val"]
    for d, s in (("header.seq", "header.seq"), ("header.stamp", "header.stamp"), ("header.frame_id", "header.frame_id")) + tuple(
            ("pose.position." + c, "pose.pose.position." + c) for c in "xyz") + tuple(("pose.orientation." + c, "pose.pose.orientation." + c) for c in "wxyz"):
        x, y = part(W, a.d["val"], PS, d), part(W, msg, PCS, s)
        ctx.ob("P29.path", x is y or under(a.gate, x, y), "appended " + d, "%s of the pose in the path is %s" % (d, show(x, 4)[:300]), **ctx.at(a))
    # every k-th pose
    seq = part(W, msg, PCS, "header.seq")
    P2 = Pub(ctx, None)
    ths, res = rates(ctx, P2)
    ctx.ob("P29.threads", set(res) == {PCS, PATH} and len(ths) == 2, "threads", "%d threads are started, publishing %s" % (len(ths), sorted(res)), **at_of(W.fn(PUB + "::StartPublishingThread")))
    if set(res) != {PCS, PATH}:
        return
    hi, lo = res[PCS][3], res[PATH][3]
    dens = {n.a[1] for n in nodes(a.gate) if n.op == "mod"}
    for d in dens:
        ctx.ob("P29.path", not satisfiable(eq(d, ZERO)), "divisor", "the remainder by %s is computed although that can be 0, if the path rate is above the pose rate" % show(d, 4), **ctx.at(a))
    if hi is None or lo is None or seq.op != "sym" and seq.op not in ("g", "init", "fld"):
        raise AnalysisBroken("rates or sequence number not found")
    bad = []
    n = 0
    for h, l in ((1000, 10), (100, 20), (30, 10), (25, 10), (10, 10), (5, 20), (200, 200), (50, 7)):
        kk = max(1, h // l)
        hits = []
        for s in range(0, 3 * kk + 2):
            g = subst(a.gate, {hi: num(h), lo: num(l), seq: num(s)})
            g = constrain(g, out[0].gate)
            r = TRUE if not satisfiable(and_(out[0].gate, not_(g))) else (FALSE if not satisfiable(and_(out[0].gate, g)) else None)
            n += 1
            if r is None:
                bad.append((h, l, "unknown, for %d: %s" % (s, show(g, 5))))
                break
            if r is TRUE:
                hits.append(s)
        want = len(hits) >= 2 and all(y - x == kk for x, y in zip(hits, hits[1:])) and hits[0] < kk
        if not want:
            bad.append((h, l, hits[:4]))
    ctx.ob("P29.path", not bad, "every k-th pose", "poses at %s Hz, path at %s Hz: the poses with numbers %s are appended" % tuple(bad[0][:3]) if bad else "", **ctx.at(a))
    # publishing
    P = Pub(ctx, None)
    W = P.W
    ev = P.call("PathPublish")
    out = pubs(ev, PATH)
    A = at_of(W.fn(PUB + "::PathPublish"))
    ctx.ob("P29.path", len(out) == 1, "publish", "%d paths are published" % len(out), **A)
    vl = (W.loc(P.p)[0], a.d["loc"][1])
    for e in out:
        vec = part(W, e.d["val"], PATH, "poses")
        init = W.I.read(Pub(ctx, None).W.st, vl)
        ctx.ob("P29.path", vec is init, "published poses", "the path contains %s" % show(vec, 4), **ctx.at(e))
        ne = lt(ZERO, csize(vec))
        ctx.ob("P29.path", not satisfiable(and_(ne, not_(e.gate))) and not satisfiable(and_(e.gate, not_(ne))), "when", "a path is published if %s" % show(e.gate, 3), **ctx.at(e))
        st = part(W, e.d["val"], PATH, "header.stamp")
        last = part(W, vget(vec, sub(csize(vec), ONE)), PS, "header.stamp")
        ctx.ob("P29.path", st is last, "stamp", "the time stamp of a path is %s" % show(st, 4), **ctx.at(e))
        s1 = part(W, e.d["val"], PATH, "header.seq")
        out2 = [x for x in pubs(P.call("PathPublish"), PATH)]
        s2 = part(W, out2[0].d["val"], PATH, "header.seq") if len(out2) == 1 else s1
        ctx.ob("P29.path", under(and_(e.gate, out2[0].gate if out2 else TRUE), s2, add(s1, ONE)), "sequence numbers", "path number %s is followed by %s" % (show(s1, 3), show(s2, 3)), **ctx.at(e))
    ctx.ob("P29.path", not P.exit, "exit", "a mutex is still held on return", **A)
    ctx.used(W.I)


def nodes(v):
    seen, todo = set(), [v]
    while todo:
        n = todo.pop()
        if isinstance(n, tuple):
            todo += n
        elif hasattr(n, "op") and n not in seen:
            seen.add(n)
            todo += n.a
    return seen


def threads(ctx):
    P = Pub(ctx, "config")
    W = P.W
    ths, res = rates(ctx, P)
    A = at_of(W.fn(PUB + "::StartPublishingThread"))
    for cls, entry, what in ((PCS, "pose_publish_rate", "pose"), (PATH, "path_publish_rate", "path")):
        if cls not in res:
            continue
        th, evs, tr, rate = res[cls]
        ctx.ob("P29.config", rate is not None and is_key(rate, "publishers", entry), what + " rate", "the rate of the %s thread is %s" % (what, show(rate, 4) if rate else None), **A)
        e = pubs(evs, cls)[0]
        loops = set(e.loops)
        oks = [x for x in evs if x.kind == "rosok"]
        sl = [x for x in evs if x.kind == "sleep"]
        ctx.ob("P29.threads", bool(loops) and bool(oks), what + " loop", "the %s thread does not publish in a loop that ends with ROS" % what, **ctx.at(e))
        ctx.ob("P29.threads", any(set(x.loops) & loops for x in sl) if loops else True, what + " pace", "the %s loop does not wait for its rate" % what, **ctx.at(e))
    if set(res) == {PCS, PATH}:
        acc = {}
        for who in res:
            for rw, q, gate, locks, fn, rt in res[who][2]:
                if rt == W.loc(P.p)[0] and satisfiable(gate):
                    held = frozenset(m for m, g in locks.items() if g is TRUE or g is not FALSE and not satisfiable(and_(gate, not_(g))))
                    acc.setdefault(q, []).append((who, rw, held, fn))
        for q, xs in sorted(acc.items()):
            if len({x[0] for x in xs}) < 2 or not any(x[1] == "w" for x in xs) or "mutex" in str(field_type(W, q)):
                continue
            common = frozenset.intersection(*[x[2] for x in xs])
            ctx.ob("P29.shared", bool(common), q, "used by both publishing threads, changed by one, without a common mutex", **at_of(xs[0][3]))
    # destruction
    ev = P.call("~ROSPublisher")
    j = [e for e in ev if e.kind == "thread_join" and e.d["how"] == "join" and not satisfiable(not_(e.gate))]
    joined = {e.d["val"] for e in j}
    ctx.ob("P29.threads", set(ths) <= joined, "destructor", "%d of %d threads are joined" % (len(joined & set(ths)), len(ths)), **at_of(W.fn(PUB + "::~ROSPublisher")))
    Q = Pub(ctx, "config")
    ev = Q.call("~ROSPublisher")
    j = [e for e in ev if e.kind == "thread_join" and satisfiable(e.gate)]
    ctx.ob("P29.threads", not j, "destructor without start", "a thread that was not started is joined", **at_of(W.fn(PUB + "::~ROSPublisher")))
    # the subscriber
    W, p = fresh_sub(ctx)
    n = len(W.I.events)
    W.run(W.fn(SUB + "::StartSubscribingThread"), p, [])
    ths = [e.d["ret"] for e in W.I.events[n:] if e.kind == "thread_start" and satisfiable(e.gate)]
    A = at_of(W.fn(SUB + "::StartSubscribingThread"))
    ctx.ob("P29.threads", len(ths) == 1, "subscriber thread", "%d threads are started" % len(ths), **A)
    for th in ths:
        n = len(W.I.events)
        W.st.gate = TRUE
        W.invoke(mk("bind", *th.a) if th.a[0].op == "fun" else th.a[0], [])
        ev = [e.d["f"] for e in W.I.events[n:] if e.kind == "ros"]
        ok = "ros::spin" in ev or "ros::spinOnce" in ev or "ros::MultiThreadedSpinner::spin" in ev or "ros::AsyncSpinner::start" in ev and "ros::waitForShutdown" in ev
        ctx.ob("P29.threads", ok, "spinning", "the subscriber thread does not process callbacks until ROS shuts down: %s" % ev, **A)
    W.st.gate = TRUE
    n = len(W.I.events)
    W.run(W.fn(SUB + "::~ROSSubscriber"), p, [])
    joined = {e.d["val"] for e in W.I.events[n:] if e.kind == "thread_join" and e.d["how"] == "join" and not satisfiable(not_(e.gate))}
    ctx.ob("P29.threads", set(ths) <= joined, "subscriber destructor", "the subscriber thread is not joined", **at_of(W.fn(SUB + "::~ROSSubscriber")))
    W, p = fresh_sub(ctx)
    n = len(W.I.events)
    W.run(W.fn(SUB + "::~ROSSubscriber"), p, [])
    ctx.ob("P29.threads", not [e for e in W.I.events[n:] if e.kind == "thread_join" and satisfiable(e.gate)], "subscriber destructor without start", "a thread that was not started is joined", **at_of(W.fn(SUB + "::~ROSSubscriber")))
    ctx.require("P29.threads", 8, "thread facts")


def field_type(W, q):
    r = W.F.rec(q.rsplit("::", 1)[0])
    for f in (r or {}).get("fields", []):
        if f["n"] == q.rsplit("::", 1)[1]:
            return f["t"]
    return ""
