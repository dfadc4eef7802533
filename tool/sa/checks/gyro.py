"""P20: the gyro filter (and the gyro part of P06)."""
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..vf import qfront, stript, notmpl
from ..facts import AnalysisBroken
from .state import at_of
from .eqs import ykeys, quat_R, vecel, mprod
from .meas import present
from .steps import cases, Leaf

GQ = "imu_filter::ImuAngVelEKF"
IMU = "measurement::ImuMeasurement"
AV = "measurement::AngularVelocityMeasurement"
MODES = {"one IMU": (1, 0), "IMU and angular velocity": (1, 1), "angular velocity": (0, 1), "two IMUs": (2, 0)}


class Gyro:
    """constructed and initialised filter with a given set of inputs"""

    def __init__(self, ctx, nimu, nang, gyro, extra=None, static=FALSE, assume=None):
        W = self.W = World(ctx, opaque=GAMMA_SKEW, assume=assume)
        self.ctx = ctx
        self.o = W.new(GQ, "gyro")
        self.ct = W.fn(GQ + "::ImuAngVelEKF", 1)
        W.run(self.ct, self.o, [sym("yaml", "std::string")])
        present(W, dict({"static_bias_initialization": static} if static is not None else {}, **(extra or {})))
        self.queues = {}
        for i in range(nimu):
            self.add("add_imu_correction", "imu%d" % i)
        for i in range(nang):
            self.add("add_ang_vel_correction", "ang%d" % i)
        if gyro:
            self.add("add_gyro_propagate", "gyro")
        self.once = W.fn(GQ + "::RunOnce")
        self.at = at_of(self.once)

    def add(self, fname, nm):
        W = self.W
        f = W.fn(GQ + "::" + fname)
        a = [sym("%s:%s" % (nm, "mutex" if "mutex" in p["t"] else "queue"), p["t"]) for p in f["params"]]
        W.run(f, self.o, a)
        q = [x for x, p in zip(a, f["params"]) if "mutex" not in p["t"]][0]
        self.queues[W.I.deref_loc(q)] = nm

    def step(self):
        """events of one RunOnce"""
        e0 = len(self.W.I.events)
        self.W.run(self.once, self.o)
        return self.W.I.events[e0:]

    def field(self, q):
        root, path = self.W.loc(self.o)
        return (root, path + (("f", q),))

    def fields(self):
        out = {}
        for c, f in self.W.F.all_fields(GQ):
            if f.get("static") or "stream" in f["t"] or "thread" in f["t"]:
                continue
            q = c + "::" + f["n"]
            out[q] = (f["t"], self.W.I.read(self.W.st, self.field(q), f["t"]))
        return out

    def havoc(self):
        """replace everything the last step changed by fresh symbols: an arbitrary later state.
        -> {role: symbol}"""
        a = self.before
        b = self.fields()
        roles = {}

        def role(k, v):
            if k in roles:
                raise AnalysisBroken("two members of the gyro filter look like its %s" % k)
            roles[k] = v
            return v
        for q, (t, v) in b.items():
            if a[q][1] is v:
                continue
            s = shape(v) if v.op != "ite" else shape(v.a[1])
            if s == (6, 1):
                n = role("estimate", msym("est", 6, 1))
            elif s == (6, 6):
                n = role("covariance", msym("Pg", 6, 6))
                dag.SYM.add(n)
            elif s == (3, 1):
                n = role("previous rate", msym("wprev", 3, 1))
            elif "ptr" in t or t.rstrip().endswith("*") or "Ptr" in t:
                n = role("latest sample", sym("latest", t))
            elif stript(t) in ("double", "float") or "atomic<double>" in t:
                n = role("last time", dsym("tlast"))
            else:
                continue
            self.W.I.write(self.W.st, self.field(q), n)
            roles[("field", n)] = q
        return roles

    def cut(self):
        """from here on, whenever a lock is taken, a changed estimate or covariance gets a name of its own, so that
        successive updates are judged one by one; self.cuts = [(role, name, value)]"""
        I = self.W.I
        self.cuts = []
        num_ = {"estimate": 0, "covariance": 0}

        def plain(v):
            return v.op == "ite" and plain(v.a[1]) and plain(v.a[2]) or v.op == "sym"

        def on(e, st):
            if e.kind != "lock":
                return
            for k in num_:
                if k not in self.roles:
                    continue
                loc = self.field(self.roles[("field", self.roles[k])])
                v = I.read(st, loc, None)
                if plain(v):
                    continue
                num_[k] += 1
                n = msym("%s%d" % ("est" if k == "estimate" else "Pg", num_[k]), 6, 1 if k == "estimate" else 6)
                if k == "covariance":
                    dag.SYM.add(n)     # every covariance it can stand for is compared with a symmetric one
                I.write(st, loc, n)
                self.cuts.append((k, n, v))
        I.on_event = on

    def value(self, roles, k, default):
        if k not in roles:
            return default
        q = roles[("field", roles[k])]
        return self.W.I.read(self.W.st, self.field(q), None)

    def get(self, p, cls, g, st=None):
        return self.W.getter(p, cls + "::" + g, st)

    def cfg(self, vals, key):
        from .. import lib
        if lib.neutral(key) is not None:
            return lib.neutral(key)
        xs = {x for v in vals for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == (key,)}
        return xs.pop() if len(xs) == 1 else dsym("unused " + key)


def qname(g, e):
    return g.queues.get(e.d["loc"])


def diag6(a, b):
    m = mset(Z(6, 6), 0, 0, 3, 3, mscale(mul(a, a), I(3)))
    return mset(m, 3, 3, 3, 3, mscale(mul(b, b), I(3)))


def jac(kind, flat):
    """measurement Jacobian: IMU sees rate + bias, encoder sees the rate; without flat_ground only about the vertical axis"""
    H = Z(3, 6)
    if flat:
        H = mset(H, 0, 0, 3, 3, I(3))
        return mset(H, 0, 3, 3, 3, I(3)) if kind == "imu" else H
    H = mset(H, 2, 2, 1, 1, I(1))
    return mset(H, 2, 5, 1, 1, I(1)) if kind == "imu" else H


def kalman(est, P, z, H, R):
    """-> estimate, covariance in its equivalent forms"""
    Sinv = inv(madd(mprod([H, P, T(H)]), R))
    K = mprod([P, T(H), Sinv])
    e2 = madd(est, mmul(K, msub(z, mmul(H, est))))
    IKH = msub(I(6), mmul(K, H))
    forms = [mmul(IKH, P), madd(mprod([IKH, P, T(IKH)]), mprod([K, R, T(K)])),
             msub(P, mprod([K, madd(mprod([H, P, T(H)]), R), T(K)]))]
    return e2, forms


def run_mode(ctx, mode, gyro, flat):
    nimu, nang = MODES[mode]
    g = Gyro(ctx, nimu, nang, gyro, {"flat_ground": TRUE if flat else FALSE})
    g.step()                       # initialisation
    g.before = g.fields()
    g.step()                       # any number of earlier steps ...
    g.roles = g.havoc()            # ... leave an arbitrary state
    if "covariance" not in g.roles or "estimate" not in g.roles:
        raise AnalysisBroken("the filter step does not change a 6-vector and a 6x6 matrix: %s" % [k for k in g.roles if isinstance(k, str)])
    g.pre = g.W.st.clone()
    g.cut()
    g.evs = g.step()
    g.W.I.on_event = None
    ctx.used(g.W.I)
    return g


def leaves(g):
    I = g.W.I
    g.q = [e for e in g.evs if e.kind == "qop" and e.d["op"] in ("push", "emplace", "pop", "swap", "assign", "front")]
    g.est1, g.P1 = g.value(g.roles, "estimate", None), g.value(g.roles, "covariance", None)
    g.last1 = g.value(g.roles, "last time", num(-1))
    g.latest1 = g.value(g.roles, "latest sample", None)
    g.prev1 = g.value(g.roles, "previous rate", None)
    g.named = g.cuts
    change = [e for e in g.q if e.d["op"] != "front"]
    ptrs = [e.d["val"] for e in change if e.d["op"] in ("push", "emplace")]
    # queues never hold null pointers (P03/P22: producers push what they allocated)
    facts = TRUE
    for v in [e.gate for e in change] + [g.est1] + ptrs + [v for _, _, v in g.named]:
        for x in subterms(v):
            if x.op == "bsym" and x.a[0] == "nonnull" and x.a[1].op == "qf":
                facts = and_(facts, x)
    for x in {x for e in change for x in subterms(e.gate) if x.op == "yas" and ykeys(x.a[0])[-1:] == ("t_threshold",)}:
        facts = and_(facts, le(ZERO, x))
    return cases(I, [e.gate for e in change], [g.est1, g.P1, g.last1] + ([g.latest1] if g.latest1 is not None else []) + ptrs + [v for _, _, v in g.named] + ([g.prev1] if g.prev1 is not None else []), facts=facts), change


class Step:
    """what one step did on one path"""

    def __init__(self, g, l, change):
        W = g.W
        self.g, self.l, self.path = g, l, l.path()
        npt = 3 + (g.latest1 is not None)
        self.est, self.P, self.last = [self.res(x) for x in l.vals[:3]]
        self.latest = self.res(l.vals[3]) if g.latest1 is not None else None
        if g.prev1 is not None:
            self.prev = self.res(l.vals[-1])
        names = l.vals[npt + sum(1 for e in change if e.d["op"] in ("push", "emplace")):]
        self.alias, self.defs = {}, {"estimate": [], "covariance": []}
        for (k, n, _), v in zip(g.named, names):
            v = self.canon(self.res(v))
            if v.op == "sym":
                self.alias[n] = v
                continue
            v = spread(v)
            same_ = [m for m, d in self.defs[k] if mat_equal(d, v)]
            if same_:
                self.alias[n] = same_[0]
            else:
                self.defs[k].append((n, v))
        self.est, self.P = self.canon(self.est), self.canon(self.P)
        self.live = [e for e, b in zip(change, l.bools) if b is TRUE]
        ptrs = dict(zip([id(e) for e in change if e.d["op"] in ("push", "emplace")], l.vals[npt:]))
        out = W.loc(W.probe(W.fn(GQ + "::get_filtered_imu_data_buffer_ptr"), g.o))
        self.pushed, self.bad = [], []
        for e in self.live:
            if e.d["op"] in ("push", "emplace"):
                (self.pushed if e.d["loc"] == out else self.bad).append(self.res(ptrs[id(e)]))
            elif e.d["op"] != "pop":
                self.bad.append(e)
        # samples: front of the first version of each queue that was looked at
        self.samples, self.versions = {}, {}
        for e in g.q:
            nm = g.queues.get(e.d["loc"])
            if nm and e.d["pre"].op == "qv" and e.d["pre"] not in self.versions.setdefault(nm, []):
                self.versions[nm].append(e.d["pre"])
        for nm in g.queues.values():
            for q in self.versions.get(nm, ()):
                if implies(self.path, pos(mk("size", q))):
                    self.samples[nm] = qfront(q)
                break
        # queues this path never looks at
        self.blind = [nm for nm in g.queues.values() if not any(implies(self.path, c) for q in self.versions.get(nm, ())[:1] for c in (pos(mk("size", q)), not_(pos(mk("size", q)))))]
        self.removed = {}
        for e in self.live:
            if e.d["op"] == "pop":
                nm = g.queues.get(e.d["loc"])
                x = qfront(e.d["pre"])
                s = self.samples.get(nm)
                if s is not None and (x is s or implies(self.path, eq(x, s))):
                    self.removed[nm] = self.removed.get(nm, 0) + 1
                else:
                    self.bad.append(e)

    def holds(self, f):
        return implies(self.path, f) or conj_implies(self.l.lits, self.l.care, f)

    def res(self, v):
        """value on this path: conditions the path decides are filled in"""
        v = self.l.sub(v)
        for _ in range(64):
            m = {}
            for x in subterms(v):
                if x.op == "ite" and not contains(x.a[0], lambda y: y.op == "ite"):
                    if implies(self.path, x.a[0]):
                        m[x] = x.a[1]
                    elif implies(self.path, not_(x.a[0])):
                        m[x] = x.a[2]
            if not m:
                return v
            v = subst(v, m)
        return v

    def canon(self, v):
        return subst(v, self.alias) if self.alias else v

    def settle(self, k, forms):
        """the name the code gives to a value equal to one of the forms, else the first form"""
        sp = [spread(self.res(f)) for f in forms]
        for n, d in self.defs[k]:
            if any(mat_equal(d, f) for f in sp):
                return n
        return forms[0]

    def gone(self, nm):
        """somebody else has emptied or changed the queue since the sample was looked at"""
        s = self.samples[nm]
        return any(self.holds(not_(and_(pos(mk("size", q)), eq(qfront(q), s)))) for q in self.versions[nm][1:])

    def time(self, nm):
        return self.res(self.g.get(self.samples[nm], AV if nm.startswith("ang") else IMU, "get_time"))


RULES = {
    "P20.propagate": "with gyro propagation every available sample adds its rate change once, the covariance grows by the process noise once, and the time of the sample is kept",
    "P20.fuse": "the estimate after a step is the Kalman update with the sample in the IMU frame (measurement map and noise of its kind), else unchanged",
    "P20.cov": "the covariance after a step is that of the same Kalman update (any algebraically equal form)",
    "P20.emit": "each fusion pushes exactly one new sample onto the filtered queue: a copy of the source with the estimated rate and the time of the fused sample; without fusion nothing is pushed",
    "P20.consume": "a fused or dropped sample is removed exactly once; only samples that were looked at are removed",
    "P20.usable": "a pending sample inside the time window is fused, unless an earlier sample of the other sensor is used in this step; it is never dropped",
    "P20.first": "when samples of both sensors are pending the earlier one is used",
    "P20.source": "the source of emitted samples is the latest IMU sample",
}


def spread(v):
    """partial overwrites of symbols written as sums, so that equal values get equal normal forms"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == "set" and not any(c.op == "set" for c in [x.a[0]]):
            base = x.a[0]
            if base.op not in ("Z", "undefM", "mat"):
                r, c = shape(x)
                d = Z(r, c)
                _, i, j, h, w, V = x.a[:6] if len(x.a) >= 6 else (None,) * 6
                if V is not None and all(is_int(k) if not isinstance(k, N) else is_const(k) for k in (i, j, h, w)):
                    V = go(V)
                    i, j, h, w = [int(k) if not isinstance(k, N) else int(poly(k).get((), 0)) for k in (i, j, h, w)]
                    memo[x] = madd(go(base), mset(d, i, j, h, w, msub(V, blk(go(base), i, j, h, w))))
                    return memo[x]
        memo[x] = rebuild(x, go)
        return memo[x]
    return go(v)


def judge(ctx, g, l, change, label, flat, gyro, ob):
    s = Step(g, l, change)
    W, txt = g.W, " when " + l.text()[:600]
    est, P = g.roles["estimate"], g.roles["covariance"]
    allv = [g.est1, g.P1] + [e.gate for e in change]
    Q = diag6(g.cfg(g.evals, "filter_std"), g.cfg(g.evals, "filter_bias_std"))
    last = g.roles.get("last time", num(-1))
    latest = g.roles.get("latest sample")
    angular_only = all(not nm.startswith("imu") for nm in g.queues.values())
    # ---- propagation
    if gyro:
        prev0 = g.roles.get("previous rate", Z(3, 1))
        if "gyro" in s.samples:
            x = s.samples["gyro"]
            ob("P20.consume", s.removed.get("gyro") == 1, label + " propagation", "the propagation sample is removed %d times%s" % (s.removed.get("gyro", 0), txt))
            w = g.get(x, IMU, "get_angular_velocity", g.pre)
            d = msub(w, prev0)
            est = s.settle("estimate", [mset(est, 0, 0, 3, 1, madd(blk(est, 0, 0, 3, 1), d))])
            P = s.settle("covariance", [madd(P, Q)])
            last = g.get(x, IMU, "get_time", g.pre)
            if angular_only:
                latest = x
        ob("P20.propagate", s.last is s.res(last), label, "time of the last propagation becomes %s, expected %s%s" % (show(s.last, 4), show(last, 4), txt))
        if g.prev1 is None:
            ob("P20.propagate", False, label + " previous rate", "no member holds the rate of the previous sample: rate changes are not taken between successive samples")
        else:
            wp = w if "gyro" in s.samples else prev0
            ob("P20.propagate", s.prev is s.res(wp) or mat_equal(s.prev, s.res(wp)), label + " previous rate", "the rate kept for the next difference becomes %s, expected %s%s" % (show(s.prev, 4), show(wp, 4), txt))
    else:
        P = s.settle("covariance", [madd(P, Q)])
    # ---- window
    thr = g.cfg(g.evals, "t_threshold")
    last = s.res(last)
    never = eq(last, num(-1))
    pend = [nm for nm in s.samples if nm != "gyro"]
    ts = {nm: s.time(nm) for nm in pend}
    inwin = {nm: or_(never, le(sub(last, ts[nm]), thr)) for nm in pend}
    future = {nm: and_(not_(never), lt(last, ts[nm])) for nm in pend}
    # ---- which samples were fused
    fused, emitted = [], []
    for p in s.pushed:
        t = s.res(W.getter(p, IMU + "::get_time"))
        c = [nm for nm in pend if ts[nm] is t and nm not in fused]
        ob("P20.emit", len(c) >= 1, label + " sample", "a sample with time %s is emitted, the pending samples have times %s%s" % (show(t, 4), [show(x, 4) for x in ts.values()], txt))
        if c:
            # samples of the same kind and time: take them in queue order
            fused.append(c[0])
            emitted.append((c[0], p))
    ob("P20.consume", not s.bad, label + " queues", "unexpected queue operations (lines %s)%s" % (sorted({getattr(e, "line", 0) for e in s.bad}), txt))
    for nm in pend:
        n = s.removed.get(nm, 0)
        ang = nm.startswith("ang")
        nosrc = ang and (latest is None or s.holds(not_(nonnull(s.res(latest)))))
        if nm in fused:
            ob("P20.consume", n == 1 or (n == 0 and s.gone(nm)), label + " " + nm, "the fused sample is removed %d times%s" % (n, txt))
            ob("P06.gyro", s.holds(inwin[nm]), label + " " + nm, "a sample older than the threshold can be fused%s" % txt)
        elif n or s.gone(nm):
            ob("P20.consume", n <= 1, label + " " + nm, "the sample is removed %d times%s" % (n, txt))
            ob("P20.usable", nosrc or s.holds(not_(inwin[nm])), label + " " + nm, "a usable %s sample is removed without being fused%s" % (nm, txt))
        else:
            other = any(o in fused or s.removed.get(o) or s.gone(o) for o in pend if o != nm and s.holds(le(ts[o], ts[nm])))
            ob("P20.usable", other or s.holds(future[nm]), label + " " + nm, "a pending %s sample is left in its queue although no earlier one was used%s" % (nm, txt))
    for nm in s.blind:
        ob("P20.usable", nm != "gyro" and bool(fused) and len(pend) and any(x.startswith("ang") for x in g.queues.values()), label + " " + nm, "the step never looks at the %s queue%s" % (nm, txt))
    if len(g.queues) - (1 if gyro else 0) > 1 and any(nm.startswith("ang") for nm in g.queues.values()):
        ob("P20.fuse", len(fused) <= 1, label + " one per step", "both samples are fused in one step%s" % txt)
        for nm in fused:
            for o in pend:
                if o != nm:
                    ob("P20.first", s.holds(le(ts[nm], ts[o])), label, "the %s sample is used although the pending %s sample may be earlier%s" % (nm, o, txt))
    # ---- values
    news = {e.d["ptr"] for e in g.evs if e.kind == "new"}
    for nm, p in emitted:
        x = s.samples[nm]
        kind = "enc" if nm.startswith("ang") else "imu"
        src = x if kind == "imu" else s.res(latest) if latest is not None else None
        if src is None:
            ob("P20.source", False, label, "an emitted sample has no source%s" % txt)
            return
        w = g.get(x, AV if kind == "enc" else IMU, "get_angular_velocity", g.pre)
        if kind == "enc":
            w = mmul(T(quat_R(g.cfg(g.evals, "rotation_imu2body"))), w)
        sd = g.cfg(g.evals, "imu_meas_noise_std" if kind == "imu" else "encoder_meas_noise_std")
        est, forms = kalman(est, P, w, jac(kind, flat), mscale(mul(sd, sd), I(3)))
        exp = est
        est, P = s.settle("estimate", [est]), s.settle("covariance", forms)
        got = {f: s.res(W.getter(p, IMU + "::" + f)) for f in ("get_angular_velocity", "get_lin_acc", "get_quaternion")}
        cand = [s.res(exp), spread(s.res(exp)), est] + ([s.est, spread(s.est)] if len(emitted) == 1 else [])
        gr = s.canon(got["get_angular_velocity"])
        rate = [[el(v, i, 0) for i in range(3)] for v in (gr, spread(gr))]
        ob("P20.emit", any(all(r[i] is el(c, i, 0) for i in range(3)) for r in rate for c in cand), label + " rate", "the emitted rate is %s, expected the first three entries of the estimate%s" % (show(got["get_angular_velocity"], 4)[:200], txt))
        ob("P20.emit", p in news and [q for _, q in emitted].count(p) == 1, label + " own object", "the emitted sample %s is not a new object: it shares its storage with a sample that is used elsewhere%s" % (show(p, 3), txt))
        for f in ("get_time", "get_angular_velocity"):
            a, b = g.get(src, IMU, f, g.pre), W.getter(src, IMU + "::" + f)
            ob("P20.emit", s.res(a) is s.res(b), label + " source " + f, "%s of the source sample is changed%s" % (f, txt))
        for f in ("get_lin_acc", "get_quaternion"):
            want = g.get(src, IMU, f, g.pre)
            ob("P20.emit", got[f] is want or got[f] is s.res(want), label + " " + f, "%s of the emitted sample is %s, the source has %s%s" % (f, show(got[f], 4)[:200], show(want, 4)[:200], txt))
        if P is forms[0]:
            P = next((f for f in forms if mat_equal(spread(s.P), spread(s.res(f)))), forms[0])
    if s.latest is not None and not angular_only:
        used = [nm for nm in pend if nm.startswith("imu") and (nm in fused or s.removed.get(nm) or s.gone(nm))]
        want = [s.samples[nm] for nm in used] or [s.res(latest)]
        ob("P20.source", s.latest is want[-1] or (s.latest is s.res(latest) and not any(nm in fused for nm in used)), label,
           "the latest IMU sample becomes %s, expected %s%s" % (show(s.latest, 4), show(want[-1], 4), txt))
    if s.latest is not None and angular_only:
        ob("P20.source", s.latest is s.res(latest), label, "the latest IMU sample becomes %s, expected %s%s" % (show(s.latest, 4), show(s.res(latest), 4), txt))
    ob("P20.fuse", mat_equal(spread(s.est), spread(s.res(est))), label, "the estimate becomes %s, expected %s%s" % (show(s.est, 5)[:300], show(est, 5)[:300], txt), "%d fusion(s)" % len(emitted))
    ob("P20.cov", mat_equal(spread(s.P), spread(s.res(P))), label, "the covariance becomes %s, expected %s%s" % (show(s.P, 5)[:300], show(P, 5)[:300], txt))


def explore(ctx, rules, modes=MODES):
    n = 0
    for flat in (True, False):
        for mode in modes:
            for gyro in (True, False):
                if mode == "angular velocity" and not gyro:
                    continue       # without any IMU sample nothing can be emitted
                g = run_mode(ctx, mode, gyro, flat)
                ls, change = leaves(g)
                g.evals = [g.est1, g.P1, g.W.I.read(g.W.st, g.W.loc(g.o), None)] + [e.gate for e in change]
                label = "%s, %s propagation, %s" % (mode, "gyro" if gyro else "random-walk", "3D" if flat else "vertical axis")

                def ob(rule, ok, key, msg, sample=None):
                    if rule in rules:
                        ctx.ob(rule, ok, key, msg, sample=sample, **g.at)
                for l in ls:
                    n += 1
                    judge(ctx, g, l, change, label, flat, gyro, ob)
    ctx.notes.append("gyro filter: %d paths of one step analysed" % n)


def p20(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    explore(ctx, set(RULES))
    ctx.require("P20.fuse", 100, "paths of a filter step")
    ctx.require("P20.emit", 30, "emitted samples")
