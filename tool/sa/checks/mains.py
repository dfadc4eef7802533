"""P38: the shipped programs - how subscriptions, filters, estimators, publishers and configuration files are wired together."""
import glob
import os
from ..dag import *
from .. import dag, facts
from ..model import *
from ..vf import notmpl, stript
from ..facts import AnalysisBroken, rel
from ..lib import objloc
from ..model import _args
from .state import at_of
from .eqs import ykeys
from . import logs, conf

SUB, PUB, EST, GYRO, WHEEL = "ros_wrapper::ROSSubscriber", "ros_wrapper::ROSPublisher", "estimator::InekfEstimator", "imu_filter::ImuAngVelEKF", "baseline::WheelOdometry"
CLS = (SUB, PUB, EST, GYRO, WHEEL)
GR = ("core", "inst", "wheel", "ros", "rosmain")
START = {SUB: "StartSubscribingThread", PUB: "StartPublishingThread", GYRO: "StartImuFilterThread"}
# what a configuration file handed over here is for
FILES = {"add_imu_propagation": conf.PR, "add_velocity_correction": conf.VC, "add_legged_kinematics_correction": conf.LK,
         "add_imu_ang_vel_ekf": conf.GF, "ImuAngVelEKF": conf.GF, "InekfEstimator": conf.ES, "WheelOdometry": WHEEL}


class Program:
    """one main function, evaluated with the library's classes replaced by recorders of their calls"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.calls, self.src = ctx, fn, [], {}
        W = self.W = World(ctx, GR)
        op = {}
        for c in CLS:
            r = W.F.rec(c)
            if r is None:
                raise AnalysisBroken("no class " + c)
            for m in r["methods"]:
                if m["q"].split("::")[-1].startswith("~"):
                    continue
                op[m["q"]] = self.h(c, m["q"].split("::")[-1])
        W.I.opaque = op
        W.run(fn, None, [sym("argc", "int"), sym("argv", "char**")])
        self.evs = W.I.events
        ctx.used(W.I)
        ctx.functions.add(rel(fn["file"]) + ": main")

    def h(self, cls, name):
        def run(I, e, st):
            if name == cls.split("::")[-1]:
                obj = e.get("at")
            elif e.get("arrow"):
                obj = I.deref_loc(I.ev(e["obj"], st))
            else:
                obj = objloc(I, e, st)
            vals = _args(I, e, st)
            k = len(self.calls)
            fn = I.F.functions.get(e.get("fid")) or {}
            ret = UNIT
            t = stript(e.get("t") or "")
            b = notmpl(t)
            if name != cls.split("::")[-1]:
                if b in ("std::pair", "std::tuple") or "pair<" in t or "tuple<" in t:
                    n = 4 if "tuple<" in t else 2
                    ret = mk("pair", *[self.source(k, obj, name, i, "qm"[i % 2]) for i in range(n)])
                elif t.startswith("bool"):
                    ret = truth(I.fresh("call%d" % k, "bool"))
                elif "mutex" in t:
                    ret = self.source(obj, obj, name, 0, "m")
                elif "ueue" in t or "shared_ptr" in t:
                    ret = self.source(obj, obj, name, 0, "q")
                elif t not in ("void", ""):
                    ret = I.fresh("call%d" % k, e.get("t"))
            self.calls.append(dict(cls=cls, name=name, obj=obj, vals=vals, gate=st.gate, line=e.get("l"), ret=ret, params=fn.get("params") or [], loops=tuple(I.loops) if hasattr(I, "loops") else (), n=k))
            return ret
        return run

    def source(self, key, obj, name, i, kind):
        """a queue or mutex obtained from an object; queue and mutex obtained together (or from the same object's two getters) belong together"""
        grp = ("call", key, i // 2) if not isinstance(key, tuple) else ("obj", key, name.replace("_mutex", "").replace("mutex_", ""))
        v = sym("%s of %s" % (kind, grp), "std::shared_ptr<std::mutex>" if kind == "m" else "std::shared_ptr<std::queue<X>>")
        self.src[v] = (grp, kind, name)
        return v

    def of(self, cls, name=None):
        return [c for c in self.calls if c["cls"] == cls and (name is None or c["name"] == name) and c["gate"] is not FALSE]


def p38(ctx):
    ctx.rule("P38.pair", "every queue is handed over together with the mutex it was obtained with")
    ctx.rule("P38.once", "every queue that something fills has exactly one consumer: none is drained twice, none grows without bound")
    ctx.rule("P38.file", "every configuration file that is named exists in the source tree and is one for that component")
    ctx.rule("P38.key", "every entry the program and its publisher read without a fallback exists in that file and converts to the type read")
    ctx.rule("P38.start", "every thread is started once, after everything it works on was added")
    ctx.rule("P38.loop", "while ROS runs, an enabled estimator does one step; otherwise it initialises its state once the biases are known, and the biases before that")
    F = ctx.facts(*GR)
    mains = sorted((f for f in F.functions.values() if f["q"] == "main" and f.get("body")), key=lambda f: f["file"])
    want = glob.glob(os.path.join(facts.REPO, "ROS/drift/examples/*.cpp")) + glob.glob(os.path.join(facts.REPO, "ROS/drift/baselines/*.cpp"))
    if len(mains) != len(want):
        raise AnalysisBroken("%d of %d programs have a main function" % (len(mains), len(want)))
    pk = publisher_keys(ctx)
    for f in mains:
        program(ctx, Program(ctx, f), pk)
    ctx.require("P38.pair", 20, "handed-over queues")
    ctx.require("P38.file", 20, "configuration files")


def publisher_keys(ctx):
    """entries read by the publisher's constructor"""
    W = World(ctx, GR)
    ct = W.fn(PUB + "::ROSPublisher", 4, lambda f: "string" in f["params"][3]["t"])
    W.run(ct, W.new(PUB, "pub"), [sym("nh", "ros::NodeHandle*"), W.I.param_sym(ct["params"][1]), sym("mtx", ct["params"][2]["t"]), sym("cfg", "std::string")])
    return [e for e in W.I.events if e.kind == "yas"]


def path_of(v):
    try:
        s = logs.Strings({})(v)
    except (KeyError, IndexError, TypeError, Unsupported):
        return None
    return s if isinstance(s, str) else None


def program(ctx, P, pk):
    name = os.path.basename(P.fn["file"])[:-4]
    at = lambda c: dict(file=P.fn["file"], line=c["line"], fn="main of " + name)
    A = at_of(P.fn)
    used = {}
    for c in P.calls:
        if c["gate"] is FALSE:
            continue
        q = None
        for v, p in zip(c["vals"], c["params"]):
            t = p["t"]
            if "mutex" in t:
                key = "%s, %s, %s" % (name, c["name"], p["n"])
                ok = q is not None and q in P.src and v in P.src and P.src[v][1] == "m" and P.src[v][0] == P.src[q][0]
                ctx.ob("P38.pair", ok, key, "the queue of %s is handed to %s with the mutex of %s" % (who(P, q), c["name"], who(P, v)), **at(c))
            elif "ueue" in t:
                q = v
                used.setdefault(v, []).append(c)
                ctx.ob("P38.pair", v in P.src and P.src[v][1] == "q", "%s, %s, %s is a queue" % (name, c["name"], p["n"]), "%s is handed over as a queue" % show(v, 3), **at(c))
            elif "string" in t and c["name"] in FILES or "string" in t and c["name"] == "ROSPublisher":
                f = path_of(v)
                ok = f is not None and os.path.isfile(f)
                role = FILES.get(c["name"])
                key = "%s, %s" % (name, c["name"])
                if ctx.ob("P38.file", ok, key, "%s is given %s, which does not exist" % (c["name"], rel(f) if f else show(v, 4)), **at(c)) and role:
                    b = os.path.basename(f).rsplit(".", 1)[0]
                    ctx.ob("P38.file", conf.ROLE.get(b) == role, key + ", role", "%s is given %s, a file for another component" % (c["name"], rel(f)), **at(c))
                if ok and c["name"] == "ROSPublisher":
                    for e in pk:
                        entry(ctx, name + ", publisher", e, f, e.gate, dict(file=f, line=0, fn="main of " + name))
    # every source of data
    made = {}
    for v, (grp, kind, nm) in P.src.items():
        if kind == "q":
            made[v] = nm
    for c in P.of(EST):
        if c["name"] == EST.split("::")[-1]:
            qs = [v for v, (g, k, nm) in P.src.items() if k == "q" and g[0] == "obj" and g[1] == c["obj"]]
            ctx.ob("P38.once", bool(qs), "%s, output of the estimator" % name, "nothing takes the states the estimator queues: its output queue grows without bound", **at(c))
    for v, nm in made.items():
        us = used.get(v, [])
        ln = next((c["line"] for c in P.calls if c["ret"] is v or c["ret"].op == "pair" and v in c["ret"].a), 0)
        ctx.ob("P38.once", len(us) == 1, "%s, queue %d of %s" % (name, P.src[v][0][2] if isinstance(P.src[v][0][2], int) else 0, nm + show_arg(P, v)),
               "a queue obtained from %s has %d consumers (%s)" % (nm, len(us), ", ".join(u["name"] for u in us) or "it grows without bound"), file=P.fn["file"], line=ln, fn="main of " + name)
    # configuration reads of the program itself
    for e in P.evs:
        if e.kind == "yas" and e.gate is not FALSE:
            b = e.d["node"]
            while b.op == "ynode":
                b = b.a[0]
            f = path_of(b.a[0]) if b.op == "yfile" else None
            key = "%s, %s" % (name, "/".join(map(str, ykeys(e.d["node"]))))
            if ctx.ob("P38.file", f is not None and os.path.isfile(f), key + ", file", "reads %s, which does not exist" % (rel(f) if f else show(b, 4)), **ctx.at(e)):
                entry(ctx, name, e, f, e.gate, ctx.at(e))
    starts(ctx, P, name, at, A)
    loop(ctx, P, name, at, A)


def show_arg(P, v):
    c = next((c for c in P.calls if c["ret"].op == "pair" and v in c["ret"].a), None)
    return "" if c is None else " (call %d)" % (1 + [x for x in P.calls if x["name"] == c["name"]].index(c))


def who(P, v):
    return P.src[v][2] if v is not None and v in P.src else "something else"


def entry(ctx, name, e, f, gate, at):
    """a configuration entry that is read exists and converts"""
    keys = ykeys(e.d["node"])
    key = "%s, %s" % (name, "/".join(map(str, keys)))
    try:
        y = conf.File(f)
    except Exception as x:
        ctx.ob("P38.key", False, rel(f), "%s cannot be read: %s" % (rel(f), str(x).splitlines()[0]), file=f)
        return
    raw = y.get(keys)
    missing = raw is None
    guarded = e.d.get("dflt") or any(x.op == "bsym" and x.a[0] == "yhas" and ykeys(x.a[1]) == keys for x in subterms(gate))
    if not ctx.ob("P38.key", not missing or guarded, key, "%s has no entry %s, which is read" % (rel(f), "/".join(map(str, keys))), **at) or missing:
        return
    ctx.ob("P38.key", conf.conv(raw, e.d["ty"]) is not None, key + ", type", "entry %s of %s (%s) cannot be read as %s" % ("/".join(map(str, keys)), rel(f), raw, e.d["ty"]), **at)


def starts(ctx, P, name, at, A):
    for cls, m in START.items():
        for o in {c["obj"] for c in P.of(cls)}:
            cs = [c for c in P.of(cls) if c["obj"] == o]
            ss = [c for c in cs if c["name"] == m]
            auto = cls == GYRO and any(len(c["vals"]) > 2 for c in cs if c["name"] == "ImuAngVelEKF")
            ctx.ob("P38.start", len(ss) == 1 and ss[0]["gate"] is TRUE, "%s, %s" % (name, m), "%s is called %d times" % (m, len(ss)), **(at(ss[0]) if ss else A))
            if ss:
                late = [c for c in cs if c["n"] > ss[0]["n"] and c["name"].lower().startswith("add")]
                ctx.ob("P38.start", not late, "%s, before %s" % (name, m), "%s is called after the thread was started" % (late[0]["name"] if late else ""), **at(late[0] if late else ss[0]))
    for w in (EST, WHEEL):
        first = [c for c in P.of(w) if c["name"] in ("RunOnce", "InitState", "InitBias")]
        subs = [c for c in P.of(SUB) if c["name"] == START[SUB]]
        if first:
            ctx.ob("P38.start", bool(subs) and subs[0]["n"] < first[0]["n"], name + ", subscriber before the loop", "the estimator runs before the subscriptions are served", **at(first[0]))


def loop(ctx, P, name, at, A):
    rok = [e for e in P.evs if e.kind == "rosok"]
    ests = {c["obj"] for c in P.of(EST) if c["name"] == "InekfEstimator"}
    whs = {c["obj"] for c in P.of(WHEEL) if c["name"] == "WheelOdometry"}
    ctx.ob("P38.loop", len(ests) + len(whs) == 1, name + ", estimator", "%d estimators" % (len(ests) + len(whs)), **A)
    for o in whs:
        cs = [c for c in P.of(WHEEL, "RunOnce") if c["obj"] == o]
        ctx.ob("P38.loop", len(cs) == 1, name + ", step", "RunOnce is called %d times per round" % len(cs), **(at(cs[0]) if cs else A))
    for o in ests:
        cs = {n: [c for c in P.of(EST, n) if c["obj"] == o] for n in ("is_enabled", "BiasInitialized", "RunOnce", "InitState", "InitBias")}
        ok = all(cs[n] for n in cs)
        if not ctx.ob("P38.loop", ok, name + ", calls", "never calls %s" % ", ".join(n for n in cs if not cs[n]), **A):
            continue
        c = cs["is_enabled"][0]["gate"]
        m = {}
        for n in ("is_enabled", "BiasInitialized"):
            for x in cs[n]:
                m.setdefault(n, []).append(x["ret"])

        def under(g, en, bi):
            z = {r: (TRUE if en else FALSE) for r in m["is_enabled"]}
            z.update({r: (TRUE if bi else FALSE) for r in m["BiasInitialized"]})
            return subst(g, z)
        for en, bi, what in ((True, True, "RunOnce"), (True, False, "RunOnce"), (False, True, "InitState"), (False, False, "InitBias")):
            n = {x: [under(y["gate"], en, bi) for y in cs[x]] for x in ("RunOnce", "InitState", "InitBias")}
            got = [x for x in n if any(g is not FALSE for g in n[x])]
            good = got == [what] and sum(g is not FALSE for g in n[what]) == 1 and all(g is c or g is FALSE for g in n[what])
            ctx.ob("P38.loop", good, "%s, enabled %s, biases %s" % (name, en, bi), "with the estimator %s and the biases %s, a round calls %s instead of %s" % ("enabled" if en else "not enabled", "known" if bi else "unknown", ", ".join(got) or "nothing", what), **at(cs[what][0]))
