"""P23: use of configuration values; P24: shipped configuration files against the schema the code reads."""
import glob, os, re
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken, REPO
from ..ctx import rel
from .eqs import enum_of, ykeys, quat_R, vecel

ROLE = {"imu_propagation": "filter::inekf::ImuPropagation", "imu_dob_propagation": "filter::inekf::ImuPropagation",
        "velocity_correction": "filter::inekf::VelocityCorrection", "velocity_dob_correction": "filter::inekf::VelocityCorrection",
        "legged_kinematics_correction": "filter::inekf::LeggedKinematicsCorrection",
        "imu_filter": "imu_filter::ImuAngVelEKF", "inekf_estimator": "estimator::InekfEstimator",
        "config": "baseline::WheelOdometry"}
GROUPS = {"baseline::WheelOdometry": ("core", "inst", "wheel")}


# -------------------------------------------------------------------- schema of the code
class Read:
    """one read of a configuration entry: keys, C++ type, gate, whether a fallback is given"""

    def __init__(self, e):
        self.node, self.ty, self.gate = e.d["node"], e.d["ty"], e.gate
        self.keys, self.dflt = ykeys(self.node), e.d.get("dflt", False)
        self.at = dict(file=e.file, line=e.line, fn=e.fn)
        self.need = []          # (gate, smallest length of a sequence)


def base(n):
    while n.op == "ynode":
        n = n.a[0]
    return n


def yas_of(v):
    """sequence values a value may be: [(gate, yas node)]"""
    if v.op == "ite":
        return [(and_(v.a[0], g), x) for g, x in yas_of(v.a[1])] + [(and_(not_(v.a[0]), g), x) for g, x in yas_of(v.a[2])]
    return [(TRUE, v)] if v.op == "yas" else []


def ctors(F, cls):
    fs = [f for f in F.by_q.get(cls + "::" + cls.split("::")[-1], []) if f.get("body")]
    return [f for f in fs if not (len(f["params"]) == 1 and cls.split("::")[-1] in f["params"][0]["t"])]


def reads_of(ctx, cls):
    """all configuration reads of all constructors of a class"""
    gr = GROUPS.get(cls, ())
    F, out = ctx.facts(*gr), []
    cs = ctors(F, cls)
    if not cs:
        raise AnalysisBroken("no constructor of " + cls)
    for f in cs:
        W = World(ctx, gr, opaque=GAMMA_SKEW)
        W.I.run(f)
        ctx.used(W.I)
        rd = {}
        for e in W.I.events:
            if e.kind == "yas":
                r = Read(e)
                rd.setdefault(r.node, []).append(r)
                out.append(r)
        for e in W.I.events:
            if e.kind == "vidx":
                for g, y in yas_of(e.d["vec"]):
                    i = e.d["idx"]
                    i = poly(scal(i)).get((), 0) if is_const(scal(i)) else None
                    for r in rd.get(y.a[0], []):
                        r.need.append((and_(e.gate, g), i, e))
    return out


# -------------------------------------------------------------------- files
class File:
    def __init__(self, path):
        import yaml
        self.path = path
        with open(path) as f:
            self.y = yaml.load(f, Loader=yaml.BaseLoader)
        if self.y is None or self.y == "":
            self.y = {}

    def get(self, keys):
        v = self.y
        for k in keys:
            if isinstance(v, dict):
                v = v.get(k)
            elif isinstance(v, list) and k.isdigit() and int(k) < len(v):
                v = v[int(k)]
            else:
                return None
        return v

    def leaves(self, n=None, pre=()):
        for k, v in (self.y if n is None else n).items():
            if isinstance(v, dict):
                yield from self.leaves(v, pre + (k,))
            elif v not in (None, ""):
                yield pre + (k,)

    def bad_nesting(self, keys):
        """first prefix of a key path that is a scalar or a sequence"""
        for i in range(1, len(keys)):
            v = self.get(keys[:i])
            if v not in (None, "") and not isinstance(v, (dict, list)):
                return keys[:i]
        return None


BOOLS = {"y", "n", "yes", "no", "true", "false", "on", "off"}


def conv(raw, ty):
    """does the text convert to the C++ type the way yaml-cpp does it? -> python value or None"""
    ty = re.sub(r"^std::(__cxx11::)?", "", ty.replace("const ", "")).strip()
    if ty.startswith(("vector", "list")):
        m = re.match(r"(?:vector|list)<\s*([\w:]+)", ty)
        if not isinstance(raw, list):
            return None
        xs = [conv(x, m.group(1)) for x in raw]
        return None if any(x is None for x in xs) else xs
    if isinstance(raw, (list, dict)):
        return None
    if ty == "bool":
        low = raw.lower()
        return (low in ("y", "yes", "true", "on")) if low in BOOLS and raw in (low, low.upper(), low.capitalize()) else None
    if ty in ("int", "long", "short", "unsigned int", "unsigned long", "size_t", "unsigned", "int64_t", "uint64_t", "long long"):
        if not re.fullmatch(r"[+-]?\d+", raw) or ("unsigned" in ty or ty.startswith(("uint", "size"))) and raw.startswith("-"):
            return None
        return int(raw)
    if ty in ("double", "float"):
        return float(raw) if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", raw) else None
    if "string" in ty:
        return raw
    return raw


def reached(g, r, f, reads):
    """gate with everything the file decides filled in"""
    m = {}
    for x in subterms(g):
        if x.op == "bsym" and x.a[0] == "yhas":
            v = f.get(ykeys(x.a[1]))
            m[x] = TRUE if v not in (None, "") else FALSE
        elif x.op == "yas":
            v = f.get(ykeys(x.a[0]))
            v = conv(v, x.a[1]) if v is not None else None
            if isinstance(v, bool):
                m[x] = m[truth(x)] = TRUE if v else FALSE
            elif isinstance(v, (int, float)):
                m[x] = num(Fraction(str(v)))
    return subst(g, m) if m else g


def files(roots):
    for r in roots:
        for p in sorted(glob.glob(os.path.join(REPO, r, "**", "*.yaml"), recursive=True) +
                        glob.glob(os.path.join(REPO, r, "**", "*.yml"), recursive=True)):
            yield p


def p24(ctx):
    ctx.rule("P24.parse", "every shipped configuration file is well-formed and every section the code looks into is a mapping")
    ctx.rule("P24.mandatory", "an entry that is read without a presence test or fallback exists in every shipped file of that role")
    ctx.rule("P24.type", "every entry that is read converts to the type it is read as")
    ctx.rule("P24.length", "every sequence has exactly as many elements as the code uses; quaternions have unit norm")
    ctx.rule("P24.used", "every entry of a shipped file is one the code reads (nothing a user sets is silently ignored)")
    schema = {}
    for cls in sorted(set(ROLE.values())):
        schema[cls] = reads_of(ctx, cls)
        if not schema[cls]:
            raise AnalysisBroken("no configuration read found in the constructors of " + cls)
    unknown = 0
    for p in files(["config"]):
        role = os.path.basename(p).rsplit(".", 1)[0]
        if role not in ROLE:
            unknown += 1
            continue
        check_file(ctx, p, ROLE[role], schema[ROLE[role]])
    if unknown:
        ctx.notes.append("%d files under config/ have no reader in the library" % unknown)
    ctx.require("P24.parse", 30, "shipped configuration files")
    ctx.require("P24.type", 100, "typed entries")
    ctx.require("P24.length", 30, "sequence entries")


def check_file(ctx, p, cls, reads):
    rp = rel(p)
    short = cls.split("::")[-1]
    try:
        f = File(p)
        err = None if isinstance(f.y, dict) else "top level is not a mapping"
    except Exception as x:
        f, err = None, str(x).splitlines()[0]
    ctx.ob("P24.parse", err is None, rp, "%s cannot be read: %s" % (rp, err), file=p)
    if err:
        return
    lines = open(p).read().splitlines()

    def line_of(key):
        return next((i + 1 for i, t in enumerate(lines) if t.strip().startswith(key + ":")), 0)
    done = set()
    for r in reads:
        name = "/".join(r.keys)
        raw = f.get(r.keys)
        bn = f.bad_nesting(r.keys)
        if (name, "n") not in done:
            done.add((name, "n"))
            if bn:
                ctx.ob("P24.parse", False, "%s %s" % (rp, "/".join(bn)), "%s: %s is a plain value, but the code looks for %s inside it" % (rp, "/".join(bn), r.keys[-1]), file=p, line=line_of(bn[-1]))
        g = reached(r.gate, r, f, reads)
        if g is FALSE:
            continue
        absent = raw in (None, "")
        if absent:
            if not r.dflt:
                ctx.ob("P24.mandatory", False, "%s %s" % (rp, name), "%s has no entry %s, which %s reads without testing for it (line %d)" % (rp, name, short, r.at["line"]), **r.at)
            continue
        if ("m", r.keys, r.at["line"]) not in done:
            done.add(("m", r.keys, r.at["line"]))
            ctx.ob("P24.mandatory", True, "%s %s" % (rp, name))
        v = conv(raw, r.ty)
        if (r.keys, r.ty) not in done:
            done.add((r.keys, r.ty))
            ctx.ob("P24.type", v is not None, "%s %s" % (rp, name), "%s: %s has the value %s, which is not a %s as %s reads it" % (rp, name, raw, r.ty, short),
                   file=p, line=line_of(r.keys[-1]), fn=r.at["fn"], sample="%s as %s" % (raw, r.ty))
        if isinstance(v, list) and r.need:
            idx = [i for g2, i, _ in r.need if i is not None and reached(g2, r, f, reads) is not FALSE]
            if idx:
                n = int(max(idx)) + 1
                key = ("len", r.keys)
                if key not in done or n != len(v):
                    done.add(key)
                    ctx.ob("P24.length", len(v) == n, "%s %s length" % (rp, name), "%s: %s has %d elements, %s uses %d" % (rp, name, len(v), short, n), file=p, line=line_of(r.keys[-1]), fn=r.at["fn"], sample="%d elements" % n)
                if n == 4 and len(v) == 4 and r.keys[-1].startswith("rotation"):
                    q = sum(x * x for x in v) ** 0.5
                    ctx.ob("P24.length", abs(q - 1) < 2e-3, "%s %s norm" % (rp, name), "%s: the quaternion %s has norm %.6f" % (rp, name, q), file=p, line=line_of(r.keys[-1]), fn=r.at["fn"])
    known = {r.keys for r in reads}
    for ks in f.leaves():
        ctx.ob("P24.used", any(ks == k[:len(ks)] for k in known), "%s %s" % (short, "/".join(ks)),
               "%s sets %s, which no constructor of %s reads" % (rp, "/".join(ks), short), file=p, line=line_of(ks[-1]))


# -------------------------------------------------------------------- P23
PR, VC, LK, GF, ES = ROLE["imu_propagation"], ROLE["velocity_correction"], ROLE["legged_kinematics_correction"], ROLE["imu_filter"], ROLE["inekf_estimator"]
IDQ, V0 = (1, 0, 0, 0), (0, 0, 0)
D, HALF = Fraction, Fraction(1, 2)
# documented defaults of optional entries: class -> {section/key: default}
DEFAULTS = {
    PR: {"settings/static_bias_initialization": True, "settings/init_bias_size": 0, "settings/use_imu_ori_to_init": False,
         "settings/rotation_imu2body": IDQ, "settings/enable_imu_bias_update": False, "settings/translation_imu2body": V0,
         "noises/gyroscope_std": D("0.1"), "noises/accelerometer_std": D("0.1"), "noises/gyroscope_bias_std": D("0.1"),
         "noises/accelerometer_bias_std": D("0.1"), "priors/gyroscope_bias": V0, "priors/accelerometer_bias": V0},
    VC: {"noises/velocity_std": D("0.1"), "settings/correction_time_threshold": D("0.3"), "settings/rotation_vel2body": IDQ,
         "settings/velocity_scale": 1},
    LK: {"noises/encoder_std": D("0.01"), "noises/kinematics_additive_std": D("0.05"), "noises/contact_noise_std": D("0.1"),
         "settings/correction_time_threshold": D("0.3")},
    GF: {"settings/rotation_imu2body": IDQ, "settings/flat_ground": False, "settings/t_threshold": D("0.03"),
         "settings/correction_method": 0, "settings/init_bias_size": 250, "settings/static_bias_initialization": False,
         "priors/ang_vel_bias": V0, "noises/ang_vel_std": D("0.01"), "noises/ang_vel_bias_std": D("0.01"),
         "noises/filter_std": D("0.01"), "noises/filter_bias_std": D("0.01"), "noises/imu_meas_noise_std": D("0.1"),
         "noises/encoder_meas_noise_std": D("0.1")},
    ES: {"logger/pose_log_rate": 10, "logger/pose_log_file": "inekf_pose", "logger/vel_log_file": "inekf_vel"}}
# optional entries whose fallback is not a value of the entry itself but of the variance derived from it
VARIANCE = {ES: {"state/rotation_std_value": D("0.03"), "state/velocity_std_value": D("0.01"), "state/position_std_value": D("0.00001")}}
NEUTRAL = dict(rotation_imu2body=IDQ, rotation_vel2body=IDQ, translation_imu2body=V0, gyroscope_bias=V0, accelerometer_bias=V0,
               ang_vel_bias=V0, velocity_scale=1, **{k: 1 for k in (
                   "gyroscope_std accelerometer_std gyroscope_bias_std accelerometer_bias_std velocity_std encoder_std "
                   "kinematics_additive_std contact_noise_std ang_vel_std ang_vel_bias_std filter_std filter_bias_std "
                   "imu_meas_noise_std encoder_meas_noise_std rotation_std_value velocity_std_value position_std_value").split()})


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, str):
        return mk("str", v)
    if isinstance(v, tuple):
        return mk("seq", tuple(num(x) for x in v))
    return num(v)


class Built:
    """one constructor run with every entry optional: all values it leaves behind"""

    def __init__(self, ctx, cls, f):
        W = self.W = World(ctx, opaque=GAMMA_SKEW)
        o = W.new(cls, "o")
        W.run(f, o, [sym("arg:%d" % i, p["t"]) for i, p in enumerate(f["params"])])
        ctx.used(W.I)
        self.f, self.evs = f, list(W.I.events)
        self.out = {}
        for root, v in W.st.env.items():
            if isinstance(v, N):
                self.out.setdefault((root, ""), v)
        self.hn = {}
        for v in list(self.out.values()) + [e.gate for e in self.evs]:
            for x in subterms(v):
                if x.op == "bsym" and x.a[0] == "yhas":
                    self.hn.setdefault("/".join(ykeys(x.a[1])), set()).add(x)
        self.at = at_of(f)

    def rd(self, key):
        return {e.d["node"] for e in self.evs if e.kind == "yas" and "/".join(ykeys(e.d["node"])) == key}


def at_of(f):
    return dict(file=f.get("file", ""), line=f.get("l", 0), fn=f["q"])


def fill(v, m):
    """substitute; then a sequence that became known is indexed"""
    return subst(v, m) if m else v


def same_value(a, b):
    return a is b or (shape(a) not in (None, (None, None)) and mat_equal(a, b))


def leaves_of(v, pre=()):
    """members of a record, one level of pairs at a time"""
    if v.op == "rec":
        for k, x in v.a[1]:
            yield from leaves_of(x, pre + (k,))
    else:
        yield pre, v


def gate_and_default(ctx, cls):
    short = cls.split("::")[-1]
    for f in ctors(ctx.facts(), cls):
        b = Built(ctx, cls, f)
        if not any(e.kind == "yas" for e in b.evs):
            continue             # takes no configuration file
        label = "%s(%d)" % (short, len(f["params"]))
        opt = dict(DEFAULTS[cls], **VARIANCE.get(cls, {}))
        # (a) every read of an optional entry happens behind a test of that very entry
        for e in b.evs:
            if e.kind != "yas":
                continue
            key = "/".join(ykeys(e.d["node"]))
            has = mk("bsym", "yhas", e.d["node"])
            tested = any(x.op == "bsym" and x.a[0] == "yhas" for x in subterms(e.gate))
            if key in opt or tested:
                ok = e.d.get("dflt") or implies(e.gate, has)
                ctx.ob("P23.gate", ok, label + " " + key, "%s is read although only the presence of %s was tested" % (
                    key, sorted({"/".join(ykeys(x.a[1])) for x in subterms(e.gate) if x.op == "bsym" and x.a[0] == "yhas"}) or "nothing"), **ctx.at(e))
        # (b) an absent entry behaves like one that holds the default
        for key, d in sorted(opt.items()):
            nodes = b.rd(key)
            if not nodes:
                ctx.ob("P23.default", False, label + " " + key, "the constructor does not read %s" % key, **b.at)
                continue
            bad = []
            var = key in VARIANCE.get(cls, {})
            absent = {mk("bsym", "yhas", n): FALSE for n in nodes}
            here = {mk("bsym", "yhas", n): TRUE for n in nodes}
            for (root, _), v in b.out.items():
                ya = {x for x in subterms(v) if x.op == "yas" and x.a[0] in nodes}
                if not ya and not any(x in absent for x in subterms(v)):
                    continue
                m = dict(here)
                for x in ya:
                    m[x] = const(d) if not var else x
                    if isinstance(d, bool):
                        m[truth(x)] = const(d)
                    elif isinstance(d, tuple):
                        for i, y in enumerate(d):
                            m[mk("idx", x, num(i))] = num(y)
                A, B = subst(v, absent), subst(v, m)
                if var:
                    # present: the square of the configured value, absent: the documented variance
                    for x in ya:
                        B = subst(B, {mul(x, x): num(d)}) if not contains(B, lambda y: y is mul(x, x)) else subst(B, {mul(x, x): num(d)})
                    la, lb = dict(leaves_of(A)), dict(leaves_of(B))
                else:
                    la, lb = dict(leaves_of(A)), dict(leaves_of(B))
                for k in sorted(set(la) | set(lb), key=str):
                    x, y = la.get(k), lb.get(k)
                    if x is None or y is None or not same_value(x, y):
                        bad.append((k[-1] if k else "value", x, y))
            ctx.ob("P23.default", not bad, label + " " + key,
                   "without %s, %s is %s; with the documented default it would be %s" % ((key,) + tuple([bad[0][0].split("::")[-1], show(bad[0][1], 4)[:160] if bad[0][1] is not None else "-", show(bad[0][2], 4)[:160] if bad[0][2] is not None else "-"] if bad else ("", "", ""))), **b.at,
                   sample="%s defaults to %s" % (key, d))


class Sub:
    """context of the comparisons that are run as the 'use' rule"""
    tier = "conf"

    def __init__(self, ctx):
        self.ctx, self.res, self.notes, self.pid = ctx, {}, [], ctx.pid
        self.facts, self.used, self.at = ctx.facts, ctx.used, ctx.at

    def rule(self, *a):
        pass

    def require(self, *a):
        pass

    def ob(self, rid, ok, key, msg="", file="", line=0, fn="", sample=None):
        k = (rid, key)
        old = self.res.get(k)
        if old is None or old[0]:
            self.res[k] = (bool(ok), msg, dict(file=file, line=line, fn=fn))
        return ok


def initial(ctx):
    """set_initial_state: priors, bias covariances, lever arms"""
    from .eqs import make_prop, IPQ, IMU, cfgval
    from .bias import read_cfg
    from . import meas
    for upd in (FALSE, TRUE):
        for ori in (FALSE, TRUE):
            W = World(ctx, opaque=GAMMA_SKEW, assume=meas.nonempty)
            ip = make_prop(W, "RightInvariant")
            meas.present(W, {"enable_imu_bias_update": upd, "use_imu_ori_to_init": ori})
            cfgs = {k: read_cfg(W, k) for k in ("gyroscope_bias", "accelerometer_bias", "gyroscope_bias_std", "accelerometer_bias_std", "rotation_imu2body")}
            st, S = W.robot_state(5, "S")
            e0 = len(W.I.events)
            f = W.fn(IPQ + "::set_initial_state")
            W.run(f, ip, [W.loc(st)])
            ctx.used(W.I)
            at = at_of(f)
            from .steps import one_pop
            p, _ = one_pop(W.I.events[e0:])
            if p is None:
                raise AnalysisBroken("set_initial_state takes no sample")
            label = "initial state, bias update %s, orientation %s" % ("on" if upd is TRUE else "off", "used" if ori is TRUE else "not used")
            for g, k in (("get_gyroscope_bias", "gyroscope_bias"), ("get_accelerometer_bias", "accelerometer_bias")):
                want = mat(3, 1, [vecel(cfgs[k], i) for i in range(3)])
                ctx.ob("init", mat_equal(W.rs(st, g), want), label + " " + k, "%s starts as %s, configured %s" % (k, show(W.rs(st, g), 4), show(want, 4)), **at)
            for g, k in (("get_gyroscope_bias_covariance", "gyroscope_bias_std"), ("get_accelerometer_bias_covariance", "accelerometer_bias_std")):
                want = mscale(mul(cfgs[k], cfgs[k]), I(3))
                ctx.ob("init", mat_equal(W.rs(st, g), want), label + " " + k, "the bias covariance starts as %s, configured %s" % (show(W.rs(st, g), 4), show(want, 4)), **at)
            want = mmul(quat_R(cfgs["rotation_imu2body"]), W.getter(p, IMU + "::get_angular_velocity"))
            ctx.ob("init", mat_equal(W.rs(st, "get_body_angular_velocity"), want), label + " body rate", "the body rate starts as %s, expected %s" % (show(W.rs(st, "get_body_angular_velocity"), 4), show(want, 4)), **at)
            from ..lib import toR
            R = W.rs(st, "get_rotation")
            Rq = toR(W.getter(p, IMU + "::get_quaternion"))
            want = [Rq, mmul(Rq, T(quat_R(cfgs["rotation_imu2body"])))] if ori is TRUE else [I(3)]
            ctx.ob("init", any(mat_equal(R, w) for w in want), label + " rotation", "the rotation starts as %s, expected %s" % (show(R, 4), show(want[0], 4)), **at)


def p23(ctx):
    from . import eqs, meas, leg, gyro, bias
    from .. import lib
    ctx.rule("P23.gate", "an optional entry is read only after its own presence was tested")
    ctx.rule("P23.default", "without an optional entry every constructed value is what it would be with the documented default")
    ctx.rule("P23.use", "results agree with the equations written in terms of the configured entries (standard deviations squared once, "
                        "quaternions w,x,y,z, vectors x,y,z); a disagreement counts only if it disappears when all entries are alike")
    for cls in sorted(DEFAULTS):
        gate_and_default(ctx, cls)
    parts = {"mean": eqs.p14, "covariance": eqs.p15, "measurement": meas.p18,
             "contacts": lambda c: leg.explore(c, {"P19.noise", "P19.cov"}, 1),
             "gyro filter": lambda c: gyro.explore(c, {"P20.fuse", "P20.cov", "P20.propagate"}, ["IMU and angular velocity"]),
             "static bias": bias.p28, "start": initial}
    for nm, f in parts.items():
        s = Sub(ctx)
        f(s)
        bad = {k for k, v in s.res.items() if not v[0]}
        if bad:
            other = set(bad)
            for quat in (IDQ, (HALF,) * 4):
                n = Sub(ctx)
                lib.NEUTRAL = {k: const(quat if k.startswith("rotation_") and v is IDQ else v) for k, v in NEUTRAL.items()}
                try:
                    f(n)
                finally:
                    lib.NEUTRAL = None
                other &= {k for k in bad if k in n.res and not n.res[k][0]}
            if other:
                ctx.notes.append("%s: %d disagreement(s) do not depend on the configured values and are left to the property they belong to" % (nm, len(other)))
            bad -= other
        for k, (ok, msg, at) in s.res.items():
            ctx.ob("P23.use", ok or k not in bad, "%s %s %s" % (nm, k[0], k[1]), msg, **at)
    ctx.require("P23.gate", 30, "guarded reads")
    ctx.require("P23.default", 30, "defaults")
    ctx.require("P23.use", 80, "uses")
