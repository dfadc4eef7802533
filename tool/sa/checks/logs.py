"""P25: the pose log - lines, rate, order and file names."""
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..vf import qfront, notmpl
from ..facts import AnalysisBroken
from .estim import Est, logging, looped, restrict, EQ
from .eqs import enum_of, ykeys
from .state import at_of
from . import meas
from ..lib import qc

NPOS = (1 << 64) - 1
DIG = {"std::max_digits10": 17}


# -------------------------------------------------------------- file names as functions of the configured name
class Strings:
    """value of an extracted string expression for one shape of configured name"""

    def __init__(self, cfg):
        self.cfg = cfg            # (keys) -> str, or None when the entry is absent
        self.memo = {}

    def __call__(self, v):
        if v not in self.memo:
            self.memo[v] = self.ev(v)
        return self.memo[v]

    def ev(self, v):
        op, a = v.op, v.a
        if op in ("str", "b"):
            return a[0]
        if op == "num":
            return int(a[0]) if a[0].denominator == 1 else a[0]
        if op == "yas":
            k = ykeys(a[0])
            if self.cfg.get(k) is None:
                raise Unsupported("reads the absent entry %s" % (k,))
            return self.cfg[k]
        if op == "bsym" and a[0] == "yhas":
            return self.cfg.get(ykeys(a[1])) is not None
        if op == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if op == "sym" and str(a[0]).endswith("npos"):
            return NPOS
        if op == "pos":
            return self(a[0]) > 0
        if op == "zero":
            return self(a[0]) == 0
        if op in ("eqv", "eq"):
            return self(a[0]) == self(a[1])
        if op == "size":
            return len(self(a[0]))
        if op == "concat":
            return "".join(chr(x) if isinstance(x, int) else x for x in map(self, a))
        if op == "P":
            t = 0
            for m, c in a[0]:
                x = c
                for y, k in m:
                    x *= self(y) ** k
                t += x
            return int(t) if Fraction(t).denominator == 1 else t
        if op == "call":
            f, x = a[0].split("::")[-1], [self(y) for y in a[1:]]
            ch = lambda c: chr(c) if isinstance(c, int) else c
            if f == "to_string":
                return str(x[0])
            if f in ("find", "rfind", "find_last_of", "find_first_of"):
                s, t = x[0], ch(x[1])
                lo = x[2] if len(x) > 2 else None
                if f == "rfind":
                    r = s.rfind(t) if lo in (None, NPOS) else s.rfind(t, 0, lo + len(t))
                elif f == "find":
                    r = s.find(t, lo or 0)
                elif f == "find_first_of":
                    r = next((i for i in range(lo or 0, len(s)) if s[i] in t), -1)
                else:
                    n = len(s) if lo in (None, NPOS) else min(len(s), lo + 1)
                    r = next((i for i in reversed(range(n)) if s[i] in t), -1)
                return NPOS if r < 0 else r
            if f in ("erase", "substr"):
                s, i = x[0], x[1] if len(x) > 1 else 0
                n = x[2] if len(x) > 2 else NPOS
                if i > len(s):
                    raise Unsupported("out of range")
                e = min(len(s), i + n)
                return s[:i] + s[e:] if f == "erase" else s[i:e]
            if f in ("operator[]", "at"):
                return ord(x[0][x[1]]) if x[1] < len(x[0]) else 0
            if f == "back":
                return ord(x[0][-1]) if x[0] else 0
            if f == "front":
                return ord(x[0][0]) if x[0] else 0
            if f == "compare" and len(x) == 2:
                return (x[0] > x[1]) - (x[0] < x[1])
            if f == "compare" and len(x) == 4:
                s = x[0][x[1]:x[1] + x[2]]
                return (s > x[3]) - (s < x[3])
        if v is TRUE or v is FALSE:
            return v is TRUE
        raise Unsupported("file name built with " + show(v, 3))


POSE, VEL = ("logger", "pose_log_file"), ("logger", "vel_log_file")
DIRS = ("", "/", "log/", "./", "../log/", "/data/run.2/", "a.b/c/")
EXTS = ("", ".txt", ".csv")


def stem(name):
    d, _, b = name.rpartition("/")
    b = b.rsplit(".", 1)[0] if "." in b else b
    return (d + "/" if "/" in name else "") + b


def names(v, cfg):
    try:
        return Strings({("logger", "enable_pose_logger"): True, **cfg})(v)
    except (IndexError, TypeError) as e:
        raise Unsupported("file name: %s" % e)


def file_names(ctx, rule, opens, what, suffix, at):
    """every open of one round against the configured names, for every shape of name"""
    bad = {}
    n = 0
    for d in DIRS:
        for e in EXTS:
            cfg = {POSE: d + "pose" + e, VEL: d + "vel" + e}
            exp = {stem(cfg[POSE]) + suffix[0], stem(cfg[VEL]) + suffix[0], stem(cfg[VEL]) + suffix[1]}
            got = {}
            for o in opens:
                got.setdefault(names(o.d["path"], cfg), []).append(o)
            n += 1
            if set(got) != exp or any(len(x) > 1 for x in got.values()):
                bad[cfg[POSE]] = (sorted(got), sorted(exp))
    ctx.ob(rule, not bad, what, "for the configured name %s the files are %s instead of %s" % (next(iter(bad.items()))[0], *next(iter(bad.values()))) if bad else "", **at, sample="%d shapes of configured names" % n)


# -------------------------------------------------------------- lines
def scale(v, rate):
    """logging enabled, every optional entry present; comparisons multiplied by the (positive) log rate"""
    m = {x: TRUE for x in subterms(v) if x.op == "bsym" and x.a[0] == "yhas"}
    m.update({x: TRUE for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == ("enable_pose_logger",)})
    v = subst(v, m) if m else v
    m = {}
    for x in subterms(v):
        if x.op in ("pos", "zero") and any(a is rate and k < 0 for mono, _ in poly(x.a[0]).items() for a, k in mono):
            m[x] = mk(x.op, mul(x.a[0], rate)) if x.op == "zero" else pos(mul(x.a[0], rate))
    return subst(v, m) if m else v


def is_ws(v):
    if v.op == "str":
        return v.a[0] != "" and not v.a[0].strip()
    return v.op == "num" and int(v.a[0]) in (9, 32)


def text(v):
    return v.a[0] if v.op == "str" else None


def tokens(evs):
    """[(value, separated from the previous token)], end of line reached, complaint"""
    out, sep, nl = [], True, False
    for e in evs:
        v, vt = e.d["val"], e.d.get("vt") or ""
        if v.op == "fun":
            n = str(v.a[0])
            if n.endswith("endl"):
                nl = True
            elif not n.endswith(("flush", "fixed", "scientific", "setprecision")):
                return out, nl, "unknown manipulator " + n
            continue
        if v.op == "str" or (v.op == "num" and "char" in vt):
            t = v.a[0] if v.op == "str" else chr(int(v.a[0]))
            if t.strip():
                return out, nl, "text %r" % t
            if t and nl:
                return out, nl, "text after the end of the line"
            sep = sep or bool(t)
            nl = nl or "\n" in t
            continue
        if v.op == "call" and str(v.a[0]).endswith("setprecision"):
            continue
        if nl:
            return out, nl, "a value after the end of the line"
        if not sep:
            return out, nl, "no separator before the value %d" % (len(out) + 1)
        out.append(v)
        sep = False
    return out, nl, None if nl else "the line is not ended"


def coords(W, v, n):
    return [el(v, i, 0) for i in range(n)]


def p25(ctx):
    ctx.rule("P25.files", "log files are named after the configured names (extension replaced), the three kinds go to different files, and every reset starts new ones")
    ctx.rule("P25.digits", "every log stream prints enough digits to read the stored values back, before anything is logged")
    ctx.rule("P25.line", "a pose line is time, x y z, qx qy qz qw of one snapshot in the world frame; a velocity line is time and three components in its frame")
    ctx.rule("P25.rate", "a snapshot is logged iff at least one log period has passed since the last logged one")
    ctx.rule("P25.order", "every logged snapshot is the oldest queued one, which is removed once")
    ctx.rule("P25.reset", "after a reset the next snapshot is compared with the same initial time as after construction")
    ctx.rule("P25.only", "every file the library opens for writing has a configured name")
    for err in ("RightInvariant",) if ctx.tier == "quick" else ("RightInvariant", "LeftInvariant"):
        logger(ctx, err)
    only(ctx)
    ctx.require("P25.line", 3, "logged lines")
    ctx.require("P25.files", 3, "rounds of file names")


def logger(ctx, err):
    E = Est(ctx, "", err)
    W = E.W
    lg = logging(E)
    est = W.loc(E.ptr)
    mine = lambda l: l is not None and l[0] == est[0]
    at = at_of(W.fn(EQ + "::InekfEstimator", 2))
    ev0 = list(W.I.events)
    opens = [e for e in ev0 if e.kind == "open" and mine(e.d["stream"])]
    for e in opens:
        ctx.ob("P25.files", implies(e.gate, lg), "opened with the switch", "a log file is opened although logging is disabled", e.file, e.line, e.fn)
        ctx.ob("P25.files", implies(lg, e.gate), "opened with logging", "a log file is not opened with logging enabled", e.file, e.line, e.fn)
    file_names(ctx, "P25.files", opens, "after construction", (".txt", "_body_frame.txt"), at)
    # which stream carries what
    cfg = {POSE: "p/pose.txt", VEL: "v/vel.txt"}
    by = {names(e.d["path"], cfg): e.d["stream"] for e in opens}
    role = {by.get("p/pose.txt"): "pose", by.get("v/vel.txt"): "velocity", by.get("v/vel_body_frame.txt"): "body velocity"}
    if None in role or len(role) != 3:
        ctx.ob("P25.files", False, "roles", "the three log files share a stream or a name: %s" % sorted(by), **at)
        return
    # digits
    started = [i for i, e in enumerate(ev0) if e.kind in ("thread_start", "thread_assign")]
    for s, r in role.items():
        fm = [(i, e) for i, e in enumerate(ev0) if e.kind == "fmt" and e.d["stream"] == s]
        ok = any(digits(e) >= 17 and implies(lg, e.gate) and (not started or i < started[0]) for i, e in fm) and all(digits(e) >= 17 for _, e in fm)
        ctx.ob("P25.digits", ok, r + " log", "the stream of the %s log keeps the default of 6 digits, or its precision is set after the thread started" % r, **at)
    # the thread
    t0 = None
    env0 = dict(W.st.env)
    evs = E.call("PoseLoggingThread")
    at = E.at
    outs = [e for e in evs if e.kind == "out" and e.gate is not FALSE and mine(e.d["stream"])]
    groups = {}
    for e in outs:
        groups.setdefault((e.d["stream"], nounroll(e.loops)), []).append(e)
    pops = [e for e in evs if e.kind == "qop" and e.d["op"] == "pop" and e.gate is not FALSE]
    rate = {x for v in env0.values() if isinstance(v, N) for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == ("pose_log_rate",)}
    if len(rate) != 1:
        raise AnalysisBroken("log rate: %d configuration entries" % len(rate))
    rate = rate.pop()
    seen = set()
    for (s, loops), es in groups.items():
        r = role.get(s)
        a = dict(at, line=es[0].line)
        if r is None:
            ctx.ob("P25.only", False, "stream %s" % str(s[1][-1:]), "the logger writes a stream that is not one of the log files", **a)
            continue
        seen.add(r)
        gate = es[0].gate
        ctx.ob("P25.line", all(e.gate is gate for e in es), r + " line atomic", "parts of a %s line are written under different conditions" % r, **a)
        ctx.ob("P25.line", len(loops) == 1, r + " line per snapshot", "a %s line is not written once per snapshot" % r, **a)
        toks, nl, bad = tokens(es)
        ctx.ob("P25.line", bad is None, r + " layout", "%s log line: %s" % (r, bad), **a)
        # the snapshot
        cand = [p for p in pops if implies(gate, p.gate) and nounroll(p.loops) == loops]
        ctx.ob("P25.order", len(cand) == 1, r + " one removal", "%d snapshots are removed for one %s line" % (len(cand), r), **a)
        if len(cand) != 1:
            continue
        snapv = qfront(cand[0].d["pre"])
        t = W.rs(snapv, "get_time")
        R = W.rs(snapv, "get_world_rotation")
        if r == "pose":
            q = [qc(mk("quatR", R), c) for c in ("x", "y", "z", "w")]
            exp = [t] + coords(W, W.rs(snapv, "get_world_position"), 3) + q
            lab = ["time", "x", "y", "z", "qx", "qy", "qz", "qw"]
        else:
            exp = [t] + coords(W, W.rs(snapv, "get_world_velocity" if r == "velocity" else "get_body_velocity"), 3)
            lab = ["time", "vx", "vy", "vz"]
        ctx.ob("P25.line", len(toks) == len(exp), r + " fields", "a %s line has %d fields instead of %d" % (r, len(toks), len(exp)), **a)
        for l, x, y in zip(lab, toks, exp):
            ctx.ob("P25.line", restrict(x, gate) is restrict(y, gate) or x is y, "%s field %s" % (r, l), "field %s of the %s line is %s instead of %s" % (l, r, show(x, 5)[:150], show(y, 5)[:150]), **a)
        # rate
        g2 = scale(gate, rate)
        last = None
        for inf in W.I.loopinfo.values():
            for mu, (first, back, key) in inf["mu"].items():
                if back is not None and restrict(scale(back, rate), g2) is t and first is not None:
                    last = (mu, first, back)
        ok = last is not None
        ctx.ob("P25.rate", ok, r + " reference time", "no remembered time is set to the logged snapshot's time whenever a %s line is written" % r, **a)
        if not ok:
            continue
        mu, first, back = last
        due = not_(lt(mul(sub(t, mu), rate), ONE))
        ctx.ob("P25.rate", implies(g2, due), r + " at most one per period", "a %s line is written under %s, which does not imply that a log period has passed" % (r, show(g2, 7)[:300]), **a)
        want = and_(and_(scale(cand[0].gate, rate), due), lg)
        ctx.ob("P25.rate", implies(want, g2), r + " whenever due", "a removed snapshot that is due is not written to the %s log: written only under %s" % (r, show(g2, 7)[:300]), **a)
        b2 = restrict(scale(back, rate), and_(scale(cand[0].gate, rate), not_(g2)))
        ctx.ob("P25.rate", b2 is mu, r + " kept", "the remembered time changes to %s although no %s line is written" % (show(b2, 5)[:100], r), **a)
        if first.op != "num":
            ctx.ob("P25.rate", False, r + " start", "the first snapshot is compared with %s" % show(first, 4), **a)
        t0 = (first, last[2])
    ctx.ob("P25.line", seen == {"pose", "velocity", "body velocity"}, "all logs are written", "nothing is written to the %s log" % ", ".join(sorted({"pose", "velocity", "body velocity"} - seen)), **at)
    resets(ctx, err, role, opens)


def nounroll(loops):
    return tuple(l for l in loops if not str(l[-1]).startswith("u"))


def digits(e):
    v = e.d["args"][0] if e.d["args"] else ZERO
    if v.op == "num":
        return int(v.a[0])
    return 17 if "max_digits10" in show(v, 4) else 0


def resets(ctx, err, role, opens):
    E = Est(ctx, "", err)
    W = E.W
    lg = logging(E)
    est = W.loc(E.ptr)
    used = {}
    for k in (1, 2, 3):
        if k > 1:
            # whatever the thread did in between
            pass
        evs = E.call("clear")
        ops = [e for e in evs if e.kind == "open" and e.d["stream"] is not None and e.d["stream"][0] == est[0] and e.gate is not FALSE]
        facts = lg
        for i in W.I.loopinfo.values():
            if i["end_gate"] is not None:
                facts = and_(facts, not_(i["end_gate"]))
        for e in ops:
            ctx.ob("P25.files", implies(e.gate, lg) and implies(facts, e.gate), "reopened with the switch", "a log file is reopened under %s" % show(e.gate, 4), e.file, e.line, e.fn)
        cl = [e for e in evs if e.kind == "close"]
        for e in ops:
            i = evs.index(e)
            ctx.ob("P25.files", any(c.d["stream"] == e.d["stream"] and implies(e.gate, c.gate) for c in evs[:i] if c.kind == "close"), "closed before it is reopened", "the %s log is opened again without being closed (the open fails)" % role.get(e.d["stream"], "?"), e.file, e.line, e.fn)
        try:
            for cfg in ({POSE: "p/pose.txt", VEL: "v/vel.txt"}, {POSE: "/d.x/pose", VEL: "/d.x/vel"}):
                got = {}
                for e in ops:
                    got[role.get(e.d["stream"])] = names(e.d["path"], cfg)
                sp, sv = stem(cfg[POSE]), stem(cfg[VEL])
                for r, pre in (("pose", sp), ("velocity", sv), ("body velocity", sv)):
                    n = got.get(r)
                    ok = n is not None and n.startswith(pre) and n.endswith(".txt") and ("body_frame" in n) == (r == "body velocity")
                    ctx.ob("P25.files", ok, "%s log after reset" % r, "after %d resets the %s log goes to %s" % (k, r, n), **E.at)
                    if n is not None:
                        u = used.setdefault(cfg[POSE], {x for x in (names(o.d["path"], cfg) for o in opens)})
                        ctx.ob("P25.files", n not in u, "%s log is a new file" % r, "after %d resets the %s log overwrites %s" % (k, r, n), **E.at)
                        u.add(n)
        except KeyError:
            raise
        for e in evs:
            if e.kind == "fmt" and e.d["stream"] in role:
                ctx.ob("P25.digits", digits(e) >= 17, "after reset", "the precision of the log is lowered", e.file, e.line, e.fn)
    # the remembered time
    E1, E2 = Est(ctx, "", err), Est(ctx, "", err)
    E2.call("PoseLoggingThread")
    E2.call("clear")
    firsts = []
    for X in (E1, E2):
        evs = X.call("PoseLoggingThread")
        fs = {}
        for inf in X.W.I.loopinfo.values():
            for mu, (first, back, key) in inf["mu"].items():
                if first is not None and first.op in ("num", "ite") and back is not None and back is not mu and not dag._isboolean(first):
                    fs[str(key[1][-1:]) if isinstance(key, tuple) else str(key)] = restrict(first, lg)
        firsts.append(fs)
    for k, v in firsts[0].items():
        ctx.ob("P25.reset", firsts[1].get(k) is v, "remembered time", "the logger compares the first snapshot after a reset with %s instead of %s" % (show(firsts[1].get(k), 4) if firsts[1].get(k) is not None else "?", show(v, 4)), **E2.at)
    ctx.used(E1.W.I)
    ctx.used(E2.W.I)
    ctx.used(W.I)


# -------------------------------------------------------------- other files
WRITERS = ("open", "fopen", "std::basic_ofstream::open", "std::basic_fstream::open", "std::fopen", "fopen", "std::freopen")


def open_sites(F):
    """syntactic open sites of the library: (function, line)"""
    out = {}

    def walk(n, f):
        if isinstance(n, dict):
            q = n.get("f")
            c = notmpl(n.get("t") or "").strip()
            if isinstance(q, str) and (q in WRITERS):
                out[(f["file"], n.get("l"))] = f
            elif n.get("k") in ("construct", "ctor", "new") and c in ("std::basic_ofstream", "std::basic_fstream") and n.get("args"):
                out[(f["file"], n.get("l"))] = f
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    walk(v, f)
        elif isinstance(n, list):
            for x in n:
                walk(x, f)
    for fs in F.by_q.values():
        for f in fs:
            walk(f.get("body"), f)
            walk(f.get("inits"), f)
    return out


def only(ctx):
    from ..facts import AnalysisBroken as AB
    W0 = World(ctx, opaque=GAMMA_SKEW)
    F = W0.F
    sites = open_sites(F)
    done = set()
    for f in {id(f): f for f in sites.values()}.values():
        W = World(ctx, opaque=GAMMA_SKEW)
        rec = f.get("rec")
        W.I.run(f)
        ctx.used(W.I)
        for e in W.I.events:
            if e.kind != "open" or e.gate is FALSE:
                continue
            done.add((e.file, e.line))
            where = e.d["stream"]
            who = where[1][-1][1] if where is not None and where[1] and where[1][-1][0] == "f" else "local stream"
            alts = [e.d["path"]]
            while any(x.op == "ite" for x in alts):
                alts = [y for x in alts for y in ((x.a[1], x.a[2]) if x.op == "ite" else (x,))]
            free = [x for x in alts if not any(y.op in ("yas", "sym", "fld", "deref", "bsym") for y in subterms(x))]
            cond = any(x.op == "bsym" and x.a[0] == "yhas" for x in subterms(e.d["path"]))
            ok = not free or cond
            ctx.ob("P25.only", ok, "fixed name " + ", ".join(show(x, 3) for x in free) if not ok else "%s opened in %s" % (who, f["q"]), "%s is opened under the fixed name %s" % (who, ", ".join(show(x, 3) for x in free)), e.file, e.line, e.fn)
    miss = {k for k in sites if k not in done}
    for k in sorted(miss):
        ctx.ob("P25.only", False, "open at %s" % sites[k]["q"], "an open that no analysed path reaches", k[0], k[1], sites[k]["q"])
    ctx.require("P25.only", 6, "open sites")
