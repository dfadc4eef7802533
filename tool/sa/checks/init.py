"""P26: definite initialisation of data members and locals."""
from ..dag import *
from ..vf import Interp, State, Unsupported, Dead, notmpl, stript, is_ptr_type, uninit_cond, NUMTY
from ..facts import AnalysisBroken, rel

SCALAR = {"bool", "char", "int", "unsigned int", "long", "unsigned long", "float", "double", "short", "unsigned short",
          "long long", "unsigned long long", "unsigned char", "signed char"}


def needs_value(F, t, f=None):
    """kind of a member type that has no value unless one is given: 'scalar', 'eigen', 'struct' or None"""
    b = stript(t)
    if f is not None and f.get("builtin"):
        return "scalar"
    if t.rstrip().endswith("*"):
        return "scalar"
    if t.rstrip().endswith("&"):
        return None
    if b in SCALAR or b in F.enums:
        return "scalar"
    if b.startswith("Eigen::Matrix<"):
        s = shape_of_type(b)
        if s and s[0] and s[1] and isinstance(s[0], int) and isinstance(s[1], int):
            return "eigen"
        return None
    if b.startswith("Eigen::Quaternion<"):
        return "scalar"
    if b.startswith("std::array<"):
        return "scalar"
    r = F.rec(notmpl(b))
    if r is not None and not any(m["q"].split("::")[-1] == r["q"].split("::")[-1] for m in r["methods"]):
        return "struct"
    return None


def referenced(F):
    """{field: [function]} every mention of a data member outside constructor initialisers"""
    out = {}
    for f in F.functions.values():
        def w(x):
            if isinstance(x, dict):
                if x.get("k") == "mem" and not x.get("method") and x.get("q"):
                    out.setdefault(x["q"], []).append(f)
                for v in x.values():
                    w(v)
            elif isinstance(x, list):
                for v in x:
                    w(v)
        w(f.get("body"))
    return out


def ours(r):
    f = rel(r.get("file") or "")
    return f.startswith(("include/drift", "src/", "ROS/", "baselines/"))


def uninit_in(v, own, depth=0):
    """does value v contain the member's own previous (indeterminate) content or an undefined part?"""
    if v in own:
        return True
    if v.op in ("uninit", "undef", "undefM"):
        return True
    if v.op == "fld" and v.a[0].op == "rec":
        return True            # the enclosing object was constructed without giving this member a value
    if v.op == "ite":
        return uninit_in(v.a[1], own) or uninit_in(v.a[2], own)
    if v.op in ("mset",):
        s = shape(v)
        if s and isinstance(s[0], int) and isinstance(s[1], int) and s[0] * s[1] <= 400:
            return any(uninit_in(el(v, i, j), own) for i in range(s[0]) for j in range(s[1]))
        return False
    if v.op == "mat":
        return any(uninit_in(c, own) for c in v.a[2] if hasattr(c, "op")) if isinstance(v.a[2], tuple) else False
    if v.op in ("el", "elem") and hasattr(v.a[0], "op"):
        return uninit_in(v.a[0], own)
    return False


def assigned_first(F, cq, q, refs):
    """every member function that mentions the (scalar) member assigns it before reading it"""
    users = [g for g in refs.get(q, ()) if not g.get("ctor")]
    if not users:
        return False
    for g in users:
        if g.get("rec") != cq or not g.get("body"):
            return False
        I_ = Interp(F)
        I_.track = []
        try:
            I_.run(g)
        except Exception:
            return False
        given = FALSE
        seen = False
        for rw, f, gate, locks, fn, root in I_.track:
            if f != q or root[1] != "this":
                continue
            seen = True
            if rw == "w":
                given = or_(given, gate)
            elif satisfiable(and_(gate, not_(given))):
                return False
        if not seen:
            return False
    return True


def check_members(ctx, groups=("core", "inst"), rid="P26.member", only=None, least=60):
    F = ctx.facts(*groups)
    refs = referenced(F)
    ctx.rule(rid, "after every constructor each scalar, enum, raw-pointer or fixed-size matrix member that an operation mentions has a value on every path")
    recs = {}
    for r in F.records.values():
        if ours(r) and (only is None or r["q"] in only):
            recs.setdefault(r["q"], r)
    for cq, r in sorted(recs.items()):
        chain = [cq] + F.bases(cq)
        ctors = [f for f in F.by_q.get(cq + "::" + cq.split("::")[-1], []) if f.get("ctor") and not is_copy(f, cq)]
        declared = [m for m in r["methods"] if m["q"].split("::")[-1] == cq.split("::")[-1]]
        if declared and not ctors:
            continue
        fields = []
        for c, f in F.all_fields(cq):
            q = c + "::" + f["n"]
            k = needs_value(F, f["t"], f)
            if f.get("static"):
                continue
            users = [g for g in refs.get(q, ()) if not g.get("ctor")]
            if c != cq or True:
                users = [g for g in users if g.get("rec") in chain or not g.get("rec") or f.get("access") == 0]
            if k == "struct":
                sub = F.rec(notmpl(stript(f["t"])))
                for g in sub["fields"]:
                    k2 = needs_value(F, g["t"], g)
                    sq = sub["q"] + "::" + g["n"]
                    if k2 and k2 != "struct" and not g.get("init") and (refs.get(sq) or f.get("access") == 0):
                        fields.append((q, f, (("f", q), ("f", sq)), g))
                continue
            if k and users:
                fields.append((q, f, (("f", q),), f))
        if not fields:
            continue
        if not declared:
            continue           # an aggregate: judged inside the class that contains it, or as a local
        for fn in ctors:
            I_ = Interp(F)
            try:
                v, s = I_.run(fn)
            except Dead:
                continue
            ctx.used(I_)
            if s is None:
                continue
            root = ("o", "this", cq)
            if root not in s.env:
                cand = [x for x in s.env if x[0] == "o" and x[1] == "this"]
                root = cand[0] if cand else root
            base = I_.initval(root)
            for q, f, path, leaf in fields:
                own = set()
                n = base
                for p in path:
                    n = I_.get(n, p, None)
                own.add(n)
                val = I_.read(s, (root, path), leaf["t"])
                bad = uninit_in(val, own) and not assigned_first(F, cq, q, refs)
                ctx.ob(rid, not bad, "%s: %s after %d-argument constructor" % (cq, "/".join(p[1].split("::")[-1] if i else p[1] for i, p in enumerate(path)), len(fn["params"])),
                       "member may be left without a value by this constructor", file=fn.get("file"), line=fn.get("l"), fn=fn["q"], sample=show(val, 3))
    ctx.require(rid, least, "members")


def is_copy(f, cq):
    if len(f["params"]) != 1:
        return False
    t = f["params"][0]["t"]
    return t.rstrip().endswith("&") and notmpl(stript(t)) == cq


def check_locals(ctx, groups=("core", "inst")):
    F = ctx.facts(*groups)
    ctx.rule("P26.local", "no local variable is read on a path on which it has not been given a value")
    n = 0
    for f in sorted(F.functions.values(), key=lambda f: f["fid"]):
        if "body" not in f or "kinematics/robots" in (f.get("file") or ""):
            continue
        if not ours(f):
            continue
        I_ = Interp(F)
        try:
            I_.run(f)
        except Dead:
            pass
        ctx.used(I_)
        bad = {}
        for fn, line, name, gate, t in I_.uninit_reads:
            if stript(t or "") not in SCALAR and not (t or "").rstrip().endswith("*") and stript(t or "") not in F.enums:
                continue
            if satisfiable(gate):
                bad.setdefault((fn["q"], name), (fn, line))
        ctx.ob("P26.local", not [k for k in bad if k[0] == f["q"]] and not bad, "locals of %s(%d)" % (f["q"], len(f["params"])),
               "local %s may be read before it has a value" % ", ".join(k[1] for k in bad),
               file=f.get("file"), line=(list(bad.values())[0][1] if bad else f.get("l")), fn=f["q"])
    ctx.require("P26.local", 80, "functions")


def p26(ctx):
    check_members(ctx)
    check_locals(ctx)
