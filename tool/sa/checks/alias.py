"""P31: lazily evaluated matrix expressions, aliasing assignments, references into containers.

A syntax-directed dataflow over every function body of the library: the walker follows the statements in
order, keeps for each local that is a lazy expression, a view or a reference/iterator into a container the
objects it refers to, marks it invalid when one of these changes, and checks each use.  Every assignment to a
matrix is checked for coefficients of the destination that are read at another position after they were
overwritten."""
import json
from math import gcd
from ..facts import AnalysisBroken
from ..vf import stript, notmpl

PLAIN = {"Eigen::Matrix", "Eigen::Array", "Eigen::Quaternion", "Eigen::AngleAxis", "Eigen::LLT", "Eigen::LDLT", "Eigen::PartialPivLU",
         "Eigen::FullPivLU", "Eigen::HouseholderQR", "Eigen::ColPivHouseholderQR", "Eigen::JacobiSVD", "Eigen::SelfAdjointEigenSolver",
         "Eigen::EigenSolver", "Eigen::Transform", "Eigen::Translation", "Eigen::Rotation2D", "Eigen::Index", "Eigen::DiagonalMatrix",
         "Eigen::PermutationMatrix", "Eigen::SparseMatrix", "Eigen::IOFormat", "Eigen::aligned_allocator"}
VIEW = {"Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "Eigen::Ref", "Eigen::Map", "Eigen::Diagonal", "Eigen::Reshaped",
        "Eigen::IndexedView", "Eigen::Reverse", "Eigen::NoAlias", "Eigen::ArrayWrapper", "Eigen::MatrixWrapper",
        "Eigen::TriangularView", "Eigen::SelfAdjointView", "Eigen::VectorwiseOp"}
BLOCKS = {"block", "row", "col", "head", "tail", "segment", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols",
          "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"}
SAME = {"derived", "matrix", "array", "noalias", "real", "const_derived", "const_cast_derived"}
RESIZE = {"conservativeResize", "conservativeResizeLike", "resize", "resizeLike", "swap"}
EMUT = RESIZE | {"setZero", "setIdentity", "setOnes", "setConstant", "setRandom", "setLinSpaced", "fill", "normalize", "transposeInPlace",
                 "adjointInPlace", "operator<<", "stableNormalize", "coeffRef", "setUnit"}
CMUT = {"push_back", "emplace_back", "erase", "insert", "emplace", "resize", "clear", "pop_back", "assign", "reserve", "shrink_to_fit",
        "swap", "push", "pop", "push_front", "pop_front", "operator="}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
SEQ = {"std::vector", "std::basic_string"}
ASSOC = {"std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap", "std::list"}


def base(t):
    return notmpl(stript(t or ""))


def eig(t):
    return stript(t or "").startswith("Eigen::") and base(t) != "Eigen::Index"


def lazy(t):
    return eig(t) and base(t) not in PLAIN and "Solver" not in base(t) and not base(t).endswith("CommaInitializer")


def strip(e):
    while isinstance(e, dict):
        if e.get("k") == "cast" and isinstance(e.get("e"), dict):
            if eig(e.get("t")) and not lazy(e.get("t")) and lazy(e["e"].get("t")):
                return e
            e = e["e"]
        elif e.get("k") == "ctor" and e.get("copy") and len(e.get("args") or []) == 1 and lazy(e.get("t") or e.get("c")):
            e = e["args"][0]
        else:
            break
    return e


def nm(e):
    return (e.get("f") or "").split("::")[-1]


def mentions(e, i):
    if isinstance(e, dict):
        return e.get("k") == "ref" and e.get("id") == i or any(mentions(v, i) for v in e.values())
    return isinstance(e, list) and any(mentions(v, i) for v in e)


def text(e):
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items() if k not in ("l", "t", "fid", "objt", "pt", "ta")}
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return json.dumps(go(strip(e)), sort_keys=True)


# ------------------------------------------------------------------ linear index forms
def lc(c):
    return {(): c} if c else {}


def ladd(a, b, s=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def lin(e):
    e = strip(e)
    k = e.get("k")
    if k == "int":
        return lc(int(e["v"]))
    if k == "bin" and e["op"] in ("+", "-"):
        return ladd(lin(e["x"]), lin(e["y"]), 1 if e["op"] == "+" else -1)
    if k == "bin" and e["op"] == "*":
        a, b = lin(e["x"]), lin(e["y"])
        for p, q in ((a, b), (b, a)):
            if not p or set(p) == {()}:
                c = p.get((), 0) if p else 0
                return {k: v * c for k, v in q.items() if v * c}
    if k == "un" and e["op"] == "-":
        return {k: -v for k, v in lin(e["e"]).items()}
    return {text(e): 1}


def isconst(a):
    return not a or set(a) == {()}


def span(s1, n1, s2, n2):
    """two index ranges: 'same', 'disjoint', 'aligned' (same or disjoint) or 'maybe'"""
    if None in (s1, n1, s2, n2):
        return "maybe"
    d = ladd(s2, s1, -1)
    if not d and n1 == n2:
        return "same"
    for x in (ladd(d, n1, -1), ladd({k: -v for k, v in d.items()}, n2, -1)):
        if isconst(x) and x.get((), 0) >= 0:
            return "disjoint"
    if isconst(n1) and isconst(n2) and d and n1 == n2:
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g >= n1.get((), 0):
            return "aligned" if not isconst(d) else "disjoint"
    return "maybe"


class Region:
    __slots__ = ("r", "c", "nr", "nc", "tr")

    def __init__(self, r, c, nr, nc, tr=False):
        self.r, self.c, self.nr, self.nc, self.tr = r, c, nr, nc, tr


def whole(path, t=None):
    a = fixed(t)
    return Region({}, {}, lc(a[0]) if a[0] else {("rows", path): 1}, lc(a[1]) if a[1] else {("cols", path): 1})


def fixed(t):
    s = stript(t or "")
    if not s.startswith(("Eigen::Matrix<", "Eigen::Array<")):
        return (None, None)
    p = s[s.index("<") + 1:].rstrip(">").split(",")
    f = lambda x: int(x) if x.strip().lstrip("-").isdigit() and int(x) > 0 else None
    return (f(p[1]), f(p[2])) if len(p) > 2 else (None, None)


def overlap(a, b):
    """do the coefficients of region b that are read include ones of region a at another position?"""
    if a is None or b is None:
        return "maybe"
    if a.tr != b.tr:
        one = lambda x: isconst(x.nr) and x.nr.get((), 0) == 1 and isconst(x.nc) and x.nc.get((), 0) == 1
        if one(a) and one(b):
            return "same"
    rr, cc = span(a.r, a.nr, b.r, b.nr), span(a.c, a.nc, b.c, b.nc)
    if "disjoint" in (rr, cc):
        return "disjoint"
    ok = {"same", "aligned"}
    if rr in ok and cc in ok:
        return "same" if a.tr == b.tr else "transposed"
    return "maybe"


class Walk:
    def __init__(self, ctx, F, fn, mods):
        self.ctx, self.F, self.fn, self.mods = ctx, F, fn, mods
        self.env = {}
        self.dead = False
        self.seen = set()
        self.decl_line = {}
        self.locals = set()

    # ---- reporting
    def ob(self, rid, ok, what, msg, line):
        key = "%s:%s:%s" % (self.fn["q"], what, line)
        if ok and (rid, key) in self.seen:
            return
        self.seen.add((rid, key))
        self.ctx.ob(rid, ok, key, msg, file=self.fn.get("file"), line=line, fn=self.fn["q"])

    # ---- paths
    def path(self, e):
        e = strip(e)
        k = e.get("k") if isinstance(e, dict) else None
        if k == "ref":
            i = e.get("id")
            if i in self.env and self.env[i].get("path") is not None:
                return self.env[i]["path"]
            if e.get("dk") in ("func", "enum"):
                return None
            return ("v", i) if i else ("g", e.get("q") or e.get("n"))
        if k == "this":
            return ("this",)
        if k == "mem":
            if e.get("method"):
                return None
            p = self.path(e["b"])
            return p + (e.get("q") or e["n"],) if p is not None else None
        if k == "un" and e["op"] in ("*", "&"):
            return self.path(e["e"])
        if k == "call" and e.get("obj") is not None:
            f, n = e.get("f") or "", nm(e)
            if f.startswith("Eigen::") and n in SAME:
                return self.path(e["obj"])
            if n in ("operator*", "operator->", "get") and ("_ptr" in f or "iterator" in f):
                return self.path(e["obj"])
            if n in ("operator[]", "at", "front", "back") and f.startswith("std::"):
                p = self.path(e["obj"])
                return p + (("[]", n + "".join(text(a) for a in e["args"])),) if p is not None else None
            fn = self.F.functions.get(e.get("fid"))
            if fn is not None and (fn.get("ret") or "").rstrip().endswith("&"):
                m = returned_member(fn)
                p = self.path(e["obj"])
                if m is not None and p is not None:
                    return p + (m,)
        return None

    def resolve(self, e):
        """(path, Region) of a chain of views on a matrix object"""
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e.get("k") == "ref" and e.get("id") in self.env and self.env[e["id"]].get("region") is not None:
            i = self.env[e["id"]]
            return i["path"], i["region"]
        if e.get("k") == "call" and (e.get("f") or "").startswith("Eigen::") and e.get("obj") is not None:
            n = nm(e)
            if n in SAME:
                return self.resolve(e["obj"])
            if n in ("transpose", "adjoint"):
                r = self.resolve(e["obj"])
                if r is None or r[1] is None:
                    return r
                g = r[1]
                return r[0], Region(g.r, g.c, g.nr, g.nc, not g.tr)
            if n in BLOCKS or n in ("diagonal", "reverse", "reshaped", "colwise", "rowwise"):
                r = self.resolve(e["obj"])
                if r is None:
                    return None
                return r[0], self.sub(r[1], n, e)
            if n == "operator()" and lazy(e.get("t")):
                r = self.resolve(e["obj"])
                return None if r is None else (r[0], None)
        p = self.path(e)
        if p is None or not eig(e.get("t")) and not (e.get("k") == "ref"):
            return (p, None) if p is not None and eig(e.get("t")) else None
        if not eig(e.get("t")):
            return None
        return p, whole(p, e.get("t"))

    def sub(self, g, n, e):
        if g is None or g.tr:
            return None
        a = [lin(x) for x in e.get("args", [])]
        ta = [lc(int(x)) for x in (e.get("ta") or []) if str(x).lstrip("-").isdigit()]
        R, C, NR, NC = g.r, g.c, g.nr, g.nc
        try:
            if n == "block":
                r, c = a[0], a[1]
                nr, nc = (a[2], a[3]) if len(a) == 4 else ta
                return Region(ladd(R, r), ladd(C, c), nr, nc)
            if n == "row":
                return Region(ladd(R, a[0]), C, lc(1), NC)
            if n == "col":
                return Region(R, ladd(C, a[0]), NR, lc(1))
            if n in ("head", "tail", "segment"):
                m = (a[-1] if not ta else ta[0])
                st = {} if n == "head" else (a[0] if n == "segment" else ladd(NR, m, -1))
                if isconst(NR) and NR.get((), 0) == 1:
                    return None
                return Region(ladd(R, st), C, m, NC if isconst(NC) else lc(1))
            if n in ("topRows", "bottomRows", "middleRows"):
                m = a[-1] if not ta else ta[0]
                st = {} if n == "topRows" else (a[0] if n == "middleRows" else ladd(NR, m, -1))
                return Region(ladd(R, st), C, m, NC)
            if n in ("leftCols", "rightCols", "middleCols"):
                m = a[-1] if not ta else ta[0]
                st = {} if n == "leftCols" else (a[0] if n == "middleCols" else ladd(NC, m, -1))
                return Region(R, ladd(C, st), NR, m)
            if n.endswith("Corner"):
                nr, nc = (a[0], a[1]) if len(a) == 2 else ta
                r = {} if n.startswith("top") else ladd(NR, nr, -1)
                c = {} if "Left" in n else ladd(NC, nc, -1)
                return Region(ladd(R, r), ladd(C, c), nr, nc)
        except (IndexError, ValueError):
            pass
        return None

    # ---- what an expression reads when it is evaluated coefficient by coefficient
    def leaves(self, e, kind="cw"):
        """[(path | None for a temporary, Region, kind, node)]"""
        e = strip(e)
        if not isinstance(e, dict):
            return []
        k = e.get("k")
        if k == "cond":
            return self.leaves(e["x"], kind) + self.leaves(e["y"], kind)
        if k == "ref" and e.get("id") in self.env and self.env[e["id"]].get("leaves") is not None and self.env[e["id"]].get("comp"):
            return [(p, g, "prod" if kind == "prod" else kd, n) for p, g, kd, n in self.env[e["id"]]["leaves"]]
        r = self.resolve(e)
        if r is not None:
            return [(r[0], r[1], kind, e)]
        if not eig(e.get("t") or e.get("c")):
            return []
        if not lazy(e.get("t") or e.get("c")):
            return [(None, None, kind, e)]
        if k == "call":
            b = base(e.get("t"))
            kd = "prod" if b in ("Eigen::Product", "Eigen::Inverse", "Eigen::Solve") else kind
            out = []
            if e.get("obj") is not None and eig(e["obj"].get("t")):
                out += self.leaves(e["obj"], kd)
            for a in e.get("args", []):
                if eig(strip(a).get("t") or strip(a).get("c") if isinstance(strip(a), dict) else None):
                    out += self.leaves(a, kd)
            if nm(e) in BLOCKS | {"transpose", "adjoint", "diagonal", "reverse", "replicate", "reshaped"}:
                out = [(p, None, kd_, n) for p, g, kd_, n in out]
            return out
        return []

    # ---- statements
    def block(self, s):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.block(x)
            return
        k = s.get("k")
        if k == "block":
            for x in s["b"]:
                self.block(x)
        elif k == "expr":
            self.visit(s["e"])
        elif k == "decl":
            for d in s["d"]:
                self.decl(d)
        elif k == "return":
            if s.get("e"):
                self.visit(s["e"])
                self.ret(s)
            self.dead = True
        elif k in ("break", "continue"):
            pass
        elif k == "throw":
            self.visit(s.get("e"))
        elif k == "if":
            self.block(s.get("init"))
            if isinstance(s.get("cv"), dict):
                self.decl(s["cv"])
            self.visit(s["c"])
            self.branch([lambda: self.block(s["x"]), lambda: self.block(s.get("y"))])
        elif k == "switch":
            self.block(s.get("init"))
            self.visit(s["c"])
            self.branch([lambda: self.block(s["b"]), lambda: None])
        elif k in ("case", "default"):
            self.block(s["b"])
        elif k in ("for", "while", "do"):
            self.block(s.get("init"))
            for _ in range(2):
                if s.get("c") is not None and k != "do":
                    self.visit(s["c"])

                def body():
                    self.block(s["b"])
                    if s.get("inc") is not None:
                        self.visit(s["inc"])
                    if k == "do" and s.get("c") is not None:
                        self.visit(s["c"])
                self.branch([body, lambda: None] if k != "do" else [body])
        elif k == "rangefor":
            self.block(s.get("init"))
            self.visit(s["range"])
            p = self.path(s["range"])
            v = s["var"]
            for _ in range(2):
                if p is not None and (v.get("t") or "").rstrip().endswith("&"):
                    self.env[v["id"]] = {"path": p + (("[]", "element"),), "elem": p, "seq": base(s["range"].get("t")) in SEQ, "line": v.get("l") or s.get("l"), "n": v.get("n")}
                if p is not None and base(s["range"].get("t")) in SEQ | ASSOC:
                    self.env["range%d" % id(s)] = {"iter": p, "seq": base(s["range"].get("t")) in SEQ, "line": s.get("l"), "n": "the loop over " + (v.get("n") or "?"), "loopvar": v.get("id")}
                self.branch([lambda: (self.block(s["b"]), self.use({"id": "range%d" % id(s), "l": s.get("l")})), lambda: None])
                self.env.pop("range%d" % id(s), None)
        elif k == "try":
            self.block(s.get("b"))
            for h in s.get("h") or s.get("handlers") or []:
                self.branch([lambda: self.block(h.get("b") if isinstance(h, dict) else h), lambda: None])
        elif k is not None:
            self.visit(s)

    def branch(self, alts):
        env0, outs = self.env, []
        for a in alts:
            self.env = {i: dict(v) for i, v in env0.items()}
            self.dead = False
            a()
            if not self.dead:
                outs.append(self.env)
        self.dead = not outs
        if not outs:
            self.env = env0
            return
        m = outs[0]
        for o in outs[1:]:
            for i, v in o.items():
                if i in m:
                    m[i]["stale"] = m[i].get("stale") or v.get("stale")
                else:
                    m[i] = v
        self.env = m

    def decl(self, d):
        if d.get("k") not in (None, "var"):
            return
        t, init = d.get("t") or "", d.get("init")
        self.locals.add(d["id"])
        self.env.pop(d["id"], None)
        if init is None:
            return
        self.visit(init)
        line = d.get("l")
        isref = t.rstrip().endswith("&")
        if lazy(t) and base(t) not in ("Eigen::Ref", "Eigen::Map") or base(t) == "Eigen::Ref":
            ls = self.leaves(init)
            self.ob("P31.dangle", not any(p is None for p, g, kd, n in ls), d["n"],
                    "%s is an unevaluated expression (%s) that refers to a temporary, which is gone after the declaration" % (d["n"], base(t)), line)
            view = base(t) in VIEW
            info = {"leaves": ls, "comp": not view, "line": line, "n": d["n"], "stale": None}
            if view:
                r = self.resolve(init)
                if r is not None:
                    info["path"], info["region"] = r
            self.env[d["id"]] = info
            return
        if isref:
            r = self.path(init)
            if r is not None:
                info = {"path": r}
                c = self.container(init)
                if c is not None:
                    info.update(elem=c[0], seq=c[1], key=c[2], line=line, n=d["n"])
                self.env[d["id"]] = info
            return
        if "iterator" in t or "iterator" in str(init.get("t") if isinstance(init, dict) else ""):
            e = strip(init)
            if e.get("k") == "call" and e.get("obj") is not None:
                p = self.path(e["obj"])
                if p is not None:
                    self.env[d["id"]] = {"iter": p, "seq": base(e["obj"].get("t")) in SEQ, "line": line, "n": d["n"]}

    def container(self, e):
        """(path, sequential?) of the innermost container an lvalue lives in by value"""
        e = strip(e)
        while isinstance(e, dict):
            if e.get("k") == "call" and e.get("obj") is not None and nm(e) in ("operator[]", "at", "front", "back") and base(
                    e.get("objt") or e["obj"].get("t")) in SEQ | ASSOC:
                p = self.path(e["obj"])
                return (p, base(e.get("objt") or e["obj"].get("t")) in SEQ, text(e["args"][0]) if e.get("args") else None) if p is not None else None
            if e.get("k") == "mem" and not e.get("arrow"):
                e = strip(e["b"])
                continue
            return None
        return None

    def ret(self, s):
        e = strip(s["e"])
        t = e.get("t") or e.get("c")
        if not eig(t):
            return
        if not lazy(t):
            self.ob("P31.return", True, "return", "", s.get("l"))
            return
        if eig(self.fn.get("ret")) and not lazy(self.fn.get("ret")) and not self.fn.get("lambda"):
            self.ob("P31.return", True, "return", "", s.get("l"))
            return
        bad = [p for p, g, kd, n in self.leaves(e) if p is None or (p[0] == "v" and p[1] in self.byval)]
        self.ob("P31.return", not bad, "return", "returns an unevaluated expression (%s) that refers to a local object or a temporary" % base(t), s.get("l"))

    # ---- expressions, in evaluation order
    def visit(self, e):
        if isinstance(e, list):
            for x in e:
                self.visit(x)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "ref":
            self.use(e)
            return
        if k == "lambda":
            self.visit_lambda(e)
            return
        if k in ("assign",):
            self.visit(e["y"])
            if strip(e["x"]).get("k") != "ref":
                self.visit(e["x"])
            self.effect_assign(e["x"], e.get("l"))
            return
        if k == "cond":
            self.visit(e["c"])
            self.branch([lambda: self.visit(e["x"]), lambda: self.visit(e["y"])])
            return
        if k == "bin" and e["op"] in ("&&", "||"):
            self.visit(e["x"])
            self.branch([lambda: self.visit(e["y"]), lambda: None])
            return
        if k == "un":
            self.visit(e["e"])
            if e["op"] in ("++", "--"):
                p = self.path(e["e"])
                if p is not None:
                    self.mod(p, e.get("l"))
            return
        if k == "call":
            op = e.get("op")
            if op in ASSIGN and (e.get("obj") is not None or len(e.get("args", [])) == 2):
                dst = e["obj"] if e.get("obj") is not None else e["args"][0]
                rhs = e["args"][-1:]
                self.visit(rhs)
                d = strip(dst)
                if not (d.get("k") == "ref" and op == "="):
                    self.visit(dst)
                if eig(dst.get("t")) and rhs:
                    self.check_assign(e, dst, rhs[0])
                self.effect_assign(dst, e.get("l"))
                return
            if op == "," and nm(e) == "operator,":
                self.comma(e)
                return
            if e.get("obj") is not None:
                self.visit(e["obj"])
            for a in e.get("args", []):
                self.visit(a)
            self.effects(e)
            return
        if k == "decl":
            self.block(e)
            return
        for kk, v in e.items():
            if kk in ("t", "pt", "ta", "caps"):
                continue
            if isinstance(v, (dict, list)):
                self.visit(v)

    def visit_lambda(self, e):
        w = Walk(self.ctx, self.F, dict(self.fn, ret=None), self.mods)
        w.fn["lambda"] = True
        w.env = {i: dict(v) for i, v in self.env.items()}
        w.byval = {p["id"] for p in e.get("params") or [] if not (p.get("t") or "").rstrip().endswith("&")}
        w.locals = set()
        w.run(e.get("body"))

    def run(self, body):
        # locals declared in the body are collected first, for the return rule
        def ids(n):
            if isinstance(n, dict):
                if n.get("k") == "lambda":
                    return
                if n.get("k") == "decl":
                    for d in n["d"]:
                        if d.get("id") and not (d.get("t") or "").rstrip().endswith("&") and not lazy(d.get("t")):
                            self.byval.add(d["id"])
                for v in n.values():
                    ids(v)
            elif isinstance(n, list):
                for v in n:
                    ids(v)
        ids(body)
        self.block(body)

    def use(self, e):
        i = self.env.get(e.get("id"))
        if i is None:
            return
        if i.get("leaves") is not None:
            st = i.get("stale")
            self.ob("P31.stale", not st, "%s used" % i["n"],
                    "%s (line %s) is evaluated here, after line %s changed an object it refers to" % (i["n"], i["line"], st), e.get("l"))
        elif i.get("elem") is not None or i.get("iter") is not None:
            st = i.get("stale")
            self.ob("P31.element", not st, "%s used" % i["n"],
                    "%s (line %s) refers into a container that line %s changed" % (i["n"], i["line"], st), e.get("l"))

    # ---- effects
    def effect_assign(self, dst, line):
        d = strip(dst)
        if d.get("k") == "ref" and d.get("id") in self.env and self.env[d["id"]].get("iter") is not None:
            self.env[d["id"]]["stale"] = None
            return
        r = self.resolve(dst)
        p = r[0] if r is not None else self.path(dst)
        if p is not None:
            self.mod(p, line)
            self.invalidate(p, line, "operator=")

    def mod(self, p, line, resize=False):
        for i, v in self.env.items():
            if v.get("leaves") is None:
                continue
            if not v.get("comp") and not resize:
                continue
            for q, g, kd, n in v["leaves"]:
                if q is not None and (q[:len(p)] == p or p[:len(q)] == q):
                    v["stale"] = v.get("stale") or line
                    break

    def invalidate(self, p, line, op, arg=None):
        for i, v in self.env.items():
            c = v.get("elem") if v.get("elem") is not None else v.get("iter")
            if c is None or not (c == p or c[:len(p)] == p and len(p) < len(c) and op in ("operator=", "clear")):
                continue
            if c != p:
                continue
            if v.get("seq") or op in ("clear", "swap"):
                if op == "operator=" and v.get("elem") is not None and not v.get("seq"):
                    continue
                v["stale"] = v.get("stale") or line
            elif op == "erase" and arg is not None and (v.get("iter") is not None and arg.get("id") == i or v.get("key") is not None and v["key"] == text(arg)):
                v["stale"] = v.get("stale") or line
            elif op == "erase" and arg is not None and v.get("loopvar") is not None and mentions(arg, v["loopvar"]):
                v["stale"] = v.get("stale") or line

    def effects(self, e):
        f, n, line = e.get("f") or "", nm(e), e.get("l")
        obj = e.get("obj")
        if f in ("std::swap",):
            for a in e["args"]:
                r = self.resolve(a)
                p = r[0] if r else self.path(a)
                if p is not None:
                    self.mod(p, line, resize=True)
            return
        if obj is not None and f.startswith("Eigen::"):
            if n in EMUT:
                r = self.resolve(obj)
                p = r[0] if r else self.path(obj)
                if p is not None:
                    self.mod(p, line, resize=n in RESIZE)
                    if n == "swap":
                        q = self.path(e["args"][0])
                        if q is not None:
                            self.mod(q, line, resize=True)
            return
        if obj is not None and f.startswith("std::") and n in CMUT:
            p = self.path(obj)
            if p is not None:
                a = strip(e["args"][0]) if e.get("args") else {}
                while isinstance(a, dict) and a.get("k") == "ctor" and len(a.get("args") or []) == 1:
                    a = strip(a["args"][0])
                self.mod(p, line)
                self.invalidate(p, line, n, a if isinstance(a, dict) and a else None)
            return
        fn = self.F.functions.get(e.get("fid"))
        pts = [p["t"] for p in fn["params"]] if fn is not None else e.get("pt") or []
        for a, t in zip(e.get("args", []), pts):
            t = t.strip()
            if t.endswith("&") and not t.startswith("const ") and not f.startswith("Eigen::"):
                r = self.resolve(a)
                p = r[0] if r else self.path(a)
                if p is not None:
                    self.mod(p, line)
        if obj is not None and not e.get("const") and not f.startswith(("std::", "Eigen::")):
            p = self.path(obj)
            if p is not None:
                for q in self.mods.of(e.get("fid")):
                    self.mod(p + (q,), line)

    # ---- assignments
    def check_assign(self, e, dst, rhs):
        line = e.get("l")
        d = self.resolve(dst)
        r = strip(rhs)
        if d is None or not isinstance(r, dict):
            self.ob("P31.alias", True, "assignment", "", line)
            return
        noalias = "NoAlias" in (e.get("f") or "") or base(dst.get("t")) == "Eigen::NoAlias"
        bad = None
        if e.get("op") in ("=", "+=", "-="):
            for p, g, kd, n in self.leaves(rhs):
                if p is None or p != d[0]:
                    continue
                if kd == "prod":
                    if noalias and overlap(d[1], g) != "disjoint":
                        bad = "noalias() although the destination is an operand of the product"
                    fx = fixed(dst.get("t"))
                    if base(r.get("t")) == "Eigen::Inverse" and n is strip(r.get("obj") or {}) and fx[0] and 2 <= fx[0] <= 4:
                        bad = "the inverse of a small matrix is written over its operand while it is computed"
                    continue
                o = overlap(d[1], g)
                if o == "transposed":
                    bad = "the transposed destination is read while it is overwritten"
                elif o == "maybe":
                    bad = "reads coefficients of the destination that are overwritten at another position (evaluate the right-hand side first)"
        self.ob("P31.alias", bad is None, "assignment", bad or "", line)

    def comma(self, e):
        items, x = [], e
        while isinstance(x, dict) and x.get("k") == "call" and nm(x) == "operator,":
            items.insert(0, x["args"][-1])
            x = strip(x["obj"] if x.get("obj") is not None else x["args"][0])
        if not (isinstance(x, dict) and x.get("k") == "call" and nm(x) == "operator<<"):
            for kk in ("obj", "args"):
                self.visit(e.get(kk))
            return
        dst = x["obj"] if x.get("obj") is not None else x["args"][0]
        items.insert(0, x["args"][-1])
        d = self.resolve(dst)
        bad, pos = None, 0
        cols = fixed(strip(dst).get("t"))[1]
        for it in items:
            self.visit(it)
            if d is not None and pos != 0:
                for idx in self.reads(it, d, cols):
                    if idx is None or pos is None or idx < pos:
                        bad = "a coefficient is read back from the destination after the initialiser has overwritten it"
            pos = None if pos is None or eig(strip(it).get("t") or strip(it).get("c")) else pos + 1
        self.ob("P31.alias", bad is None, "initialiser", bad or "", e.get("l"))
        self.effect_assign(dst, e.get("l"))

    def reads(self, e, d, cols):
        """linear positions of the coefficients of d read in e (None: unknown)"""
        out = []

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
                return
            if not isinstance(x, dict):
                return
            if x.get("k") == "call" and x.get("obj") is not None and (x.get("f") or "").startswith("Eigen::"):
                n = nm(x)
                r = self.resolve(x["obj"])
                if r is not None and r[0] == d[0] and not eig(x.get("t")) and n in ("operator()", "operator[]", "x", "y", "z", "w", "coeff"):
                    a = [lin(y) for y in x.get("args", [])]
                    if n in "xyzw":
                        out.append("xyzw".index(n))
                    elif len(a) == 1 and isconst(a[0]):
                        out.append(a[0].get((), 0))
                    elif len(a) == 2 and isconst(a[0]) and isconst(a[1]) and cols:
                        out.append(a[0].get((), 0) * cols + a[1].get((), 0))
                    else:
                        out.append(None)
                    return
            if x.get("k") in ("ref", "mem") and eig(x.get("t")):
                r = self.resolve(x)
                if r is not None and r[0] == d[0]:
                    out.append(None)
            for kk, v in x.items():
                if kk not in ("t", "pt", "ta") and isinstance(v, (dict, list)):
                    go(v)
        go(e)
        return out


def returned_member(fn):
    b = (fn.get("body") or {}).get("b") or []
    if len(b) == 1 and b[0].get("k") == "return" and b[0].get("e"):
        e = strip(b[0]["e"])
        if e.get("k") == "mem" and strip(e["b"]).get("k") == "this":
            return e.get("q") or e["n"]
    return None


class Mods:
    """members of *this that a function may change, through its own calls too"""

    def __init__(self, F):
        self.F, self.memo = F, {}

    def of(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        self.memo[fid] = set()
        fn = self.F.functions.get(fid)
        out = set()
        if fn is not None and fn.get("body"):
            def member(e):
                e = strip(e)
                while isinstance(e, dict):
                    if e.get("k") == "mem":
                        if strip(e["b"]).get("k") == "this":
                            return e.get("q") or e["n"]
                        e = strip(e["b"])
                    elif e.get("k") == "call" and e.get("obj") is not None:
                        e = strip(e["obj"])
                    else:
                        return None

            def go(n):
                if isinstance(n, dict):
                    k = n.get("k")
                    m = None
                    if k == "assign":
                        m = member(n["x"])
                    elif k == "un" and n["op"] in ("++", "--"):
                        m = member(n["e"])
                    elif k == "call":
                        o = n.get("obj")
                        if o is not None and (n.get("op") in ASSIGN or nm(n) in EMUT | CMUT):
                            m = member(o)
                        elif o is not None and strip(o).get("k") == "this":
                            out.update(self.of(n.get("fid")))
                        elif o is not None and not n.get("const") and not (n.get("f") or "").startswith(("Eigen::", "std::")):
                            m = member(o)
                        for a, t in zip(n.get("args", []), n.get("pt") or []):
                            if t.strip().endswith("&") and not t.strip().startswith("const "):
                                x = member(a)
                                if x:
                                    out.add(x)
                    if m:
                        out.add(m)
                    for v in n.values():
                        go(v)
                elif isinstance(n, list):
                    for v in n:
                        go(v)
            go(fn["body"])
        self.memo[fid] = out
        return out


def p31(ctx):
    F = ctx.facts()
    ctx.rule("P31.dangle", "no variable holds an unevaluated matrix expression that refers to a temporary")
    ctx.rule("P31.stale", "no unevaluated matrix expression is evaluated after an object it refers to changed, and no view is used after its matrix was resized")
    ctx.rule("P31.return", "no function returns an unevaluated matrix expression that refers to its locals")
    ctx.rule("P31.alias", "no assignment to a matrix reads coefficients that it has overwritten at another position")
    ctx.rule("P31.element", "no reference or iterator into a container is used after the container invalidated it")
    mods = Mods(F)
    n = 0
    for f in F.functions.values():
        if not f.get("body") or f["q"].startswith(("std::", "Eigen::", "YAML::", "boost::", "__gnu")) or f.get("inlined"):
            continue
        w = Walk(ctx, F, f, mods)
        w.byval = {p["id"] for p in f["params"] if p.get("id") and not (p.get("t") or "").rstrip().endswith("&")}
        w.run(f["body"])
        n += 1
        ctx.functions.add(f["q"])
    ctx.notes.append("%d function bodies" % n)
    ctx.require("P31.alias", 150, "matrix assignments")
    ctx.require("P31.return", 20, "returned matrices")
