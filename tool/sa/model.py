"""Symbolic objects of the library, built by evaluating its own constructors."""
from .dag import *
from . import dag
from .vf import Interp, State, stript, notmpl, Unsupported
from .facts import AnalysisBroken

RSQ = "state::RobotState"
def find_fn(F, q, n=None, pick=None):
    """unique function q with n parameters"""
    c = [f for f in F.by_q.get(q, []) if f.get("body") is not None or f.get("ctor")]
    if n is not None:
        c = [f for f in c if len(f["params"]) == n]
    if pick:
        c = [f for f in c if pick(f)]
    seen, out = set(), []
    for f in c:
        if id(f) not in seen:
            seen.add(id(f))
            out.append(f)
    if len(out) != 1:
        raise AnalysisBroken("%d functions match %s/%s" % (len(out), q, n))
    return out[0]


class World:
    """one analysed sequence of calls on abstract objects"""

    def __init__(self, ctx, groups=(), opaque=None, dyn=None, assume=None):
        self.ctx = ctx
        self.F = ctx.facts(*groups)
        self.I = Interp(self.F, opaque=opaque, dyn=dyn, assume=assume)
        self.st = State()
        self.n = 0

    def fn(self, q, n=None, pick=None):
        return find_fn(self.F, q, n, pick)

    def run(self, fn, this=None, args=None):
        """call on the current state; -> value"""
        v, s = self.I.run(fn, this, args, self.st)
        if s is None:
            raise AnalysisBroken("no normal exit of " + fn["q"])
        self.st = s
        return v

    def probe(self, fn, this=None, args=None, st=None):
        """value of a call in (a copy of) the current state, without its effects"""
        st = (st or self.st).clone()
        ev = len(self.I.events)
        un = len(self.I.uninit_reads)
        v, s = self.I.run(fn, this, args, st)
        del self.I.events[ev:]
        del self.I.uninit_reads[un:]
        return v

    def new(self, cls, name):
        return self.I.new_obj(name, cls)

    def loc(self, ptr):
        return self.I.deref_loc(ptr)

    def member(self, cls, name, n=None):
        """member function found in the class or one of its bases"""
        for c in [cls] + [notmpl(b) for b in self.F.bases(cls)]:
            c = notmpl(c)
            if self.F.by_q.get(c + "::" + name):
                return self.fn(c + "::" + name, n)
        raise AnalysisBroken("no member %s::%s" % (cls, name))

    def getter(self, ptr, q, st=None, n=0, args=None):
        cls, _, name = q.rpartition("::")
        if not self.F.by_q.get(q):
            q = self.member(cls, name)["q"]
        v = self.probe(self.fn(q, n), ptr, args, st)
        if isinstance(v, tuple):
            v = self.I.read((st or self.st), v, None)
        return v

    # ---------------------------------------------------------------- robot state
    def robot_state(self, n, name="st", X=None, qc=True):
        """RobotState with n columns, symbolic content -> (ptr, dict of symbols)"""
        ptr = self.new(RSQ, name)
        d = 3 * n
        X = X if X is not None else msym("X" + name, n, n)
        th, P, Q = msym("Theta" + name, 6, 1), msym("P" + name, d, d), msym("Qc" + name, d, d)
        dag.SYM.update((P, Q))
        dag.ORTHO.add(blk(X, 0, 0, 3, 3))
        ct = self.fn(RSQ + "::RobotState", 3, lambda f: "SEK3" not in f["params"][0]["t"])
        self.run(ct, ptr, [X, th, P])
        if qc:
            self.run(self.fn(RSQ + "::set_continuous_noise_covariance"), ptr, [Q])
        self.run(self.fn(RSQ + "::set_time"), ptr, [dsym("t" + name)])
        self.run(self.fn(RSQ + "::set_propagate_time"), ptr, [dsym("tp" + name)])
        return ptr, dict(X=X, Theta=th, P=P, Qc=Q, t=dsym("t" + name), tp=dsym("tp" + name),
                         R=blk(X, 0, 0, 3, 3), v=blk(X, 0, 3, 3, 1), p=blk(X, 0, 4, 3, 1),
                         bg=blk(th, 0, 0, 3, 1), ba=blk(th, 3, 0, 3, 1), n=n, d=d)

    def rs(self, ptr, what, st=None):
        return self.getter(ptr, RSQ + "::" + what, st)


def msym(name, r, c):
    s = sym("%s[%dx%d]" % (name, r, c), "Eigen::Matrix<double, %d, %d>" % (r, c))
    dag.SHAPE[s] = (r, c)
    return s


def dsym(name):
    return sym(name, "double")


def nonempty_all(*vals):
    """assume every queue emptiness test that occurs in the values came out 'not empty'"""
    m = {}
    for v in vals:
        for x in subterms(v):
            if x.op == "size" and x.a[0].op == "qv":
                m[pos(x)] = TRUE
    return m


def spec(v, m):
    return subst(v, m) if m else v


def blocks_equal(A, B, bs=3):
    """first differing (r, c) block of two matrices, or None"""
    (r, c), (r2, c2) = shape(A), shape(B)
    if (r, c) != (r2, c2):
        return ("shape", (r, c), (r2, c2))
    for i in range(0, r, bs):
        for j in range(0, c, bs):
            h, w = min(bs, r - i), min(bs, c - j)
            if blk(A, i, j, h, w) is not blk(B, i, j, h, w):
                return (i, j)
    return None


# -------------------------------------------------------------------- opaque Lie-group maps
def _args(I, e, st):
    pts = e.get("pt", [])
    out = []
    for i, a in enumerate(e.get("args", [])):
        x = I.ev_arg(a, pts[i] if i < len(pts) else "", st)
        if isinstance(x, tuple):
            x = I.read(st, x, a.get("t"))
        out.append(x)
    return out


def leading_negative(v):
    if v.op == "MP":
        c, _ = v.a[0][0]
        p = poly(scal(c))
        return bool(p) and sorted(p.items(), key=lambda kv: mono_key(kv[0]))[0][1] < 0
    return False


def gamma(w, m):
    """Gamma_m(w); Gamma_m(-w) = Gamma_m(w)^T"""
    if w.op == "ite":
        return ite(w.a[0], gamma(w.a[1], m), gamma(w.a[2], m))
    if leading_negative(w):
        return T(gamma(mneg(w), m))
    m = m if isinstance(m, N) else num(m)
    n = mk("call", "Gamma", w, m)
    dag.SHAPE[n] = (3, 3)
    return n


def h_gamma(I, e, st):
    a = _args(I, e, st)
    m = a[1] if len(a) > 1 else ZERO
    return gamma(a[0], scal(m))


def h_expso3(k, sign=1):
    def h(I, e, st):
        w = _args(I, e, st)[0]
        return gamma(w if sign > 0 else mneg(w), k)
    return h


def h_skew(I, e, st):
    return skew(_args(I, e, st)[0])


def expk(v):
    if v.op == "ite":
        return ite(v.a[0], expk(v.a[1]), expk(v.a[2]))
    n = mk("call", "ExpK", v)
    r, c = shape(v)
    k = r if is_int(r) else None
    dag.SHAPE[n] = (3 + (k - 3) // 3, 3 + (k - 3) // 3) if k else (None, None)
    return n


def h_expk(I, e, st):
    return expk(_args(I, e, st)[0])


def adj(X):
    if X.op == "ite":
        return ite(X.a[0], adj(X.a[1]), adj(X.a[2]))
    n = mk("call", "Adj", X)
    r, c = shape(X)
    dag.SHAPE[n] = (3 + 3 * (c - 3), 3 + 3 * (c - 3)) if is_int(c) else (None, None)
    return n


def h_adj(I, e, st):
    return adj(_args(I, e, st)[0])


LG = "math::lie_group::"
GAMMA_OPAQUE = {LG + "Gamma_SO3": h_gamma, LG + "Exp_SO3": h_expso3(0), LG + "LeftJacobian_SO3": h_expso3(1),
                LG + "RightJacobian_SO3": h_expso3(1, -1)}
GAMMA_SKEW = dict(GAMMA_OPAQUE)
GAMMA_SKEW[LG + "skew"] = h_skew
LIE_OPAQUE = dict(GAMMA_OPAQUE)
LIE_OPAQUE.update({LG + "skew": h_skew, LG + "Exp_SEK3": h_expk, LG + "Adjoint_SEK3": h_adj})


# -------------------------------------------------------------------- block grids
class Names:
    """short symbols for composite blocks (so that products of blocks stay small)"""

    def __init__(self):
        self.m = {}

    def of(self, b):
        ts = terms(b)
        if len(ts) <= 1:
            return b
        n = self.m.get(b)
        if n is None:
            for alt, back in ((T(b), T), (mneg(b), mneg), (mneg(T(b)), lambda x: mneg(T(x)))):
                if alt in self.m:
                    return back(self.m[alt])
            r, c = shape(b)
            n = self.m[b] = msym("blk#%d" % len(self.m), r, c)
        return n


def cuts(n):
    return [(i, min(3, n - i)) for i in range(0, n, 3)]


def grid(M, names, memo=None):
    """matrix -> {(i,j): 3x3 block}, products multiplied out block by block; missing = zero"""
    memo = {} if memo is None else memo
    if M in memo:
        return memo[M]
    r, c = shape(M)
    if not (is_int(r) and is_int(c)):
        raise Unsupported("unknown shape of " + show(M))
    out = {}
    if M.op == "T":
        out = {(j, i): T(b) for (i, j), b in grid(M.a[0], names, memo).items()}
    elif M.op == "MP" and not (r <= 3 and c <= 3 and all(max(shape(x)) <= 3 for _, w in M.a[0] for x in w)):
        for co, w in M.a[0]:
            g = None
            for x in w:
                gx = grid(x, names, memo)
                gx = {k: names.of(b) for k, b in gx.items()}
                g = gx if g is None else gmul(g, gx)
            for k, b in g.items():
                out[k] = madd(out[k], mscale(co, b)) if k in out else mscale(co, b)
    else:
        for i, (r0, h) in enumerate(cuts(r)):
            for j, (c0, w) in enumerate(cuts(c)):
                b = blk(M, r0, c0, h, w)
                if b.op == "MP" and b is not M and (any(max(shape(x)) > 3 for _, ww in b.a[0] for x in ww)):
                    b = grid(b, names, memo).get((0, 0), Z(h, w))
                if b.op != "Z":
                    out[(i, j)] = b
    out = {k: b for k, b in out.items() if b.op != "Z"}
    memo[M] = out
    return out


def gmul(a, b):
    rows = {}
    for (k, j), y in b.items():
        rows.setdefault(k, []).append((j, y))
    out = {}
    for (i, k), x in a.items():
        for j, y in rows.get(k, ()):
            p = mmul(x, y)
            out[(i, j)] = madd(out[(i, j)], p) if (i, j) in out else p
    return {k: v for k, v in out.items() if v.op != "Z"}


def gT(a):
    return {(j, i): T(x) for (i, j), x in a.items()}


def gadd(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = madd(out[k], v) if k in out else v
    return {k: v for k, v in out.items() if v.op != "Z"}


def gscale(s, a):
    return {k: mscale(s, v) for k, v in a.items()}


def gdiff(a, b):
    """positions at which two grids differ"""
    return sorted(k for k in set(a) | set(b) if a.get(k) is not b.get(k))


def densify(X):
    """X with every small matrix assembled by block writes rewritten to its elements"""
    m = {}
    for n in subterms(X):
        if n.op == "set":
            r, c = shape(n)
            if is_int(r) and is_int(c) and r * c <= 36:
                m[n] = mat(r, c, [el(n, i, j) for i in range(r) for j in range(c)])
    return subst(X, m) if m else X


def mat_equal(A, B):
    """semantic equality of two matrix values: same node, or equal word by word, block by block,
    element by element; small matrices assembled in different block order compare by element"""
    if _mat_equal(A, B):
        return True
    C, D = densify(A), densify(B)
    return (C is not A or D is not B) and _mat_equal(C, D)


def _mat_equal(A, B, depth=0):
    if A is B:
        return True
    if shape(A) != shape(B) or depth > 6:
        return False
    r, c = shape(A)
    if A.op == "T" and B.op == "T":
        return _mat_equal(A.a[0], B.a[0], depth + 1)
    if A.op == "MP" or B.op == "MP":
        ta, tb = list(terms(A)), list(terms(B))
        if len(ta) == len(tb) and any(len(w) > 1 for _, w in ta):
            left = list(tb)
            for co, w in ta:
                hit = None
                for k, (co2, w2) in enumerate(left):
                    if co is co2 and len(w) == len(w2) and all(_mat_equal(x, y, depth + 1) for x, y in zip(w, w2)):
                        hit = k
                        break
                if hit is None:
                    break
                left.pop(hit)
            else:
                return True
    if A.op == B.op and A.op in ("call", "inv", "skew") and len(A.a) == len(B.a):
        if all(x is y or (isinstance(x, N) and isinstance(y, N) and _mat_equal(x, y, depth + 1)) for x, y in zip(A.a, B.a)):
            return True
    if not (is_int(r) and is_int(c)) or r * c > 1200:
        return False
    if r <= 3 and c <= 3:
        if r * c == 1:
            return el(A, 0, 0) is el(B, 0, 0)
        return all(el(A, i, j) is el(B, i, j) for i in range(r) for j in range(c))
    for i, h in cuts(r):
        for j, w in cuts(c):
            a, b = blk(A, i, j, h, w), blk(B, i, j, h, w)
            if a is A or b is B:
                return False
            if a is not b and not _mat_equal(a, b, depth + 1):
                return False
    return True
