"""P17: Lie-group maps; exact algebra modulo theta^2 = w.w (so that A^3 = -theta^2 A holds)."""
from fractions import Fraction
import math
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .eqs import lincomb, bool_atoms_deep
from .state import at_of


class Ring:
    """polynomials in w0, w1, w2, theta^+-1, sin theta, cos theta; normal form: w2 at most linear, sin at most linear"""

    def __init__(self, w):
        self.w = [el(w, i, 0) for i in range(3)]
        self.th = dsym("theta")
        sq = ZERO
        for x in self.w:
            sq = add(sq, mul(x, x))
        self.sq = sq
        self.root = fn("sqrt", sq)
        self.sq_inv_atoms = {}
        self.memo = {}
        self.s, self.c = fn("sin", self.th), fn("cos", self.th)

    def nf(self, n):
        n = scal(n)
        if n in self.memo:
            return self.memo[n]
        r = subst(n, {self.root: self.th}) if n is not self.root else self.th
        p = {}
        sp = poly(self.sq)
        for m, c in poly(r).items():
            mm = []
            for a, e in m:
                if a.op == "P" and e < 0:      # denominators that are polynomials
                    q = poly(a)
                    k = q.get(next(iter(sp)), 0)
                    if k and q == {x: y * k for x, y in sp.items()}:
                        c = c * Fraction(1) / (k ** (-e))
                        mm.append((self.th, 2 * e))
                        continue
                mm.append((a, e))
            m2 = ()
            for a, e in mm:
                m2 = mono_mul(m2, ((a, e),))
            p[m2] = p.get(m2, 0) + c
        # reduce w2^2 -> th^2 - w0^2 - w1^2 and sin^2 -> 1 - cos^2
        rel = {self.w[2]: p_add(p_add({((self.th, 2),): Fraction(1)}, {((self.w[0], 2),): Fraction(1)}, -1), {((self.w[1], 2),): Fraction(1)}, -1),
               self.s: p_add({(): Fraction(1)}, {((self.c, 2),): Fraction(1)}, -1)}
        work, out = dict(p), {}
        while work:
            m, c = work.popitem()
            if not c:
                continue
            for a, e in m:
                if a in rel and e >= 2:
                    rest = mono_mul(m, ((a, -2),))
                    for m2, c2 in rel[a].items():
                        x = mono_mul(rest, m2)
                        work[x] = work.get(x, 0) + c * c2
                    break
            else:
                out[m] = out.get(m, 0) + c
        out = {m: c for m, c in out.items() if c}
        res = unpoly(out)
        self.memo[n] = res
        return res

    def S(self, k):
        """sum_j (-1)^j theta^2j / (2j+k)!"""
        if k == 0:
            return self.c
        if k == 1:
            return div(self.s, self.th)
        return div(sub(num(Fraction(1, math.factorial(k - 2))), self.S(k - 2)), mul(self.th, self.th))

    def A(self):
        w0, w1, w2 = self.w
        z = ZERO
        return [[z, neg(w2), w1], [w2, z, neg(w0)], [neg(w1), w0, z]]

    def gamma(self, m):
        A = self.A()
        A2 = [[ZERO] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                x = ZERO
                for k in range(3):
                    x = add(x, mul(A[i][k], A[k][j]))
                A2[i][j] = x
        c0, c1, c2 = num(Fraction(1, math.factorial(m))), self.S(m + 1), self.S(m + 2)
        return [[self.nf(add(add(c0 if i == j else ZERO, mul(c1, A[i][j])), mul(c2, A2[i][j]))) for j in range(3)] for i in range(3)]

    def small(self, b):
        """condition 'the norm is below a tolerance'? -> (True if b means small, tolerance) or None"""
        if b.op != "pos":
            return None
        p = dict(poly(self.nf(b.a[0])))
        t = p.pop((), None)
        if t is None or len(p) != 1:
            return None
        (m, c), = p.items()
        if len(m) != 1 or m[0][0] is not self.th or m[0][1] not in (1, 2):
            return None
        tol = -t / c
        if tol <= 0:
            return None
        return (c < 0), float(tol) ** (1.0 / m[0][1])


def cells(M, r, c):
    return [[el(M, i, j) for j in range(c)] for i in range(r)]


def split(ctx, v, R, label, at):
    """(value for large rates, value for small rates)"""
    conds = bool_atoms_deep(v)
    big, small = {}, {}
    for b in conds:
        s = R.small(b)
        ctx.ob("P17.branch", s is not None and s[1] <= 1e-6, label, "the value branches on %s; only 'norm below a small tolerance' is a removable case" % show(b, 6)[:200], **at)
        if s is None:
            return None, None
        big[b], small[b] = (FALSE, TRUE) if s[0] else (TRUE, FALSE)
    return subst(v, big), (subst(v, small) if conds else None)


def p17(ctx):
    ctx.rule("P17.skew", "the hat map is skew-symmetric and realises the cross product")
    ctx.rule("P17.gamma", "Gamma_m has the closed-form coefficients of sum A^n/(n+m)!")
    ctx.rule("P17.limit", "below the tolerance the value is the limit of the closed form")
    ctx.rule("P17.branch", "the only case distinction is the removable singularity at zero rate")
    ctx.rule("P17.exp", "the group exponential has rotation Exp(w) and columns LeftJacobian(w) x_i")
    ctx.rule("P17.adjoint", "the adjoint has R on the diagonal and skew(x_i) R in the first block column")
    ctx.rule("P17.group", "group elements: accessors, product and inverse")
    W = World(ctx)
    L = "math::lie_group::"
    w = msym("w", 3, 1)
    R = Ring(w)
    # factorial
    f = W.fn(L + "factorial")
    for k in range(0, 11):
        v = W.run(f, None, [num(k)])
        ctx.ob("P17.gamma", v is num(math.factorial(k)), "factorial(%d)" % k, "factorial(%d) evaluates to %s" % (k, show(v, 3)), **at_of(f))
    f = W.fn(L + "skew")
    v = W.run(f, None, [w])
    A = R.A()
    ok = shape(v) == (3, 3) and all(el(v, i, j) is A[i][j] for i in range(3) for j in range(3))
    ctx.ob("P17.skew", ok, "skew", "skew(w) is %s" % show(v, 5), **at_of(f))
    for name, mm in [("Gamma_SO3", m) for m in range(0, 6)] + [("Exp_SO3", 0), ("LeftJacobian_SO3", 1), ("RightJacobian_SO3", -1)]:
        f = W.fn(L + name)
        label = name + ("(%d)" % mm if name == "Gamma_SO3" else "")
        at = at_of(f)
        v = W.run(f, None, [w, num(mm)] if name == "Gamma_SO3" else [w])
        big, small = split(ctx, v, R, label, at)
        if big is None:
            continue
        m = abs(mm)
        G = R.gamma(m)
        got = cells(big, 3, 3)
        if mm < 0:
            got = [[got[j][i] for j in range(3)] for i in range(3)]      # Gamma(-w) = Gamma(w)^T
        bad = [(i, j) for i in range(3) for j in range(3) if R.nf(got[i][j]) is not G[i][j]]
        ctx.ob("P17.gamma", not bad, label, "element(s) %s: %s, expected %s" % (bad[:3], show(R.nf(got[bad[0][0]][bad[0][1]]), 5)[:250] if bad else "", show(G[bad[0][0]][bad[0][1]], 5)[:250] if bad else ""), **at,
               sample=show(G[0][1], 5)[:200])
        if small is not None:
            c0 = num(Fraction(1, math.factorial(m)))
            lim_ok = small_ok(small, R, m)
            ctx.ob("P17.limit", lim_ok, label, "below the tolerance the value is %s, the limit is %s * identity" % (show(small, 4)[:200], show(c0)), **at)
    # exponential of SE_K(3)
    f = W.fn(L + "Exp_SEK3")
    for K in range(1, 7):
        v = msym("v%d" % K, 3 + 3 * K, 1)
        wv = blk(v, 0, 0, 3, 1)
        R2 = Ring(wv)
        x = W.run(f, None, [v])
        label, at = "Exp_SEK3 K=%d" % K, at_of(f)
        ok = shape(x) == (3 + K, 3 + K)
        ctx.ob("P17.exp", ok, label + " shape", "shape %s" % (shape(x),), **at)
        if not ok:
            continue
        G0, G1 = R2.gamma(0), R2.gamma(1)
        badc = []
        for j in range(3 + K):
            for i in range(3 + K):
                e = el(x, i, j)
                big, small = split(ctx, e, R2, label, at)
                if big is None:
                    badc.append((i, j))
                    continue
                big, small = mulout(big), small if small is None else mulout(small)
                if i >= 3:
                    want = ONE if i == j else ZERO
                    if R2.nf(big) is not want or (small is not None and small is not want):
                        badc.append((i, j))
                elif j < 3:
                    if R2.nf(big) is not G0[i][j] or (small is not None and not small_el(small, ONE if i == j else ZERO, R2)):
                        badc.append((i, j))
                else:
                    seg = [el(v, 3 + 3 * (j - 3) + k, 0) for k in range(3)]
                    want = ZERO
                    for k in range(3):
                        want = add(want, mul(G1[i][k], seg[k]))
                    if R2.nf(big) is not R2.nf(want) or (small is not None and not small_el(small, seg[i], R2)):
                        badc.append((i, j))
        ctx.ob("P17.exp", not badc, label, "element(s) %s: %s" % (badc[:4], show(el(x, *badc[0]), 6)[:250] if badc else ""), **at)
    f = W.fn(L + "Adjoint_SEK3")
    for K in range(1, 7):
        X = msym("X%d" % K, 3 + K, 3 + K)
        a = W.run(f, None, [X])
        label, at = "Adjoint_SEK3 K=%d" % K, at_of(f)
        d = 3 + 3 * K
        if shape(a) != (d, d):
            ctx.ob("P17.adjoint", False, label, "shape %s, expected %d" % (shape(a), d), **at)
            continue
        Rm = blk(X, 0, 0, 3, 3)
        want = Z(d, d)
        want = mset(want, 0, 0, 3, 3, Rm)
        for i in range(K):
            want = mset(want, 3 + 3 * i, 3 + 3 * i, 3, 3, Rm)
            x = [el(X, k, 3 + i) for k in range(3)]
            S = mat(3, 3, [ZERO, neg(x[2]), x[1], x[2], ZERO, neg(x[0]), neg(x[1]), x[0], ZERO])
            want = mset(want, 3 + 3 * i, 0, 3, 3, mmul(S, Rm))
        bad = [(i, j) for i in range(d) for j in range(d) if elnf(a, i, j) is not elnf(want, i, j)]
        ctx.ob("P17.adjoint", not bad, label, "element(s) %s: %s, expected %s" % (bad[:4], show(el(a, *bad[0]), 5)[:200] if bad else "", show(el(want, *bad[0]), 5)[:200] if bad else ""), **at)
    group(ctx, W)
    ctx.used(W.I)
    ctx.require("P17.gamma", 8, "closed forms")
    ctx.require("P17.exp", 5, "exponentials")


def elnf(M, i, j):
    """element with products of 3x3 factors multiplied out"""
    return mulout(el(M, i, j))


def mulout(e):
    e = scal(e)
    o = ZERO
    for m, c in poly(e).items():
        t = num(c)
        for a, k in m:
            t = mul(t, power(mulatom(a), k))
        o = add(o, t)
    return o


def idx(x):
    return int(x.a[0]) if isinstance(x, N) else int(x)


def mulatom(e):
    if e.op == "el" and e.a[0].op == "MP":
        M, i, j = e.a[0], idx(e.a[1]), idx(e.a[2])
    elif e.op == "MP":
        M, i, j = e, 0, 0
    else:
        return e
    out = ZERO
    for c, word in terms(M):
        vec = None
        for x in reversed(word):
            r, k = shape(x)
            if vec is None:
                vec = [mulout(el(x, q, j)) for q in range(r)]
            else:
                vec = [_dot([el(x, q, t) for t in range(k)], vec) for q in range(r)]
        out = add(out, mul(c, vec[i]))
    return out


def _dot(a, b):
    o = ZERO
    for x, y in zip(a, b):
        o = add(o, mul(x, y))
    return o


def small_el(e, want, R):
    """value below the tolerance: the limit, up to terms that vanish with the rate"""
    zero = {x: ZERO for x in R.w}
    return scal(subst(scal(e), zero)) is scal(subst(want, zero)) if e is not want else True


def small_ok(M, R, m):
    c0 = num(Fraction(1, math.factorial(m)))
    return all(small_el(el(M, i, j), c0 if i == j else ZERO, R) for i in range(3) for j in range(3))


def group(ctx, W):
    S3 = "math::SEK3"
    if not W.F.by_q.get(S3 + "::inverse"):
        return
    base = W.st
    for n in (5,):
        W.st = base.clone()
        o, q = W.new(S3, "g"), W.new(S3, "h")
        ct = W.fn(S3 + "::SEK3", 1, lambda f: "SEK3" not in f["params"][0]["t"])
        X, Y = msym("G", n, n), msym("Hg", n, n)
        W.run(ct, o, [X])
        W.run(ct, q, [Y])
        st = W.st
        for g, (c, w) in (("get_X", (0, n)), ("get_R", (0, 3)), ("get_p", (3, 1)), ("get_v", (4, 1))):
            f = W.fn(S3 + "::" + g)
            got = W.getter(o, S3 + "::" + g)
            want = X if g == "get_X" else blk(X, 0, c, 3, w)
            ctx.ob("P17.group", got is want, g, "returns %s" % show(got, 4), **at_of(f))
            f = W.fn(S3 + "::" + g.replace("get", "set"))
            W.st = st.clone()
            v = msym("new" + g, *shape(want))
            W.run(f, o, [v])
            got = W.getter(o, S3 + "::get_X")
            want = v if g == "get_X" else mset(X, 0, c, 3, w, v)
            ctx.ob("P17.group", mat_equal(got, want), "set" + g[3:], "X becomes %s" % show(got, 4), **at_of(f))
            W.st = st
        f = W.fn(S3 + "::operator*")
        r = W.run(f, o, [W.loc(q)])
        got = field_X(W, r)
        ctx.ob("P17.group", got is mmul(X, Y), "product", "X1 * X2 gives %s" % show(got, 4), **at_of(f))
        f = W.fn(S3 + "::inverse")
        r = W.run(f, o, [])
        got = field_X(W, r)
        RT = T(blk(X, 0, 0, 3, 3))
        want = mset(mset(mset(I(5), 0, 0, 3, 3, RT), 0, 3, 3, 1, mneg(mmul(RT, blk(X, 0, 3, 3, 1)))), 0, 4, 3, 1, mneg(mmul(RT, blk(X, 0, 4, 3, 1))))
        ctx.ob("P17.group", mat_equal(got, want), "inverse", "inverse is %s" % show(got, 4), **at_of(f))
    W.st = base


def field_X(W, r):
    if isinstance(r, tuple):
        r = W.I.read(W.st, r, "math::SEK3")
    k = W.new("math::SEK3", "result")
    W.I.write(W.st, W.loc(k), r)
    return W.getter(k, "math::SEK3::get_X")
