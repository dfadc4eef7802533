"""Hash-consed value graph with canonical constructors.

 - scalars   : commutative Laurent polynomials with exact rational coefficients
               over opaque atoms
 - booleans  : reduced ordered decision diagrams over opaque atoms (comparisons are
               canonicalised to  pos(poly)  /  zero(poly))
 - matrices  : non-commutative polynomials over matrix atoms; block writes are kept
               as canonical ordered `set` chains, reads are resolved through them
 - phi/ite   : decision diagrams over the boolean atoms with arbitrary leaves
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)


class N:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []
TY = {}       # node -> C++ type string
SHAPE = {}    # node -> (rows, cols)
SYM = set()   # matrix atoms known symmetric
ORTHO = set()      # rotation matrices: A^T A = I


def mk(op, *a):
    k = (op,) + a
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.id = len(_all)
        _all.append(n)
        _tab[k] = n
    return n


# N uses identity hash, tuples hash fine -------------------------------------
# ---------------------------------------------------------------- constants
def num(x):
    return mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)
TRUE = mk("b", True)
FALSE = mk("b", False)
NULL = mk("null")
UNIT = mk("unit")


def sym(name, ty=None):
    n = mk("sym", name)
    if ty is not None:
        TY.setdefault(n, ty)
        sh = shape_of_type(ty)
        if sh:
            SHAPE.setdefault(n, sh)
    return n


def enum(q, v, et):
    return mk("enum", et, int(v), q)


def is_const(n):
    return n.op in ("num", "b", "enum", "str", "null")


# ---------------------------------------------------------------- types
import re
_mt = re.compile(r"Eigen::Matrix<(?:double|float|T|int),(-?\d+),(-?\d+)>")


def shape_of_type(t):
    if not t:
        return None
    m = re.fullmatch(r"(?:const )?Eigen::Matrix<[a-zA-Z ]+,(-?\d+),(-?\d+)>\s*&*", t.strip())
    if m:
        r, c = int(m.group(1)), int(m.group(2))
        return (r if r >= 0 else None, c if c >= 0 else None)
    return None


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction ; monomial: tuple of (atom, exp) sorted by id
_polymemo = {}


def poly(n):
    p = _polymemo.get(n)
    if p is None:
        if n.op == "num":
            p = {(): n.a[0]} if n.a[0] else {}
        elif n.op == "P":
            p = dict(n.a[0])
        else:
            p = {((n, 1),): Fraction(1)}
        _polymemo[n] = p
    return p


def mono_key(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def unpoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    t = tuple(sorted(p.items(), key=lambda kv: mono_key(kv[0])))
    n = mk("P", t)
    if n not in _polymemo:
        _polymemo[n] = p
    return n


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    r = {}
    if len(a) > len(b):
        a, b = b, a
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return _inv_reduce(r)


def _inv_reduce(r):
    # sqrt(x)^2 -> x ; nothing else
    return r


def scal(n):
    """coerce booleans used as numbers"""
    if n is TRUE:
        return ONE
    if n is FALSE:
        return ZERO
    if n.op == "enum":
        return num(n.a[1])
    return n


def add(a, b):
    a, b = scal(a), scal(b)
    if a.op == "num" and b.op == "num":
        return num(a.a[0] + b.a[0])
    return unpoly(p_add(poly(a), poly(b)))


def sub(a, b):
    a, b = scal(a), scal(b)
    return unpoly(p_add(poly(a), poly(b), -1))


def mul(a, b):
    a, b = scal(a), scal(b)
    if a.op == "num" and b.op == "num":
        return num(a.a[0] * b.a[0])
    return unpoly(p_mul(poly(a), poly(b)))


def neg(a):
    return mul(num(-1), a)


def power(a, k):
    a = scal(a)
    if k < 0:
        return power(recip(a), -k)
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


def recip(a):
    p = poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return unpoly({tuple((x, -e) for x, e in m): 1 / c})
    if not p:
        return mk("divzero")
    # make canonical: leading coefficient 1
    items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
    lc = items[-1][1]
    q = unpoly({m: c / lc for m, c in p.items()})
    return unpoly({((q, -1),): 1 / lc})


def div(a, b, integer=False):
    a, b = scal(a), scal(b)
    if integer:
        if a.op == "num" and b.op == "num" and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            return num(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q)
        return mk("idiv", a, b)
    if a.op == "num" and b.op == "num" and b.a[0]:
        return num(a.a[0] / b.a[0])
    pb = poly(b)
    if len(pb) == 1:
        return mul(a, recip(b))
    # try exact cancellation of a proportional numerator
    pa = poly(a)
    if set(pa) == set(pb) and pa:
        r = {pa[m] / pb[m] for m in pa}
        if len(r) == 1:
            return num(r.pop())
    return mul(a, recip(b))


def mod(a, b):
    a, b = scal(a), scal(b)
    if a.op == "num" and b.op == "num" and b.a[0]:
        import math
        q = a.a[0] / b.a[0]
        return num(a.a[0] - b.a[0] * math.trunc(q))
    return mk("mod", a, b)


def fn(name, *args):
    args = tuple(scal(x) if isinstance(x, N) else x for x in args)
    if name in ("sin", "cos", "tan") and args[0].op != "ite":
        p = poly(args[0])
        if not p:
            return {"sin": ZERO, "cos": ONE, "tan": ZERO}[name]
        items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
        if items[-1][1] < 0:
            x = neg(args[0])
            return fn("cos", x) if name == "cos" else neg(fn(name, x))
    if name == "trunc" and args[0].op == "num":
        import math
        return num(math.trunc(args[0].a[0]))
    if name == "sqrt" and args[0].op == "num":
        import math
        f = args[0].a[0]
        n, d = f.numerator, f.denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return num(Fraction(math.isqrt(n), math.isqrt(d)))
    if name == "abs":
        if args[0].op == "num":
            return num(abs(args[0].a[0]))
        p = poly(args[0])
        items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
        if items and items[-1][1] < 0:
            return fn("abs", neg(args[0]))
    return mk("fn", name, *args)


# ---------------------------------------------------------------- booleans / ite
def is_bool(n):
    return n.op == "b"


def _top(n):
    return n.a[0] if n.op == "ite" else None


def atom_ite(c):
    """view a boolean node as decision diagram; a bare atom is ite(atom,T,F)"""
    return c


_itememo = {}


def is_atom(n):
    return n.op not in ("b", "ite")


def _cof(n, at, v, isbool):
    if n.op == "ite" and n.a[0] is at:
        return n.a[1] if v else n.a[2]
    if n is at and isbool:
        return TRUE if v else FALSE
    return n


def ite(c, x, y):
    """c boolean diagram; x, y arbitrary (booleans or data)"""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    k = (c, x, y)
    r = _itememo.get(k)
    if r is not None:
        return r
    boolx = _isboolean(x)
    booly = _isboolean(y)
    tops = []
    tops.append(c.a[0] if c.op == "ite" else c)
    if x.op == "ite":
        tops.append(x.a[0])
    elif boolx and is_atom(x):
        tops.append(x)
    if y.op == "ite":
        tops.append(y.a[0])
    elif booly and is_atom(y):
        tops.append(y)
    at = min(tops, key=lambda n: n.id)
    hi = ite(_cof(c, at, True, True), _cof(x, at, True, boolx), _cof(y, at, True, booly))
    lo = ite(_cof(c, at, False, True), _cof(x, at, False, boolx), _cof(y, at, False, booly))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = at
    else:
        r = mk("ite", at, hi, lo)
    _itememo[k] = r
    return r


BOOLOPS = {"pos", "zero", "eqv", "yhas", "bsym", "mhas", "more"}
_boolmemo = {}


def _isboolean(n):
    """is this node boolean valued (so a bare atom can be split on)?"""
    if n.op == "b" or n.op in BOOLOPS:
        return True
    if n.op == "ite":
        r = _boolmemo.get(n)
        if r is None:
            r = _isboolean(n.a[1]) and _isboolean(n.a[2])
            _boolmemo[n] = r
        return r
    if n.op in ("sym", "fld", "mu", "call", "yas", "idx", "uninit", "qf", "hav", "mget", "deref"):
        t = TY.get(n)
        return bool(t) and t.replace("const ", "").strip(" &") in ("bool", "std::atomic<bool>", "_Bool")
    return False


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


_consmemo = {}


def constrain(f, care):
    """generalised cofactor: equal to f wherever care holds"""
    if care is TRUE or care is FALSE or f.op == "b":
        return f
    if care is f and _isboolean(f):
        return TRUE
    k = (f, care)
    r = _consmemo.get(k)
    if r is not None:
        return r
    ct = care.a[0] if care.op == "ite" else care
    ft = f.a[0] if f.op == "ite" else (f if _isboolean(f) and is_atom(f) else None)
    if ft is None:
        return f
    at = ct if ct.id <= ft.id else ft
    c1, c0 = _cof(care, at, True, True), _cof(care, at, False, True)
    fb = _isboolean(f)
    f1, f0 = _cof(f, at, True, fb), _cof(f, at, False, fb)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    elif f1 is f0:
        r = constrain(f1, or_(c1, c0))
    else:
        r = ite(at, constrain(f1, c1), constrain(f0, c0))
    _consmemo[k] = r
    return r


def bool_atoms(n, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            acc.add(x.a[0])
            st.append(x.a[1])
            st.append(x.a[2])
        elif _isboolean(x) and is_atom(x):
            acc.add(x)
    return acc


UNSIGNED = {"size", "count"}
INTOPS = {"size", "count", "rows", "cols", "idiv", "mod"}


def is_intpoly(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0:
                return False
            if a.op in INTOPS:
                continue
            t = (TY.get(a) or "").replace("const ", "").strip(" &")
            if t in ("int", "long", "unsigned int", "unsigned long", "size_t", "long int", "short",
                     "unsigned short", "long long", "unsigned long long", "std::size_t"):
                continue
            return False
    return True


def _distr(f, *args):
    """distribute a scalar->bool constructor over ite arguments"""
    for i, x in enumerate(args):
        if x.op == "ite":
            at, h, l = x.a
            return ite(at, _distr(f, *(args[:i] + (h,) + args[i + 1:])),
                       _distr(f, *(args[:i] + (l,) + args[i + 1:])))
    return f(*args)


def lt(a, b):
    """a < b"""
    return _distr(_lt, scal(a), scal(b))


def _lt(a, b):
    return pos(sub(scal(b), scal(a)))


def pos(n):
    """n > 0, canonical"""
    if n.op == "num":
        return TRUE if n.a[0] > 0 else FALSE
    p = poly(n)
    items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
    lead = items[-1]
    if is_intpoly(p):
        # integer: P>0 ; make leading coefficient positive using not(1-P > 0)
        c = p.get((), Fraction(0))
        # all non-constant atoms unsigned with positive coefficients and constant >=1
        nonneg = all(cc > 0 and all(a.op in UNSIGNED for a, _ in m) for m, cc in p.items() if m)
        if nonneg and c >= 1:
            return TRUE
        nonpos = all(cc < 0 and all(a.op in UNSIGNED for a, _ in m) for m, cc in p.items() if m)
        if nonpos and c <= 0:
            return FALSE
        if lead[1] < 0:
            return not_(pos(sub(ONE, n)))
        return mk("pos", n)
    sc = abs(lead[1])
    if sc != 1:
        n = mul(num(1 / sc), n)
    return mk("pos", n)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    return _distr(_eq, a, b)


NUMTY = ("int", "double", "float", "long", "unsigned int", "unsigned long", "const double", "const int")


def _numeric(n):
    if n.op in ("num", "P", "fn", "el") or n.op in INTOPS:
        return True
    t = (TY.get(n) or "").replace("const ", "").strip(" &")
    return t in NUMTY or t in ("size_t", "std::size_t", "short", "long long")


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == "enum" and b.op == "num":
        b = mk("enum", a.a[0], int(b.a[0]), "")
        return TRUE if a.a[1] == b.a[1] else FALSE
    if b.op == "enum" and a.op == "num":
        return _eq(b, a)
    if a.op == "enum" and b.op == "enum":
        return TRUE if a.a[1] == b.a[1] else FALSE
    if is_const(a) and is_const(b):
        if a.op == b.op:
            return FALSE
        if a.op in ("num", "b") and b.op in ("num", "b"):
            return TRUE if scal(a) is scal(b) else FALSE
    if a.op == "null" or b.op == "null":
        o = b if a.op == "null" else a
        return not_(nonnull(o))
    if _isboolean(a) and _isboolean(b):
        return ite(a, b, not_(b))
    if a.op == "b" and not _isboolean(b):
        return mk("eqv", a, b)
    if _isboolean(a) and b.op == "num":
        return a if b.a[0] == 1 else (not_(a) if b.a[0] == 0 else FALSE)
    if _isboolean(b) and a.op == "num":
        return _eq(b, a)
    if _numeric(a) and _numeric(b):
        return zero(sub(a, b))
    if a.op == "sz_end" or b.op == "sz_end":
        pass
    if a.id > b.id:
        a, b = b, a
    return mk("eqv", a, b)


def zero(d):
    if d.op == "num":
        return TRUE if d.a[0] == 0 else FALSE
    p = poly(d)
    items = sorted(p.items(), key=lambda kv: mono_key(kv[0]))
    lc = items[-1][1]
    d = mul(num(1 / lc), d)
    if d.op == "fn" and d.a[0] == "sqrt":
        return zero(d.a[1])
    p = poly(d)
    # size(x) + c == 0
    if len(p) <= 2 and all((not m) or (len(m) == 1 and m[0][1] == 1 and m[0][0].op in UNSIGNED) for m in p):
        c = p.get((), Fraction(0))
        if c > 0:
            return FALSE
        if c == 0:
            return not_(pos(d))
        k = -c
        if k.denominator != 1:
            return FALSE
        base = sub(d, num(c))
        return and_(pos(sub(base, num(k - 1))), not_(pos(sub(base, num(k)))))
    return mk("zero", d)


def nonnull(p):
    """pointer truth"""
    if p.op == "ite":
        return ite(p.a[0], nonnull(p.a[1]), nonnull(p.a[2]))
    if p is NULL:
        return FALSE
    if p.op in ("obj", "addr", "str", "lam", "qf"):
        return TRUE  # qf: queue elements are never null (producers push what they allocated)
    return mk("bsym", "nonnull", p)


def truth(n):
    """C++ contextual conversion to bool"""
    if n.op == "ite":
        return ite(n.a[0], truth(n.a[1]), truth(n.a[2]))
    if n.op == "b" or _isboolean(n):
        return n
    if n.op == "num":
        return TRUE if n.a[0] else FALSE
    if n.op == "enum":
        return TRUE if n.a[1] else FALSE
    if n is NULL:
        return FALSE
    if n.op in ("obj", "addr", "lam"):
        return TRUE
    t = (TY.get(n) or "")
    if t.rstrip().endswith("*") or "shared_ptr" in t or "unique_ptr" in t:
        return nonnull(n)
    if _numeric(n):
        return not_(zero(n))
    return mk("bsym", "truth", n)


# ---------------------------------------------------------------- matrices
def I(n, m=None):
    m = n if m is None else m
    if n is not m and isinstance(n, N) is False and n != m:
        return mk("I", n, m)
    return mk("I", n, m)


def Z(r, c):
    return mk("Z", r, c)


def undefM(r, c):
    return mk("undefM", r, c)


def shape(n):
    s = SHAPE.get(n)
    if s is not None:
        return s
    s = _shape(n)
    if s is not None and s != (None, None):
        SHAPE[n] = s
    return s if s is not None else (None, None)


def _shape(n):
    op = n.op
    if op in ("I", "Z", "undefM"):
        return (n.a[0], n.a[1])
    if op == "mat":
        return (n.a[0], n.a[1])
    if op == "set":
        return shape(n.a[0])
    if op == "blk":
        return (n.a[3], n.a[4])
    if op == "T":
        r, c = shape(n.a[0])
        return (c, r)
    if op == "inv":
        return shape(n.a[0])
    if op == "skew" or op == "toR":
        return (3, 3)
    if op == "MP":
        r = c = None
        for co, w in n.a[0]:
            if w:
                r = shape(w[0])[0] if r is None else r
                c = shape(w[-1])[1] if c is None else c
        return (r, c)
    if op == "ite":
        a, b = shape(n.a[1]), shape(n.a[2])
        return (a[0] if a[0] == b[0] else None, a[1] if a[1] == b[1] else None)
    if op == "full":
        return (n.a[0], n.a[1])
    if op == "cwise":
        for x in n.a[1:]:
            if isinstance(x, N) and shape(x) != (None, None):
                return shape(x)
    t = TY.get(n)
    return shape_of_type(t)


def is_int(x):
    return isinstance(x, int)


def dim(x):
    """node/int -> int if constant"""
    if isinstance(x, N):
        x = scal(x)
        if x.op == "num" and x.a[0].denominator == 1:
            return int(x.a[0])
        return x
    return x


def dnode(x):
    return x if isinstance(x, N) else num(x)


def same(a, b):
    return dnode(a) is dnode(b) if a is not None and b is not None else False


# MP: tuple of (coef node, word tuple) ; word () only if shape unknown identity
def terms(n):
    """list of (coef, word)"""
    if n.op == "MP":
        return list(n.a[0])
    if n.op == "Z":
        return []
    if n.op == "I" and same(n.a[0], n.a[1]):
        return [(ONE, (n,))]
    return [(ONE, (n,))]


_prim = {}


def mat_content(m):
    """literal matrix = content * primitive matrix (first non-zero cell 1, or leading coefficient 1)"""
    r = _prim.get(m)
    if r is None:
        f = next((x for x in m.a[2] if x is not ZERO), None)
        if f is None or f is ONE:
            r = (ONE, m)
        else:
            lf = _lead(f)
            qs = []
            for g in m.a[2]:
                q = ZERO if g is ZERO else num(_lead(g) / lf)
                if sub(g, mul(q, f)) is not ZERO:
                    qs = None
                    break
                qs.append(q)
            if qs is not None:
                r = (f, mat(m.a[0], m.a[1], qs))
            elif lf != 1:
                r = (num(lf), mat(m.a[0], m.a[1], [mul(num(1 / lf), x) for x in m.a[2]]))
            else:
                r = (ONE, m)
        _prim[m] = r
    return r


def _lead(x):
    p = poly(x)
    return p[min(p, key=mono_key)]


def _prim_word(c, w):
    if not any(x.op == "mat" for x in w):
        return c, w
    out = []
    for x in w:
        if x.op == "mat":
            k, x = mat_content(x)
            c = mul(c, k)
            if is_ident(x) and len(w) > 1:
                continue
        out.append(x)
    return c, tuple(out) or (w[0],)


def _norm_terms(ts, shp):
    d = {}
    for c, w in ts:
        if len(w) > 1:
            c, w = _prim_word(c, w)
        d[w] = add(d[w], c) if w in d else c
    items = [(c, w) for w, c in d.items() if c is not ZERO]
    if not items:
        return Z(*shp)
    # fold literal matrices together
    lits = [(c, w) for c, w in items if len(w) == 1 and w[0].op == "mat"]
    if lits and len(items) > 1:
        # absorb I / other literals when everything is literal-like
        allLit = all(len(w) == 1 and w[0].op in ("mat", "I", "Z") for c, w in items)
        if allLit:
            r, cc = lits[0][1][0].a[0], lits[0][1][0].a[1]
            cells = []
            for i in range(r):
                for j in range(cc):
                    s = ZERO
                    for c, w in items:
                        s = add(s, mul(c, el(w[0], i, j)))
                    cells.append(s)
            return mat(r, cc, cells)
        if len(lits) > 1 or lits[0][0] is not ONE:
            r, cc = lits[0][1][0].a[0], lits[0][1][0].a[1]
            cells = []
            for i in range(r):
                for j in range(cc):
                    s = ZERO
                    for c, w in lits:
                        s = add(s, mul(c, w[0].a[2][i * cc + j]))
                    cells.append(s)
            items = [x for x in items if x not in lits]
            m = mat(r, cc, cells)
            if m.op != "Z":
                items += terms(m)
            if not items:
                return Z(*shp)
    if len(items) == 1 and len(items[0][1]) == 1:
        c, w = items[0]
        if c is ONE:
            return w[0]
        if w[0].op == "mat":
            return mat(w[0].a[0], w[0].a[1], [mul(c, x) for x in w[0].a[2]])
    items.sort(key=lambda cw: (len(cw[1]), tuple(x.id for x in cw[1])))
    n = mk("MP", tuple(items))
    if shp != (None, None) and n not in SHAPE:
        SHAPE[n] = shp
    return n


def _merge_shape(a, b):
    return (a[0] if a[0] is not None else b[0], a[1] if a[1] is not None else b[1])


TRACK = None       # records how matrix values were formed (see checks/psd.py)


def madd(a, b, s=1):
    shp = _merge_shape(shape(a), shape(b))
    r = _norm_terms(terms(a) + [(mul(num(s), c), w) for c, w in terms(b)], shp)
    if TRACK is not None:
        TRACK.sum(r, a, b, s)
    return r


def msub(a, b):
    return madd(a, b, -1)


def mscale(s, a):
    s = scal(s)
    r = _norm_terms([(mul(s, c), w) for c, w in terms(a)], shape(a))
    if TRACK is not None:
        TRACK.scale(r, s, a)
    return r


def mneg(a):
    return mscale(num(-1), a)


def is_ident(n):
    return n.op == "I" and same(n.a[0], n.a[1])


def mmul(a, b):
    r = _mmul(a, b)
    if TRACK is not None:
        TRACK.prod(r, a, b)
    return r


def _mmul(a, b):
    sa, sb = shape(a), shape(b)
    shp = (sa[0], sb[1])
    if a.op == "Z" or b.op == "Z":
        return Z(*shp) if shp[0] is not None and shp[1] is not None else Z(shp[0], shp[1])
    if a.op == "mat" and b.op == "mat" and a.a[1] == b.a[0]:
        r, k, c = a.a[0], a.a[1], b.a[1]
        cells = []
        for i in range(r):
            for j in range(c):
                s = ZERO
                for t in range(k):
                    s = add(s, mul(a.a[2][i * k + t], b.a[2][t * c + j]))
                cells.append(s)
        return mat(r, c, cells)
    out = []
    for c1, w1 in terms(a):
        for c2, w2 in terms(b):
            out += _wmul(mul(c1, c2), w1, w2)
    return _norm_terms(out, shp)


def mk_word(w):
    return w[0] if len(w) == 1 else _norm_terms([(ONE, tuple(w))], (shape(w[0])[0], shape(w[-1])[1]))


def _view(x):
    """(base, transposed, first row, first column, rows, columns) of a block of a rotation"""
    t = x.op == "T"
    y = x.a[0] if t else x
    if y in ORTHO:
        return y, t, 0, 0, 3, 3
    if y.op == "blk" and y.a[0] in ORTHO and all(is_int(z) for z in y.a[1:5]):
        return (y.a[0], t) + tuple(y.a[1:5])
    return None


def _ortho_part(x, y):
    """columns (rows) of a rotation times columns (rows) of the same rotation"""
    if x.op not in ("T", "blk") and y.op not in ("T", "blk"):
        return None
    a, b = _view(x), _view(y)
    if a is None or b is None or a[0] is not b[0] or a[1] == b[1] or shape(a[0]) != (3, 3):
        return None
    if a[1]:                         # T(B[:, c..]) * B[:, c2..]
        if a[2] == 0 and b[2] == 0 and a[4] == 3 and b[4] == 3:
            return blk(I(3), a[3], b[3], a[5], b[5])
        return None
    if a[3] == 0 and b[3] == 0 and a[5] == 3 and b[5] == 3:      # B[r.., :] * T(B[r2.., :])
        return blk(I(3), a[2], b[2], a[4], b[4])
    return None


def _unit(m, r):
    """index and value of the only entry of a constant row (r) or column that is not zero"""
    if m.op != "mat" or m.a[0 if r else 1] != 1 or m.a[1 if r else 0] < 2:
        return None
    nz = [k for k, x in enumerate(m.a[2]) if x is not ZERO]
    if len(nz) != 1 or m.a[2][nz[0]].op != "num":
        return None
    return nz[0], m.a[2][nz[0]]


def _wmul(c, w1, w2):
    if w1 and w2:
        # a unit row selects a row, a unit column selects a column
        k = _unit(w1[-1], True)
        if k and shape(w2[0])[1] is not None and w2[0].op != "mat":
            res = blk(w2[0], k[0], 0, 1, shape(w2[0])[1])
            if w1[:-1]:
                res = mmul(mk_word(w1[:-1]), res)
            if w2[1:]:
                res = mmul(res, mk_word(w2[1:]))
            return [(mul(mul(c, k[1]), cc), w) for cc, w in terms(res)]
        k = _unit(w2[0], False)
        if k and shape(w1[-1])[0] is not None and w1[-1].op != "mat":
            res = blk(w1[-1], 0, k[0], shape(w1[-1])[0], 1)
            if w1[:-1]:
                res = mmul(mk_word(w1[:-1]), res)
            if w2[1:]:
                res = mmul(res, mk_word(w2[1:]))
            return [(mul(mul(c, k[1]), cc), w) for cc, w in terms(res)]
    if len(w1) == 1 and is_ident(w1[0]) and w2:
        return [(c, w2)]
    if len(w2) == 1 and is_ident(w2[0]) and w1:
        return [(c, w1)]
    if w1 and w2 and w1[-1].op == "mat" and w2[0].op == "mat" and w1[-1].a[1] == w2[0].a[0]:
        m = mmul(w1[-1], w2[0])
        if m.op == "mat":
            return [(c, w1[:-1] + (m,) + w2[1:])]
        res = []
        for cc, w in terms(m):
            if len(w) == 1 and is_ident(w[0]) and (len(w1) > 1 or len(w2) > 1):
                res.append((mul(c, cc), w1[:-1] + w2[1:]))
            else:
                res.append((mul(c, cc), w1[:-1] + w + w2[1:]))
        return res
    # inv(A) A and A inv(A); rotations: A^T A and A A^T
    if w1 and w2:
        x, y = w1[-1], w2[0]
        if (x in ORTHO and y.op == "T" and y.a[0] is x) or (y in ORTHO and x.op == "T" and x.a[0] is y):
            u, v = w1[:-1], w2[1:]
            if u and v:
                return _wmul(c, u, v)
            return [(c, u + v or (I(shape(x)[0]),))]
        m = _ortho_part(x, y)
        if m is not None:
            if m.op == "Z":
                return []
            res = m
            u = mk_word(w1[:-1]) if w1[:-1] else None
            v = mk_word(w2[1:]) if w2[1:] else None
            ax, by = _view(x), _view(y)
            kr, kc = (ax[3] if ax[1] else ax[2]), (by[3] if not by[1] else by[2])
            if u is not None and shape(m)[0] == 3:          # u * I[:, kc..]
                res, u = blk(u, 0, kc, shape(u)[0], shape(m)[1]), None
            elif v is not None and shape(m)[1] == 3:        # I[kr.., :] * v
                res, v = blk(v, kr, 0, shape(m)[0], shape(v)[1]), None
            if u is not None:
                res = mmul(u, res)
            if v is not None:
                res = mmul(res, v)
            return [(mul(c, cc), w) for cc, w in terms(res)]
        if (x.op == "inv" and x.a[0] is y) or (y.op == "inv" and y.a[0] is x):
            w = w1[:-1] + w2[1:]
            if not w:
                w = (I(shape(x)[0]),)
            return [(c, w)]
    return [(c, w1 + w2)]


def T(a):
    if a.op == "MP":
        shp = shape(a)
        out = []
        for c, w in a.a[0]:
            acc = [(c, ())]
            for x in reversed(w):
                tx = T(x)
                nacc = []
                for c0, w0 in acc:
                    for c1, w1 in terms(tx):
                        nacc.append((mul(c0, c1), w0 + w1))
                acc = nacc
            out += acc
        return _norm_terms(out, (shp[1], shp[0]))
    if a.op == "T":
        return a.a[0]
    if a.op == "I":
        return I(a.a[1], a.a[0])
    if a.op == "Z":
        return Z(a.a[1], a.a[0])
    if a.op == "mat":
        r, c, cells = a.a
        return mat(c, r, [cells[i * c + j] for j in range(c) for i in range(r)])
    if a.op == "skew":
        return mneg(a)
    if a.op == "ite":
        return ite(a.a[0], T(a.a[1]), T(a.a[2]))
    if a in SYM:
        return a
    if a.op == "inv":
        t = T(a.a[0])
        return inv(t)
    if a.op == "blk" and a.a[0] in SYM and dnode(a.a[1]) is dnode(a.a[2]) and same(a.a[3], a.a[4]):
        return a
    if a.op == "blk" and a.a[0] in SYM:
        return mk("blk", a.a[0], a.a[2], a.a[1], a.a[4], a.a[3])
    if a.op == "set" and self_transposed(a):
        return a
    if a.op == "set" and 1 in shape(a):
        return mset(T(a.a[0]), a.a[2], a.a[1], a.a[4], a.a[3], T(a.a[5]))
    n = mk("T", a)
    s = shape(a)
    if s != (None, None):
        SHAPE.setdefault(n, (s[1], s[0]))
    return n


_symset = {}


def self_transposed(a):
    """is this chain of block writes its own transpose?"""
    r = _symset.get(a)
    if r is None:
        _symset[a] = False
        r, c = shape(a)
        r = r is not None and same(r, c)
        if r:
            chain, b = [], a
            while b.op == "set":
                chain.append(b)
                b = b.a[0]
            n = T(b)
            for x in reversed(chain):
                n = mset(n, x.a[2], x.a[1], x.a[4], x.a[3], T(x.a[5]))
            r = n is a
            if not r and n.op == "set" and T(b) is b and is_int(shape(a)[0]) and all(is_int(y) for x in chain for y in x.a[1:5]):
                # element by element where something was written; the rest is symmetric
                k = shape(a)[0]
                cells = {(min(i, j), max(i, j)) for x in chain for i in range(x.a[1], x.a[1] + x.a[3]) for j in range(x.a[2], x.a[2] + x.a[4])}
                r = all(i < k and j < k and el(a, i, j) is el(a, j, i) for i, j in cells)
        _symset[a] = r
    return r


def inv(a):
    if a.op == "inv":
        return a.a[0]
    if is_ident(a):
        return a
    if a in ORTHO or (a.op == "T" and a.a[0] in ORTHO):
        return T(a)
    if a.op == "T":
        return T(inv(a.a[0])) if False else mk("T", inv(a.a[0]))
    if a.op == "MP" and len(a.a[0]) == 1:
        c, w = a.a[0][0]
        if len(w) == 1:
            return mscale(recip(c), inv(w[0]))
    if a.op == "MP" and len(a.a[0]) == 1 and all(shape(x)[0] == shape(x)[1] is not None for x in a.a[0][0][1]):
        c, w = a.a[0][0]
        out = I(shape(a)[0])
        for x in reversed(w):
            out = mmul(out, inv(x))
        return mscale(recip(c), out)
    return mk("inv", a)


def skew(v):
    """skew(linear combination) is distributed"""
    if v.op == "MP":
        out = Z(3, 3)
        for c, w in v.a[0]:
            x = w[0] if len(w) == 1 else _norm_terms([(ONE, w)], (3, 1))
            out = madd(out, mscale(c, _skew1(x)))
        return out
    return _skew1(v)


def _skew1(v):
    if v.op == "Z":
        return Z(3, 3)
    if v.op == "mat":
        a, b, c = v.a[2]
        return mat(3, 3, [ZERO, neg(c), b, c, ZERO, neg(a), neg(b), a, ZERO])
    n = mk("skew", v)
    return n


def mat(r, c, cells):
    cells = tuple(cells)
    if all(x is ZERO for x in cells):
        return Z(r, c)
    if r == c and all((x is ONE) if i % (c + 1) == 0 else (x is ZERO) for i, x in enumerate(cells)):
        return I(r)
    if r > 1 and c >= 1:
        # recognise the elements of one matrix/vector  [el(v,0),el(v,1)...] -> v
        f = cells[0]
        if f.op == "el" and shape(f.a[0]) == (r, c) and all(
                x.op == "el" and x.a[0] is f.a[0] and (x.a[1], x.a[2]) == (i // c, i % c)
                for i, x in enumerate(cells)):
            return f.a[0]
    return mk("mat", r, c, cells)


def full(r, c, s):
    if s is ZERO:
        return Z(r, c)
    if is_int(r) and is_int(c) and r * c <= 64:
        return mat(r, c, [s] * (r * c))
    return mk("full", r, c, s)


def el(M, i, j):
    """scalar element"""
    i, j = dim(i), dim(j)
    op = M.op
    if op == "mat" and is_int(i) and is_int(j):
        if 0 <= i < M.a[0] and 0 <= j < M.a[1]:
            return M.a[2][i * M.a[1] + j]
        return mk("oob", M, i, j)
    if op == "Z":
        return ZERO
    if op == "full":
        return M.a[2]
    if op == "I":
        if dnode(i) is dnode(j):
            return ONE
        if is_int(i) and is_int(j):
            return ZERO
    if op == "MP":
        s = ZERO
        for c, w in M.a[0]:
            if len(w) == 1:
                s = add(s, mul(c, el(w[0], i, j)))
            else:
                s = add(s, mul(c, _elw(w, i, j)))
        return s
    if op == "T":
        return el(M.a[0], j, i)
    if op == "skew" and is_int(i) and is_int(j):
        v = M.a[0]
        t = {(0, 1): (2, -1), (0, 2): (1, 1), (1, 0): (2, 1), (1, 2): (0, -1), (2, 0): (1, -1), (2, 1): (0, 1)}
        if (i, j) not in t:
            return ZERO
        k, s = t[(i, j)]
        return mul(num(s), el(v, k, 0))
    if op == "blk":
        return el(M.a[0], dim(add(dnode(i), dnode(M.a[1]))), dim(add(dnode(j), dnode(M.a[2]))))
    if op == "set":
        base, r, c, nr, nc, V = M.a
        if all(is_int(x) for x in (i, j, r, c, nr, nc)):
            if r <= i < r + nr and c <= j < c + nc:
                return el(V, i - r, j - c)
            return el(base, i, j)
        if nr == 1 and nc == 1:
            if dnode(i) is dnode(r) and dnode(j) is dnode(c):
                return el(V, 0, 0)
            di, dj = sub(dnode(i), dnode(r)), sub(dnode(j), dnode(c))
            if (di.op == "num" and di is not ZERO) or (dj.op == "num" and dj is not ZERO):
                return el(base, i, j)
    if op == "ite":
        return ite(M.a[0], el(M.a[1], i, j), el(M.a[2], i, j))
    if op == "s1":
        return M.a[0]
    if M in SYM and is_int(i) and is_int(j) and j < i:
        i, j = j, i
    n = mk("el", M, i, j)
    return n


def _elw(w, i, j):
    # element of a product: keep as atom of the canonical word, with row / column selected
    n = _norm_terms([(ONE, w)], (None, None))
    if n.op == "mat":
        return el(n, i, j)
    if is_int(i) and is_int(j):
        # the row of the first and the column of the last factor name the element; w(i,j) = w'(j,i)
        b = n if shape(n) == (1, 1) else blk(n, i, j, 1, 1)
        if b.op != "MP":
            return el(b, 0, 0)
        out = ZERO
        for c, u in b.a[0]:
            if len(u) == 1:
                out = add(out, mul(c, el(u[0], 0, 0)))
                continue
            x = _norm_terms([(ONE, u)], (1, 1))
            if x.op != "MP" or len(x.a[0]) != 1 or x.a[0][0][0] is not ONE:
                out = add(out, mul(c, mk("el", x, 0, 0)))
                continue
            t = T(x)
            if t.op == "MP" and len(t.a[0]) == 1 and t.a[0][0][0] is ONE and t.id < x.id:
                x = t
            out = add(out, mul(c, mk("el", x, 0, 0)))
        return out
    return mk("el", n, i, j)


def eqm(a, b, limit=900):
    """equal matrices: the same term, or (concrete shapes) the same elements"""
    if a is b:
        return True
    sa, sb = shape(a), shape(b)
    if sa != sb or not all(is_int(x) for x in sa) or sa[0] * sa[1] > limit:
        return False
    return all(el(a, i, j) is el(b, i, j) for i in range(sa[0]) for j in range(sa[1]))


def s1(x):
    """scalar as 1x1 matrix"""
    return mk("mat", 1, 1, (x,))


def blk(M, r, c, nr, nc):
    n = _blk(M, r, c, nr, nc)
    if TRACK is not None:
        TRACK.block(n, M, r, c, nr, nc)
    return n


def _blk(M, r, c, nr, nc):
    r, c, nr, nc = dim(r), dim(c), dim(nr), dim(nc)
    s = shape(M)
    if r == 0 and c == 0 and same(s[0], nr) and same(s[1], nc):
        return M
    op = M.op
    conc = all(is_int(x) for x in (r, c, nr, nc))
    if op == "Z":
        return Z(nr, nc)
    if op == "undefM":
        return undefM(nr, nc)
    if op == "full":
        return full(nr, nc, M.a[2])
    if op == "mat" and conc:
        if r + nr > M.a[0] or c + nc > M.a[1] or r < 0 or c < 0:
            return mk("oob", M, r, c)
        return mat(nr, nc, [M.a[2][i * M.a[1] + j] for i in range(r, r + nr) for j in range(c, c + nc)])
    if op == "I":
        if dnode(r) is dnode(c) and dnode(nr) is dnode(nc):
            return I(nr)
        if conc and (r + nr <= c or c + nc <= r):
            return Z(nr, nc)
        if conc and nr * nc <= 64:
            return mat(nr, nc, [ONE if r + i == c + j else ZERO for i in range(nr) for j in range(nc)])
    if op == "T":
        return T(blk(M.a[0], c, r, nc, nr))
    if op == "MP":
        out = []
        for co, w in M.a[0]:
            if len(w) == 1:
                out += [(mul(co, c2), w2) for c2, w2 in terms(blk(w[0], r, c, nr, nc))]
            else:
                a0, a1 = w[0], w[-1]
                sr, sc = shape(a0), shape(a1)
                x = a0 if (r == 0 and same(sr[0], nr)) else (
                    blk(a0, r, 0, nr, sr[1]) if sr[1] is not None else mk("blk", a0, r, 0, nr, sr[1]))
                y = a1 if (c == 0 and same(sc[1], nc)) else (
                    blk(a1, 0, c, sc[0], nc) if sc[0] is not None else mk("blk", a1, 0, c, sc[0], nc))
                mid = w[1:-1]
                m = x
                for z in mid:
                    m = mmul(m, z)
                m = mmul(m, y)
                out += [(mul(co, c2), w2) for c2, w2 in terms(m)]
        return _norm_terms(out, (nr, nc))
    if op == "blk":
        return blk(M.a[0], dim(add(dnode(r), dnode(M.a[1]))), dim(add(dnode(c), dnode(M.a[2]))), nr, nc)
    if op == "ite":
        return ite(M.a[0], blk(M.a[1], r, c, nr, nc), blk(M.a[2], r, c, nr, nc))
    if op == "set":
        base, r0, c0, nr0, nc0, V = M.a
        if conc and all(is_int(x) for x in (r0, c0, nr0, nc0)):
            if r0 <= r and r + nr <= r0 + nr0 and c0 <= c and c + nc <= c0 + nc0:
                return blk(V, r - r0, c - c0, nr, nc)
            if r + nr <= r0 or r0 + nr0 <= r or c + nc <= c0 or c0 + nc0 <= c:
                return blk(base, r, c, nr, nc)
            # partial overlap
            b = blk(base, r, c, nr, nc)
            rr, cc = max(r, r0), max(c, c0)
            er, ec = min(r + nr, r0 + nr0), min(c + nc, c0 + nc0)
            v = blk(V, rr - r0, cc - c0, er - rr, ec - cc)
            return mset(b, rr - r, cc - c, er - rr, ec - cc, v)
        if dnode(r) is dnode(r0) and dnode(c) is dnode(c0) and same(nr, nr0) and same(nc, nc0):
            return V
    if op == "skew" and conc:
        return mat(nr, nc, [el(M, r + i, c + j) for i in range(nr) for j in range(nc)])
    n = mk("blk", M, r, c, nr, nc)
    return n


def _region_key(n):
    return tuple(n.a[1:5])


def mset(M, r, c, nr, nc, V):
    """M with block (r,c,nr,nc) replaced by V"""
    r, c, nr, nc = dim(r), dim(c), dim(nr), dim(nc)
    s = shape(M)
    conc = all(is_int(x) for x in (r, c, nr, nc))
    if conc and (nr == 0 or nc == 0):
        return M
    if r == 0 and c == 0 and same(s[0], nr) and same(s[1], nc):
        return V
    if conc and is_int(s[0]) and is_int(s[1]):
        if r < 0 or c < 0 or r + nr > s[0] or c + nc > s[1]:
            return mk("oob", M, r, c)
        if s[0] * s[1] <= 36 and M.op in ("mat", "Z", "I", "full", "undefM") and nr * nc <= 9 and (
                V.op in ("mat", "Z", "I", "undefM") or nr * nc <= 1):
            cells = [el(M, i, j) if M.op != "undefM" else mk("undef") for i in range(s[0]) for j in range(s[1])]
            for i in range(nr):
                for j in range(nc):
                    cells[(r + i) * s[1] + c + j] = el(V, i, j) if V.op != "undefM" else mk("undef")
            return mat(s[0], s[1], cells)
        # no-op write
        if M.op not in ("undefM",) and blk(M, r, c, nr, nc) is V:
            return M
    if M.op == "set" and conc and all(is_int(x) for x in M.a[1:5]):
        base, r0, c0, nr0, nc0, V0 = M.a
        if r <= r0 and c <= c0 and r + nr >= r0 + nr0 and c + nc >= c0 + nc0:
            return mset(base, r, c, nr, nc, V)
        disjoint = r + nr <= r0 or r0 + nr0 <= r or c + nc <= c0 or c0 + nc0 <= c
        if disjoint and (r, c, nr, nc) < (r0, c0, nr0, nc0):
            inner = mset(base, r, c, nr, nc, V)
            n = mk("set", inner, r0, c0, nr0, nc0, V0)
            if s != (None, None):
                SHAPE[n] = s
            return n
        if not disjoint and r0 <= r and c0 <= c and r + nr <= r0 + nr0 and c + nc <= c0 + nc0:
            inner = mset(V0, r - r0, c - c0, nr, nc, V)
            n = mk("set", base, r0, c0, nr0, nc0, inner)
            if s != (None, None):
                SHAPE[n] = s
            return n
    n = mk("set", M, r, c, nr, nc, V)
    if s != (None, None):
        SHAPE[n] = s
    return n


def resize(M, r, c, fill=None):
    """conservativeResize: keep the overlapping top-left part"""
    r, c = dim(r), dim(c)
    s = shape(M)
    base = fill if fill is not None else undefM(r, c)
    if s[0] == 0 or s[1] == 0:
        return base
    if all(is_int(x) for x in (r, c)) and is_int(s[0]) and is_int(s[1]):
        if r <= s[0] and c <= s[1]:
            return blk(M, 0, 0, r, c)
        return mset(base, 0, 0, min(r, s[0]), min(c, s[1]), blk(M, 0, 0, min(r, s[0]), min(c, s[1])))
    n = mk("rsz", M, r if r is not None else -1, c if c is not None else -1, base)
    SHAPE[n] = (r, c)
    return n


def mite_add(a, b):
    return madd(a, b)


# ---------------------------------------------------------------- substitution
def children(n):
    for x in n.a:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            yield from _tupnodes(x)


def _tupnodes(t):
    for x in t:
        if isinstance(x, N):
            yield x
        elif isinstance(x, tuple):
            yield from _tupnodes(x)


def subterms(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def contains(n, pred):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(children(x))
    return False


EXTRA_REBUILD = {}


def subst(n, m, memo=None):
    """replace nodes by mapping, re-canonicalising"""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(n)


def _gt(t, go):
    return tuple(go(x) if isinstance(x, N) else (_gt(x, go) if isinstance(x, tuple) else x) for x in t)


def rebuild(x, go):
    op = x.op
    if op in ("num", "b", "sym", "enum", "str", "null", "unit", "obj", "lam"):
        return x
    if not any(True for _ in children(x)):
        return x
    if op == "P":
        s = ZERO
        for mono, c in x.a[0]:
            t = num(c)
            for at, e in mono:
                g = go(at)
                t = mul(t, power(g, e))
            s = add(s, t)
        return s
    if op == "ite":
        c = go(x.a[0])
        c = c if _isboolean(c) or c.op == "b" else truth(c)
        if c is TRUE:
            return go(x.a[1])
        if c is FALSE:
            return go(x.a[2])
        return ite(c, go(x.a[1]), go(x.a[2]))
    if op == "pos":
        return _distr(lambda y: pos(scal(y)), go(x.a[0]))
    if op == "zero":
        return _distr(lambda y: zero(scal(y)), go(x.a[0]))
    if op == "eqv":
        return eq(go(x.a[0]), go(x.a[1]))
    if op == "bsym" and x.a[0] == "nonnull":
        return nonnull(go(x.a[1]))
    if op == "bsym" and x.a[0] == "truth":
        return truth(go(x.a[1]))
    if op == "fn":
        return fn(x.a[0], *[go(y) if isinstance(y, N) else y for y in x.a[1:]])
    if op == "idiv":
        return div(go(x.a[0]), go(x.a[1]), True)
    if op == "mod":
        return mod(go(x.a[0]), go(x.a[1]))
    if op == "MP":
        out = None
        for c, w in x.a[0]:
            t = go(w[0])
            for y in w[1:]:
                t = mmul(t, go(y))
            t = mscale(go(c), t)
            out = t if out is None else madd(out, t)
        return out
    if op == "T":
        return T(go(x.a[0]))
    if op == "inv":
        return inv(go(x.a[0]))
    if op == "skew":
        return skew(go(x.a[0]))
    if op == "mat":
        return mat(x.a[0], x.a[1], [scal(go(y)) for y in x.a[2]])
    if op == "el":
        a = _gt(x.a, go)
        return el(a[0], a[1], a[2])
    if op == "blk":
        return blk(*_gt(x.a, go))
    if op == "set":
        return mset(*_gt(x.a, go))
    if op == "rsz":
        a = _gt(x.a, go)
        return resize(a[0], a[1], a[2], a[3])
    if op in ("I", "Z", "undefM"):
        return mk(op, *[dim(y) for y in _gt(x.a, go)])
    f = EXTRA_REBUILD.get(op)
    if f:
        return f(*_gt(x.a, go))
    y = mk(op, *_gt(x.a, go))
    if y is not x:
        if x in TY:
            TY.setdefault(y, TY[x])
        if x in SHAPE:
            SHAPE.setdefault(y, SHAPE[x])
    return y


# ---------------------------------------------------------------- implication
def implies(gate, fact):
    """does gate entail fact?  decision diagrams + single-variable interval ordering"""
    f = and_(gate, not_(fact))
    if f is FALSE:
        return True
    return not satisfiable(f)


def satisfiable(f):
    if f is FALSE:
        return False
    if f is TRUE:
        return True
    ats = bool_atoms(f)
    groups = {}
    for a in ats:
        if a.op in ("pos", "zero"):
            p = poly(a.a[0])
            c = p.get((), Fraction(0))
            base = unpoly({m: k for m, k in p.items() if m})
            ip = is_intpoly(p)
            # orientation: leading coefficient of base positive by construction for int; for
            # reals pos() keeps both signs, so orient here
            groups.setdefault(base, []).append((a, c, ip))
    ax = TRUE
    bases = list(groups)
    nb = {}
    for b in bases:
        nbk = neg(b)
        key = b if b.id <= nbk.id else nbk
        sgn = 1 if key is b else -1
        for (a, c, ip) in groups[b]:
            nb.setdefault(key, []).append((a, c, sgn, ip))
    for key, lst in nb.items():
        # pos atom with sgn=1: key > -c ; sgn=-1: -key + c > 0  => key < c ; zero: key == -c*sgn
        for x in range(len(lst)):
            for y in range(len(lst)):
                if x == y:
                    continue
                ax = and_(ax, _axiom(lst[x], lst[y]))
    # enum / constant equalities on the same node are mutually exclusive
    eqs = {}
    for a in ats:
        if a.op == "eqv":
            l, r = a.a
            if is_const(l):
                l, r = r, l
            if is_const(r):
                eqs.setdefault(l, []).append(a)
    for l, lst in eqs.items():
        for i in range(len(lst)):
            for j in range(i):
                ax = and_(ax, not_(and_(lst[i], lst[j])))
    return and_(f, ax) is not FALSE


def lin_unsat(lits):
    """contradiction among linear order literals [(atom, bool)] (Fourier-Motzkin over the monomials)"""
    cs = []
    for a, b in lits:
        if a.op not in ("pos", "zero"):
            continue
        p = dict(poly(a.a[0]))
        if a.op == "pos":
            if b:
                cs.append((p, True))
            elif is_intpoly(p):
                cs.append(({**{m: -c for m, c in p.items()}}, False))
            else:
                cs.append(({m: -c for m, c in p.items()}, False))
        elif b:
            cs.append((p, False))
            cs.append(({m: -c for m, c in p.items()}, False))
    todo = {m for p, _ in cs for m in p if m}
    while True:
        for p, strict in cs:
            if not any(c for m, c in p.items() if m):
                k = p.get((), Fraction(0))
                if k < 0 or (strict and k == 0):
                    return True
        cs = [(p, s) for p, s in cs if any(c for m, c in p.items() if m)]
        if not todo or not cs or len(cs) > 400:
            return False
        m = min(todo, key=lambda m: sum(1 for p, _ in cs if p.get(m, 0) > 0) * sum(1 for p, _ in cs if p.get(m, 0) < 0))
        todo.discard(m)
        up = [(p, s) for p, s in cs if p.get(m, 0) > 0]
        lo = [(p, s) for p, s in cs if p.get(m, 0) < 0]
        rest = [(p, s) for p, s in cs if not p.get(m, 0)]
        for p, s in up:
            for q, t in lo:
                x, y = p[m], -q[m]
                r = {}
                for k in set(p) | set(q):
                    v = p.get(k, 0) * y + q.get(k, 0) * x
                    if v and k != m:
                        r[k] = v
                rest.append((r, s or t))
        cs = rest


def conj_implies(lits, care, f):
    """does the conjunction of literals {atom: TRUE/FALSE} together with care entail f?"""
    def go(lits, g):
        if g is FALSE or lin_unsat([(a, b is TRUE) for a, b in lits.items()]):
            return True
        if not satisfiable(g):
            return True
        for a in sorted(bool_atoms(g), key=lambda x: x.id):
            if a in lits or a.op not in ("pos", "zero"):
                continue
            return all(go({**lits, a: b}, subst(g, {a: b})) for b in (TRUE, FALSE))
        return False
    base = care
    for a, b in lits.items():
        base = and_(base, a if b is TRUE else not_(a))
    return go({a: b for a, b in lits.items()}, and_(base, not_(f)))


def _iv(a, c, sgn):
    """constraint of a true atom as ('gt',v) key>v, ('lt',v) key<v, ('eq',v)"""
    if a.op == "zero":
        return ("eq", -c * sgn)
    return ("gt", -c) if sgn == 1 else ("lt", c)


def _axiom(X, Y):
    a, ca, sa, ia = X
    b, cb, sb, ib = Y
    ka, va = _iv(a, ca, sa)
    kb, vb = _iv(b, cb, sb)
    t = TRUE
    if ka == "gt" and kb == "gt" and va >= vb:
        t = or_(not_(a), b)
    elif ka == "lt" and kb == "lt" and va <= vb:
        t = or_(not_(a), b)
    elif ka == "gt" and kb == "lt":
        if va >= vb:
            t = not_(and_(a, b))
        elif vb > va:
            t = or_(a, b)      # key<=va -> key<vb
    elif ka == "eq":
        if kb == "gt":
            t = or_(not_(a), b if va > vb else not_(b))
        elif kb == "lt":
            t = or_(not_(a), b if va < vb else not_(b))
        elif kb == "eq" and va != vb:
            t = not_(and_(a, b))
    return t


# ---------------------------------------------------------------- printing
def show(n, d=6):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d) for x in n) + ")"
        return str(n)
    if d == 0:
        return "..."
    op, a = n.op, n.a
    if op == "num":
        f = a[0]
        return str(f) if f.denominator in (1, 2, 3, 4, 6, 8) else "%g" % float(f)
    if op == "b":
        return "true" if a[0] else "false"
    if op == "sym":
        return str(a[0])
    if op == "enum":
        return a[2] or "%s#%d" % (a[0], a[1])
    if op == "str":
        return repr(a[0])
    if op == "P":
        out = []
        for m, c in a[0][:12]:
            s = "*".join(show(x, d - 1) + ("^%d" % e if e != 1 else "") for x, e in m)
            cs = show(num(c))
            out.append(cs if not s else (s if c == 1 else cs + "*" + s))
        if len(a[0]) > 12:
            out.append("...")
        return "(" + " + ".join(out) + ")"
    if op == "MP":
        out = []
        for c, w in a[0][:8]:
            s = "·".join(show(x, d - 1) for x in w)
            out.append(s if c is ONE else show(c, d - 1) + "*" + s)
        return "(" + " + ".join(out) + ")"
    if op == "fld":
        return show(a[0], d) + "." + a[1].split("::")[-1]
    if op == "ite":
        return "[%s ? %s : %s]" % (show(a[0], d - 1), show(a[1], d - 1), show(a[2], d - 1))
    if op == "pos":
        return show(a[0], d - 1) + ">0"
    if op == "zero":
        return show(a[0], d - 1) + "==0"
    if op == "deref":
        return "*" + show(a[0], d)
    if op == "fn":
        return "%s(%s)" % (a[0], ",".join(show(x, d - 1) for x in a[1:]))
    if op == "el":
        return "%s(%s,%s)" % (show(a[0], d - 1), a[1], a[2])
    return "%s(%s)" % (op, ",".join(show(x, d - 1) for x in a))
