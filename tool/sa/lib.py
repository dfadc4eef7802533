"""Models of the library calls the repository uses (Eigen, the standard library,
yaml-cpp), and resolution/inlining of the repository's own functions."""
import re
import json
from .dag import *
from . import dag
from .vf import (Interp, State, Frame, Dead, Unsupported, stript, pointee, is_ptr_type, notmpl,
                 QUEUES, csize, vget, vset, vpush, vpopb, qfront, qpop, mget, mset_map, mhas,
                 pair_get, iter_loc, iter_add, loc_key, elem_type, _typ)

H = {}


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def tmp(I, st, v):
    I.uid += 1
    loc = (("v", -I.uid, "tmp"), ())
    st.env[loc[0]] = v
    return loc


def call(I, e, st):
    r = do(I, e, st)
    if isinstance(r, tuple):
        return I.read(st, r, e.get("t"))
    return r


def call_lv(I, e, st):
    r = do(I, e, st)
    if isinstance(r, tuple):
        return r
    return tmp(I, st, r)


def objloc(I, e, st):
    """location of the object a member call is made on"""
    o = e["obj"]
    if e.get("arrow") or ((o.get("t") or "").rstrip().endswith("*")):
        return I.deref_loc(I.ev(o, st))
    l = I.lv(o, st)
    if l is None:
        l = tmp(I, st, I.ev(o, st))
    return l


def objval(I, e, st, ty=None):
    if e.get("arrow") or ((e["obj"].get("t") or "").rstrip().endswith("*")):
        return I.read(st, objloc(I, e, st), ty or e.get("objt"))
    return I.ev(e["obj"], st)


def resolve(I, e, st):
    """(function, dynamic?) for a call to a repository function"""
    fid = e.get("fid")
    if fid in I.fid_over:
        fid = I.fid_over[fid]
    return I.F.functions.get(fid)


def pseudo_fn(L, name):
    n = L.node
    return {"q": name, "params": n.get("params", []), "ret": n.get("ret", ""), "body": n["body"],
            "file": L.frame.fn.get("file"), "l": n.get("l"), "fid": n.get("fid")}


def call_lambda(I, lamv, argnodes, st, line):
    L = I.lams[lamv]
    fn = pseudo_fn(L, (L.frame.fn.get("q") or "") + "::lambda")
    args = I.ev_args(argnodes, fn["params"], st)
    v, _ = I.call_fn(fn, L.frame.this, args, st, line, lam=L)
    return v


def do(I, e, st):
    f = e.get("f") or ""
    q = f
    if q in I.opaque:
        h = I.opaque[q]
        if callable(h):
            r = h(I, e, st)
            if r is not NotImplemented:
                return r
        elif h:
            return opaque_call(I, e, st)
    if e.get("lamcall") or (f.endswith("operator()") and "obj" in e and not f.startswith("Eigen")):
        v = I.ev(e["obj"], st)
        if v in I.lams:
            return call_lambda(I, v, e.get("args", []), st, e.get("l"))
    fn = resolve(I, e, st)
    if e.get("virt") and "obj" in e:
        o = e["obj"]
        if e.get("arrow"):
            p = I.ev(o, st)
        else:
            p = I.addr_of(objloc(I, e, st))
        cls = dyn_class(I, p, e)
        if cls is None:
            return vcall(I, e, p, st)
        fid = I.F.overrider(cls, e["fid"])
        fn = I.F.functions.get(fid) or fn
        if fn is None or ("body" not in fn):
            return vcall(I, e, p, st)
        if callable(I.opaque.get(fn["q"])):
            r = I.opaque[fn["q"]](I, e, st)
            if r is not NotImplemented:
                return r
        args = I.ev_args(e.get("args", []), fn["params"], st)
        v, _ = I.call_fn(fn, p, args, st, e.get("l"))
        return v
    h = H.get(f) or H.get(notmpl(f))
    if h is None and fn is not None and ("body" in fn) and not f.startswith("std::"):
        return inline(I, e, fn, st)
    if h is None:
        h = H.get(f.split("::")[-1]) if f.startswith("std::") or f.startswith("__gnu_cxx::") or f.startswith("Eigen::") or f.startswith("boost::") else None
        if h is not None and not getattr(h, "generic", False):
            h = None
    if h is not None:
        r = h(I, e, st)
        if r is not NotImplemented:
            return r
    if f.endswith("::operator=") and "obj" in e and len(e.get("args", [])) == 1:
        v = I.ev(e["args"][0], st)
        l = objloc(I, e, st)
        I.event("write", st, e.get("l"), loc=l, val=v)
        I.write(st, l, v)
        return l
    if not f:
        # call through a value
        if e.get("fn") is not None:
            v = I.ev(e["fn"], st)
            if v in I.lams:
                return call_lambda(I, v, e.get("args", []), st, e.get("l"))
    I.note_unknown(f)
    return opaque_call(I, e, st, havoc=True)


def inline(I, e, fn, st):
    if sum(1 for fr in I.stack if fr.fn is fn) > 24:
        return opaque_call(I, e, st)
    this = None
    if "obj" in e and not fn.get("static"):
        o = e["obj"]
        if e.get("arrow") or (o.get("t") or "").rstrip().endswith("*"):
            this = I.ev(o, st)
        else:
            l = I.lv(o, st)
            if l is None:
                l = tmp(I, st, I.ev(o, st))
            this = I.addr_of(l)
    args = I.ev_args(e.get("args", []), fn["params"], st)
    v, _ = I.call_fn(fn, this, args, st, e.get("l"))
    return v


def dyn_class(I, p, e):
    if p.op == "ite":
        a, b = dyn_class(I, p.a[1], e), dyn_class(I, p.a[2], e)
        return a if a == b else None
    if p.op == "obj" and len(p.a) > 1 and str(p.a[0]).startswith(("heap", "obj", "this")):
        return notmpl(stript(p.a[1]))
    st_cls = notmpl(stript(e.get("objt") or ""))
    return I.dyn.get(p) or I.dyn.get(st_cls)


def vcall(I, e, p, st):
    """virtual call with unknown target: opaque effect"""
    args = []
    locs = []
    for a, pt in zip(e.get("args", []), e.get("pt", [])):
        x = I.ev_arg(a, pt, st)
        if isinstance(x, tuple):
            if pt.rstrip().endswith("&") and not pt.strip().startswith("const"):
                locs.append(x)
            x = I.read(st, x)
        args.append(x)
    n = I.fresh("vcall:" + e["f"].split("::")[-1], e.get("t"), p)
    I.event("vcall", st, e.get("l"), f=e["f"], obj=p, args=args, locs=locs, ret=n)
    for i, l in enumerate(locs):
        old = I.read(st, l)
        h = mk("hav", n, i)
        TY.setdefault(h, TY.get(old) or stript(e["pt"][i]))
        I.write(st, l, h)
    return n


def opaque_call(I, e, st, havoc=False):
    """uninterpreted function of its arguments"""
    args = []
    locs = []
    if "obj" in e:
        v = objval(I, e, st)
        args.append(v)
    pts = e.get("pt", [])
    for i, a in enumerate(e.get("args", [])):
        pt = pts[i] if i < len(pts) else ""
        x = I.ev_arg(a, pt, st)
        if isinstance(x, tuple):
            if havoc and pt.rstrip().endswith("&") and not pt.strip().startswith("const"):
                locs.append(x)
            x = I.read(st, x, a.get("t"))
        args.append(x)
    ext = havoc and not e.get("const") and "obj" in e
    if locs or ext or havoc and not args:
        n = I.fresh("ext:" + e["f"], e.get("t"), *[a for a in args if isinstance(a, N)])
    else:
        n = mk("call", e["f"], *args)
        if e.get("t"):
            TY.setdefault(n, e["t"] if is_ptr_type(e["t"]) else stript(e["t"]))
            s = shape_of_type(TY[n])
            if s:
                SHAPE.setdefault(n, s)
    I.event("extcall", st, e.get("l"), f=e["f"], args=args, ret=n, havoc=havoc)
    for i, l in enumerate(locs):
        old = I.read(st, l)
        h = mk("hav", n, i)
        if old in TY:
            TY.setdefault(h, TY[old])
        I.write(st, l, h)
    if ext:
        l = objloc(I, e, st)
        old = I.read(st, l)
        h = mk("hav", n, "obj")
        if old in TY:
            TY.setdefault(h, TY[old])
        I.write(st, l, h)
    return n


# =====================================================================  Eigen
def is_eig(a):
    t = stript(a.get("t") or "")
    return t.startswith("Eigen::")


def fixed_from_fid(fid):
    m = re.search(r"Matrix>#[a-zA-Z$]#VI(-?\d+)#VI(-?\d+)", fid or "")
    if not m:
        return None
    return int(m.group(1)), int(m.group(2))


def rows(M):
    s = shape(M)[0]
    return s if s is not None else dag_dim("rows", M)


def cols(M):
    s = shape(M)[1]
    return s if s is not None else dag_dim("cols", M)


def dag_dim(which, M):
    if M.op == "ite":
        f = rows if which == "rows" else cols
        return dim(ite(M.a[0], dnode(f(M.a[1])), dnode(f(M.a[2]))))
    if M.op == "MP":
        c, w = M.a[0][0]
        if len(w):
            x = w[0] if which == "rows" else w[-1]
            if x is not M:
                return rows(x) if which == "rows" else cols(x)
    n = mk(which, M)
    TY.setdefault(n, "int")
    return n


def setsh(n, r, c):
    if shape(n) == (None, None) and n.op not in ("ite",):
        SHAPE[n] = (dim(r), dim(c))
    return n


def static_args(I, e, st):
    return [dim(I.ev(a, st)) for a in e.get("args", []) if not a.get("t", "").startswith("std::")]


def nullary(make):
    def h(I, e, st):
        args = [I.ev(a, st) for a in e.get("args", [])]
        extra = []
        if e["f"].endswith("Constant"):
            extra = [args[-1]]
            args = args[:-1]
        fx = fixed_from_fid(e.get("fid"))
        if len(args) == 2:
            r, c = dim(args[0]), dim(args[1])
        elif len(args) == 1:
            r, c = dim(args[0]), 1
            if fx and fx[0] == 1 and fx[1] != 1:
                r, c = 1, r
        else:
            r, c = fx or (None, None)
        return make(r, c, *extra)
    return h


H["Eigen::DenseBase::Zero"] = nullary(lambda r, c: Z(r, c))
H["Eigen::DenseBase::Ones"] = nullary(lambda r, c: full(r, c, ONE))
H["Eigen::DenseBase::Constant"] = nullary(lambda r, c, x: full(r, c, x))
H["Eigen::MatrixBase::Identity"] = nullary(lambda r, c: I_(r, c))
H["Eigen::DenseBase::Random"] = nullary(lambda r, c: undefM(r, c))


def I_(r, c):
    return I(r, c)


def unit(k):
    def h(I, e, st):
        fx = fixed_from_fid(e.get("fid")) or (3, 1)
        a = [dim(I.ev(x, st)) for x in e.get("args", [])]
        i = k if k is not None else a[-1]
        n = fx[0] if fx[0] > 0 else a[0]
        return mat(n, 1, [ONE if j == i else ZERO for j in range(n)])
    return h


H["Eigen::MatrixBase::UnitX"] = unit(0)
H["Eigen::MatrixBase::UnitY"] = unit(1)
H["Eigen::MatrixBase::UnitZ"] = unit(2)
H["Eigen::MatrixBase::Unit"] = unit(None)


def tints(e):
    out = []
    for x in e.get("ta") or []:
        if re.fullmatch(r"-?\d+", x):
            out.append(int(x))
    return out


def blockstep(name):
    def h(I, e, st):
        l = objloc(I, e, st)
        M = I.read(st, l, e["obj"].get("t"))
        a = [dim(I.ev(x, st)) for x in e.get("args", [])]
        ti = tints(e)
        R, C = rows(M), cols(M)
        if name == "block":
            if len(a) == 2:
                r, c, nr, nc = a[0], a[1], ti[0], ti[1]
            else:
                r, c, nr, nc = a
        elif name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            nr, nc = (a if len(a) == 2 else ti[:2])
            r = 0 if name.startswith("top") else dim(sub(dnode(R), dnode(nr)))
            c = 0 if "Left" in name else dim(sub(dnode(C), dnode(nc)))
        elif name in ("topRows", "bottomRows", "middleRows"):
            n = (a[-1] if a and not (name == "middleRows" and ti) else ti[0])
            nr, nc, c = n, C, 0
            r = 0 if name == "topRows" else (a[0] if name == "middleRows" else dim(sub(dnode(R), dnode(n))))
        elif name in ("leftCols", "rightCols", "middleCols"):
            n = (a[-1] if a and not (name == "middleCols" and ti) else ti[0])
            nr, nc, r = R, n, 0
            c = 0 if name == "leftCols" else (a[0] if name == "middleCols" else dim(sub(dnode(C), dnode(n))))
        elif name == "row":
            r, c, nr, nc = a[0], 0, 1, C
        elif name == "col":
            r, c, nr, nc = 0, a[0], R, 1
        elif name in ("head", "tail", "segment"):
            if name == "segment":
                i, n = (a[0], a[1]) if len(a) == 2 else (a[0], ti[0])
            else:
                n = a[0] if a and not (len(a) == 1 and ti and len(e.get("args", [])) == 1 and e["args"][0].get("def")) else ti[0]
                if not e.get("args"):
                    n = ti[0]
                i = None
            s = shape(M)
            rowvec = s[0] == 1 and s[1] != 1
            if name == "head":
                i = 0
            elif name == "tail":
                i = dim(sub(dnode(C if rowvec else R), dnode(n)))
            if rowvec:
                r, c, nr, nc = 0, i, 1, n
            else:
                r, c, nr, nc = i, 0, n, 1
        I.event("blk", st, e.get("l"), dims=(R, C), reg=(r, c, nr, nc))
        return (l[0], l[1] + (("b", r, c, nr, nc),))
    return h


for _n in ("block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows",
           "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols", "row", "col", "head", "tail", "segment"):
    H["Eigen::DenseBase::" + _n] = blockstep(_n)


@reg("Eigen::DenseBase::transpose", "Eigen::MatrixBase::adjoint")
def _tr(I, e, st):
    return T(objval(I, e, st))


@reg("Eigen::DenseBase::transposeInPlace")
def _tri(I, e, st):
    l = objloc(I, e, st)
    I.write(st, l, T(I.read(st, l)))
    return UNIT


@reg("Eigen::DenseBase::eval", "Eigen::MatrixBase::matrix", "Eigen::EigenBase::derived", "Eigen::MatrixBase::array",
     "Eigen::ArrayBase::matrix", "Eigen::DenseBase::derived", "Eigen::MatrixBase::real", "Eigen::DenseBase::real",
     "Eigen::CommonCwiseUnaryOps::real")
def _eval(I, e, st):
    return objval(I, e, st)


@reg("Eigen::MatrixBase::cast", "Eigen::CommonCwiseUnaryOps::cast", "Eigen::DenseBase::cast")
def _cast(I, e, st):
    return objval(I, e, st)


@reg("Eigen::MatrixBase::noalias")
def _noalias(I, e, st):
    return objloc(I, e, st)


@reg("Eigen::MatrixBase::inverse")
def _inv(I, e, st):
    M = objval(I, e, st)
    if M.op in ("toR",):
        return T(M)
    return inv(M)


# ---------------------------------------------------------------- decompositions of (invertible) square matrices
DECOMP = ("LDLT", "LLT", "PartialPivLU", "FullPivLU", "HouseholderQR", "ColPivHouseholderQR", "FullPivHouseholderQR",
          "CompleteOrthogonalDecomposition")


def decomp_of(v):
    """matrix a decomposition object was made of"""
    if v.op == "decomp":
        return v.a[0]
    if v.op == "built" and v.a[0].split("::")[-1] in DECOMP and len(v.a) > 1:
        return v.a[1]
    if v.op == "ite":
        a, b = decomp_of(v.a[1]), decomp_of(v.a[2])
        return None if a is None or b is None else ite(v.a[0], a, b)
    return None


@reg(*["Eigen::%s::%s" % (b, m) for b in ("MatrixBase", "SelfAdjointView") for m in
       ("ldlt", "llt", "lu", "partialPivLu", "fullPivLu", "householderQr", "colPivHouseholderQr", "fullPivHouseholderQr",
        "completeOrthogonalDecomposition")])
def _decomp(I, e, st):
    return mk("decomp", objval(I, e, st))


@reg(*["Eigen::%s::compute" % d for d in DECOMP])
def _dcompute(I, e, st):
    loc = objloc(I, e, st)
    I.write(st, loc, mk("decomp", I.ev(e["args"][0], st)))
    return loc


def inv_of(M):
    return T(M) if M.op == "toR" else inv(M)


@reg("Eigen::SolverBase::solve", *["Eigen::%s::solve" % d for d in DECOMP])
def _dsolve(I, e, st):
    A = decomp_of(objval(I, e, st))
    if A is None:
        raise Unsupported("solve with an unknown decomposition")
    return mmul(inv_of(A), I.ev(e["args"][0], st))


@reg(*["Eigen::%s::inverse" % d for d in DECOMP])
def _dinverse(I, e, st):
    A = decomp_of(objval(I, e, st))
    if A is None:
        raise Unsupported("inverse of an unknown decomposition")
    return inv_of(A)


@reg(*["Eigen::%s::reconstructedMatrix" % d for d in DECOMP])
def _drecon(I, e, st):
    A = decomp_of(objval(I, e, st))
    if A is None:
        raise Unsupported("unknown decomposition")
    return A


def elems(v):
    s = shape(v)
    if is_int(s[0]) and is_int(s[1]) and s[0] * s[1] <= 36:
        return [el(v, i, j) for i in range(s[0]) for j in range(s[1])]
    return None


def dot(a, b):
    x, y = elems(a), elems(b)
    if x is not None and y is not None and len(x) == len(y):
        s = ZERO
        for p, q in zip(x, y):
            s = add(s, mul(p, q))
        return s
    return el(mmul(T(a), b), 0, 0)


def norm(v):
    return fn("sqrt", dot(v, v))


@reg("Eigen::MatrixBase::norm", "Eigen::MatrixBase::stableNorm", "Eigen::MatrixBase::blueNorm", "Eigen::MatrixBase::hypotNorm")
def _norm(I, e, st):
    return norm(objval(I, e, st))


@reg("Eigen::MatrixBase::squaredNorm")
def _sqn(I, e, st):
    v = objval(I, e, st)
    return dot(v, v)


@reg("Eigen::MatrixBase::normalized", "Eigen::MatrixBase::stableNormalized")
def _normalized(I, e, st):
    v = objval(I, e, st)
    return mscale(recip(norm(v)), v)


@reg("Eigen::MatrixBase::normalize", "Eigen::MatrixBase::stableNormalize")
def _normalize(I, e, st):
    l = objloc(I, e, st)
    t = stript(e["obj"].get("t") or "")
    v = I.read(st, l, t)
    w = mscale(recip(norm(v)), v)
    I.event("write", st, e.get("l"), loc=l, val=w)
    I.write(st, l, w, t)
    return UNIT


@reg("Eigen::MatrixBase::cwiseAbs2", "Eigen::MatrixBase::cwiseInverse")
def _cwu(I, e, st):
    v = objval(I, e, st)
    x, s = elems(v), shape(v)
    sq = e["f"].endswith("Abs2")
    if x is None:
        return setsh(mk("cwise", e["f"].split("::")[-1], v), *s)
    return mat(s[0], s[1], [mul(p, p) if sq else recip(p) for p in x])


@reg("Eigen::MatrixBase::dot")
def _dot(I, e, st):
    return dot(objval(I, e, st), I.ev(e["args"][0], st))


@reg("Eigen::MatrixBase::cross", "Eigen::MatrixBase::cross3")
def _cross(I, e, st):
    return mmul(skew(objval(I, e, st)), I.ev(e["args"][0], st))


@reg("Eigen::MatrixBase::cwiseProduct", "Eigen::MatrixBase::cwiseQuotient")
def _cwp(I, e, st):
    a, b = objval(I, e, st), I.ev(e["args"][0], st)
    f = mul if e["f"].endswith("Product") else div
    x, y = elems(a), elems(b)
    s = shape(a)
    if x is not None and y is not None and len(x) == len(y):
        return mat(s[0], s[1], [f(p, q) for p, q in zip(x, y)])
    return setsh(mk("cwise", e["f"].split("::")[-1], a, b), *s)


@reg("Eigen::DenseBase::sum", "Eigen::MatrixBase::trace", "Eigen::DenseBase::prod", "Eigen::DenseBase::mean")
def _red(I, e, st):
    v = objval(I, e, st)
    k = e["f"].split("::")[-1]
    x = elems(v)
    if k == "sum" and x is not None:
        s = ZERO
        for p in x:
            s = add(s, p)
        return s
    if k == "trace" and x is not None:
        s = ZERO
        for i in range(shape(v)[0]):
            s = add(s, el(v, i, i))
        return s
    n = mk("call", k, v)
    TY.setdefault(n, "double")
    return n


@reg("Eigen::MatrixBase::determinant", "Eigen::DenseBase::maxCoeff", "Eigen::DenseBase::minCoeff")
def _det(I, e, st):
    n = mk("call", e["f"], objval(I, e, st))
    TY.setdefault(n, "double")
    return n


@reg("Eigen::DenseBase::allFinite", "Eigen::DenseBase::hasNaN", "Eigen::DenseBase::isZero", "Eigen::DenseBase::isApprox",
     "Eigen::MatrixBase::isIdentity", "Eigen::MatrixBase::isUnitary")
def _preds(I, e, st):
    return mk("bsym", e["f"], objval(I, e, st), *[I.ev(a, st) for a in e.get("args", []) if not a.get("def")])


@reg("Eigen::MatrixBase::asDiagonal")
def _asdiag(I, e, st):
    v = objval(I, e, st)
    x = elems(v)
    if x is not None:
        n = len(x)
        return mat(n, n, [x[i] if i == j else ZERO for i in range(n) for j in range(n)])
    return setsh(mk("asdiag", v), rows(v), rows(v))


@reg("Eigen::MatrixBase::diagonal")
def _diag(I, e, st):
    v = objval(I, e, st)
    s = shape(v)
    if is_int(s[0]) and s[0] == s[1]:
        return mat(s[0], 1, [el(v, i, i) for i in range(s[0])])
    return mk("diag", v)


def coeff(I, e, st):
    l = objloc(I, e, st)
    a = [dim(I.ev(x, st)) for x in e.get("args", [])]
    if len(a) == 2:
        return (l[0], l[1] + (("e", a[0], a[1]),))
    M = I.read(st, l, e["obj"].get("t"))
    s = shape(M)
    if s[0] == 1 and s[1] != 1:
        return (l[0], l[1] + (("e", 0, a[0]),))
    if s[1] is not None and s[1] != 1 and is_int(s[0]) and is_int(a[0]):
        return (l[0], l[1] + (("e", a[0] % s[0], a[0] // s[0]),))
    return (l[0], l[1] + (("e", a[0], 0),))


for _n in ("operator()", "coeff", "coeffRef", "operator[]"):
    H["Eigen::DenseCoeffsBase::" + _n] = coeff
    H["Eigen::PlainObjectBase::" + _n] = coeff


def xyz(k):
    def h(I, e, st):
        l = objloc(I, e, st)
        return (l[0], l[1] + (("e", k, 0),))
    return h


for _i, _n in enumerate("xyzw"):
    H["Eigen::DenseCoeffsBase::" + _n] = xyz(_i)


def comma_chain(e):
    items = []
    while True:
        f = e.get("f", "")
        if f == "Eigen::CommaInitializer::operator,":
            items.append(e["args"][0] if "obj" in e else e["args"][1])
            e = e["obj"] if "obj" in e else e["args"][0]
        elif f == "Eigen::CommaInitializer::finished":
            e = e["obj"]
        elif f == "Eigen::DenseBase::operator<<":
            items.append(e["args"][0])
            return e["obj"], list(reversed(items)), e
        elif e.get("k") in ("cast",):
            e = e["e"]
        elif e.get("k") == "ctor" and e.get("args"):
            e = e["args"][0]
        else:
            raise Unsupported("comma initialiser")


def dsum(a, b):
    return a + b if is_int(a) and is_int(b) else dim(add(dnode(a), dnode(b)))


@reg("Eigen::CommaInitializer::operator,", "Eigen::CommaInitializer::finished", "Eigen::DenseBase::operator<<")
def _comma(I, e, st):
    tgt, items, base = comma_chain(e)
    l = I.lv(tgt, st)
    if l is None:
        l = tmp(I, st, I.ev(tgt, st))
    M = I.read(st, l, tgt.get("t"))
    R, C = shape(M)
    vals = [(I.ev(a, st), is_eig(a)) for a in items]
    if len(vals) == 1 and not vals[0][1]:
        pass
    r = c = h = 0
    for v, ism in vals:
        if not ism:
            v = s1(scal(v))
        nr, nc = shape(v)
        if not all(is_int(x) for x in (nr, nc)):
            nr, nc = rows(v), cols(v)
        full = c >= C if is_int(C) and is_int(c) else C is not None and dnode(c) is dnode(C)
        if full and not (is_int(h) and h == 0):
            r, c, h = dsum(r, h), 0, 0
        M = mset(M, r, c, nr, nc, v)
        h = nr
        c = dsum(c, nc)
    I.event("write", st, e.get("l"), loc=l, val=M)
    I.write(st, l, M, tgt.get("t"))
    return l


def bcast_assign(I, e, st, f=None):
    l = objloc(I, e, st)
    a = e["args"][0]
    v = I.ev(a, st)
    l = objloc(I, e, st) if False else l
    if f is not None:
        old = I.read(st, l, e["obj"].get("t"))
        v = f(old, v)
    elif (l[1] and l[1][-1][0] == "b"):
        reg_ = l[1][-1]
        I.event("blkassign", st, e.get("l"), reg=reg_[1:], vshape=shape(v), loc=l, val=v)
    I.event("write", st, e.get("l"), loc=l, val=v, how="eigen")
    I.write(st, l, v, e["obj"].get("t") if not l[1] or l[1][-1][0] != "b" else None)
    return l


@reg("Eigen::Matrix::operator=", "Eigen::Block::operator=", "Eigen::PlainObjectBase::operator=", "Eigen::VectorBlock::operator=",
     "Eigen::MatrixBase::operator=", "Eigen::DenseBase::operator=", "Eigen::NoAlias::operator=", "Eigen::QuaternionBase::operator=",
     "Eigen::Quaternion::operator=", "Eigen::Transpose::operator=")
def _asg(I, e, st):
    return bcast_assign(I, e, st)


@reg("Eigen::MatrixBase::operator+=", "Eigen::NoAlias::operator+=", "Eigen::DenseBase::operator+=")
def _pe(I, e, st):
    return bcast_assign(I, e, st, madd)


@reg("Eigen::MatrixBase::operator-=", "Eigen::NoAlias::operator-=", "Eigen::DenseBase::operator-=")
def _me(I, e, st):
    return bcast_assign(I, e, st, msub)


@reg("Eigen::MatrixBase::operator*=", "Eigen::DenseBase::operator*=", "Eigen::EigenBase::operator*=")
def _te(I, e, st):
    m = is_eig(e["args"][0])
    return bcast_assign(I, e, st, (lambda a, b: mmul(a, b)) if m else (lambda a, b: mscale(b, a)))


@reg("Eigen::MatrixBase::operator/=", "Eigen::DenseBase::operator/=")
def _de(I, e, st):
    return bcast_assign(I, e, st, lambda a, b: mscale(recip(b), a))


def two(I, e, st):
    if "obj" in e:
        return (objval(I, e, st), I.ev(e["args"][0], st)), (e["obj"], e["args"][0])
    return tuple(I.ev(a, st) for a in e["args"]), tuple(e["args"])


def isquat(a):
    return "Eigen::Quaternion" in (a.get("t") or "")


@reg("Eigen::MatrixBase::operator*", "Eigen::operator*", "Eigen::DenseBase::operator*", "Eigen::QuaternionBase::operator*",
     "Eigen::RotationBase::operator*", "Eigen::PermutationBase::operator*", "Eigen::DiagonalBase::operator*")
def _mul(I, e, st):
    (a, b), (x, y) = two(I, e, st)
    if isquat(x):
        if isquat(y):
            return mk("qmul", a, b)
        return mmul(toR(a), b)
    if is_eig(x) and is_eig(y):
        return mmul(a, b)
    if is_eig(x):
        return mscale(b, a)
    return mscale(a, b)


@reg("Eigen::MatrixBase::operator+", "Eigen::operator+")
def _add(I, e, st):
    (a, b), _ = two(I, e, st)
    return madd(a, b)


@reg("Eigen::MatrixBase::operator-", "Eigen::DenseBase::operator-", "Eigen::operator-")
def _sub(I, e, st):
    if "obj" in e and not e.get("args"):
        return mneg(objval(I, e, st))
    (a, b), _ = two(I, e, st)
    return msub(a, b)


@reg("Eigen::MatrixBase::operator/", "Eigen::DenseBase::operator/", "Eigen::operator/")
def _div(I, e, st):
    (a, b), _ = two(I, e, st)
    return mscale(recip(b), a)


@reg("Eigen::MatrixBase::operator==", "Eigen::MatrixBase::operator!=")
def _meq(I, e, st):
    (a, b), _ = two(I, e, st)
    r = TRUE if a is b else mk("eqv", *((a, b) if a.id < b.id else (b, a)))
    return r if e["f"].endswith("==") else not_(r)


@reg("Eigen::internal::dense_product_base::operator const double", "Eigen::internal::dense_product_base::operator const Scalar",
     "Eigen::internal::dense_product_base::operator double")
def _p2s(I, e, st):
    return el(objval(I, e, st), 0, 0)


@reg("Eigen::PlainObjectBase::rows", "Eigen::EigenBase::rows", "Eigen::DenseBase::rows", "Eigen::Block::rows")
def _rows(I, e, st):
    return dnode(rows(objval(I, e, st)))


@reg("Eigen::PlainObjectBase::cols", "Eigen::EigenBase::cols", "Eigen::DenseBase::cols", "Eigen::Block::cols")
def _cols(I, e, st):
    return dnode(cols(objval(I, e, st)))


@reg("Eigen::EigenBase::size", "Eigen::DenseBase::size", "Eigen::PlainObjectBase::size")
def _size(I, e, st):
    v = objval(I, e, st)
    return mul(dnode(rows(v)), dnode(cols(v)))


@reg("Eigen::PlainObjectBase::conservativeResize", "Eigen::PlainObjectBase::resize")
def _cres(I, e, st):
    l = objloc(I, e, st)
    ot = e["obj"].get("t")
    M = I.read(st, l, ot)
    a = [dim(I.ev(x, st)) for x in e["args"]]
    sh = shape_of_type(stript(ot or ""))
    if len(a) == 1:
        # vector
        r, c = (1, a[0]) if sh and sh[0] == 1 else (a[0], 1)
    else:
        r, c = a
        pt = e.get("pt", ["", ""])
        r = rows(M) if "NoChange" in pt[0] else r
        c = cols(M) if "NoChange" in pt[1] else c
    v = resize(M, r, c) if e["f"].endswith("conservativeResize") else undefM(r, c)
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v, ot)
    return UNIT


@reg("Eigen::PlainObjectBase::conservativeResizeLike")
def _cresl(I, e, st):
    l = objloc(I, e, st)
    M = I.read(st, l, e["obj"].get("t"))
    A = I.ev(e["args"][0], st)
    v = resize(M, rows(A), cols(A), fill=A)
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return UNIT


def setnullary(kind):
    def h(I, e, st):
        l = objloc(I, e, st)
        ot = e["obj"].get("t")
        M = I.read(st, l, ot)
        a = [I.ev(x, st) for x in e.get("args", [])]
        x = None
        if kind == "Constant":
            x = a[-1]
            a = a[:-1]
        if len(a) == 2:
            r, c = dim(a[0]), dim(a[1])
        elif len(a) == 1:
            r, c = dim(a[0]), 1
        else:
            r, c = rows(M), cols(M)
        v = {"Zero": lambda: Z(r, c), "Identity": lambda: I_(r, c), "Ones": lambda: full(r, c, ONE),
             "Constant": lambda: full(r, c, x), "Random": lambda: undefM(r, c)}[kind]()
        I.event("write", st, e.get("l"), loc=l, val=v)
        I.write(st, l, v, ot if not (l[1] and l[1][-1][0] == "b") else None)
        return l
    return h


for _k in ("Zero", "Identity", "Ones", "Constant", "Random"):
    for _c in ("DenseBase", "PlainObjectBase", "MatrixBase"):
        H["Eigen::%s::set%s" % (_c, _k)] = setnullary(_k)
H["Eigen::DenseBase::fill"] = setnullary("Constant")


# quaternions
def toR(q):
    if q.op == "quatR":
        return q.a[0]
    if q.op == "qnorm" and q.a[0].op == "quatR":
        return q.a[0].a[0]
    if q.op == "ite":
        return ite(q.a[0], toR(q.a[1]), toR(q.a[2]))
    if q.op == "quat" and q.a[0] is ONE and all(x is ZERO for x in q.a[1:]):
        return I(3)
    n = mk("toR", q)
    SHAPE.setdefault(n, (3, 3))
    return n


@reg("Eigen::QuaternionBase::toRotationMatrix", "Eigen::RotationBase::toRotationMatrix", "Eigen::QuaternionBase::matrix",
     "Eigen::RotationBase::matrix")
def _toR(I, e, st):
    return toR(objval(I, e, st))


def qcoef(k):
    def h(I, e, st):
        l = objloc(I, e, st)
        return (l[0], l[1] + (("q", k),))
    return h


def qc(q, k):
    if q.op == "quat":
        return q.a["wxyz".index(k)]
    if q.op == "ite":
        return ite(q.a[0], qc(q.a[1], k), qc(q.a[2], k))
    n = mk("qc", q, k)
    TY.setdefault(n, "double")
    return n


for _k in "wxyz":
    H["Eigen::QuaternionBase::" + _k] = qcoef(_k)


@reg("Eigen::QuaternionBase::normalized")
def _qn(I, e, st):
    return mk("qnorm", objval(I, e, st))


@reg("Eigen::QuaternionBase::normalize")
def _qnn(I, e, st):
    l = objloc(I, e, st)
    I.write(st, l, mk("qnorm", I.read(st, l)))
    return UNIT


@reg("Eigen::QuaternionBase::conjugate", "Eigen::QuaternionBase::inverse")
def _qi(I, e, st):
    q = objval(I, e, st)
    if q.op == "quat":
        return mk("quat", q.a[0], neg(q.a[1]), neg(q.a[2]), neg(q.a[3]))
    return mk("qconj", q)


@reg("Eigen::QuaternionBase::Identity")
def _qid(I, e, st):
    return mk("quat", ONE, ZERO, ZERO, ZERO)


@reg("Eigen::QuaternionBase::coeffs", "Eigen::Quaternion::coeffs", "Eigen::QuaternionBase::vec", "Eigen::Quaternion::vec")
def _qco(I, e, st):
    q = objval(I, e, st)
    ks = "xyzw" if e["f"].endswith("coeffs") else "xyz"
    return mat(len(ks), 1, [qc(q, k) for k in ks])


@reg("Eigen::QuaternionBase::setIdentity")
def _qsi(I, e, st):
    l = objloc(I, e, st)
    I.write(st, l, mk("quat", ONE, ZERO, ZERO, ZERO))
    return l


@reg("Eigen::QuaternionBase::norm", "Eigen::QuaternionBase::squaredNorm")
def _qnm(I, e, st):
    q = objval(I, e, st)
    s = ZERO
    for k in "wxyz":
        s = add(s, mul(qc(q, k), qc(q, k)))
    return fn("sqrt", s) if e["f"].endswith("::norm") else s


# =====================================================================  std: pointers
@reg("std::__shared_ptr::get", "std::unique_ptr::get", "std::shared_ptr::get", "std::__shared_ptr_access::get", "boost::shared_ptr::get")
def _get(I, e, st):
    return I.ev(e["obj"], st)


@reg("std::__shared_ptr_access::operator->", "std::unique_ptr::operator->", "std::shared_ptr::operator->", "boost::shared_ptr::operator->")
def _arrow(I, e, st):
    return I.ev(e["obj"], st)


@reg("std::__shared_ptr_access::operator*", "std::unique_ptr::operator*", "std::shared_ptr::operator*", "boost::shared_ptr::operator*")
def _star(I, e, st):
    return I.deref_loc(I.ev(e["obj"], st))


@reg("std::__shared_ptr::operator bool", "std::unique_ptr::operator bool", "std::shared_ptr::operator bool", "boost::shared_ptr::operator bool")
def _pbool(I, e, st):
    return nonnull(I.ev(e["obj"], st))


@reg("std::__shared_ptr::use_count", "std::__shared_ptr::unique")
def _uc(I, e, st):
    return I.fresh("use_count", "int")


@reg("std::__shared_ptr::reset", "std::unique_ptr::reset", "std::shared_ptr::reset")
def _reset(I, e, st):
    l = objloc(I, e, st)
    v = I.ev(e["args"][0], st) if e.get("args") and not e["args"][0].get("def") else NULL
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return UNIT


@reg("std::shared_ptr::operator=", "std::unique_ptr::operator=", "std::__shared_ptr::operator=")
def _sasg(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v, e["obj"].get("t"))
    return l


@reg("std::__shared_ptr::swap", "std::shared_ptr::swap", "std::unique_ptr::swap", "std::vector::swap")
def _pswap(I, e, st):
    a = objloc(I, e, st)
    b = I.lv(e["args"][0], st)
    va, vb = I.read(st, a), I.read(st, b)
    I.write(st, a, vb)
    I.write(st, b, va)
    return UNIT


@reg("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast", "std::move", "std::forward", "std::ref", "std::cref",
     "std::as_const")
def _pass(I, e, st):
    l = I.lv(e["args"][0], st)
    if l is not None:
        return l
    return I.ev(e["args"][0], st)


def param_match(fn, e):
    ps = fn["params"]
    n = len(e.get("args", []))
    if len(ps) < n or any(p.get("def") is None for p in ps[n:]):
        return -1
    s = 0
    for p, a in zip(ps, e["args"]):
        pt, at = stript(p["t"]), stript(a.get("t") or "")
        if pt == at:
            s += 3
        elif notmpl(pt) == notmpl(at):
            s += 2
        elif "shared_ptr" in pt and at in ("nullptr_t", "std::nullptr_t"):
            s += 1
        elif pt in ("double", "float", "int", "unsigned int", "long", "unsigned long", "bool") and at in (
                "double", "float", "int", "unsigned int", "long", "unsigned long", "bool"):
            s += 1
    return s


def construct_new(I, cls, e, st):
    """allocate and construct a new object of class cls from e.args"""
    I.uid += 1
    key = "heap%d" % I.uid
    base = notmpl(stript(cls))
    p = mk("obj", key, stript(cls))
    TY.setdefault(p, stript(cls) + "*")
    loc = I.deref_loc(p)
    args = e.get("args", [])
    if base in QUEUES or base == "std::vector":
        st.env[loc[0]] = I.ev(args[0], st) if args else mk("seq", ())
        return p
    if len(args) == 1 and notmpl(stript(args[0].get("t") or "")) == base:
        st.env[loc[0]] = I.ev(args[0], st)
        I.event("new", st, e.get("l"), ptr=p, val=st.env[loc[0]], copy=True)
        return p
    cands = [f for f in I.F.functions.values() if f.get("ctor") and notmpl(f["rec"]) == base and not f.get("copyctor")
             and f["q"].split("::")[-1] == base.split("::")[-1]]
    best, bs = None, -1
    for f in cands:
        if stript(cls) not in (f["rec"], base) and "<" in f["rec"] and f["rec"].replace(" ", "") != stript(cls).replace(" ", ""):
            continue
        s = param_match(f, e)
        if s > bs or (s == bs and best is not None and len(f["params"]) < len(best["params"])):
            best, bs = f, s
    if best is not None and bs >= 0:
        st.env[loc[0]] = mk("rec", base, ())
        a = I.ev_args(args, best["params"], st)
        I.call_fn(best, p, a, st, e.get("l"))
    elif I.F.rec(base) is not None and not args:
        st.env[loc[0]] = default_value(I, base, st, e.get("zi"))
    elif args:
        v = mk("built", base, *[I.ev(a, st) for a in args])
        TY.setdefault(v, stript(cls))
        st.env[loc[0]] = v
    else:
        v = mk("built", base)
        TY.setdefault(v, stript(cls))
        st.env[loc[0]] = v
    I.event("new", st, e.get("l"), ptr=p, val=st.env[loc[0]], copy=False)
    return p


def default_value(I, q, st, zero=False):
    """value-initialised aggregate / implicitly default-constructed class"""
    d = {}
    for c, f in I.F.all_fields(q):
        fq = c + "::" + f["n"]
        if isinstance(f.get("init"), dict):
            try:
                v = I.ev(f["init"], st)
            except Unsupported:
                continue
            d[fq] = v
        elif stript(f["t"]).startswith("Eigen::Matrix<"):
            s = shape_of_type(stript(f["t"]))
            d[fq] = undefM(s[0] if s[0] is not None else 0, s[1] if s[1] is not None else 0)
        elif is_ptr_type(f["t"]) and not f["t"].rstrip().endswith("*"):
            d[fq] = NULL
        elif notmpl(stript(f["t"])) == "std::vector" or notmpl(stript(f["t"])) in QUEUES:
            d[fq] = mk("seq", ())
        elif notmpl(stript(f["t"])) in ("std::basic_string",):
            d[fq] = mk("str", "")
        elif zero and f.get("builtin"):
            d[fq] = I.zero_of(f["t"])
    return mk("rec", q, tuple(sorted(d.items())))


@reg("std::make_shared", "std::make_unique", "boost::make_shared")
def _mksh(I, e, st):
    cls = pointee(e.get("t") or "") or (e.get("ta") or ["?"])[0]
    if e.get("ta"):
        cls = e["ta"][0]
    return construct_new(I, cls, e, st)


@reg("Eigen::DenseBase::swap", "Eigen::PlainObjectBase::swap", "Eigen::Matrix::swap")
def _eswap(I, e, st):
    la, lb = objloc(I, e, st), I.lv(e["args"][0], st)
    ta, tb = stript(e["obj"].get("t") or ""), stript(e["args"][0].get("t") or "")
    va, vb = I.read(st, la, ta), I.read(st, lb, tb)
    I.event("write", st, e.get("l"), loc=la, val=vb)
    I.event("write", st, e.get("l"), loc=lb, val=va)
    I.write(st, la, vb, ta)
    I.write(st, lb, va, tb)
    return UNIT


@reg("std::swap")
def _swap(I, e, st):
    a, b = e["args"]
    la, lb = I.lv(a, st), I.lv(b, st)
    va, vb = I.read(st, la, a.get("t")), I.read(st, lb, b.get("t"))
    for l, x, v in ((la, a, vb), (lb, b, va)):
        if I.is_shared_queue(l, x.get("t")):
            I.event("qop", st, e.get("l"), op="swap", loc=l, pre=I.read(st, l, x.get("t")), val=v)
        else:
            I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, la, vb, a.get("t"))
    I.write(st, lb, va, b.get("t"))
    return UNIT


@reg("std::exchange")
def _exchange(I, e, st):
    a, b = e["args"]
    l = I.lv(a, st)
    old = I.read(st, l, a.get("t"))
    v = I.ev(b, st)
    if I.is_shared_queue(l, a.get("t")):
        I.event("qop", st, e.get("l"), op="swap", loc=l, pre=old, val=v)
    else:
        I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v, a.get("t"))
    return old


def bare_call(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "ctor", "tmp", "paren") and (e.get("e") is not None or len(e.get("args") or e.get("a") or []) == 1):
        e = e.get("e") if e.get("e") is not None else (e.get("args") or e.get("a"))[0]
    return e


@reg("std::tuple::operator=", "std::pair::operator=")
def _tieassign(I, e, st):
    t = bare_call(e.get("obj"))
    if not (isinstance(t, dict) and t.get("k") == "call" and t.get("f") == "std::tie") or len(e.get("args", [])) != 1:
        return NotImplemented
    v = I.ev(e["args"][0], st)
    for i, a in enumerate(t["args"]):
        if "std::ignore" in json.dumps(a) or "std::_Swallow_assign" in (a.get("t") or ""):
            continue
        x = pair_get(v, i)
        l = I.lv(a, st)
        I.event("write", st, e.get("l"), loc=l, val=x)
        I.write(st, l, x, a.get("t"))
    return UNIT


# ---------------------------------------------------------------- synchronisation
def mutex_key(I, e, st):
    return loc_key(objloc(I, e, st))


for _m in ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex", "std::shared_timed_mutex", "boost::mutex"):
    @reg(_m + "::lock", _m + "::lock_shared")
    def _lock(I, e, st):
        I.do_lock(mutex_key(I, e, st), st, e.get("l"))
        return UNIT

    @reg(_m + "::unlock", _m + "::unlock_shared")
    def _unlock(I, e, st):
        I.do_unlock(mutex_key(I, e, st), st, e.get("l"))
        return UNIT

    @reg(_m + "::try_lock")
    def _trylock(I, e, st):
        m = mutex_key(I, e, st)
        I.uid += 1
        r = mk("bsym", "try_lock", m, I.uid)
        I.event("trylock", st, e.get("l"), mutex=m, ret=r)
        st.locks[m] = or_(st.locks.get(m, FALSE), r)
        st.qe = I.uid
        st.q = {k: v for k, v in st.q.items() if k in I.keep_q} if I.keep_q else {}
        return r


def guard_root(I, e, st):
    l = objloc(I, e, st)
    return l[0]


@reg("std::unique_lock::lock", "std::shared_lock::lock")
def _ulock(I, e, st):
    r = guard_root(I, e, st)
    v = st.env[r]
    for m in I.guard_mutexes(v):
        I.do_lock(m, st, e.get("l"))
    st.env[r] = I.put1(v, ("f", "owns"), TRUE)
    return UNIT


@reg("std::unique_lock::unlock", "std::shared_lock::unlock")
def _uunlock(I, e, st):
    r = guard_root(I, e, st)
    v = st.env[r]
    for m in I.guard_mutexes(v):
        I.do_unlock(m, st, e.get("l"))
    st.env[r] = I.put1(v, ("f", "owns"), FALSE)
    return UNIT


@reg("std::unique_lock::try_lock")
def _utry(I, e, st):
    r = guard_root(I, e, st)
    v = st.env[r]
    I.uid += 1
    b = mk("bsym", "try_lock", I.uid)
    for m in I.guard_mutexes(v):
        I.event("trylock", st, e.get("l"), mutex=m, ret=b)
        st.locks[m] = or_(st.locks.get(m, FALSE), b)
    st.qe = I.uid
    st.q = {k: v for k, v in st.q.items() if k in I.keep_q} if I.keep_q else {}
    st.env[r] = I.put1(v, ("f", "owns"), b)
    return b


@reg("std::unique_lock::owns_lock", "std::unique_lock::operator bool")
def _uown(I, e, st):
    return I.get(st.env[guard_root(I, e, st)], ("f", "owns"))


@reg("std::lock")
def _stdlock(I, e, st):
    for a in e["args"]:
        I.do_lock(loc_key(I.lv(a, st)), st, e.get("l"))
    return UNIT


@reg("std::condition_variable::wait", "std::condition_variable_any::wait", "std::condition_variable::wait_for",
     "std::condition_variable::wait_until")
def _cvwait(I, e, st):
    I.event("wait", st, e.get("l"), f=e["f"])
    I.uid += 1
    st.qe = I.uid
    st.q = {k: v for k, v in st.q.items() if k in I.keep_q} if I.keep_q else {}
    args = e["args"]
    if len(args) >= 2:
        p = I.ev(args[-1], st)
        if p in I.lams:
            c = truth(call_lambda(I, p, [], st, e.get("l")))
            if e["f"].endswith("wait"):
                st.gate = and_(st.gate, c)
                return UNIT
            return c
    return UNIT


@reg("std::condition_variable::notify_one", "std::condition_variable::notify_all")
def _notify(I, e, st):
    I.event("notify", st, e.get("l"))
    return UNIT


@reg("std::this_thread::sleep_for", "std::this_thread::yield", "std::this_thread::sleep_until", "usleep", "sleep")
def _sleep(I, e, st):
    I.event("sleep", st, e.get("l"), f=e["f"])
    return UNIT


@reg("std::atomic::operator bool", "std::atomic::load", "std::__atomic_base::load", "std::atomic::operator _Tp",
     "std::__atomic_base::operator int", "std::__atomic_base::operator long", "std::atomic_flag::test")
def _aload(I, e, st):
    l = objloc(I, e, st)
    v = I.read(st, l)
    n = mk("aread", v, len([1 for x in I.events if x.kind == "aread"]))
    ty = "bool" if "bool" in (e.get("t") or "") + (e.get("objt") or "") else (e.get("t") or "int")
    if ty == "bool":
        n = mk("bsym", "aread", v, n)
    else:
        TY.setdefault(n, ty)
    I.event("aread", st, e.get("l"), loc=l, val=n)
    return n


@reg("std::atomic::operator=", "std::atomic::store", "std::__atomic_base::operator=", "std::__atomic_base::store")
def _astore(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    I.event("astore", st, e.get("l"), loc=l, val=v)
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return v


@reg("std::atomic::exchange")
def _axch(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    old = I.read(st, l)
    I.event("astore", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return mk("bsym", "aread", old, I.fresh("x"))


@reg("std::thread::operator=")
def _thasg(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    I.event("thread_assign", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return l


@reg("std::thread::joinable")
def _thjb(I, e, st):
    l = objloc(I, e, st)
    v = I.read(st, l)
    if v.op == "thread":
        return TRUE if v.a else FALSE
    return mk("bsym", "joinable", v)


@reg("std::thread::join", "std::thread::detach")
def _thj(I, e, st):
    l = objloc(I, e, st)
    v = I.read(st, l)
    I.event("thread_join", st, e.get("l"), loc=l, val=v, how=e["f"].split("::")[-1])
    n = mk("thread")
    I.write(st, l, n)
    return UNIT


# ---------------------------------------------------------------- queues
def isq(I, l, e):
    t = e.get("objt") or e["obj"].get("t")
    return I.is_shared_queue(l, stript(t))


def qt(e):
    return stript(e.get("objt") or e["obj"].get("t") or "")


def qop(name):
    def h(I, e, st):
        l = objloc(I, e, st)
        t = qt(e)
        v = I.read(st, l, t)
        rt = e.get("t")
        shared = isq(I, l, e)
        val = None
        if name in ("push", "emplace", "push_back", "emplace_back"):
            if name.startswith("emplace") and not (len(e["args"]) == 1):
                val = I.fresh("emplaced", elem_type(t))
            else:
                val = I.ev(e["args"][0], st)
            v = I.read(st, l, t)
        ev = I.event("qop", st, e.get("l"), op=name, loc=l, pre=v, val=val, shared=shared, key=loc_key(l))
        if name == "empty":
            return not_(pos(csize(v)))
        if name == "size":
            return csize(v)
        if name in ("front", "back", "top"):
            return (l[0], l[1] + (("qf", "back" if name == "back" else "front"),)) if False else qfront(v, "back" if name == "back" else "front", stript(rt) if not is_ptr_type(rt) else rt.rstrip("& "))
        if name in ("pop", "pop_front"):
            I.write(st, l, qpop(v), t)
            return UNIT
        if name in ("push", "emplace", "push_back", "emplace_back"):
            I.write(st, l, vpush(v, val), t)
            return UNIT
        if name == "clear":
            I.write(st, l, mk("seq", ()), t)
            return UNIT
        raise Unsupported("queue " + name)
    return h


for _q in ("std::queue", "std::deque", "std::list"):
    for _o in ("empty", "size", "front", "back", "pop", "pop_front", "push", "emplace", "push_back", "emplace_back", "clear"):
        H["%s::%s" % (_q, _o)] = qop(_o)


@reg("std::queue::operator=", "std::deque::operator=", "std::list::operator=")
def _qasg(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    t = qt(e)
    I.event("qop", st, e.get("l"), op="assign", loc=l, pre=I.read(st, l, t), val=v, shared=isq(I, l, e), key=loc_key(l))
    I.write(st, l, v, t)
    return l


@reg("std::queue::swap", "std::deque::swap")
def _qsw(I, e, st):
    la = objloc(I, e, st)
    t = qt(e)
    lb = I.lv(e["args"][0], st)
    va, vb = I.read(st, la, t), I.read(st, lb, t)
    for l, p, v in ((la, va, vb), (lb, vb, va)):
        I.event("qop", st, e.get("l"), op="swap", loc=l, pre=p, val=v, shared=I.is_shared_queue(l, t), key=loc_key(l))
        I.write(st, l, v, t)
    return UNIT


# ---------------------------------------------------------------- vector / array / string sizes
def vt(e):
    return stript(e.get("objt") or e["obj"].get("t") or "")


@reg("std::vector::size", "std::array::size", "std::basic_string::size", "std::basic_string::length", "std::unordered_map::size", "std::map::size")
def _vsize(I, e, st):
    return csize(objval(I, e, st))


@reg("std::vector::empty", "std::basic_string::empty", "std::unordered_map::empty", "std::map::empty")
def _vempty(I, e, st):
    return not_(pos(csize(objval(I, e, st))))


@reg("std::vector::operator[]", "std::vector::at", "std::array::operator[]", "std::array::at")
def _vidx(I, e, st):
    l = objloc(I, e, st)
    i = I.ev(e["args"][0], st)
    v = I.read(st, l, e["obj"].get("t"))
    I.event("vidx", st, e.get("l"), loc=l, idx=i, vec=v, at=e["f"].endswith("at"))
    return (l[0], l[1] + (("i", i),))


@reg("std::vector::data", "std::array::data")
def _vdata(I, e, st):
    l = objloc(I, e, st)
    return mk("addr", (l[0], l[1] + (("i", ZERO),)))


@reg("std::vector::front", "std::vector::back", "std::array::front", "std::array::back")
def _vfb(I, e, st):
    l = objloc(I, e, st)
    if e["f"].endswith("front"):
        i = ZERO
    else:
        i = sub(csize(I.read(st, l, e["obj"].get("t"))), ONE)
    I.event("vidx", st, e.get("l"), loc=l, idx=i, vec=I.read(st, l), at=False)
    return (l[0], l[1] + (("i", i),))


@reg("std::vector::push_back", "std::vector::emplace_back")
def _vpb(I, e, st):
    a = e["args"]
    l = objloc(I, e, st)
    if len(a) == 1:
        v = I.ev(a[0], st)
    else:
        et = elem_type(vt(e)) or ""
        rec = I.F.rec(notmpl(stript(et)))
        if rec and rec["fields"]:
            v = mk("rec", rec["q"], tuple(sorted((rec["q"] + "::" + f["n"], I.ev(x, st)) for f, x in zip(rec["fields"], a))))
        elif len(a) == 2:
            v = mk("pair", I.ev(a[0], st), I.ev(a[1], st))
        else:
            v = I.fresh("emplaced", et)
    old = I.read(st, l, e["obj"].get("t"))
    I.event("vpush", st, e.get("l"), loc=l, val=v)
    I.write(st, l, vpush(old, v))
    return UNIT


@reg("std::vector::pop_back")
def _vpo(I, e, st):
    l = objloc(I, e, st)
    old = I.read(st, l, e["obj"].get("t"))
    I.write(st, l, vpopb(old))
    return UNIT


@reg("std::vector::clear", "std::vector::erase_all")
def _vclear(I, e, st):
    l = objloc(I, e, st)
    I.event("write", st, e.get("l"), loc=l, val=mk("seq", ()))
    I.write(st, l, mk("seq", ()))
    return UNIT


@reg("std::vector::reserve", "std::vector::shrink_to_fit")
def _vnop(I, e, st):
    return UNIT


@reg("std::vector::resize", "std::vector::assign")
def _vresize(I, e, st):
    l = objloc(I, e, st)
    a = [I.ev(x, st) for x in e["args"] if not x.get("def")]
    old = I.read(st, l, e["obj"].get("t"))
    n = scal(a[0])
    fill = a[1] if len(a) > 1 else ZERO
    if n.op == "num" and 0 <= n.a[0] <= 64 and (old.op == "seq" or e["f"].endswith("assign")):
        k = int(n.a[0])
        cur = [] if e["f"].endswith("assign") else list(old.a[0])[:k]
        v = mk("seq", tuple(cur + [fill] * (k - len(cur))))
    elif e["f"].endswith("assign"):
        v = mk("vfill", n, fill)
    else:
        v = mk("vresize", old, n, fill)
    if old in TY:
        TY.setdefault(v, TY[old])
    I.write(st, l, v)
    return UNIT


@reg("std::vector::operator=", "std::array::operator=")
def _vasg(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return l


@reg("std::vector::begin", "std::vector::cbegin", "std::array::begin")
def _vbegin(I, e, st):
    return mk("iter", loc_key(objloc(I, e, st)), ZERO)


@reg("std::vector::end", "std::vector::cend", "std::array::end")
def _vend(I, e, st):
    l = objloc(I, e, st)
    return mk("iter", loc_key(l), csize(I.read(st, l, e["obj"].get("t"))))


@reg("std::vector::erase")
def _verase(I, e, st):
    l = objloc(I, e, st)
    old = I.read(st, l, e["obj"].get("t"))
    it = I.ev(e["args"][0], st)
    if len(e["args"]) == 1 and it.op == "iter":
        i = it.a[1]
        if old.op == "seq" and i.op == "num":
            k = int(i.a[0])
            v = mk("seq", old.a[0][:k] + old.a[0][k + 1:])
        else:
            v = verase(old, i)
        I.write(st, l, v)
        return mk("iter", it.a[0], i)
    v = I.fresh("verase", vt(e))
    I.write(st, l, v)
    return mk("iter", loc_key(l), I.fresh("it", "int"))


def verase(v, i):
    n = mk("verase", v, i)
    if v in TY:
        TY.setdefault(n, TY[v])
    return n


@reg("__gnu_cxx::__normal_iterator::operator*", "__gnu_cxx::__normal_iterator::operator->")
def _itd(I, e, st):
    it = I.ev(e["obj"], st)
    if it.op == "iter":
        l = iter_loc(it)
        return l if e["f"].endswith("*") else I.addr_of(l)
    return NotImplemented


@reg("__gnu_cxx::__normal_iterator::operator++", "__gnu_cxx::__normal_iterator::operator--")
def _itinc(I, e, st):
    l = objloc(I, e, st)
    it = I.read(st, l)
    if it.op == "mu":
        return NotImplemented
    n = iter_add(it, ONE if e["f"].endswith("++") else num(-1))
    I.write(st, l, n)
    return it if e.get("args") else n


@reg("__gnu_cxx::__normal_iterator::operator+", "__gnu_cxx::__normal_iterator::operator-")
def _itadd(I, e, st):
    (a, b), _ = two(I, e, st)
    if a.op == "iter" and b.op == "iter":
        return sub(a.a[1], b.a[1])
    return iter_add(a, b if e["f"].endswith("+") else neg(b))


@reg("__gnu_cxx::operator!=", "__gnu_cxx::operator==", "std::operator==", "std::operator!=", "std::__detail::operator==", "std::__detail::operator!=")
def _iteq(I, e, st):
    (a, b), _ = two(I, e, st)
    r = I.equal(a, b)
    return r if e["f"].endswith("==") else not_(r)


@reg("__gnu_cxx::operator<", "std::operator<")
def _itlt(I, e, st):
    (a, b), _ = two(I, e, st)
    if a.op == "iter" and b.op == "iter":
        return lt(a.a[1], b.a[1])
    return mk("bsym", "less", a, b)


# ---------------------------------------------------------------- maps
MAPS = ("std::map", "std::unordered_map")


def map_idx(I, e, st):
    l = objloc(I, e, st)
    k = I.ev(e["args"][0], st)
    old = I.read(st, l, e["obj"].get("t"))
    I.event("mapidx", st, e.get("l"), loc=l, key=k, map=old, at=e["f"].endswith("at"))
    return (l[0], l[1] + (("k", k),))


def map_count(I, e, st):
    v = objval(I, e, st)
    k = I.ev(e["args"][0], st)
    c = mhas(v, k)
    if e["f"].endswith("contains"):
        return c
    return ite(c, ONE, ZERO)


def map_find(I, e, st):
    l = objloc(I, e, st)
    v = I.read(st, l, e["obj"].get("t"))
    k = I.ev(e["args"][0], st)
    return mk("finditer", v, k, loc_key(l))


def map_erase(I, e, st):
    l = objloc(I, e, st)
    v = I.read(st, l, e["obj"].get("t"))
    k = I.ev(e["args"][0], st)
    if k.op == "finditer":
        k = k.a[1]
    n = mk("merase", v, k)
    if v in TY:
        TY.setdefault(n, TY[v])
    I.event("maperase", st, e.get("l"), loc=l, key=k)
    I.write(st, l, n)
    return ONE


def map_clear(I, e, st):
    l = objloc(I, e, st)
    I.write(st, l, mk("mempty"))
    return UNIT


def map_insert(I, e, st):
    l = objloc(I, e, st)
    v = I.read(st, l, e["obj"].get("t"))
    a = [I.ev(x, st) for x in e["args"]]
    if len(a) == 2:
        k, x = a
    elif len(a) == 1:
        k, x = pair_get(a[0], 0), pair_get(a[0], 1)
    else:
        return NotImplemented
    n = mset_map(v, k, x)
    if not e["f"].endswith("assign"):
        n = ite(mhas(v, k), v, n)
    I.write(st, l, n)
    return mk("pair", mk("finditer", n, k, loc_key(l)), not_(mhas(v, k)))


for _m in MAPS:
    H[_m + "::operator[]"] = map_idx
    H[_m + "::at"] = map_idx
    H[_m + "::count"] = map_count
    H[_m + "::contains"] = map_count
    H[_m + "::find"] = map_find
    H[_m + "::erase"] = map_erase
    H[_m + "::clear"] = map_clear
    H[_m + "::insert"] = map_insert
    H[_m + "::emplace"] = map_insert
    H[_m + "::insert_or_assign"] = map_insert
    H[_m + "::end"] = lambda I, e, st: mk("enditer")
    H[_m + "::cend"] = H[_m + "::end"]


@reg("std::__detail::_Node_iterator::operator->", "std::_Rb_tree_iterator::operator->", "std::__detail::_Node_const_iterator::operator->",
     "std::_Rb_tree_const_iterator::operator->")
def _mapit(I, e, st):
    return I.ev(e["obj"], st)


@reg("std::make_pair")
def _mkp(I, e, st):
    return mk("pair", *[I.ev(a, st) for a in e["args"]])


@reg("std::make_tuple", "std::tie", "std::forward_as_tuple")
def _mkt(I, e, st):
    return mk("pair", *[I.ev(a, st) for a in e["args"]])


@reg("std::get")
def _stdget(I, e, st):
    ti = tints(e)
    l = I.lv(e["args"][0], st)
    v = I.read(st, l) if l is not None else I.ev(e["args"][0], st)
    if ti:
        if v.op in ("seq",):
            return v.a[0][ti[0]]
        return pair_get(v, ti[0])
    return NotImplemented


# ---------------------------------------------------------------- strings & streams
def sconcat(a, b):
    if a.op == "str" and b.op == "str":
        return mk("str", a.a[0] + b.a[0])
    return mk("concat", a, b)


@reg("std::operator+")
def _sadd(I, e, st):
    (a, b), _ = two(I, e, st)
    return sconcat(a, b)


@reg("std::basic_string::operator+=", "std::basic_string::append")
def _sapp(I, e, st):
    l = objloc(I, e, st)
    I.write(st, l, sconcat(I.read(st, l), I.ev(e["args"][0], st)))
    return l


@reg("std::basic_string::operator=", "std::basic_string::assign")
def _sas(I, e, st):
    v = I.ev(e["args"][0], st)
    l = objloc(I, e, st)
    I.event("write", st, e.get("l"), loc=l, val=v)
    I.write(st, l, v)
    return l


@reg("std::basic_string::c_str", "std::basic_string::data")
def _scs(I, e, st):
    return objval(I, e, st)


@reg("std::basic_string::erase")
def _ser(I, e, st):
    l = objloc(I, e, st)
    n = mk("call", "std::basic_string::erase", I.read(st, l), *[I.ev(a, st) for a in e["args"]])
    TY.setdefault(n, "std::basic_string")
    I.write(st, l, n)
    return l


def pure(I, e, st):
    args = []
    if "obj" in e:
        args.append(objval(I, e, st))
    args += [I.ev(a, st) for a in e.get("args", [])]
    n = mk("call", e["f"], *args)
    if e.get("t"):
        TY.setdefault(n, e["t"] if is_ptr_type(e["t"]) else stript(e["t"]))
    if TY.get(n) == "bool":
        return mk("bsym", "call", n)
    return n


for _s in ("find", "rfind", "find_last_of", "find_first_of", "substr", "compare", "operator[]", "at", "back", "front"):
    H["std::basic_string::" + _s] = pure
H["std::to_string"] = pure
H["std::setprecision"] = pure
H["std::setw"] = pure
H["std::getenv"] = pure


def stream_root(I, a, st):
    l = I.lv(a, st)
    return l if l is not None else tmp(I, st, I.ev(a, st))


@reg("std::operator<<", "std::basic_ostream::operator<<", "Eigen::operator<<")
def _out(I, e, st):
    if "obj" in e:
        s = objloc(I, e, st)
        x = e["args"][0]
    else:
        s = stream_root(I, e["args"][0], st)
        x = e["args"][1]
    v = I.ev(x, st)
    I.event("out", st, e.get("l"), stream=s, val=v, vt="char" if x.get("char") else x.get("t"))
    return s


@reg("std::basic_ofstream::open", "std::basic_fstream::open")
def _open(I, e, st):
    a = [I.ev(x, st) for x in e["args"]]
    l = objloc(I, e, st)
    I.event("open", st, e.get("l"), stream=l, path=a[0], mode=a[1:] )
    return UNIT


@reg("std::basic_ofstream::close", "std::basic_ostream::flush", "std::basic_fstream::close")
def _close(I, e, st):
    I.event("close", st, e.get("l"), stream=objloc(I, e, st), what=e["f"])
    return UNIT


@reg("std::ios_base::precision", "std::ios_base::setf", "std::ios_base::width")
def _prec(I, e, st):
    a = [I.ev(x, st) for x in e["args"]]
    I.event("fmt", st, e.get("l"), stream=objloc(I, e, st), args=a)
    return ZERO


@reg("std::basic_ofstream::is_open", "std::basic_ios::operator bool", "std::basic_ios::operator!", "std::basic_ios::good", "std::basic_ios::fail")
def _isopen(I, e, st):
    l = objloc(I, e, st)
    b = mk("bsym", "is_open", loc_key(l))
    return not_(b) if e["f"].endswith(("!", "fail")) else b


# ---------------------------------------------------------------- yaml
@reg("YAML::LoadFile")
def _yl(I, e, st):
    return mk("yfile", I.ev(e["args"][0], st))


@reg("YAML::Node::operator[]")
def _yi(I, e, st):
    return mk("ynode", objval(I, e, st), I.ev(e["args"][0], st))


def ypath(n):
    """(file expr, key, key...) of a yaml node"""
    ks = []
    while n.op == "ynode":
        k = n.a[1]
        ks.append(k.a[0] if k.op == "str" else k)
        n = n.a[0]
    return n, tuple(reversed(ks))


NEUTRAL = None      # key -> constant: read every configuration entry as a constant (P23)


def neutral(key):
    return NEUTRAL.get(key) if NEUTRAL else None


@reg("YAML::Node::as")
def _yas(I, e, st):
    n0 = objval(I, e, st)
    ty = (e.get("ta") or ["?"])[0]
    n = neutral(ypath(n0)[1][-1:][0] if ypath(n0)[1] else None)
    if n is not None:
        return n
    n = mk("yas", n0, ty)
    TY.setdefault(n, ty)
    I.event("yas", st, e.get("l"), node=n0, ty=ty, dflt=bool(e.get("args")))
    if e.get("args"):
        d = I.ev(e["args"][0], st)
        return ite(mk("bsym", "yhas", n0), n, d)
    return n


@reg("YAML::Node::operator bool", "YAML::Node::IsDefined", "YAML::Node::operator!")
def _yb(I, e, st):
    n = objval(I, e, st)
    if n.op != "ynode" and n.op != "yfile":
        return mk("bsym", "yhas", n)
    b = mk("bsym", "yhas", n)
    return not_(b) if e["f"].endswith("!") else b


@reg("YAML::Node::size")
def _ysz(I, e, st):
    n = mk("size", objval(I, e, st))
    return n


# ---------------------------------------------------------------- math
def fn1(name):
    def h(I, e, st):
        return dag.fn(name, I.ev(e["args"][0], st))
    return h


for _f in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sinh", "cosh", "tanh", "sqrt", "floor", "ceil", "round", "cbrt"):
    H[_f] = fn1(_f)
    H["std::" + _f] = fn1(_f)
for _f in ("fabs", "abs", "std::fabs", "std::abs", "labs"):
    H[_f] = fn1("abs")


@reg("pow", "std::pow")
def _pow(I, e, st):
    a, b = (I.ev(x, st) for x in e["args"])
    b = scal(b)
    if b.op == "num" and b.a[0].denominator == 1 and abs(b.a[0]) <= 12:
        return power(a, int(b.a[0]))
    if b is num(Fraction(1, 2)):
        return dag.fn("sqrt", a)
    return dag.fn("pow", a, b)


@reg("atan2", "std::atan2", "fmod", "std::fmod", "hypot", "std::hypot")
def _at2(I, e, st):
    return dag.fn(e["f"].split("::")[-1], *[I.ev(x, st) for x in e["args"]])


@reg("std::min", "std::max")
def _mm(I, e, st):
    a, b = (I.ev(x, st) for x in e["args"][:2])
    c = lt(b, a) if e["f"].endswith("min") else lt(a, b)
    return ite(c, b, a)


@reg("std::isnan", "std::isfinite", "std::isinf", "isnan", "isfinite")
def _isn(I, e, st):
    return mk("bsym", e["f"].split("::")[-1], I.ev(e["args"][0], st))


@reg("__assert_fail", "abort", "exit", "std::abort", "std::exit", "std::terminate", "__assert_perror_fail")
def _dead(I, e, st):
    for a in e.get("args", []):
        pass
    I.event("abort", st, e.get("l"), f=e["f"])
    raise Dead()


@reg("std::exception::what")
def _what(I, e, st):
    return I.fresh("what", "const char*")


# =====================================================================  constructors
def ctor(I, e, st):
    c = e.get("c") or ""
    b = notmpl(c)
    args = e.get("args", [])
    t = e.get("t") or c
    if e.get("copy") and args:
        return I.ev(args[0], st)
    if b in ("Eigen::Matrix", "Eigen::Array"):
        return matrix_ctor(I, e, st, args)
    if b == "Eigen::Quaternion":
        return quat_ctor(I, e, st, args)
    if b == "Eigen::Map":
        vals = [I.ev(a, st) for a in args]
        t = stript(e.get("t") or "")
        sh = list((shape_of_type(stript(t.split("Map<", 1)[1][:-1])) if "Map<" in t else None) or (None, None))
        for k, x in enumerate(vals[1:]):
            if x.op == "num":
                sh[k if len(vals) > 2 or sh[0] is None else 1] = int(x.a[0])
        m = mapped(I, vals[0], tuple(sh), st, e)
        if m is not None:
            return m
    if b.startswith("Eigen::"):
        if len(args) == 1:
            return I.ev(args[0], st)
        vals = [I.ev(a, st) for a in args]
        n = mk("built", b, *vals)
        TY.setdefault(n, stript(t))
        return n
    if b == "ros::Time":
        v = _vals(I, e, st)
        if len(v) == 1:
            return ros_time(v[0])
        return mk("rec", "ros::Time", (("ros::Time::nsec", v[1] if v else ZERO), ("ros::Time::sec", v[0] if v else ZERO)))
    fn = I.F.functions.get(e.get("fid"))
    if fn is not None and fn.get("ctor") and not b.startswith("std::"):
        loc = tmp(I, st, mk("rec", b, ()))
        a = I.ev_args(args, fn["params"], st)
        I.call_fn(fn, I.addr_of(loc), a, st, e.get("l", 0))
        return I.read(st, loc)
    rargs = [a for a in args if not a.get("def") and not stript(a.get("t") or "").startswith("std::allocator")]
    if b in ("std::function", "boost::function") and rargs:
        return I.ev(rargs[0], st)
    if b in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "boost::shared_ptr"):
        if not rargs:
            return NULL
        v = I.ev(rargs[0], st)
        return v
    if b == "std::vector":
        return vector_ctor(I, e, st, rargs)
    if b in QUEUES:
        if not rargs:
            return mk("seq", ())
        return I.ev(rargs[0], st)
    if b in MAPS:
        if not rargs:
            return mk("mempty")
        return I.ev(rargs[0], st) if rargs[0]["k"] != "init" else map_from(I, rargs[0], st)
    if b in ("std::pair", "std::tuple"):
        if len(rargs) >= 2:
            return mk("pair", *[I.ev(a, st) for a in rargs])
        if len(rargs) == 1:
            return I.ev(rargs[0], st)
        return mk("pair", ZERO, ZERO)
    if b == "std::basic_string":
        if not rargs:
            return mk("str", "")
        return I.ev(rargs[0], st)
    if b == "std::atomic":
        if not rargs:
            return ZERO
        return I.ev(rargs[0], st)
    if b == "std::thread":
        if not rargs:
            return mk("thread")
        vals = [I.ev(a, st) for a in rargs]
        n = mk("thread", *vals)
        I.event("thread_start", st, e.get("l"), vals=vals, lams=[I.lams.get(v) for v in vals], ret=n)
        return n
    if b == "ros::Rate":
        v = _vals(I, e, st)
        n = mk("rate", v[0] if v else ZERO)
        I.event("ros", st, e.get("l"), f="ros::Rate::Rate", val=n)
        return n
    if b in ("std::mutex", "std::recursive_mutex", "std::condition_variable"):
        return mk("rec", b, ())
    if b in ("std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream"):
        vals = [I.ev(a, st) for a in rargs]
        if vals:
            I.event("open", st, e.get("l"), stream=None, path=vals[0], mode=vals[1:])
        return mk("rec", b, ())
    if b in ("std::function",) and len(rargs) == 1:
        return I.ev(rargs[0], st)
    if I.F.rec(b) is not None and not args:
        return default_value(I, b, st, e.get("zi"))
    vals = [I.ev(a, st) for a in rargs]
    if len(vals) == 1 and b.startswith("__gnu_cxx::__normal_iterator"):
        return vals[0]
    n = mk("built", b, *vals)
    TY.setdefault(n, stript(t))
    return n


def map_from(I, e, st):
    m = mk("mempty")
    for a in e["a"]:
        p = I.ev(a, st)
        m = mset_map(m, pair_get(p, 0), pair_get(p, 1))
    return m


def vector_ctor(I, e, st, args):
    t = stript(e.get("t") or "")
    if not args:
        return mk("seq", ())
    a0 = args[0]
    x = a0
    while x["k"] == "cast":
        x = x["e"]
    if x["k"] == "init":
        return mk("seq", tuple(I.ev(a, st) for a in x["a"]))
    v = I.ev(a0, st)
    if len(args) == 1 and (v.op == "seq" or notmpl(stript(a0.get("t") or "")) in ("std::vector", "std::initializer_list")):
        return v
    if v.op == "iter" and len(args) == 2:
        w = I.ev(args[1], st)
        n = mk("vrange", v, w)
        TY.setdefault(n, t)
        return n
    n = scal(v)
    fill = I.ev(args[1], st) if len(args) > 1 else (NULL if "shared_ptr" in t else ZERO)
    if n.op == "num" and 0 <= n.a[0] <= 64:
        return mk("seq", tuple([fill] * int(n.a[0])))
    r = mk("vfill", n, fill)
    TY.setdefault(r, t)
    return r


def mapped(I, v, sh, st, e):
    """the matrix read from consecutive elements of a vector or array"""
    if v.op != "addr" or not v.a[0][1] or v.a[0][1][-1][0] != "i" or None in sh or not isinstance(v.a[0][1][-1][1], N):
        return None
    root, path = v.a[0]
    vec = I.read(st, (root, path[:-1]))
    first = path[-1][1]
    n = sh[0] * sh[1]
    for k in (0, n - 1):
        I.event("vidx", st, e.get("l"), loc=(root, path[:-1]), idx=add(first, num(k)), vec=vec, at=False)
    cells = [scal(vget(vec, add(first, num(k)), "double")) for k in range(n)]
    return mat(sh[0], sh[1], [cells[j * sh[0] + i] for i in range(sh[0]) for j in range(sh[1])])


def matrix_ctor(I, e, st, args):
    t = stript(e.get("t") or "")
    sh = shape_of_type(t) or (None, None)
    args = [a for a in args if not a.get("def")]
    if not args:
        return undefM(sh[0] if sh[0] is not None else 0, sh[1] if sh[1] is not None else 0)
    if len(args) == 1:
        a = args[0]
        at = stript(a.get("t") or "")
        if a["k"] == "init":
            cells = [I.ev(x, st) for x in a["a"]]
            if cells and cells[0].op == "seq":
                R = len(cells)
                C = len(cells[0].a[0])
                return mat(R, C, [scal(x) for c in cells for x in c.a[0]])
            return mat(len(cells), 1, [scal(x) for x in cells])
        if at.startswith("Eigen::") or at.startswith("const Eigen::"):
            v = I.ev(a, st)
            if isquat(a):
                return toR(v)
            if sh[0] is not None and sh[1] is not None and shape(v) == (None, None) and v.op not in ("ite", "MP"):
                SHAPE[v] = sh
            return v
        v = I.ev(a, st)
        if at.endswith("*") or is_ptr_type(a.get("t")):
            m = mapped(I, v, sh, st, e)
            if m is not None:
                return m
            n = mk("matptr", v)
            SHAPE.setdefault(n, sh)
            return n
        n = dim(v)
        return undefM(1, n) if sh[0] == 1 else undefM(n, 1)
    vals = [I.ev(a, st) for a in args]
    if len(vals) == 2:
        if sh[0] is None or sh[1] is None:
            return undefM(dim(vals[0]), dim(vals[1]))
    cells = [scal(v) for v in vals]
    if sh[0] == 1:
        return mat(1, len(cells), cells)
    return mat(len(cells), 1, cells)


def quat_ctor(I, e, st, args):
    if not args:
        return mk("quat", *[mk("undef")] * 4)
    vals = [I.ev(a, st) for a in args]
    if len(vals) == 4:
        return mk("quat", *[scal(v) for v in vals])
    if len(vals) == 1:
        at = args[0].get("t") or ""
        if "Quaternion" in at:
            return vals[0]
        if shape(vals[0]) == (3, 3):
            v = vals[0]
            if v.op == "toR":
                return v.a[0]
            n = mk("quatR", v)
            TY.setdefault(n, "Eigen::Quaternion<double,0>")
            return n
        if shape(vals[0]) == (4, 1):
            v = vals[0]
            return mk("quat", el(v, 3, 0), el(v, 0, 0), el(v, 1, 0), el(v, 2, 0))
    n = mk("built", "Eigen::Quaternion", *vals)
    TY.setdefault(n, "Eigen::Quaternion<double,0>")
    return n


dag.EXTRA_REBUILD.update({
    "toR": toR, "qc": lambda q, k: qc(q, k), "rows": lambda M: dnode(rows(M)), "cols": lambda M: dnode(cols(M)),
    "concat": sconcat,
})


# =====================================================================  ROS 1 (declared in tool/stubs)
@reg("boost::bind", "std::bind")
def _bind(I, e, st):
    return mk("bind", *[I.ev(a, st) for a in e["args"]])


@reg("std::ref", "std::cref", "boost::ref", "boost::cref")
def _ref(I, e, st):
    return mk("refto", I.addr_of(I.lv(e["args"][0], st)))


def _vals(I, e, st):
    out = []
    for a in e.get("args", []):
        if a.get("def"):
            continue
        v = I.ev(a, st)
        out.append(I.read(st, v, a.get("t")) if isinstance(v, tuple) else v)
    return out


@reg("ros::NodeHandle::subscribe")
def _rossub(I, e, st):
    a = _vals(I, e, st)
    I.event("subscribe", st, e.get("l"), types=tuple(e.get("ta") or ()), topics=(a[0],), cb=a[-1])
    return I.fresh("subscriber", "ros::Subscriber", a[0])


@reg("message_filters::Synchronizer::registerCallback")
def _rossync(I, e, st):
    s, a = objval(I, e, st), _vals(I, e, st)
    subs = [x for x in s.a[1:] if isinstance(x, N)] if s.op == "built" else []
    topics = tuple(x.a[2] for x in subs if x.op == "built" and x.a[0] == "message_filters::Subscriber" and len(x.a) > 2)
    t = stript(e.get("objt") or "")
    I.event("subscribe", st, e.get("l"), types=(t,), topics=topics, cb=a[0])
    return UNIT


@reg("ros::NodeHandle::advertise")
def _rosadv(I, e, st):
    a = _vals(I, e, st)
    n = mk("publisher", (e.get("ta") or ["?"])[0], a[0])
    TY.setdefault(n, "ros::Publisher")
    I.event("advertise", st, e.get("l"), type=(e.get("ta") or ["?"])[0], topic=a[0])
    return n


@reg("ros::Publisher::publish")
def _rospub(I, e, st):
    a = _vals(I, e, st)
    I.event("publish", st, e.get("l"), pub=objval(I, e, st), val=a[0], loc=objloc(I, e, st))
    return UNIT


@reg("ros::ok", "ros::isShuttingDown")
def _rosok(I, e, st):
    I.event("rosok", st, e.get("l"))
    I.uid += 1
    n = mk("bsym", "ros::ok", I.uid)
    return n if e["f"].endswith("ok") else not_(n)


def ros_time(sec):
    return mk("rec", "ros::Time", (("ros::Time::nsec", mk("fn", "nsec_of", sec)), ("ros::Time::sec", mk("fn", "sec_of", sec))))


def ros_sec(sec, nsec):
    if sec.op == "fn" and sec.a[0] == "sec_of" and nsec.op == "fn" and nsec.a[0] == "nsec_of" and sec.a[1] is nsec.a[1]:
        return sec.a[1]
    return add(sec, div(nsec, num(10 ** 9)))


@reg("ros::Time::toSec", "ros::Duration::toSec")
def _rostosec(I, e, st):
    l = objloc(I, e, st)
    c = e["f"].rsplit("::", 1)[0]
    return ros_sec(I.read(st, (l[0], l[1] + (("f", c + "::sec"),)), "double"), I.read(st, (l[0], l[1] + (("f", c + "::nsec"),)), "double"))


@reg("ros::Time::fromSec")
def _rosfromsec(I, e, st):
    l, a = objloc(I, e, st), _vals(I, e, st)
    I.write(st, l, ros_time(a[0]))
    return l


@reg("ros::Time::now")
def _rosnow(I, e, st):
    return I.fresh("now", "ros::Time")


@reg("ros::Rate::sleep", "ros::Duration::sleep")
def _rossleep(I, e, st):
    I.event("sleep", st, e.get("l"), f=e["f"], val=objval(I, e, st))
    return TRUE


@reg("ros::AsyncSpinner::start", "ros::AsyncSpinner::stop", "ros::waitForShutdown", "ros::spin", "ros::spinOnce", "ros::init", "ros::shutdown",
     "ros::MultiThreadedSpinner::spin", "ros::Subscriber::shutdown")
def _rosnop(I, e, st):
    I.event("ros", st, e.get("l"), f=e["f"])
    return UNIT


@reg("Eigen::MatrixBase::log", "Eigen::MatrixBase::exp")
def _mlog(I, e, st):
    v = objval(I, e, st)
    n = mk("call", "matrix_" + e["f"].split("::")[-1], v)
    SHAPE.setdefault(n, shape(v))
    return n
