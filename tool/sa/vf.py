"""Gated value-flow analysis: one structured pass over the typed syntax tree of a
function (callees inlined through the resolved call graph) which builds, for every
memory location, a gated-SSA value in the hash-consed graph of dag.py, and a list of
the effects (calls, lock operations, queue operations, thread operations, stream
writes) each with the gate under which it happens.

 - both branches of a conditional are analysed once and joined with gated phi nodes
 - loops with a constant trip count are unrolled; all others get mu nodes, computed as
   a fixpoint over the set of modified locations, with congruence of mu nodes
 - pointers are resolved to abstract locations; different pointer values are assumed
   not to alias (checked separately where it matters)
Nothing is executed and no solver is involved.
"""
from .dag import *
from . import dag

MAXDEPTH = 40
MAXUNROLL = 160


class Dead(Exception):
    """all control flow left the current expression (throw / noreturn)"""


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("env", "q", "qe", "locks", "gate")

    def __init__(self):
        self.env = {}
        self.q = {}
        self.qe = 0
        self.locks = {}
        self.gate = TRUE

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.q = dict(self.q)
        s.qe = self.qe
        s.locks = dict(self.locks)
        s.gate = self.gate
        return s


class Frame:
    def __init__(self, fn, this, depth):
        self.fn = fn
        self.this = this
        self.vars = {}
        self.exits = []
        self.depth = depth
        self.guards = []
        self.retref = False
        self.qrefs = {}


class Lambda:
    def __init__(self, node, frame):
        self.node = node
        self.frame = frame
        self.caps = {}


class Event:
    __slots__ = ("kind", "gate", "loops", "line", "file", "fn", "locks", "d", "i", "stack")

    def __repr__(self):
        return "<%s %s:%s %s>" % (self.kind, self.fn, self.line, {k: show(v) if isinstance(v, N) else v for k, v in self.d.items()})

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)


def stript(t):
    t = (t or "").strip()
    while True:
        o = t
        if t.startswith("const "):
            t = t[6:].strip()
        if t.endswith("&") or t.endswith("*"):
            t = t[:-1].strip()
        if t.endswith(" const"):
            t = t[:-6].strip()
        if t == o:
            return t


def pointee(t):
    t = (t or "").strip()
    b = t[6:] if t.startswith("const ") else t
    b = b.rstrip("& ").strip()
    if b.endswith("*"):
        return b[:-1].strip()
    for p in ("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr<", "std::weak_ptr<"):
        if b.startswith(p):
            inner = b[len(p):-1]
            d = 0
            for i, ch in enumerate(inner):
                if ch == "<":
                    d += 1
                elif ch == ">":
                    d -= 1
                elif ch == "," and d == 0:
                    return inner[:i]
            return inner
    return None


def is_ptr_type(t):
    return pointee(t) is not None


def notmpl(t):
    """strip template arguments"""
    out, d = [], 0
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


PLAIN_MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex")
GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
QUEUES = ("std::queue", "std::deque", "std::list", "std::priority_queue")


class Interp:
    def __init__(self, F, opaque=None, dyn=None, assume=None, trace_unknown=True):
        self.F = F
        self.opaque = opaque or {}      # q -> True | handler(interp, e, st, objloc, args)
        self.dyn = dyn or {}            # static class -> dynamic class
        self.events = []
        self.uid = 0
        self.loops = []
        self.stack = []
        self.unknown = {}
        self.loopinfo = {}
        self.assume = assume or {}      # node -> node substitution applied to branch conditions
        self.nfuncs = set()
        self.freed = 0
        self.ftype = {}
        self.lams = {}
        for r in F.records.values():
            for f in r["fields"]:
                self.ftype.setdefault(r["q"] + "::" + f["n"], f["t"])
        self.fid_over = {}
        self.track = None
        self.uninit_reads = []
        self.keep_q = set()          # queues whose content is chosen by the analysis: survives lock acquisitions
        self.on_event = None

    # ------------------------------------------------------------------ helpers
    def fresh(self, what, ty=None, *extra):
        self.uid += 1
        n = mk("fresh", what, self.uid, *extra)
        if ty:
            TY.setdefault(n, ty)
            s = shape_of_type(ty)
            if s:
                SHAPE.setdefault(n, s)
        return n

    def event(self, kind, st, line, **d):
        e = Event()
        e.kind = kind
        e.gate = st.gate
        e.loops = tuple(self.loops)
        e.line = line
        f = self.stack[-1].fn if self.stack else {}
        e.file = f.get("file", "")
        e.fn = f.get("q", "")
        e.locks = dict(st.locks)
        e.stack = tuple(x.fn.get("q", "") for x in self.stack)
        e.d = d
        e.i = len(self.events)
        self.events.append(e)
        if self.on_event is not None:
            self.on_event(e, st)
        return e

    def note_unknown(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    # ------------------------------------------------------------------ memory
    def initval(self, root):
        if root[0] == "o":
            return sym("*" + str(root[1]), root[2] if len(root) > 2 else None)
        if root[0] == "d":
            p = root[1]
            n = mk("deref", p)
            if n not in TY:
                t = pointee(TY.get(p))
                if t:
                    TY[n] = t
                    s = shape_of_type(t)
                    if s:
                        SHAPE.setdefault(n, s)
            return n
        if root[0] == "g":
            return sym(root[1], root[2] if len(root) > 2 else None)
        return mk("uninit", str(root))

    def root_of(self, ptr):
        """root location(s) a pointer value designates: list of (cond, loc)"""
        if ptr.op == "ite":
            a = self.root_of(ptr.a[1])
            b = self.root_of(ptr.a[2])
            at = ptr.a[0]
            return [(and_(at, c), l) for c, l in a] + [(and_(not_(at), c), l) for c, l in b]
        if ptr.op == "obj":
            return [(TRUE, (("o",) + ptr.a, ()))]
        if ptr.op == "addr":
            return [(TRUE, ptr.a[0])]
        if ptr.op == "null":
            return []
        return [(TRUE, (("d", ptr), ()))]

    def deref_loc(self, ptr):
        rs = self.root_of(ptr)
        if len(rs) == 1:
            return rs[0][1]
        if not rs:
            return (("d", ptr), ())
        return (("m", tuple(rs)), ())   # multi-target

    def is_shared_queue(self, loc, ty):
        return loc[0][0] != "v" and notmpl(stript(ty or "")) in QUEUES

    def read(self, st, loc, ty=None):
        root, path = loc
        if self.track is not None and root[0] == "o" and path:
            self.track.append(("r", path[0][1], st.gate, dict(st.locks) if st.locks else {}, self.stack[-1].fn if self.stack else {}, root))
        if root[0] == "m":
            v = None
            for c, l in reversed(root[1]):
                x = self.read(st, (l[0], l[1] + path), ty)
                v = x if v is None else self.join(c, x, v)
            return v
        for i in range(len(path), -1, -1):
            k = (root, path[:i])
            if k in st.q:
                v = st.q[k]
                for s in path[i:]:
                    v = self.get(v, s, ty)
                return v
        if ty is not None and self.is_shared_queue(loc, ty):
            n = mk("qv", loc_key(loc), st.qe)
            TY.setdefault(n, stript(ty))
            st.q[(root, path)] = n
            return n
        v = st.env.get(root)
        if v is None:
            v = self.initval(root)
        for i, s in enumerate(path):
            v = self.get(v, s, ty if i == len(path) - 1 else None)
        if ty and v not in TY and v.op in ("fld", "deref", "idx", "mget", "sym"):
            TY[v] = stript(ty) if not is_ptr_type(ty) else ty
            s = shape_of_type(stript(ty))
            if s and v not in SHAPE:
                SHAPE[v] = s
        return v

    def write(self, st, loc, val, ty=None):
        root, path = loc
        if self.track is not None and root[0] == "o" and path:
            self.track.append(("w", path[0][1], st.gate, dict(st.locks) if st.locks else {}, self.stack[-1].fn if self.stack else {}, root))
        if root[0] == "m":
            for c, l in root[1]:
                l2 = (l[0], l[1] + path)
                old = self.read(st, l2, ty)
                self.write(st, l2, self.join(c, val, old), ty)
            return
        if path and path[-1][0] == "v":      # value view (transpose etc.) not assignable
            pass
        k = (root, path)
        if k in st.q or (ty is not None and self.is_shared_queue(loc, ty)):
            st.q[k] = val
            return
        v = st.env.get(root)
        if v is None:
            v = self.initval(root)
        st.env[root] = self.put(v, path, val)

    def get(self, v, s, ty=None):
        k = s[0]
        if v.op == "ite" and k in ("f", "i", "k"):
            return self.join(v.a[0], self.get(v.a[1], s, ty), self.get(v.a[2], s, ty))
        if k == "f":
            if v.op == "pair":
                return pair_get(v, 0 if s[1].endswith("first") else 1)
            if v.op == "rec":
                for q, x in v.a[1]:
                    if q == s[1]:
                        return x
                return self._fld(v, s[1], ty)
            if v.op == "upd":
                for q, x in v.a[1]:
                    if q == s[1]:
                        return x
                return self.get(v.a[0], s, ty)
            return self._fld(v, s[1], ty)
        if k == "i":
            return vget(v, s[1], ty)
        if k == "k":
            return mget(v, s[1], ty)
        if k == "e":
            return el(v, s[1], s[2])
        if k == "b":
            return blk(v, *s[1:])
        if k == "qf":
            return qfront(v, s[1], ty)
        if k == "t":
            return T(v)
        if k == "diag":
            return mk("diag", v)
        if k == "q":
            from .lib import qc
            return qc(v, s[1])
        raise Unsupported("get " + str(k))

    def _fld(self, v, q, ty):
        n = mk("fld", v, q)
        if n not in TY:
            t = ty or self.ftype.get(q)
            ft = self.ftype.get(q)
            if ft and not ("<T" in ft or ft in ("T",)):
                t = ft
            if t:
                TY[n] = t if is_ptr_type(t) else stript(t)
                s = shape_of_type(TY[n])
                if s:
                    SHAPE.setdefault(n, s)
        return n

    def put(self, v, path, val):
        if not path:
            return val
        s, rest = path[0], path[1:]
        if v.op == "ite" and s[0] in ("f", "i", "k"):
            return self.join(v.a[0], self.put(v.a[1], path, val), self.put(v.a[2], path, val))
        inner = self.put(self.get(v, s), rest, val) if rest else val
        return self.put1(v, s, inner)

    def put1(self, v, s, x):
        k = s[0]
        if k == "f":
            if v.op == "rec":
                d = dict(v.a[1])
                d[s[1]] = x
                return mk("rec", v.a[0], tuple(sorted(d.items())))
            if v.op == "upd":
                d = dict(v.a[1])
                base = v.a[0]
            else:
                d, base = {}, v
            d[s[1]] = x
            if mk("fld", base, s[1]) is x:
                d.pop(s[1])
            if not d:
                return base
            n = mk("upd", base, tuple(sorted(d.items())))
            if base in TY:
                TY.setdefault(n, TY[base])
            return n
        if k == "i":
            return vset(v, s[1], x)
        if k == "k":
            return mset_map(v, s[1], x)
        if k == "e":
            return mset(v, s[1], s[2], 1, 1, s1(scal(x)))
        if k == "b":
            return mset(v, s[1], s[2], s[3], s[4], x)
        if k == "t":
            return T(x)
        if k == "qf":
            return mk("qset", v, s[1], x)
        if k == "diag":
            return mk("setdiag", v, x)
        if k == "q":
            from .lib import qc
            return mk("quat", *[scal(x) if c == s[1] else qc(v, c) for c in "wxyz"])
        raise Unsupported("put " + str(k))

    # ------------------------------------------------------------------ joins
    def join(self, c, a, b):
        """value equal to a where c, else b; records joined field-wise"""
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a.op in ("rec", "upd") and b.op in ("rec", "upd") or (a.op == "upd" and a.a[0] is b) or (
                b.op == "upd" and b.a[0] is a):
            if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
                da, db = dict(a.a[1]), dict(b.a[1])
                ks = set(da) | set(db)
                return mk("rec", a.a[0], tuple(sorted(
                    (q, self.join(c, da.get(q) or self._fld(a, q, None), db.get(q) or self._fld(b, q, None))) for q in ks)))
            ba = a.a[0] if a.op == "upd" else a
            bb = b.a[0] if b.op == "upd" else b
            if ba is bb and ba.op != "rec":
                da = dict(a.a[1]) if a.op == "upd" else {}
                db = dict(b.a[1]) if b.op == "upd" else {}
                d = {}
                for q in set(da) | set(db):
                    x = da.get(q) or self._fld(ba, q, None)
                    y = db.get(q) or self._fld(ba, q, None)
                    d[q] = self.join(c, x, y)
                n = mk("upd", ba, tuple(sorted(d.items())))
                if ba in TY:
                    TY.setdefault(n, TY[ba])
                return n
        n = ite(c, a, b)
        if n.op == "ite" and n not in TY and not _both_bool(n):
            t = TY.get(a) or TY.get(b)
            if t:
                TY[n] = t
        return n

    def merge(self, c, s1, s2):
        """state equal to s1 where c else s2"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = State()
        out.gate = or_(s1.gate, s2.gate)
        e1, e2 = s1.env, s2.env
        for r in e1.keys() | e2.keys():
            a = e1.get(r)
            b = e2.get(r)
            if a is None or b is None:
                if r[0] == "v":
                    out.env[r] = a if a is not None else b   # only live on one side
                    continue
                a = a if a is not None else self.initval(r)
                b = b if b is not None else self.initval(r)
            out.env[r] = a if a is b else self.join(c, a, b)
        if s1.qe == s2.qe:
            out.qe = s1.qe
            for k in s1.q.keys() | s2.q.keys():
                a = s1.q.get(k)
                b = s2.q.get(k)
                if a is None:
                    a = mk("qv", loc_key(k), s1.qe)
                if b is None:
                    b = mk("qv", loc_key(k), s2.qe)
                out.q[k] = a if a is b else self.join(c, a, b)
        else:
            self.uid += 1
            out.qe = self.uid
            for k in s1.q.keys() | s2.q.keys():
                a = s1.q.get(k) or mk("qv", loc_key(k), s1.qe)
                b = s2.q.get(k) or mk("qv", loc_key(k), s2.qe)
                out.q[k] = a if a is b else self.join(c, a, b)
        for k in s1.locks.keys() | s2.locks.keys():
            a = s1.locks.get(k, FALSE)
            b = s2.locks.get(k, FALSE)
            out.locks[k] = a if a is b else ite(c, a, b)
        return out

    def merge_exits(self, entry_gate, lst):
        """lst: [(value|None, state)], mutually exclusive; -> (value, state)"""
        v, s = lst[-1]
        for v1, s1_ in reversed(lst[:-1]):
            c = constrain(s1_.gate, entry_gate)
            # relative to the union of the two
            c = constrain(c, or_(s1_.gate, s.gate)) if True else c
            if v1 is not None and v is not None:
                v = self.join(c, v1, v)
            elif v is None:
                v = v1
            s = self.merge(c, s1_, s)
        return v, s

    # ------------------------------------------------------------------ functions
    def new_obj(self, key, ty=None):
        n = mk("obj", key) if ty is None else mk("obj", key, ty)
        if ty:
            TY.setdefault(n, ty + "*")
        return n

    def run(self, fn, this=None, args=None, st=None):
        """analyse function `fn` as an entry point.  args: list of values (Loc tuple or node);
        -> (value, state, throws)"""
        st = st or State()
        if this is None and fn.get("rec") and not fn.get("static"):
            this = self.new_obj("this", fn["rec"])
        if args is None:
            args = []
            for p in fn["params"]:
                args.append(self.param_sym(p))
        fr = Frame(fn, this, 0)
        try:
            v, s = self.call_fn(fn, this, args, st, fn.get("l", 0))
        except Dead:
            v, s = None, None
        return v, s

    def param_sym(self, p):
        t = p["t"]
        if t.rstrip().endswith("&") and not t.rstrip().endswith("&&"):
            base = stript(t) if not is_ptr_type(t) else t.strip().rstrip("&").strip()
            if base.startswith("const "):
                base = base[6:]
            return (("o", "p:" + p["n"], base), ())
        return sym("p:" + p["n"], t)

    def call_fn(self, fn, this, args, st, line, want_loc=False, lam=None):
        if len(self.stack) > MAXDEPTH:
            raise Unsupported("call depth in " + fn["q"])
        fr = Frame(fn, this, len(self.stack))
        self.uid += 1
        fr.uid = self.uid
        if lam is not None:
            fr.vars.update(lam.frame.vars)
            fr.vars.update(lam.caps)
        fr.retref = (fn.get("ret") or "").rstrip().endswith("&")
        self.nfuncs.add(fn["q"])
        entry_gate = st.gate
        self.stack.append(fr)
        try:
            for i, p in enumerate(fn["params"]):
                a = args[i] if i < len(args) else None
                if a is None:
                    if p.get("def") is not None:
                        a = self.ev(p["def"], st)
                    else:
                        a = self.fresh("arg:" + p["n"], p["t"])
                t = p["t"].rstrip()
                if isinstance(a, tuple):
                    if t.endswith("&"):
                        fr.vars[p["id"]] = a
                        continue
                    a = self.read(st, a, t)
                loc = (("v", fr.uid, p["id"]), ())
                fr.vars[p["id"]] = loc
                st.env[loc[0]] = a
            if fn.get("ctor"):
                self.ctor_inits(fn, fr, st)
            s = st
            if "body" in fn and fn["body"] is not None:
                s = self.ex(fn["body"], st)
        except Dead:
            s = None
        finally:
            self.stack.pop()
        lst = []
        for kind, v, es in fr.exits:
            if kind == "throw":
                if self.stack:
                    self.stack[-1].exits.append((kind, v, es))
                else:
                    self.throws = getattr(self, "throws", []) + [(v, es)]
            elif kind == "return":
                lst.append((v, es))
            else:
                raise Unsupported("stray " + kind)
        if s is not None:
            lst.append((UNIT, s))
        if not lst:
            raise Dead()
        if len(lst) > 1:
            lst = [(self._loc2val(v, es, fn), es) for v, es in lst]
        v, s = self.merge_exits(entry_gate, lst)
        # drop frame locals
        for r in [r for r in s.env if r[0] == "v" and r[1] == fr.uid and not self._escapes(r)]:
            if not fr.retref and lam is None:
                pass
        # write back into caller's state object
        st.env, st.q, st.qe, st.locks, st.gate = s.env, s.q, s.qe, s.locks, s.gate
        return v, st

    def _loc2val(self, v, st, fn):
        if isinstance(v, tuple):
            return self.read(st, v, fn.get("ret"))
        return v

    def _escapes(self, r):
        return True

    def ctor_inits(self, fn, fr, st):
        """member initialisers of constructor fn on object fr.this"""
        for r in self.root_of(fr.this):
            base = r[1]
        cls = fn["rec"]
        for it in fn.get("inits", []):
            if "base" in it:
                b = it["base"]
                e = it.get("e")
                if e is not None:
                    self.construct_into(e, base, st)
            elif "deleg" in it:
                self.construct_into(it["e"], base, st)
            elif "field" in it:
                f = it["field"]
                q = notmpl(cls) + "::" + f
                t = self.ftype.get(q)
                loc = (base[0], base[1] + (("f", q),))
                e = it.get("e")
                if e is None:
                    continue
                v = self.ev_init(e, t, st, loc)
                if v is not None:
                    self.write(st, loc, v, None)

    def construct_into(self, e, loc, st):
        """evaluate constructor expression e so that it initialises the object at loc"""
        if e["k"] == "cast":
            return self.construct_into(e["e"], loc, st)
        if e["k"] == "ctor":
            fn = self.F.functions.get(e.get("fid"))
            if fn is not None and (fn.get("ctor")):
                if e.get("copy"):
                    v = self.ev(e["args"][0], st)
                    self.write(st, loc, v)
                    return
                if callable(self.opaque.get(fn["q"])):
                    self.opaque[fn["q"]](self, dict(e, at=loc), st)
                    return
                args = self.ev_args(e.get("args", []), fn["params"], st)
                ptr = mk("addr", loc)
                self.call_fn(fn, ptr, args, st, e.get("l", 0))
                return
        v = self.ev(e, st)
        if v is not UNIT:
            self.write(st, loc, v)

    def default_rec(self, cls, st, e=None):
        return None

    def fields_of(self, cls):
        r = self.F.rec(notmpl(cls))
        return r

    def ev_args(self, args, params, st):
        out = []
        for i, a in enumerate(args):
            pt = params[i]["t"] if i < len(params) else ""
            out.append(self.ev_arg(a, pt, st))
        return out

    def ev_arg(self, a, pt, st):
        """reference parameters get a location when the argument is an lvalue"""
        if pt.rstrip().endswith("&"):
            l = self.lv(a, st)
            if l is not None:
                if pt.rstrip().endswith("&&"):
                    return self.read(st, l, a.get("t"))
                return l
            v = self.ev(a, st)
            self.uid += 1
            loc = (("v", -self.uid, "tmp"), ())
            st.env[loc[0]] = v
            return loc
        return self.ev(a, st)

    # ------------------------------------------------------------------ statements
    def ex(self, s, st):
        if s is None or st is None:
            return st
        k = s["k"]
        m = getattr(self, "ex_" + k, None)
        if m is None:
            raise Unsupported("statement " + k)
        try:
            return m(s, st)
        except Dead:
            return None

    def ex_nop(self, s, st):
        return st

    def ex_block(self, s, st):
        fr = self.stack[-1]
        ng = len(fr.guards)
        for x in s["b"]:
            st = self.ex(x, st)
            if st is None:
                break
        # RAII: release guards declared in this block, on every way out
        for root, idx in reversed(fr.guards[ng:]):
            outs = [e[2] for e in fr.exits[idx:]]
            if st is not None:
                outs.append(st)
            for o in outs:
                self.release(root, o, s.get("end", s.get("l")))
        del fr.guards[ng:]
        return st

    def release(self, root, st, line):
        v = st.env.get(root)
        if v is None:
            return
        own = self.get(v, ("f", "owns"))
        if v.op == "ite" or own is FALSE:
            pass
        for m in self.guard_mutexes(v):
            old = st.locks.get(m, FALSE)
            if own is FALSE:
                continue
            g = st.gate
            st.gate = and_(g, own)
            self.event("unlock", st, line, mutex=m, raii=True, q=dict(st.q))
            st.gate = g
            st.locks[m] = and_(old, not_(own))
        st.env[root] = self.put1(v, ("f", "owns"), FALSE)

    def guard_mutexes(self, v):
        if v.op == "ite":
            return self.guard_mutexes(v.a[1]) + self.guard_mutexes(v.a[2])
        m = self.get(v, ("f", "m"))
        if m.op == "mutexes":
            return list(m.a)
        return []

    def ex_expr(self, s, st):
        self.ev(s["e"], st)
        return st

    def ex_decl(self, s, st):
        for d in s["d"]:
            self.decl(d, st)
        return st

    def decl(self, d, st):
        fr = self.stack[-1]
        if d.get("k") not in (None, "var"):
            return
        t = d.get("t") or ""
        init = d.get("init")
        self.uid += 1
        root = ("v", fr.uid, d["id"], tuple(self.loops), self.uid if False else 0)
        loc = (root, ())
        base = notmpl(stript(t))
        if d.get("bindings") and init is not None:
            v = self.ev(init, st)
            for i, b in enumerate(d["bindings"]):
                r = ("v", fr.uid, b["id"] if isinstance(b, dict) else b, tuple(self.loops), 0)
                x = pair_get(v, i)
                st.env[r] = x
                fr.vars[b["id"] if isinstance(b, dict) else b] = (r, ())
            return
        if base in GUARDS:
            self.decl_guard(d, root, st)
            fr.vars[d["id"]] = loc
            return
        isref = t.rstrip().endswith("&")
        if isref and init is not None:
            e = init
            while e.get("k") == "cast":
                e = e["e"]
            if e.get("k") == "call" and (e.get("f") or "").split("::")[-1] in ("front", "back") and notmpl(
                    (e.get("f") or "").rsplit("::", 1)[0]) in QUEUES and e.get("obj") is not None:
                # a reference into the queue: every use of the variable reads the element again
                from . import lib
                l = lib.objloc(self, e, st)
                n = len(self.events)
                st.env[root] = self.ev(e, st)
                fr.vars[d["id"]] = loc
                fr.qrefs[d["id"]] = (l, lib.qt(e), "back" if e["f"].endswith("back") else "front", n, st.env[root])
                return
        view = base in ("Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "Eigen::Ref")
        if (isref or view) and init is not None:
            e = init
            while e.get("k") == "cast" or (e.get("k") == "ctor" and e.get("copy") and view):
                e = e["e"] if e["k"] == "cast" else e["args"][0]
            l = self.lv(e, st)
            if l is not None:
                fr.vars[d["id"]] = l
                return
        fr.vars[d["id"]] = loc
        if init is None:
            v = mk("uninit", d["id"] + ("@%d" % len(self.loops)))
            TY.setdefault(v, stript(t))
            rec = self.F.rec(base)
            st.env[root] = v
            return
        v = self.ev_init(init, t, st, loc)
        if v is not None:
            st.env[root] = v

    def ev_init(self, e, t, st, loc):
        """initialiser of a variable/field of type t at loc.  Returns the value or None if the
        constructor already wrote it"""
        x = e
        while x["k"] == "cast" and x.get("ck") in ("ConstructorConversion", "NoOp", "UserDefinedConversion", None):
            x = x["e"]
        if x["k"] == "ctor":
            fn = self.F.functions.get(x.get("fid"))
            if fn is not None and fn.get("ctor") and not x.get("copy") and not fn["q"].startswith("std::"):
                r = mk("rec", notmpl(x["c"]), ())
                self.write(st, loc, r)
                args = self.ev_args(x.get("args", []), fn["params"], st)
                self.call_fn(fn, mk("addr", loc), args, st, x.get("l", 0))
                return None
        if x["k"] == "init" and t and notmpl(stript(t)) not in ("std::vector",):
            rec = self.F.rec(notmpl(stript(t)))
            if rec is not None and rec["fields"]:
                d = {}
                for f, a in zip(rec["fields"], x["a"]):
                    d[rec["q"] + "::" + f["n"]] = self.ev(a, st)
                for f in rec["fields"][len(x["a"]):]:
                    if f.get("builtin"):
                        d[rec["q"] + "::" + f["n"]] = self.ev(f["init"], st) if isinstance(f.get("init"), dict) else self.zero_of(f["t"])
                return mk("rec", rec["q"], tuple(sorted(d.items())))
            if shape_of_type(stript(t)):
                sh = shape_of_type(stript(t))
                cells = [scal(self.ev(a, st)) for a in x["a"]]
                if sh[1] == 1 and sh[0] == len(cells):
                    return mat(sh[0], 1, cells)
            if len(x["a"]) == 1:
                return self.ev(x["a"][0], st)
            if not x["a"]:
                return self.zero_of(t)
        v = self.ev(e, st)
        return self.conv(v, t)

    def zero_of(self, t):
        b = stript(t)
        if is_ptr_type(t):
            return NULL
        if b == "bool":
            return FALSE
        if b in NUMTY or b in ("size_t",):
            return ZERO
        return mk("rec", notmpl(b), ())

    def conv(self, v, t):
        b = stript(t or "")
        if b in ("bool", "_Bool") and not (t or "").rstrip().endswith("*"):
            return truth(v)
        return v

    def decl_guard(self, d, root, st):
        fr = self.stack[-1]
        e = d.get("init")
        ms = []
        while e is not None and e["k"] == "cast":
            e = e["e"]
        defer = False
        adopt = False
        if e is not None and e["k"] == "ctor":
            for a in e.get("args", []):
                at = a.get("t", "")
                if "defer_lock" in str(a.get("q", "")) + at:
                    defer = True
                    continue
                if "adopt_lock" in str(a.get("q", "")) + at:
                    adopt = True
                    continue
                if "try_to_lock" in str(a.get("q", "")) + at:
                    defer = True
                    continue
                l = self.lv(a, st)
                if l is None:
                    v = self.ev(a, st)
                    l = self.deref_loc(v)
                ms.append(loc_key(l))
        st.env[root] = mk("rec", "guard", tuple(sorted({"m": mk("mutexes", *ms), "owns": FALSE if defer else TRUE}.items())))
        if not defer and not adopt:
            for m in ms:
                self.do_lock(m, st, d.get("l"), raii=True)
        fr.guards.append((root, len(fr.exits)))

    def do_lock(self, m, st, line, raii=False):
        self.event("lock", st, line, mutex=m, raii=raii)
        st.locks[m] = TRUE
        self.uid += 1
        st.qe = self.uid
        st.q = {k: v for k, v in st.q.items() if k in self.keep_q} if self.keep_q else {}

    def do_unlock(self, m, st, line):
        self.event("unlock", st, line, mutex=m, raii=False, q=dict(st.q))
        st.locks[m] = FALSE

    def ex_return(self, s, st):
        fr = self.stack[-1]
        v = UNIT
        if s.get("e") is not None:
            if fr.retref:
                l = self.lv(s["e"], st)
                v = l if l is not None else self.ev(s["e"], st)
            else:
                v = self.conv(self.ev(s["e"], st), fr.fn.get("ret"))
                t = fr.fn.get("ret")
                if s["e"]["k"] == "init" and t:
                    v = self.conv_init(v, t)
        fr.exits.append(("return", v, st))
        return None

    def conv_init(self, v, t):
        return v

    def ex_break(self, s, st):
        self.stack[-1].exits.append(("break", None, st))
        return None

    def ex_continue(self, s, st):
        self.stack[-1].exits.append(("continue", None, st))
        return None

    def cond(self, e, st):
        c = truth(self.ev(e, st))
        if self.assume and c.op != "b":
            c = self.assumed(c)
        return c

    def assumed(self, c):
        a = self.assume
        return truth(a(c) if callable(a) else subst(c, a))

    def narrow(self, st, c):
        s = st.clone()
        s.gate = and_(st.gate, c)
        return s

    def ex_if(self, s, st):
        if s.get("init"):
            st = self.ex(s["init"], st)
            if st is None:
                return None
        if s.get("cv"):
            self.decl(s["cv"], st)
        c = self.cond(s["c"], st)
        c = self.simplify_cond(c, st)
        if c is TRUE:
            return self.ex(s["x"], st)
        if c is FALSE:
            return self.ex(s["y"], st) if s.get("y") else st
        s1_, s2_ = self.narrow(st, c), self.narrow(st, not_(c))
        o1 = self.ex(s["x"], s1_)
        o2 = self.ex(s["y"], s2_) if s.get("y") else s2_
        if o1 is None:
            return o2
        if o2 is None:
            return o1
        return self.merge(self.rel(c, o1, o2), o1, o2)

    def rel(self, c, o1, o2):
        return c

    def simplify_cond(self, c, st):
        if c.op == "b":
            return c
        if st.gate is TRUE:
            return c
        x = constrain(c, st.gate)
        if x.op == "b":
            return x
        if implies(st.gate, c):
            return TRUE
        if implies(st.gate, not_(c)):
            return FALSE
        return x

    def ex_switch(self, s, st):
        fr = self.stack[-1]
        if s.get("init"):
            st = self.ex(s["init"], st)
        v = self.ev(s["c"], st)
        if self.assume:
            v = self.assume(v) if callable(self.assume) else subst(v, self.assume)
        # flatten the case list
        items = []
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]

        def flat(x):
            if x["k"] == "case":
                items.append(("case", x))
                if x.get("b"):
                    flat(x["b"])
            elif x["k"] == "default":
                items.append(("default", x))
                if x.get("b"):
                    flat(x["b"])
            else:
                items.append(("stmt", x))
        for x in body:
            flat(x)
        n0 = len(fr.exits)
        matched = FALSE        # some earlier label matched
        alllabels = FALSE
        for kind, x in items:
            if kind == "case":
                alllabels = or_(alllabels, eq(v, self.case_const(x)))
        cur = None             # state flowing (fall through)
        curc = FALSE
        base = st
        for kind, x in items:
            if kind in ("case", "default"):
                g = eq(v, self.case_const(x)) if kind == "case" else not_(alllabels)
                g = self.simplify_cond(g, base)
                if g is FALSE:
                    continue
                ent = self.narrow(base, g)
                if ent.gate is FALSE:
                    continue
                cur = ent if cur is None else self.merge(g, ent, cur)
            else:
                if cur is not None:
                    cur = self.ex(x, cur)
        outs = [cur] if cur is not None else []
        if not any(k == "default" for k, _ in items):
            g = self.simplify_cond(not_(alllabels), base)
            if g is not FALSE:
                outs.append(self.narrow(base, g))
        brk = [e for e in fr.exits[n0:] if e[0] == "break"]
        fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != "break"]
        outs = [e[2] for e in brk] + outs
        outs = [o for o in outs if o.gate is not FALSE]
        if not outs:
            return None
        return self.merge_exits(base.gate, [(None, o) for o in outs])[1]

    def case_const(self, x):
        v = x["v"]
        if isinstance(v, dict):
            return self.ev(v, State())
        return num(int(x["iv"]))

    def ex_try(self, s, st):
        fr = self.stack[-1]
        n0 = len(fr.exits)
        pre = st.clone()
        out = self.ex(s["b"], st)
        thrown = [e for e in fr.exits[n0:] if e[0] == "throw"]
        outs = [out] if out is not None else []
        if s.get("h"):
            fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != "throw"]
            for h in s["h"]:
                b = h.get("b", h) if isinstance(h, dict) else h
                hs = pre.clone()
                f = self.fresh("exception")
                hs.gate = and_(hs.gate, mk("bsym", "caught", f))
                o = self.ex(b, hs)
                if o is not None:
                    outs.append(o)
        if not outs:
            return None
        return self.merge_exits(pre.gate, [(None, o) for o in outs])[1]

    # ------------------------------------------------------------------ loops
    def ex_for(self, s, st):
        if s.get("init"):
            st = self.ex(s["init"], st)
            if st is None:
                return None
        return self.loop(s, st, s.get("c"), s["b"], s.get("inc"))

    def ex_while(self, s, st):
        return self.loop(s, st, s.get("c"), s["b"], None)

    def ex_do(self, s, st):
        return self.loop(s, st, s.get("c"), s["b"], None, post=True)

    def ex_rangefor(self, s, st):
        """range-for as an index loop over the container"""
        rng = s["range"]
        l = self.lv(rng, st)
        if l is None:
            v = self.ev(rng, st)
            self.uid += 1
            l = (("v", self.stack[-1].uid, "range@%d" % s.get("l", 0), tuple(self.loops), 0), ())
            st.env[l[0]] = v
        fr = self.stack[-1]
        idx = (("v", fr.uid, "idx@%d:%d" % (s.get("l", 0), s["var"]["l"] if "l" in s["var"] else 0), tuple(self.loops), 0), ())
        st.env[idx[0]] = ZERO
        var = s["var"]
        rt = rng.get("t")
        ismap = "map" in notmpl(stript(rt or ""))

        def c(st2):
            return lt(self.read(st2, idx), csize(self.read(st2, l, rt)))

        def pre(st2):
            i = self.read(st2, idx)
            t = var.get("t", "")
            eloc = (l[0], l[1] + (("i", i),))
            if t.rstrip().endswith("&") and not ismap:
                fr.vars[var["id"]] = eloc
            else:
                r = ("v", fr.uid, var["id"], tuple(self.loops), 0)
                v = self.read(st2, eloc, stript(t) if not is_ptr_type(t) else t)
                st2.env[r] = v
                fr.vars[var["id"]] = (r, ())
            if var.get("bindings"):
                v = self.read(st2, eloc)
                for i, b in enumerate(var["bindings"]):
                    bid = b["id"] if isinstance(b, dict) else b
                    r = ("v", fr.uid, bid, tuple(self.loops), 0)
                    st2.env[r] = pair_get(v, i)
                    fr.vars[bid] = (r, ())

        def inc(st2):
            st2.env[idx[0]] = add(self.read(st2, idx), ONE)
        return self.loop(s, st, c, s["b"], inc, pre=pre)

    def _evc(self, c, st):
        if c is None:
            return TRUE
        if callable(c):
            x = truth(c(st))
        else:
            x = self.cond(c, st)
            return self.simplify_cond(x, st)
        if self.assume and x.op != "b":
            x = self.assumed(x)
        return self.simplify_cond(x, st)

    def _one_iter(self, st, body, inc, pre):
        """run body (+continue exits) and increment; returns (end state or None, breaks)"""
        fr = self.stack[-1]
        n0 = len(fr.exits)
        if pre:
            pre(st)
        out = self.ex(body, st)
        mine = fr.exits[n0:]
        conts = [e[2] for e in mine if e[0] == "continue"]
        brks = [e[2] for e in mine if e[0] == "break"]
        fr.exits[n0:] = [e for e in mine if e[0] not in ("continue", "break")]
        outs = conts + ([out] if out is not None else [])
        if outs:
            out = self.merge_exits(TRUE, [(None, o) for o in outs])[1]
            if inc is not None:
                if callable(inc):
                    inc(out)
                else:
                    try:
                        self.ev(inc, out)
                    except Dead:
                        out = None
        else:
            out = None
        return out, brks

    def loop(self, s, st, cond, body, inc, post=False, pre=None):
        fr = self.stack[-1]
        line = s.get("l", 0)
        breaks = []
        n = 0
        self.loops.append((fr.fn.get("q"), line, "u"))
        try:
            first = post
            while True:
                if not first:
                    snap = self.snapshot()
                    try:
                        test = st.clone()
                        c = self._evc(cond, test)
                    except Dead:
                        st = None
                        break
                    if c is FALSE:
                        st = test
                        break
                    if c is not TRUE or n >= MAXUNROLL:
                        self.restore(snap)
                        st = self.generic_loop(s, st, cond, body, inc, pre, breaks, post=False)
                        break
                    if n == 0 and c is TRUE and cond is None or (n > 40 and False):
                        self.restore(snap)
                        st = self.generic_loop(s, st, cond, body, inc, pre, breaks, post=False)
                        break
                    st = test
                elif n == 0 and post:
                    # do { } while: peel only when the condition folds
                    snap = self.snapshot()
                    ex0 = len(fr.exits)
                    probe, pb = self._one_iter(st.clone(), body, inc, pre)
                    cc = None
                    if probe is not None:
                        try:
                            cc = self._evc(cond, probe.clone())
                        except Dead:
                            cc = None
                    del fr.exits[ex0:]
                    self.restore(snap)
                    if cc is not None and cc.op != "b":
                        st = self.generic_loop(s, st, cond, body, inc, pre, breaks, post=True)
                        break
                first = False
                self.loops[-1] = (fr.fn.get("q"), line, "u%d" % n)
                st, br = self._one_iter(st, body, inc, pre)
                breaks += br
                n += 1
                if st is None:
                    break
        finally:
            self.loops.pop()
        outs = breaks + ([st] if st is not None else [])
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0]
        return self.merge_exits(TRUE, [(None, o) for o in outs])[1]

    def snapshot(self):
        return (self.uid, len(self.events), len(self.stack[-1].exits), dict(self.stack[-1].vars))

    def restore(self, snap):
        self.uid = snap[0]
        del self.events[snap[1]:]
        del self.stack[-1].exits[snap[2]:]
        self.stack[-1].vars = dict(snap[3])

    def generic_loop(self, s, st, cond, body, inc, pre, breaks, post):
        fr = self.stack[-1]
        line = s.get("l", 0)
        lid = (fr.fn.get("q"), line, "g%d" % self.uid)
        self.loops[-1] = lid
        mod = {}          # key -> None | template
        self_snap = self.snapshot()
        tmpl = {}         # loc -> node (congruence replacement)
        inv_facts = []
        rejected = set()
        for rnd in range(40):
            self.restore(self_snap)
            self.uid += 1
            hs = st.clone()
            mus = {}
            for key in sorted(mod, key=str):
                initv = self.key_read(st, key)
                m = mk("mu", lid, key_str(key))
                t = TY.get(initv) or mod[key]
                if t:
                    TY.setdefault(m, t)
                    sh = SHAPE.get(initv)
                    if sh and m not in SHAPE:
                        SHAPE[m] = sh if mod.get(("shape", key)) is None else (None, None)
                mus[key] = m
                self.key_write(hs, key, m)
            for key, t in tmpl.items():
                if key in mod:
                    self.key_write(hs, key, t)
            hdr = {key: self.key_read(hs, key) for key in mod}
            for f in inv_facts:
                hs.gate = and_(hs.gate, f)
            header = hs.clone()
            if post:
                bst = hs
                end, br = self._one_iter(bst, body, inc, pre)
                if end is not None:
                    c = self._evc(cond, end)
                    ex_state = self.narrow(end, not_(c))
                    ex_state = None if ex_state.gate is FALSE else ex_state
                    end = self.narrow(end, c)
                    if end.gate is FALSE:
                        end = None
                else:
                    ex_state = None
            else:
                try:
                    c = self._evc(cond, hs)
                except Dead:
                    return None
                ex_state = self.narrow(hs, not_(c))
                if ex_state.gate is FALSE or c is TRUE:
                    ex_state = None
                bst = self.narrow(hs, c)
                end, br = self._one_iter(bst, body, inc, pre)
            if end is None:
                # body never reaches the back edge: executed at most once
                nxt = {}
                new = set()
            else:
                new = self.diff(header, end)
                nxt = {key: self.key_read(end, key) for key in mod}
            add_keys = [k for k in new if k not in mod]
            if add_keys:
                for k in add_keys:
                    # drop more specific keys subsumed
                    mod[k] = TY.get(self.key_read(st, k))
                continue
            # shape consistency of mu's
            bad = False
            for key in mod:
                if key in nxt:
                    a, b = shape(self.key_read(st, key)), shape(nxt[key])
                    if a != (None, None) and a != b and mod.get(("shape", key)) is None and key in mus and SHAPE.get(mus[key]) not in (None, (None, None)):
                        pass
            if end is None:
                break
            # congruence: try to express a mu through others
            changed = False
            for key in sorted(mus, key=str):
                if key in tmpl:
                    # verify inductively
                    want = self.subst_mus(tmpl[key], mus, nxt)
                    if want is not nxt[key]:
                        rejected.add(key)
                        del tmpl[key]
                        changed = True
            if changed:
                continue
            for key in sorted(mus, key=str):
                if key in tmpl or key in rejected:
                    continue
                t = self.antiunify(self.key_read(st, key), nxt[key], mus, st, nxt, key)
                if t is not None and not self.cyclic(key, t, tmpl, mus):
                    tmpl[key] = t
                    changed = True
                    break
            if changed:
                continue
            # container-size invariants
            newf = []
            for key, m in mus.items():
                iv = self.key_read(st, key)
                if iv.op in ("qv", "pop", "push", "mu", "seq", "ite") or "queue" in (TY.get(iv) or ""):
                    if key in tmpl:
                        continue
                    f0 = pos(mk("size", m))
                    if f0 in inv_facts or ("inv", key) in rejected:
                        continue
                    try:
                        ok = implies(st.gate, pos(csize(iv))) and implies(end.gate, pos(csize(nxt[key])))
                    except Exception:
                        ok = False
                    if ok:
                        newf.append(f0)
                    rejected.add(("inv", key))
            if newf:
                inv_facts += newf
                continue
            if inv_facts:
                # verify under the assumption (already assumed in this round)
                bad = [f for f in inv_facts if not self.inv_ok(f, mus, nxt, end)]
                if bad:
                    inv_facts = [f for f in inv_facts if f not in bad]
                    continue
            break
        else:
            raise Unsupported("loop fixpoint %s:%d" % (fr.fn.get("q"), line))
        self.loopinfo[lid] = {
            "mu": {m: (self.key_read(st, key), nxt.get(key), key) for key, m in mus.items()},
            "line": line, "fn": fr.fn.get("q"), "file": fr.fn.get("file"),
            "header_gate": header.gate, "end_gate": None if end is None else end.gate,
            "entry_gate": st.gate, "inv": list(inv_facts)}
        breaks += br
        if ex_state is None:
            return None
        return ex_state

    def inv_ok(self, f, mus, nxt, end):
        m = poly(f.a[0])
        for key, mu in mus.items():
            if contains(f, lambda x: x is mu):
                return implies(end.gate, pos(csize(nxt[key])))
        return False

    def subst_mus(self, t, mus, vals):
        return subst(t, {m: vals[k] for k, m in mus.items() if k in vals})

    def cyclic(self, key, t, tmpl, mus):
        deps = {k for k, m in mus.items() if contains(t, lambda x: x is m)}
        seen, stk = set(), list(deps)
        while stk:
            k = stk.pop()
            if k == key:
                return True
            if k in seen:
                continue
            seen.add(k)
            if k in tmpl:
                stk += [k2 for k2, m in mus.items() if contains(tmpl[k], lambda x: x is m)]
        return False

    def antiunify(self, a, b, mus, st, nxt, self_key):
        """find t with t[mu:=init]==a, t[mu:=next]==b, t not a bare hole unless it merges two mus"""
        pairs = {}
        for k, m in mus.items():
            if k == self_key:
                continue
            pairs.setdefault((self.key_read(st, k), nxt[k]), []).append(m)
        if (a, b) in pairs:
            c = [m for m in pairs[(a, b)] if m.id < mus[self_key].id]
            return c[0] if c else None
        if a is b:
            return a

        def au(x, y, d):
            if x is y:
                return x
            if (x, y) in pairs:
                return pairs[(x, y)][0]
            if d > 12 or x.op != y.op:
                return None
            if x.op == "P":
                # match monomials pairwise by structure
                px, py = x.a[0], y.a[0]
                if len(px) != len(py):
                    return None
                used = [False] * len(py)
                out = ZERO
                for m1, c1 in px:
                    hit = None
                    for j, (m2, c2) in enumerate(py):
                        if used[j] or c1 != c2 or len(m1) != len(m2):
                            continue
                        tt = num(c1)
                        ok = True
                        u2 = [False] * len(m2)
                        for at, e in m1:
                            f = None
                            for jj, (at2, e2) in enumerate(m2):
                                if u2[jj] or e != e2:
                                    continue
                                r = au(at, at2, d + 1)
                                if r is not None:
                                    f = r
                                    u2[jj] = True
                                    break
                            if f is None:
                                ok = False
                                break
                            tt = mul(tt, power(f, e))
                        if ok:
                            hit = tt
                            used[j] = True
                            break
                    if hit is None:
                        return None
                    out = add(out, hit)
                return out
            if len(x.a) != len(y.a):
                return None
            args = []
            for p, q in zip(x.a, y.a):
                r = aut(p, q, d)
                if r is None:
                    return None
                args.append(r)
            tmp = mk(x.op, *args)
            if x in TY:
                TY.setdefault(tmp, TY[x])
            if x in SHAPE:
                SHAPE.setdefault(tmp, SHAPE[x])
            return rebuild(tmp, lambda z: z)

        def aut(p, q, d):
            if isinstance(p, N) and isinstance(q, N):
                return au(p, q, d + 1)
            if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                out = []
                for u, v in zip(p, q):
                    r = aut(u, v, d)
                    if r is None:
                        return None
                    out.append(r)
                return tuple(out)
            return p if p == q else None
        t = au(a, b, 0)
        if t is None or t in mus.values():
            return None
        return t

    # location keys used by the loop fixpoint: ('e',root,path) ('q',loc) ('l',mutex)
    def key_read(self, st, key):
        t, self.track = self.track, None
        try:
            return self._key_read(st, key)
        finally:
            self.track = t

    def _key_read(self, st, key):
        if key[0] == "e":
            return self.read(st, (key[1], key[2]))
        if key[0] == "q":
            v = st.q.get(key[1])
            return v if v is not None else mk("qv", loc_key(key[1]), st.qe)
        if key[0] == "l":
            return st.locks.get(key[1], FALSE)
        raise Unsupported(str(key))

    def key_write(self, st, key, v):
        t, self.track = self.track, None
        try:
            self._key_write(st, key, v)
        finally:
            self.track = t

    def _key_write(self, st, key, v):
        if key[0] == "e":
            self.write(st, (key[1], key[2]), v)
        elif key[0] == "q":
            st.q[key[1]] = v
        elif key[0] == "l":
            TY.setdefault(v, "bool")
            st.locks[key[1]] = v

    def diff(self, a, b):
        """locations whose value differs between header state a and end state b"""
        out = set()
        for r in set(a.env) | {r for r in b.env if r[0] != "v"}:
            x = a.env.get(r)
            y = b.env.get(r)
            if y is None:
                continue
            if x is None:
                x = self.initval(r)
            if x is not y:
                self._diffv(("e", r), (), x, y, out)
        if a.qe != b.qe:
            for k in set(a.q):
                if k not in b.q or b.q[k] is not a.q[k]:
                    out.add(("q", k))
        else:
            for k in set(a.q) | set(b.q):
                x = a.q.get(k) or mk("qv", loc_key(k), a.qe)
                y = b.q.get(k) or mk("qv", loc_key(k), b.qe)
                if x is not y:
                    out.add(("q", k))
        for k in set(a.locks) | set(b.locks):
            x, y = a.locks.get(k, FALSE), b.locks.get(k, FALSE)
            if x is not y:
                x = constrain(x, a.gate)
                y = constrain(y, b.gate)
                if x is not y:
                    out.add(("l", k))
        return out

    def _diffv(self, pre, path, x, y, out):
        bx, by = None, None
        if x.op in ("rec", "upd") or y.op in ("rec", "upd"):
            bx = x.a[0] if x.op == "upd" else x
            by = y.a[0] if y.op == "upd" else y
            if bx is by or (x.op == "rec" and y.op == "rec" and x.a[0] == y.a[0]):
                dx = dict(x.a[1]) if x.op in ("upd", "rec") else {}
                dy = dict(y.a[1]) if y.op in ("upd", "rec") else {}
                for q in set(dx) | set(dy):
                    u = dx.get(q) or self._fld(bx, q, None)
                    v = dy.get(q) or self._fld(by, q, None)
                    if u is not v:
                        self._diffv(pre, path + (("f", q),), u, v, out)
                return
        out.add((pre[0], pre[1], path))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        k = e["k"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        v = m(e, st)
        if isinstance(v, tuple):
            v = self.read(st, v, e.get("t"))
        return v

    def ev_int(self, e, st):
        return num(int(e["v"]))

    def ev_float(self, e, st):
        s = (e.get("s") or e["v"]).rstrip("fFlL")
        try:
            return num(Fraction(s))
        except ValueError:
            return num(Fraction(float(e["v"])))

    def ev_bool(self, e, st):
        return TRUE if e["v"] else FALSE

    def ev_str(self, e, st):
        return mk("str", e["v"])

    def ev_null(self, e, st):
        return NULL

    def ev_zero(self, e, st):
        return self.zero_of(e.get("t"))

    def ev_unk(self, e, st):
        self.note_unknown("unk:" + str(e.get("c", e.get("t", ""))))
        return self.fresh("unk", e.get("t"))

    def ev_this(self, e, st):
        return self.stack[-1].this

    def ev_ref(self, e, st):
        dk = e.get("dk")
        if dk == "enum":
            return mk("enum", e.get("et") or e.get("t"), int(e["v"]), e.get("q") or e["n"])
        if dk == "func":
            return mk("fun", e.get("q"), e.get("fid"))
        l = self.lv(e, st)
        if l is None:
            return self.fresh("ref:" + e["n"], e.get("t"))
        v = self.read(st, l, e.get("t"))
        if v.op in ("uninit", "ite") and not l[1] and l[0][0] == "v":
            c = uninit_cond(v)
            if c is not FALSE:
                self.uninit_reads.append((self.stack[-1].fn, e.get("l"), e["n"], and_(st.gate, c), e.get("t")))
        return v

    def ev_mem(self, e, st):
        if e.get("method"):
            return mk("fun", e.get("q"), None)
        l = self.lv(e, st)
        if l is not None:
            return self.read(st, l, e.get("t"))
        b = self.ev(e["b"], st)
        return self.get(b, ("f", e["q"]), e.get("t"))

    def ev_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            x = truth(self.ev(e["x"], st))
            if self.assume and x.op != "b":
                x = self.assumed(x)
            go = x if op == "&&" else not_(x)
            go = self.simplify_cond(go, st)
            if go is FALSE:
                return x
            if go is TRUE:
                y = truth(self.ev(e["y"], st))
                return and_(x, y) if op == "&&" else or_(x, y)
            s2 = self.narrow(st, go)
            try:
                y = truth(self.ev(e["y"], s2))
            except Dead:
                st.gate = and_(st.gate, not_(go))
                return FALSE if op == "&&" else TRUE
            s3 = self.narrow(st, not_(go))
            m = self.merge(go, s2, s3)
            st.env, st.q, st.qe, st.locks, st.gate = m.env, m.q, m.qe, m.locks, m.gate
            return and_(x, y) if op == "&&" else or_(x, y)
        if op == ",":
            self.ev(e["x"], st)
            return self.ev(e["y"], st)
        a, b = self.ev(e["x"], st), self.ev(e["y"], st)
        return self.binop(op, a, b, e.get("t"), e)

    def binop(self, op, a, b, t=None, e=None):
        if op in ("==", "!="):
            r = self.equal(a, b)
            return r if op == "==" else not_(r)
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return not_(lt(b, a))
        if op == ">=":
            return not_(lt(a, b))
        if op == "/":
            it = stript(t or "") in ("int", "long", "unsigned int", "unsigned long", "long long", "size_t", "short", "unsigned long long")
            if not it:
                return self.dist2(lambda x, y: div(x, y), a, b)
            return div(a, b, True)
        if op == "+":
            if a.op in ("iter", "addr") or b.op in ("iter",):
                return iter_add(a, b)
            return add(a, b)
        if op == "-":
            if a.op == "iter":
                return iter_add(a, neg(b)) if b.op != "iter" else sub(a.a[1], b.a[1])
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "%":
            return mod(a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if _both_bool2(a, b):
                if op == "&":
                    return and_(truth(a), truth(b))
                if op == "|":
                    return or_(truth(a), truth(b))
                if op == "^":
                    return not_(eq(truth(a), truth(b)))
            if a.op == "num" and b.op == "num":
                x, y = int(a.a[0]), int(b.a[0])
                return num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            return mk("bitop", op, a, b)
        raise Unsupported("binary " + op)

    def dist2(self, f, a, b):
        return f(a, b)

    def equal(self, a, b):
        if a.op == "iter" and b.op == "iter":
            # iterator comparison: k == size  is  !(k < size)
            ka, kb = a.a[1], b.a[1]
            if kb.op == "size":
                return not_(lt(ka, kb))
            if ka.op == "size":
                return not_(lt(kb, ka))
            return eq(ka, kb)
        if a.op == "finditer" or b.op == "finditer":
            f, o = (a, b) if a.op == "finditer" else (b, a)
            if o.op in ("iter", "enditer"):
                return not_(mhas(f.a[0], f.a[1]))
        return eq(a, b)

    def ev_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            l = self.lv(e["e"], st)
            old = self.read(st, l, e["e"].get("t"))
            new = self.binop("+" if op == "++" else "-", old, ONE, e.get("t"))
            self.write(st, l, new)
            return old if e.get("post") else new
        if op == "&":
            l = self.lv(e["e"], st)
            if l is not None:
                return self.addr_of(l)
            return self.ev(e["e"], st)
        if op == "*":
            p = self.ev(e["e"], st)
            if p.op == "iter":
                return self.read(st, p.a[0] if False else iter_loc(p), e.get("t"))
            return self.read(st, self.deref_loc(p), e.get("t"))
        v = self.ev(e["e"], st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return not_(truth(v))
        if op == "~":
            return mk("bitnot", v)
        raise Unsupported("unary " + op)

    def addr_of(self, l):
        if not l[1] and l[0][0] == "o":
            return mk("obj", *l[0][1:])
        if not l[1] and l[0][0] == "d":
            return l[0][1]
        return mk("addr", l)

    def ev_assign(self, e, st):
        op = e["op"]
        t = e["x"].get("t")
        if op == "=":
            v = self.conv(self.ev(e["y"], st), t)
            l = self.lv(e["x"], st)
        else:
            y = self.ev(e["y"], st)
            l = self.lv(e["x"], st)
            if l is None:
                raise Unsupported("compound assignment target")
            old = self.read(st, l, t)
            v = self.conv(self.binop(op[:-1], old, y, t), t)
        if l is None:
            raise Unsupported("assignment target line %s" % e.get("l"))
        self.event("write", st, e.get("l"), loc=l, val=v)
        self.write(st, l, v, t)
        return v

    def ev_cond(self, e, st):
        c = self.cond(e["c"], st)
        c = self.simplify_cond(c, st)
        if c is TRUE:
            return self.ev(e["x"], st)
        if c is FALSE:
            return self.ev(e["y"], st)
        a, b = self.narrow(st, c), self.narrow(st, not_(c))
        va = vb = None
        try:
            va = self.ev(e["x"], a)
        except Dead:
            a = None
        try:
            vb = self.ev(e["y"], b)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        m = self.merge(c, a, b)
        st.env, st.q, st.qe, st.locks, st.gate = m.env, m.q, m.qe, m.locks, m.gate
        if a is None:
            return vb
        if b is None:
            return va
        return self.join(c, va, vb)

    def ev_sub(self, e, st):
        l = self.lv(e, st)
        if l is not None:
            return self.read(st, l, e.get("t"))
        return vget(self.ev(e["b"], st), self.ev(e["i"], st), e.get("t"))

    def ev_cast(self, e, st):
        ck = e.get("ck")
        v = self.ev(e["e"], st)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return truth(v)
        if ck == "FloatingToIntegral":
            if v.op == "num":
                import math
                return num(math.trunc(v.a[0]))
            n = mk("fn", "trunc", v)
            TY.setdefault(n, "int")
            return n
        if ck == "IntegralCast" and stript(e.get("t", "")) in ("bool",):
            return truth(v)
        if v.op == "enum" and ck in ("IntegralCast", "IntegralToFloating") and "enum" not in (e.get("t") or ""):
            return v
        if ck == "BaseToDerived" or ck == "Dynamic":
            return v
        return v

    def ev_init(self_or, e, *a):      # replaced below
        raise NotImplementedError

    def ev_lambda(self, e, st):
        fr = self.stack[-1]
        L = Lambda(e, fr)
        self.uid += 1
        n = mk("lam", self.uid)
        self.lams[n] = L
        # by-value captures are snapshotted
        for c in e.get("caps", []):
            if isinstance(c, dict) and c.get("init"):
                if c.get("ref"):
                    L.caps[c["id"]] = self.lv(c["init"], st)
                else:
                    r = ("v", -self.uid, c["id"])
                    st.env[r] = self.ev(c["init"], st)
                    L.caps[c["id"]] = (r, ())
            elif isinstance(c, dict) and not c.get("ref") and c.get("id") in fr.vars:
                r = ("v", -self.uid, c["id"])
                st.env[r] = self.read(st, fr.vars[c["id"]])
                L.caps[c["id"]] = (r, ())
        return n

    def ev_new(self, e, st):
        from . import lib
        t = e.get("t", "")
        init = e.get("init")
        while isinstance(init, dict) and init.get("k") in ("cast", "temp") and "args" not in init and isinstance(init.get("e"), dict):
            init = init["e"]
        if not isinstance(init, dict):
            init = {}
        c = dict(init)
        if "args" not in c:
            c["args"] = [init] if init else []
        c.setdefault("l", e.get("l"))
        if not e.get("l") is None:
            c["l"] = e["l"]
        return lib.construct_new(self, t, c, st)

    def ev_delete(self, e, st):
        self.ev(e["e"], st)
        return UNIT

    def ev_throw(self, e, st):
        v = UNIT
        if e.get("e"):
            v = self.ev(e["e"], st)
        self.event("throw", st, e.get("l"))
        self.stack[-1].exits.append(("throw", v, st.clone()))
        raise Dead()

    def ex_throw(self, s, st):
        return self.ex_expr({"e": s}, st)

    def use_qref(self, fr, e, st):
        """a variable that refers to an element of a queue is used"""
        l, t, op, n, val = fr.qrefs[e["id"]]
        shared = self.is_shared_queue(l, t)
        if not shared:
            return
        pre = self.read(st, l, t)
        gone = [x for x in self.events[n:] if x.kind == "qop" and x.d["loc"] == l and x.d["op"] in (
            "pop", "pop_front", "pop_back", "clear", "swap", "assign") and satisfiable(and_(x.gate, st.gate))]
        if gone:
            self.event("dangling", st, e.get("l"), loc=l, key=loc_key(l), at=gone[-1].line)
        else:
            self.event("qop", st, e.get("l"), op=op, loc=l, pre=pre, val=None, shared=shared, key=loc_key(l))

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, st):
        k = e["k"]
        if k == "ref":
            fr = self.stack[-1]
            if e.get("dk") in ("local", "param", "binding", "static"):
                l = fr.vars.get(e["id"])
                if l is not None:
                    if e["id"] in fr.qrefs:
                        self.use_qref(fr, e, st)
                    return l
                for f in reversed(self.stack):
                    if e["id"] in f.vars:
                        return f.vars[e["id"]]
                if e.get("dk") == "static":
                    return (("g", "static:" + e["id"], e.get("t")), ())
                return None
            if e.get("dk") == "global":
                g = self.F.globals.get(e.get("q"))
                if g is not None and g.get("init") is not None and (g.get("t") or "").startswith("const"):
                    return None if False else self.global_const(e, g, st)
                return (("g", e.get("q") or e["n"], e.get("t")), ())
            return None
        if k == "mem":
            if e.get("method"):
                return None
            if e.get("arrow"):
                p = self.ev(e["b"], st)
                b = self.deref_loc(p)
            else:
                b = self.lv(e["b"], st)
                if b is None:
                    v = self.ev(e["b"], st)
                    self.uid += 1
                    b = (("v", -self.uid, "tmp"), ())
                    st.env[b[0]] = v
            if b[0][0] == "d" and not b[1] and b[0][1].op == "finditer":
                it = b[0][1]
                if e["n"] == "first":
                    self.uid += 1
                    r = ("v", -self.uid, "key")
                    st.env[r] = it.a[1]
                    return (r, ())
                ml = it.a[2].a[0]
                return (ml[0], ml[1] + (("k", it.a[1]),))
            return (b[0], b[1] + (("f", e["q"]),))
        if k == "cast":
            if e.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "LValueToRValue", "BaseToDerived",
                               "Dynamic", "BitCast", None, "LValueBitCast"):
                return self.lv(e["e"], st)
            if e.get("ck") == "ConstructorConversion":
                return None
            return None
        if k == "un" and e["op"] == "*":
            p = self.ev(e["e"], st)
            if p.op == "iter":
                return iter_loc(p)
            return self.deref_loc(p)
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, st)
            return self.lv(e["e"], st)
        if k == "assign":
            self.ev(e, st)
            return self.lv(e["x"], st)
        if k == "sub":
            b = self.lv(e["b"], st)
            if b is None:
                p = self.ev(e["b"], st)
                b = self.deref_loc(p)
            elif is_ptr_type(e["b"].get("t")) and not (e["b"].get("t") or "").endswith("]"):
                b = self.deref_loc(self.read(st, b, e["b"].get("t")))
            i = self.ev(e["i"], st)
            return (b[0], b[1] + (("i", i),))
        if k == "cond":
            c = self.cond(e["c"], st)
            c = self.simplify_cond(c, st)
            if c is TRUE:
                return self.lv(e["x"], st)
            if c is FALSE:
                return self.lv(e["y"], st)
            a, b = self.lv(e["x"], st), self.lv(e["y"], st)
            if a is None or b is None:
                return None
            return (("m", ((c, a), (not_(c), b))), ())
        if k == "call":
            from . import lib
            return lib.call_lv(self, e, st)
        if k == "bin" and e["op"] == ",":
            self.ev(e["x"], st)
            return self.lv(e["y"], st)
        return None

    def global_const(self, e, g, st):
        root = ("g", e.get("q"), e.get("t"))
        if root not in st.env:
            try:
                st.env[root] = self.ev(g["init"], st)
            except Unsupported:
                pass
        return (root, ())

    # ------------------------------------------------------------------ calls
    def ev_call(self, e, st):
        from . import lib
        return lib.call(self, e, st)

    def ev_ctor(self, e, st):
        from . import lib
        return lib.ctor(self, e, st)

    def ev_init2(self, e, t, st, loc):
        return Interp.ev_init_impl(self, e, t, st, loc)


# the name ev_init is used for initialisers (with type); `init` expressions dispatch here
def _ev_init_dispatch(self, e, *rest):
    if len(rest) == 1:
        st = rest[0]
        items = [self.ev(a, st) for a in e["a"]]
        t = e.get("t") or ""
        b = notmpl(stript(t))
        if b == "std::array" and len(items) == 1 and items[0].op == "seq" and e["a"][0]["k"] == "init":
            return items[0]
        rec = self.F.rec(b)
        if rec is not None and rec["fields"] and len(items) <= len(rec["fields"]):
            return mk("rec", rec["q"], tuple(sorted((rec["q"] + "::" + f["n"], v) for f, v in zip(rec["fields"], items))))
        if shape_of_type(stript(t)):
            sh = shape_of_type(stript(t))
            if sh[1] == 1 and sh[0] == len(items):
                return mat(sh[0], 1, [scal(x) for x in items])
        return mk("seq", tuple(items))
    t, st, loc = rest
    return Interp.ev_init_impl(self, e, t, st, loc)


def _impl(self, e, t, st, loc):
    x = e
    while x["k"] == "cast" and x.get("ck") in ("ConstructorConversion", "NoOp", "UserDefinedConversion", None):
        x = x["e"]
    if x["k"] == "ctor":
        fn = self.F.functions.get(x.get("fid"))
        if fn is not None and fn.get("ctor") and not x.get("copy") and not fn["q"].startswith("std::"):
            self.write(st, loc, mk("rec", notmpl(x["c"]), ()))
            if callable(self.opaque.get(fn["q"])):
                self.opaque[fn["q"]](self, dict(x, at=loc), st)
                return None
            args = self.ev_args(x.get("args", []), fn["params"], st)
            self.call_fn(fn, self.addr_of(loc), args, st, x.get("l", 0))
            return None
    if x["k"] == "init" and t and notmpl(stript(t)) not in ("std::vector",):
        if len(x["a"]) == 1 and not (self.F.rec(notmpl(stript(t))) and self.F.rec(notmpl(stript(t)))["fields"]):
            return self.conv(self.ev(x["a"][0], st), t)
        if not x["a"]:
            return self.zero_of(t)
        y = dict(x)
        y.setdefault("t", t)
        return self.ev(y, st)
    v = self.ev(e, st)
    return self.conv(v, t)


Interp.ev_init = _ev_init_dispatch
Interp.ev_init_impl = _impl


# ---------------------------------------------------------------------- containers
def uninit_cond(v):
    """condition under which v is an indeterminate value"""
    if v.op == "uninit":
        return TRUE
    if v.op == "ite":
        a, b = uninit_cond(v.a[1]), uninit_cond(v.a[2])
        if a is FALSE and b is FALSE:
            return FALSE
        return or_(and_(v.a[0], a), and_(not_(v.a[0]), b))
    return FALSE


def loc_key(loc):
    return mk("loc", loc)


def key_str(key):
    return str(key)


def _both_bool(n):
    return dag._isboolean(n)


def _both_bool2(a, b):
    return dag._isboolean(a) and dag._isboolean(b)


def csize(v):
    if v.op == "seq":
        return num(len(v.a[0]))
    if v.op == "ite":
        return ite(v.a[0], csize(v.a[1]), csize(v.a[2]))
    if v.op == "push":
        return add(csize(v.a[0]), ONE)
    if v.op == "pop":
        return sub(csize(v.a[0]), ONE)
    if v.op == "popb":
        return sub(csize(v.a[0]), ONE)
    if v.op in ("vset", "qset"):
        return csize(v.a[0])
    if v.op == "vfill":
        return v.a[0]
    if v.op == "str":
        return num(len(v.a[0]))
    if v.op == "rec" and not v.a[1]:
        return ZERO
    return mk("size", v)


def _typ(n, ty):
    if ty and n not in TY and n.op not in ("ite", "b", "num"):
        TY[n] = ty if is_ptr_type(ty) else stript(ty)
        s = shape_of_type(TY[n])
        if s:
            SHAPE.setdefault(n, s)
    return n


def elem_type(t):
    t = stript(t or "")
    m = re.match(r"std::(?:vector|queue|deque|list|array)<(.*)>$", t)
    if not m:
        return None
    inner = m.group(1)
    d = 0
    for i, ch in enumerate(inner):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "," and d == 0:
            return inner[:i]
    return inner


def vget(v, i, ty=None):
    i = scal(i)
    if v.op == "seq" and i.op == "num":
        k = int(i.a[0])
        if 0 <= k < len(v.a[0]):
            return v.a[0][k]
        return mk("oob", v, k)
    if v.op == "ite":
        return ite(v.a[0], vget(v.a[1], i, ty), vget(v.a[2], i, ty))
    if v.op == "vset":
        if v.a[1] is i:
            return v.a[2]
        d = sub(v.a[1], i)
        if d.op == "num":
            return vget(v.a[0], i, ty)
    if v.op == "vfill":
        return v.a[1]
    if v.op == "popb":
        return vget(v.a[0], i, ty)
    if v.op == "push":
        d = sub(csize(v.a[0]), i)
        if d is ZERO:
            return v.a[1]
        if d.op == "num" and d.a[0] > 0:
            return vget(v.a[0], i, ty)
    if v.op == "str" and i.op == "num":
        return mk("chr", v, int(i.a[0]))
    if v.op == "sym" and shape_of_type(TY.get(v) or ""):
        return el(v, i, 0)
    n = mk("idx", v, i)
    return _typ(n, elem_type(TY.get(v)) or ty)


def vset(v, i, x):
    i = scal(i)
    if v.op == "seq" and i.op == "num":
        k = int(i.a[0])
        if 0 <= k < len(v.a[0]):
            l = list(v.a[0])
            l[k] = x
            return mk("seq", tuple(l))
    if v.op == "vset" and v.a[1] is i:
        return mk("vset", v.a[0], i, x)
    if v.op == "vset":
        d = sub(v.a[1], i)
        if d.op == "num" and d.a[0] > 0:
            n = mk("vset", vset(v.a[0], i, x), v.a[1], v.a[2])
            if v in TY:
                TY.setdefault(n, TY[v])
            return n
    if vget(v, i) is x and v.op in ("sym", "fld", "vset"):
        return v
    n = mk("vset", v, i, x)
    if v in TY:
        TY.setdefault(n, TY[v])
    return n


def vpush(v, x):
    if v.op == "seq":
        return mk("seq", v.a[0] + (x,))
    if v.op == "rec" and not v.a[1]:
        return mk("seq", (x,))
    n = mk("push", v, x)
    if v in TY:
        TY.setdefault(n, TY[v])
    return n


def vpopb(v):
    if v.op == "seq" and v.a[0]:
        return mk("seq", v.a[0][:-1])
    if v.op == "push":
        return v.a[0]
    if v.op == "vset":
        # popping the last element forgets a write to it
        d = sub(sub(csize(v), ONE), v.a[1])
        if d is ZERO:
            return vpopb(v.a[0])
        if d.op == "num" and d.a[0] > 0:
            return vset(vpopb(v.a[0]), v.a[1], v.a[2])
    n = mk("popb", v)
    if v in TY:
        TY.setdefault(n, TY[v])
    return n


def qfront(v, which="front", ty=None):
    if v.op == "seq" and v.a[0]:
        return v.a[0][0] if which == "front" else v.a[0][-1]
    if v.op == "ite":
        return ite(v.a[0], qfront(v.a[1], which, ty), qfront(v.a[2], which, ty))
    if v.op == "push" and which == "back":
        return v.a[1]
    n = mk("qf", v, which)
    return _typ(n, elem_type(TY.get(v)) or ty)


def qpop(v):
    if v.op == "seq" and v.a[0]:
        return mk("seq", v.a[0][1:])
    if v.op == "ite":
        return ite(v.a[0], qpop(v.a[1]), qpop(v.a[2]))
    n = mk("pop", v)
    if v in TY:
        TY.setdefault(n, TY[v])
    return n


def _keydiff(a, b):
    if a is b:
        return True
    d = None
    if dag._numeric(a) and dag._numeric(b):
        d = sub(scal(a), scal(b))
        if d is ZERO:
            return True
        if d.op == "num":
            return False
    elif is_const(a) and is_const(b):
        return False
    return None


def mget(v, k, ty=None):
    if v.op == "mset":
        r = _keydiff(v.a[1], k)
        if r is True:
            return v.a[2]
        if r is False:
            return mget(v.a[0], k, ty)
    if v.op == "merase":
        if _keydiff(v.a[1], k) is False:
            return mget(v.a[0], k, ty)
    if v.op == "ite":
        return ite(v.a[0], mget(v.a[1], k, ty), mget(v.a[2], k, ty))
    n = mk("mget", v, k)
    return _typ(n, ty)


def mset_map(v, k, x):
    if v.op == "mset" and v.a[1] is k:
        return mk("mset", v.a[0], k, x)
    n = mk("mset", v, k, x)
    if v in TY:
        TY.setdefault(n, TY[v])
    return n


def mhas(v, k):
    if v.op == "mset":
        r = _keydiff(v.a[1], k)
        if r is True:
            return TRUE
        if r is False:
            return mhas(v.a[0], k)
    if v.op == "merase":
        r = _keydiff(v.a[1], k)
        if r is True:
            return FALSE
        if r is False:
            return mhas(v.a[0], k)
    if v.op == "mempty":
        return FALSE
    if v.op == "rec" and not v.a[1]:
        return FALSE
    if v.op == "ite":
        return ite(v.a[0], mhas(v.a[1], k), mhas(v.a[2], k))
    return mk("mhas", v, k)


def pair_get(v, i):
    if v.op == "seq" and i < len(v.a[0]):
        return v.a[0][i]
    if v.op == "ite":
        return ite(v.a[0], pair_get(v.a[1], i), pair_get(v.a[2], i))
    if v.op == "pair":
        return v.a[i]
    return mk("pget", v, i)


def iter_loc(p):
    return (p.a[0].a[0][0], p.a[0].a[0][1] + (("i", p.a[1]),))


def iter_add(a, b):
    if a.op == "iter":
        return mk("iter", a.a[0], add(a.a[1], b))
    if b.op == "iter":
        return mk("iter", b.a[0], add(b.a[1], a))
    return mk("ptradd", a, b)


dag.EXTRA_REBUILD.update({
    "size": lambda v: csize(v), "idx": vget, "vset": vset, "push": vpush, "pop": qpop, "popb": vpopb,
    "qf": qfront, "mget": mget, "mset": mset_map, "mhas": mhas, "pget": pair_get,
    "upd": lambda b, d: _upd(b, d), "fld": lambda v, q: _fldget(v, q),
})


def _upd(b, d):
    if b.op == "rec":
        x = dict(b.a[1])
        x.update(dict(d))
        return mk("rec", b.a[0], tuple(sorted(x.items())))
    if b.op == "upd":
        x = dict(b.a[1])
        x.update(dict(d))
        return mk("upd", b.a[0], tuple(sorted(x.items())))
    return mk("upd", b, d)


def _fldget(v, q):
    if v.op in ("rec", "upd"):
        for k, x in v.a[1]:
            if k == q:
                return x
        if v.op == "upd":
            return _fldget(v.a[0], q)
    if v.op == "ite":
        return ite(v.a[0], _fldget(v.a[1], q), _fldget(v.a[2], q))
    return mk("fld", v, q)
