"""P01-P04: queue/mutex discipline and background threads."""
from ..dag import *
from .. import dag, lib
from ..vf import Interp, State, Frame, Dead, loc_key, csize, stript, notmpl, pointee, QUEUES, PLAIN_MUTEX, is_ptr_type
from ..facts import AnalysisBroken

MUT = PLAIN_MUTEX


def all_calls(F):
    called = set()

    def w(x):
        if isinstance(x, dict):
            if x.get("k") in ("call", "ctor") and x.get("fid"):
                called.add(x["fid"])
            for v in x.values():
                w(v)
        elif isinstance(x, list):
            for v in x:
                w(v)
    for f in F.functions.values():
        for k in ("body", "inits"):
            if f.get(k):
                w(f[k])
    return called


def entries(F):
    called = all_calls(F)
    out = []
    for f in F.functions.values():
        if "body" not in f and not f.get("ctor"):
            continue
        if "kinematics/robots" in (f.get("file") or ""):
            continue
        if f.get("rec"):
            helper = f.get("access") in (1, 2) and not f.get("virt")
        else:
            helper = f.get("linkage") in ("internal", "static") or "(anonymous" in f["q"]
        if helper and f["fid"] in called:
            continue
        out.append(f)
    return out


def touches(F, f, memo):
    """does f (transitively, through resolved calls) use queues, mutexes or threads?"""
    fid = f["fid"]
    if fid in memo:
        return memo[fid]
    memo[fid] = False
    hit = [False]

    def w(x):
        if hit[0]:
            return
        if isinstance(x, dict):
            if x.get("k") in ("call", "ctor"):
                n = x.get("f") or x.get("c") or ""
                if any(n.startswith(p) for p in ("std::queue", "std::deque", "std::list", "std::mutex", "std::lock", "std::unique_lock", "std::scoped",
                                                 "std::thread", "std::condition", "std::atomic", "std::shared_mutex", "std::recursive")):
                    hit[0] = True
                    return
                if n == "std::swap" or n == "std::make_shared":
                    hit[0] = True
                    return
                g = F.functions.get(x.get("fid"))
                if g is not None and touches(F, g, memo):
                    hit[0] = True
                    return
            for v in x.values():
                w(v)
        elif isinstance(x, list):
            for v in x:
                w(v)
    if f.get("ctor"):
        hit[0] = True
    for p in f["params"]:
        if "queue" in p["t"] or "mutex" in p["t"]:
            hit[0] = True
    w(f.get("body"))
    w(f.get("inits"))
    memo[fid] = hit[0]
    return hit[0]


class Run:
    """result of analysing one entry"""
    pass


def run_entry(F, f, lam=None, this=None):
    r = Run()
    r.this = this
    r.fn = f
    I_ = Interp(F)
    I_.track = []
    r.I = I_
    r.out = None
    if lam is not None:
        st = State()
        fn = lib.pseudo_fn(lam, f["q"] + "::thread")
        r.fn = dict(fn)
        r.fn["fid"] = f["fid"] + "#thread"
        try:
            v, s = I_.call_fn(fn, this, [], st, lam.node.get("l"), lam=lam)
        except Dead:
            s = None
        r.out = s
        return r
    v, s = I_.run(f)
    r.out = s
    return r


_cache = {}


def universe(ctx):
    groups = ["core", "inst"]
    key = tuple(groups)
    if key in _cache:
        return _cache[key]
    F = ctx.facts(*groups)
    memo = {}
    runs = []
    for f in entries(F):
        if not touches(F, f, memo):
            continue
        r = run_entry(F, f)
        runs.append(r)
        ctx.used(r.I)
        for e in list(r.I.events):
            if e.kind == "thread_start":
                for L in e.d["lams"]:
                    if L is not None:
                        t = run_entry(F, f, lam=L, this=L.frame.this)
                        t.thread = True
                        t.owner = f.get("rec")
                        runs.append(t)
                        ctx.used(t.I)
    _cache[key] = (F, runs)
    return F, runs


# ------------------------------------------------------------- naming of locations
def ab(n):
    """(abstract name, context nodes) of a pointer-valued node or loc"""
    if n.op == "loc":
        (root, path) = n.a[0]
        if root[0] == "d":
            a, c = ab(root[1])
        elif root[0] == "o":
            a, c = ("" if not str(root[1]).startswith("p:") else "param " + root[1][2:]), (root,)
        elif root[0] == "v":
            return None, ()
        elif root[0] == "g":
            a, c = root[1], ()
        else:
            return None, ()
        for s in path:
            if s[0] == "f":
                a = s[1]
            elif s[0] in ("i", "k"):
                a += "[]"
                c = c + (s[1],)
            else:
                return None, ()
        return a, c
    if n.op == "fld":
        b = n.a[0]
        return n.a[1], (ctxnode(b),)
    if n.op in ("idx", "mget"):
        a, c = ab(n.a[0])
        if a is None:
            return None, ()
        return a + "[]", c + (n.a[1],)
    if n.op == "pget":
        a, c = ab(n.a[0])
        if a is None:
            return None, ()
        return a + ".%d" % n.a[1], c
    if n.op == "sym":
        return "param " + str(n.a[0])[2:], ()
    if n.op == "obj":
        return "new", (n,)
    return None, ()


def ctxnode(b):
    return b


def qp_types(p):
    t = p["t"]
    inner = pointee(stript(t) if not is_ptr_type(t) else t)
    base = notmpl(stript(t))
    if inner:
        i = notmpl(stript(inner))
        if i in QUEUES:
            return "q"
        if i in MUT:
            return "m"
    if t.rstrip().endswith("&"):
        if base in QUEUES:
            return "q"
        if base in MUT:
            return "m"
    return None


def param_pairs(f):
    qs = [p for p in f["params"] if qp_types(p) == "q"]
    ms = [p for p in f["params"] if qp_types(p) == "m"]
    if not qs or not ms:
        return []
    if len(qs) == len(ms):
        return list(zip(qs, ms))
    out = []
    for q in qs:
        i = f["params"].index(q)
        nxt = [m for m in ms if f["params"].index(m) > i]
        if nxt:
            out.append((q, nxt[0]))
    return out


def places(r, node):
    """abstract names of the member locations (of any object) that hold `node` at exit of run r"""
    out = set()
    if r.out is None:
        return out
    for root, v in r.out.env.items():
        if root[0] not in ("o", "d"):
            continue
        find_in(v, node, "", out, root)
    return out


def find_in(v, node, name, out, root):
    if v is node:
        if name:
            out.add((name, str(root)))
        return
    if v.op in ("rec", "upd"):
        for q, x in v.a[1]:
            find_in(x, node, q, out, root)
        if v.op == "upd" and v.a[0].op == "rec":
            find_in(v.a[0], node, name, out, root)
        return
    if v.op == "ite":
        find_in(v.a[1], node, name, out, root)
        find_in(v.a[2], node, name, out, root)
        return
    if v.op == "seq":
        for x in v.a[0]:
            find_in(x, node, name + "[]", out, root)
        return
    if v.op in ("push",):
        find_in(v.a[0], node, name, out, root)
        find_in(v.a[1], node, name + "[]", out, root)
        return
    if v.op == "mset":
        find_in(v.a[0], node, name, out, root)
        find_in(v.a[2], node, name + "[]", out, root)
        return
    if v.op == "pair":
        for i, x in enumerate(v.a):
            find_in(x, node, name + ".%d" % i, out, root)


def pairs(ctx, F, runs):
    """queue member -> {mutex member} from what constructors and adders store together"""
    P = {}
    src = {}
    for r in runs:
        f = r.fn
        for q, m in param_pairs(f):
            if q["t"].rstrip().endswith("&") and not is_ptr_type(q["t"]):
                continue
            qn, mn = sym("p:" + q["n"]), sym("p:" + m["n"])
            pq, pm = places(r, qn), places(r, mn)
            for a, root in pq:
                ms = {b for b, rt in pm if rt == root}
                if a in P:
                    src[a].append((f, ms))
                    P[a] = P[a] & ms if ms else P[a]
                else:
                    P[a] = set(ms)
                    src[a] = [(f, ms)]
    return P, src


def p01(ctx):
    F, runs = universe(ctx)
    ctx.rule("P01.held", "every operation on a shared queue happens while the mutex paired with that queue is held on every path")
    ctx.rule("P01.pair", "a queue and the mutex handed over with it are stored together, and every constructor/adder stores the same pair")
    P, src = pairs(ctx, F, runs)
    for a, lst in sorted(src.items()):
        for f, ms in lst:
            ok = bool(ms) and bool(P[a] & ms)
            ctx.ob("P01.pair", ok, "%s <- %s" % (a, f["q"]),
                   "queue stored in %s without the mutex that was passed with it (stored mutexes: %s)" % (a, sorted(ms) or "none"),
                   file=f.get("file"), line=f.get("l"), fn=f["q"], sample="mutex " + ",".join(sorted(ms)))
    # accesses
    acc = []
    for r in runs:
        pp = {q["n"]: m["n"] for q, m in param_pairs(r.fn)}
        for e in r.I.events:
            if e.kind != "qop" or not e.d.get("shared", True):
                continue
            loc = e.d["loc"]
            for c, l in (loc[0][1] if loc[0][0] == "m" else ((TRUE, loc),)):
                root = l[0]
                if root[0] == "o" and str(root[1]).startswith("heap"):
                    continue
                if root[0] == "v":
                    continue
                if r.fn.get("ctor") and root[0] == "o" and root[1] == "this":
                    continue
                a, cx = ab(loc_key(l))
                held = []
                for m, hv in e.locks.items():
                    if implies(and_(e.gate, c), hv):
                        held.append(ab(m))
                acc.append((r, e, a, cx, held, pp))
    internal = {}
    for r, e, a, cx, held, pp in acc:
        if a in P or a is None or a.startswith("param "):
            continue
        internal.setdefault(a, []).append({h for h, _ in held if h is not None})
    guess = {}
    for a, sets in internal.items():
        common = set.intersection(*sets) if sets else set()
        if common:
            guess[a] = common
        else:
            cnt = {}
            for s in sets:
                for h in s:
                    cnt[h] = cnt.get(h, 0) + 1
            best = max(cnt.values()) if cnt else 0
            guess[a] = {h for h, n in cnt.items() if n == best and best > 0}
    for r, e, a, cx, held, pp in acc:
        if a is None:
            raise AnalysisBroken("P01: cannot name the queue accessed at %s:%s" % (e.file, e.line))
        if a.startswith("param "):
            pn = a[6:]
            if pn not in pp:
                continue           # helper working on a caller's queue: judged at its call sites
            need = {"param " + pp[pn]}
            ok = any(h in need for h, _ in held)
        elif a in P:
            need = P[a]
            ok = any(h in need and hc == cx for h, hc in held)
        else:
            need = guess[a]
            ok = bool(need) and any(h in need for h, _ in held)
        ctx.ob("P01.held", ok, "%s %s in %s" % (short(a), e.d["op"], e.fn),
               "%s() on queue %s without holding %s" % (e.d["op"], short(a), " / ".join(sorted(short(x) for x in need)) or "any mutex (accesses share no common mutex)"),
               sample="holding " + ", ".join(sorted(short(h) for h, _ in held if h)), **ctx.at(e))
    ctx.require("P01.held", 25, "shared queue operations")
    ctx.require("P01.pair", 6, "queue/mutex pairs")


def short(a):
    return a.split("::")[-1] if a else str(a)


def p02(ctx):
    F, runs = universe(ctx)
    ctx.rule("P02.exit", "no mutex acquired by a call is still held when the call returns or throws")
    ctx.rule("P02.double", "a mutex is never locked on a path on which it is already held")
    ctx.rule("P02.unlock", "a mutex is only unlocked where it is held on every path")
    ctx.rule("P02.order", "the order in which different mutexes are nested has no cycle")
    ctx.rule("P02.block", "nothing that can block indefinitely (join, sleep, a filter step) happens while a queue mutex is held")
    edges = {}
    for r in runs:
        locked = {}
        for e in r.I.events:
            if e.kind in ("lock", "trylock"):
                m = e.d["mutex"]
                locked.setdefault(m, e)
                h = e.locks.get(m, FALSE)
                bad = h is not FALSE and satisfiable(and_(e.gate, h))
                ctx.ob("P02.double", not bad, "%s in %s" % (mname(m), e.fn),
                       "locks %s while it may already be held by the same thread" % mname(m), **ctx.at(e))
                for m2, h2 in e.locks.items():
                    if m2 is not m and h2 is not FALSE and satisfiable(and_(e.gate, h2)):
                        edges.setdefault((mname(m2), mname(m)), e)
            elif e.kind == "unlock" and not e.d.get("raii"):
                m = e.d["mutex"]
                h = e.locks.get(m, FALSE)
                ctx.ob("P02.unlock", implies(e.gate, h), "%s in %s" % (mname(m), e.fn),
                       "unlocks %s on a path on which it is not held" % mname(m), **ctx.at(e))
            elif e.kind in ("thread_join", "sleep", "vcall", "wait"):
                hs = [m for m, h in e.locks.items() if h is not FALSE and satisfiable(and_(e.gate, h))]
                if e.kind == "vcall" and not heavy(e.d["f"]):
                    continue
                ctx.ob("P02.block", not hs, "%s in %s" % (e.d.get("f") or e.kind, e.fn),
                       "%s while holding %s" % (e.d.get("f") or e.kind, ", ".join(mname(m) for m in hs)), **ctx.at(e))
        outs = [("return", r.out)] if r.out is not None else []
        outs += [("throw", s) for _, s in getattr(r.I, "throws", [])]
        for m, e in locked.items():
            for how, s in outs:
                h = s.locks.get(m, FALSE)
                bad = h is not FALSE and satisfiable(and_(s.gate, h))
                ctx.ob("P02.exit", not bad, "%s at %s of %s" % (mname(m), how, r.fn["q"]),
                       "%s may still be held at a %s of %s" % (mname(m), how, r.fn["q"]),
                       file=e.file, line=e.line, fn=r.fn["q"], sample="acquired at line %s, released on every path" % e.line)
    # cycles
    g = {}
    for (a, b) in edges:
        g.setdefault(a, set()).add(b)
    for (a, b), e in sorted(edges.items()):
        seen, stk = set(), [b]
        while stk:
            x = stk.pop()
            if x in seen:
                continue
            seen.add(x)
            stk += g.get(x, ())
        ctx.ob("P02.order", a not in seen or a == b, "%s -> %s" % (a, b),
               "locks %s while holding %s, and elsewhere the other way round" % (b, a), **ctx.at(e))
    ctx.notes.append("lock nesting edges: %s" % sorted(edges))
    ctx.require("P02.exit", 15, "lock acquisitions")
    ctx.require("P02.double", 20, "lock operations")


def heavy(f):
    return f.split("::")[-1] in ("Propagate", "Correct", "initialize", "set_initial_state", "RunOnce", "ComputeKinematics")


def mname(m):
    a, c = ab(m)
    return short(a) if a else show(m, 4)


def p03(ctx):
    F, runs = universe(ctx)
    ctx.rule("P03.nonempty", "front()/back()/pop() on a queue only where the same critical section has established that it is not empty")
    for r in runs:
        for e in r.I.events:
            if e.kind == "dangling":
                a, _ = ab(e.d["key"])
                ctx.ob("P03.nonempty", False, "%s reference in %s" % (short(a) if a else "queue", e.fn),
                       "uses a reference to an element of %s that was removed at line %s" % (short(a) if a else "a queue", e.d["at"]), **ctx.at(e))
                continue
            if e.kind != "qop" or e.d["op"] not in ("front", "back", "pop", "pop_front", "top"):
                continue
            ok = implies(e.gate, pos(csize(e.d["pre"])))
            a, _ = ab(e.d["key"])
            ctx.ob("P03.nonempty", ok, "%s %s in %s" % (short(a) if a else "queue", e.d["op"], e.fn),
                   "%s() on %s without a non-emptiness check in the same critical section" % (e.d["op"], short(a) if a else "queue"),
                   sample="guarded", **ctx.at(e))
    ctx.require("P03.nonempty", 20, "front/pop operations")


# ---------------------------------------------------------------- P04: background threads
def field_of(loc):
    """(root, field) of a direct member location"""
    if loc is None:
        return None
    root, path = loc
    if root[0] == "o" and len(path) == 1 and path[0][0] == "f":
        return root, path[0][1]
    return None


def loops_of(r):
    """[(loopinfo, is_outermost)] of the loops of a thread run"""
    return list(r.I.loopinfo.items())


def p04(ctx):
    F, runs = universe(ctx)
    ctx.rule("P04.poll", "every iteration of a thread's main loop tests an atomic stop flag, and every other loop in the thread is bounded or tests it too")
    ctx.rule("P04.join", "the owner's destructor raises the stop flag before it joins, joins (never detaches) and joins exactly when the thread was started")
    ctx.rule("P04.race", "a member used by the thread and by a public operation is atomic, guarded by a common mutex, or not written once the thread runs")
    threads = {}
    for r in runs:
        if getattr(r, "thread", False):
            th = this_root(r)
            if th is None:
                raise AnalysisBroken("P04: cannot determine the owner of the thread started in %s" % r.fn["q"])
            threads.setdefault(th[2], []).append((r, th))
    if not threads:
        raise AnalysisBroken("P04: no background thread found")
    for C, lst in sorted(threads.items()):
        flags = set()
        for r, th in lst:
            flags |= poll(ctx, C, r, th)
        keeps_raised(ctx, runs, C, flags)
        lifecycle(ctx, F, runs, C, flags)
        races(ctx, F, runs, C, lst)
    ctx.require("P04.poll", 2, "thread loops")
    ctx.require("P04.join", 4, "thread joins")
    ctx.require("P04.race", 10, "members shared with a thread")


def this_root(r):
    fr = r.this
    if fr is None:
        return None
    l = fr
    if isinstance(l, N):
        if l.op == "loc":
            return l.a[0][0]
        if l.op == "obj":
            return ("o",) + tuple(l.a)
        return None
    if isinstance(l, tuple) and l and l[0] == "o":
        return l
    return None


def poll(ctx, C, r, th):
    flags = {}
    for e in r.I.events:
        if e.kind == "aread":
            fo = field_of(e.d["loc"])
            if fo and fo[0] == th:
                flags[e.d["val"]] = (fo[1], e.loops)
    used = set()
    infos = loops_of(r)
    n = 0
    for lid, li in infos:
        end = li["end_gate"]
        ctxk = [k for k in li["mu"].values()]
        # (the flag is read anew in each iteration: a value copied before the loop never changes)
        stops = [q for v, (q, lps) in flags.items() if lid in lps and not satisfiable(and_(end, v))]
        bounded = False
        for m, (a, b, key) in li["mu"].items():
            if key[0] == "e" and b is not None:
                d = poly_diff(b, m)
                if d is not None and d != 0 and end is not FALSE and mentions_bound(end, m):
                    bounded = True
            if key[0] == "q" and b is not None and b.op == "pop":
                bounded = True
        outer = li["entry_gate"] is TRUE
        n += 1
        ok = bool(stops) if outer else (bounded or own_stop(li, flags, stops))
        if outer:
            used |= set(stops)
        ctx.ob("P04.poll", ok or end is FALSE, "%s loop in %s" % (short(C), li["fn"]),
               "the %s of the background thread can go on after the stop flag was raised (it does not test an atomic flag of its owner in every iteration%s)" % (
                   "main loop" if outer else "inner loop", "" if outer else " and is not bounded"),
               file=li.get("file"), line=li["line"], fn=li["fn"], sample="leaves when " + ", ".join(sorted(short(s) for s in stops)) if stops else "bounded")
    if not used:
        ctx.ob("P04.poll", any(True for _ in ()) or n == 0 and False, "%s main loop" % short(C), "no loop of the background thread tests an atomic stop flag",
               file=r.fn.get("file"), line=r.fn.get("l"), fn=r.fn["q"])
    return used


def poly_diff(b, m):
    try:
        d = sub(b, m)
    except Exception:
        return None
    if d.op == "num":
        return d.a[0]
    return None


def mentions_bound(g, m):
    return contains(g, lambda x: x is m)


def own_stop(li, flags, stops):
    # the flag must be read inside this loop (after its header), not only by an enclosing loop
    hdr = li["header_gate"]
    return any(not implies(hdr, not_(v)) and not satisfiable(and_(li["end_gate"], v)) for v in flags)


def keeps_raised(ctx, runs, C, flags):
    """a raised stop flag is not lowered again while the thread may still read it"""
    for r in runs:
        th = getattr(r, "thread", False)
        if not th and (r.fn.get("rec") != C or r.fn.get("ctor")):
            continue
        ev = r.I.events
        for i, e in enumerate(ev):
            if e.kind != "astore" or e.d["val"] is TRUE:
                continue
            fo = field_of(e.d["loc"])
            if not fo or fo[1] not in flags:
                continue
            if th:
                bad = any(x.kind == "aread" and x.d["loc"] == e.d["loc"] for x in ev[i:]) or bool(e.loops)
            else:
                bad = not any(x.kind in ("thread_assign", "thread_start") for x in ev[i:])
            ctx.ob("P04.poll", not bad, "%s %s lowered in %s" % (short(C), short(fo[1]), short(r.fn["q"])),
                   "%s lowers the stop flag %s: a stop request raised before that is lost and the join never returns" % (r.fn["q"], short(fo[1])), **ctx.at(e))


def lifecycle(ctx, F, runs, C, flags):
    starts = {}
    for r in runs:
        if getattr(r, "thread", False):
            continue
        for e in r.I.events:
            if e.kind == "thread_assign" or (e.kind == "thread_start" and False):
                fo = field_of(e.d["loc"])
                if fo and fo[0][2] == C:
                    starts.setdefault(fo[1], []).append((r, e, fo[0]))
    if not starts:
        ctx.ob("P04.join", False, "%s thread" % short(C), "a background thread of %s is started but not kept in a member, so it cannot be joined" % C)
        return
    d = [r for r in runs if r.fn.get("rec") == C and "::~" in r.fn["q"]]
    for f, lst in sorted(starts.items()):
        if not d:
            ctx.ob("P04.join", False, "%s join" % short(f), "%s owns a thread but has no destructor that joins it" % C, line=lst[0][1].line, file=lst[0][1].file, fn=lst[0][0].fn["q"])
            continue
        dr = d[0]
        joins = [(i, e) for i, e in enumerate(dr.I.events) if e.kind == "thread_join" and field_of(e.d["loc"]) and field_of(e.d["loc"])[1] == f]
        at = dict(file=dr.fn.get("file"), line=dr.fn.get("l"), fn=dr.fn["q"])
        if not joins:
            ctx.ob("P04.join", False, "%s join" % short(f), "the destructor never joins the thread %s" % short(f), **at)
            continue
        jg = FALSE
        for i, e in joins:
            jg = or_(jg, e.gate)
            ctx.ob("P04.join", e.d["how"] == "join", "%s how" % short(f), "the destructor detaches the thread instead of joining it", **ctx.at(e))
            raised = FALSE
            for k in range(i):
                s = dr.I.events[k]
                if s.kind == "astore" and s.d["val"] is TRUE and field_of(s.d["loc"]) and field_of(s.d["loc"])[1] in flags:
                    raised = or_(raised, s.gate)
            ctx.ob("P04.join", implies(e.gate, raised), "%s stop before join" % short(f),
                   "the destructor joins %s without having raised its stop flag (%s)" % (short(f), ", ".join(sorted(short(x) for x in flags)) or "none"), **ctx.at(e))
        # joined exactly when started
        v = joins[0][1].d["val"]
        jn = mk("bsym", "joinable", v)
        byj = implies(jg, jn)
        # joined only when it was started; what else the join depends on must hold for every started thread
        jg = subst(jg, {jn: TRUE}) if byj else jg
        atoms = [a for a in bool_atoms(jg) if a.op == "fld" or (a.op == "sym")]
        guard = None
        for a in atoms:
            if a.op == "fld" and implies(jg, a):
                guard = a
        if byj and guard is None:
            ctx.ob("P04.join", True, "%s joinable" % short(f), sample="join guarded by joinable()")
            if jg is not TRUE:
                # reads of other conditions: a started thread could stay un-joined
                ctx.ob("P04.join", False, "%s always" % short(f), "a started thread may be left un-joined by the destructor", **at)
            else:
                ctx.ob("P04.join", True, "%s always" % short(f))
            continue
        if guard is None:
            ctx.ob("P04.join", False, "%s started" % short(f), "the destructor joins %s although it may never have been started" % short(f), **ctx.at(joins[0][1]))
            continue
        gq = guard.a[1]
        full = implies(guard, jg)
        ctx.ob("P04.join", full, "%s always" % short(f), "a started thread may be left un-joined by the destructor", **ctx.at(joins[0][1]))
        for r in runs:
            if getattr(r, "thread", False) or r.fn.get("rec") != C or r.out is None:
                continue
            root = ("o", "this", C)
            isctor = bool(r.fn.get("ctor"))
            st_g = FALSE
            for e in r.I.events:
                if e.kind == "thread_assign" and field_of(e.d["loc"]) == (root, f):
                    st_g = or_(st_g, e.gate)
            if isctor:
                b = r.I.read(r.out, (root, (("f", gq),)), "bool")
                if r.fn.get("implicit") or r.fn.get("copy"):
                    continue
                ok1 = byj or implies(b, st_g)
                ctx.ob("P04.join", ok1, "%s started by %d-argument constructor" % (short(f), len(r.fn["params"])),
                       "after this constructor the destructor joins (%s may be true) a thread that was not started" % short(gq),
                       file=r.fn.get("file"), line=r.fn.get("l"), fn=r.fn["q"])
                ok2 = implies(st_g, b)
                ctx.ob("P04.join", ok2, "%s joined after %d-argument constructor" % (short(f), len(r.fn["params"])),
                       "a thread started by this constructor is not joined by the destructor", file=r.fn.get("file"), line=r.fn.get("l"), fn=r.fn["q"])
            else:
                if st_g is not FALSE:
                    b0 = mk("fld", r.I.initval(root) if False else guard.a[0], gq)
                    ctx.ob("P04.join", implies(st_g, guard), "%s in %s" % (short(f), r.fn["q"]),
                           "starts a thread that the destructor will not join", file=r.fn.get("file"), line=r.fn.get("l"), fn=r.fn["q"])
                if "::~" not in r.fn["q"]:
                    b = r.I.read(r.out, (root, (("f", gq),)), "bool")
                    ctx.ob("P04.join", b is guard, "%s keeps %s" % (r.fn["q"], short(gq)),
                           "%s changes %s, which decides whether the destructor joins the thread" % (r.fn["q"], short(gq)),
                           file=r.fn.get("file"), line=r.fn.get("l"), fn=r.fn["q"])


def accesses(r, root):
    """[(rw, field, {mutex: must}, line, fn)] on the members of object root"""
    out = []
    for rw, q, gate, locks, fn, rt in r.I.track:
        if rt == root:
            out.append((rw, q, frozenset(m for m, h in locks.items() if implies(gate, h)), fn.get("l"), fn.get("q"), fn.get("file")))
    for e in r.I.events:
        if e.kind in ("out", "open", "close"):
            fo = field_of(e.d["stream"]) if isinstance(e.d.get("stream"), tuple) else None
            if fo and fo[0] == root:
                out.append(("w", fo[1], frozenset(m for m, h in e.locks.items() if implies(e.gate, h)), e.line, e.fn, e.file))
    return set(out)


def races(ctx, F, runs, C, lst):
    ty = {c + "::" + f["n"]: f["t"] for c, f in F.all_fields(C)}
    tacc, inthread = {}, set()
    for r, th in lst:
        inthread |= {q for q in r.I.nfuncs}
        for a in accesses(r, th):
            tacc.setdefault(a[1], set()).add((a[0], frozenset(relname(m) for m in a[2])) + a[3:])
    aacc = {}
    for r in runs:
        f = r.fn
        if getattr(r, "thread", False) or f.get("rec") != C or f.get("ctor") or "::~" in f["q"]:
            continue
        if f["q"] in inthread or param_pairs(f):
            continue
        if any(e.kind == "thread_assign" for e in r.I.events):
            continue
        for a in accesses(r, ("o", "this", C)):
            aacc.setdefault(a[1], set()).add((a[0], frozenset(relname(m) for m in a[2])) + a[3:])
    n = 0
    for q in sorted(tacc):
        t = ty.get(q, "")
        if any(x in t for x in ("std::atomic", "std::mutex", "std::thread", "condition_variable")):
            continue
        by = {}
        for y in aacc.get(q, ()):
            by.setdefault(y[3], []).append(y)
        if not by:
            ctx.ob("P04.race", True, q, sample="used by the thread only")
        for fn, ys in sorted(by.items(), key=str):
            bad = None
            for y in ys:
                for x in tacc[q]:
                    if "w" in (x[0], y[0]) and not (x[1] & y[1]):
                        bad = (x, y)
            b = bad or ((None,) * 5, (None,) * 5)
            ctx.ob("P04.race", bad is None, "%s in %s" % (q, fn),
                   "%s is used by the background thread (%s:%s) and %s by %s without a common mutex" % (
                       short(q), b[0][3], b[0][2], "written" if b[1][0] == "w" else "read", b[1][3]),
                   file=b[1][4], line=b[1][2], fn=fn, sample="thread and public operation agree")


def relname(m):
    a, c = ab(m)
    return a if a else show(m, 5)
