"""P21: leg kinematics as trigonometric polynomials of the joint angles."""
import itertools
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .state import at_of

LEGS = (("FR", "FrontRight"), ("FL", "FrontLeft"), ("HR", "HindRight"), ("HL", "HindLeft"))
NS = "mini_cheetah_kinematics"
ROB = "measurement::kinematics::MiniCheetahKinematics"
BASE = "measurement::LeggedKinematicsMeasurement"


class Trig:
    """polynomials in sin(q_i), cos(q_i) with cos^2 reduced to 1 - sin^2; dict monomial -> Fraction"""

    def __init__(self, qs):
        self.q = {q: i for i, q in enumerate(qs)}

    def of(self, v):
        out = {}
        for mono, c in poly(scal(v)).items():
            t = {(): Fraction(c)}
            for a, k in mono:
                if a.op == "fn" and a.a[0] in ("sin", "cos"):
                    x = self.angle(a.a[0], a.a[1])
                else:
                    raise Unsupported("not a trigonometric polynomial of the joint angles: " + show(a, 4))
                if k < 0 or int(k) != k:
                    raise Unsupported("power")
                for _ in range(int(k)):
                    t = self.mul(t, x)
            for m, c2 in t.items():
                out[m] = out.get(m, 0) + c2
        return self.norm(out)

    def angle(self, f, arg):
        """sin / cos of an integer combination of joint angles"""
        terms_ = []
        for mono, c in poly(scal(arg)).items():
            if len(mono) != 1 or mono[0][1] != 1 or mono[0][0] not in self.q or Fraction(c).denominator != 1:
                raise Unsupported("angle " + show(arg, 4))
            terms_.append((self.q[mono[0][0]], int(c)))
        s, c = {}, {(): Fraction(1)}
        for i, k in terms_:
            for _ in range(abs(k)):
                si, ci = {((i, "s", 1),): Fraction(1 if k > 0 else -1)}, {((i, "c", 1),): Fraction(1)}
                s, c = self.add(self.mul(s, ci), self.mul(c, si)), self.add(self.mul(c, ci), self.mul(s, si), -1)
        return s if f == "sin" else c

    @staticmethod
    def add(a, b, k=1):
        o = dict(a)
        for m, c in b.items():
            o[m] = o.get(m, 0) + k * c
        return {m: c for m, c in o.items() if c}

    def mul(self, a, b):
        o = {}
        for m, c in a.items():
            for n, d in b.items():
                e = {}
                for i, f, k in m + n:
                    e[(i, f)] = e.get((i, f), 0) + k
                key = tuple(sorted((i, f, k) for (i, f), k in e.items()))
                o[key] = o.get(key, 0) + c * d
        return self.norm(o)

    def norm(self, p):
        out = {}
        todo = dict(p)
        while todo:
            m, c = todo.popitem()
            if not c:
                continue
            for j, (i, f, k) in enumerate(m):
                if f == "c" and k >= 2:
                    rest = m[:j] + (((i, "c", k - 2),) if k > 2 else ()) + m[j + 1:]
                    todo[rest] = todo.get(rest, 0) + c
                    e = {}
                    for x, y, z in rest + ((i, "s", 2),):
                        e[(x, y)] = e.get((x, y), 0) + z
                    key = tuple(sorted((x, y, z) for (x, y), z in e.items()))
                    todo[key] = todo.get(key, 0) - c
                    break
            else:
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}

    def diff(self, p, i):
        out = {}
        for m, c in p.items():
            for j, (n, f, k) in enumerate(m):
                if n != i:
                    continue
                rest = m[:j] + (((n, f, k - 1),) if k > 1 else ()) + m[j + 1:]
                d = {((i, "c", 1),): Fraction(1)} if f == "s" else {((i, "s", 1),): Fraction(-1)}
                out = self.add(out, self.mul({rest: c * k}, d))
        return self.norm(out)

    def joints(self, p):
        return {i for m in p for i, _, _ in m}


TOL = Fraction(1, 10 ** 9)


def same(a, b):
    """equal up to the rounding of printed constants"""
    d = Trig.add(a, b, -1)
    return all(abs(c) <= TOL for c in d.values())


def tshow(p):
    return " + ".join("%s%s" % (float(c), "".join("*%s%d%s" % ("sin q" if f == "s" else "cos q", i, "^%d" % k if k > 1 else "") for i, f, k in m)) for m, c in sorted(p.items())[:8]) or "0"


def p21(ctx):
    ctx.rule("P21.jacobian", "every entry of a leg's velocity Jacobian is the derivative of the foot position with respect to that joint angle")
    ctx.rule("P21.own", "position and Jacobian of a leg depend only on the three joints of that leg")
    ctx.rule("P21.slot", "ComputeKinematics stores each leg's position and Jacobian in that leg's slot")
    ctx.rule("P21.velocity", "the initial body velocity is that of a leg in contact: -J dq - w x p of one stance leg, zero without contact")
    ctx.rule("P21.mirror", "left and right legs are mirror images, front and hind legs differ by a constant offset along the body")
    ctx.rule("P21.family", "the other generated functions of a leg agree with its pose: H = [R p; 0 1], R orthonormal, Jwb/Jws/Jvb/Jvs/Jb/Js are its body and spatial velocities")
    W = World(ctx, opaque=GAMMA_SKEW)
    qs = [dsym("q%d" % i) for i in range(12)]
    enc = mat(12, 1, qs)
    T_ = Trig(qs)
    P, J = {}, {}
    en = {v["n"]: int(v["v"]) for v in next(e for q, e in W.F.enums.items() if q == NS + "::Leg")["vals"]}
    for short, name in LEGS:
        fp, fj = W.fn("p_Body_to_%sFoot" % name), W.fn("Jp_Body_to_%sFoot" % name)
        p, j = W.run(fp, None, [enc]), W.run(fj, None, [enc])
        k = en[short]
        own = set(range(3 * k, 3 * k + 3))
        ok = shape(p) == (3, 1) and shape(j) == (3, 12)
        ctx.ob("P21.jacobian", ok, name + " shapes", "position %s, Jacobian %s" % (shape(p), shape(j)), **at_of(fj))
        if not ok:
            continue
        P[short] = [T_.of(el(p, r, 0)) for r in range(3)]
        for r in range(3):
            dep = T_.joints(P[short][r])
            ctx.ob("P21.own", dep <= own, "%s position, component %d" % (name, r), "depends on joints %s" % sorted(dep - own), **at_of(fp))
            for c in range(12):
                d = T_.diff(P[short][r], c)
                x = T_.of(el(j, r, c))
                ctx.ob("P21.jacobian", same(d, x), "%s Jacobian(%d,%d)" % (name, r, c), "the Jacobian entry is %s, the derivative is %s" % (tshow(x), tshow(d)), **at_of(fj), sample=tshow(d))
                if c not in own:
                    ctx.ob("P21.own", not x, "%s Jacobian(%d,%d)" % (name, r, c), "the Jacobian has an entry for joint %d of another leg" % c, **at_of(fj))
        family(ctx, W, T_, name, enc, p, j)
    # mirror images
    for a, b, sy, off in (("FR", "FL", -1, False), ("HR", "HL", -1, False), ("FR", "HR", 1, True), ("FL", "HL", 1, True)):
        if a not in P or b not in P:
            continue
        ka, kb = en[a], en[b]
        for r in range(3):
            m = {}
            for mono, c in P[a][r].items():
                key = tuple((i - 3 * ka + 3 * kb, f, k) for i, f, k in mono)
                s = 1
                if sy < 0:
                    for i, f, k in mono:
                        if f == "s" and i == 3 * ka and k % 2:
                            s = -s
                m[key] = m.get(key, 0) + c * s
            if sy < 0 and r == 1:
                m = {x: -c for x, c in m.items()}
            got = P[b][r]
            if off and r == 0:
                m, got = {x: c for x, c in m.items() if x}, {x: c for x, c in got.items() if x}
            ctx.ob("P21.mirror", same(m, got), "%s / %s component %d" % (a, b, r), "%s is %s, expected %s" % (b, tshow(got), tshow(m)), **at_of(W.fn("p_Body_to_%sFoot" % dict(LEGS)[b])))
    # slots
    f = W.fn(ROB + "::ComputeKinematics")
    for n in (0, 3):
        rp = W.new(ROB, "robot%d" % n)
        den = msym("dq", 12, 1)
        con = mat(4, 1, [sym("contact%d" % i, "bool") for i in range(4)])
        W.run(W.fn(ROB + "::MiniCheetahKinematics", n), rp, [enc, den, con][:n])
        if not n:
            for s, v in (("set_joint_state", enc), ("set_contact", con), ("set_joint_state_velocity", den)):
                W.run(W.fn(BASE + "::" + s), rp, [v])
        W.run(f, rp)
        for short, name in LEGS:
            k = en[short]
            gp = W.getter(rp, BASE + "::get_kin_pos", n=1, args=[num(k)])
            gj = W.getter(rp, BASE + "::get_J", n=1, args=[num(k)])
            for r in range(3):
                x = T_.of(el(gp, r, 0))
                ctx.ob("P21.slot", short in P and same(x, P[short][r]), "position of %s (%d), component %d" % (short, n, r), "slot %d holds %s" % (k, tshow(x)), **at_of(f))
                for c in range(3):
                    x = T_.of(el(gj, r, c))
                    ctx.ob("P21.slot", short in P and same(x, T_.diff(P[short][r], 3 * k + c)), "Jacobian of %s (%d), entry %d,%d" % (short, n, r, c), "slot %d holds %s" % (k, tshow(x)), **at_of(f))
        nl = W.run(W.fn(ROB + "::get_num_legs"), rp)
        ctx.ob("P21.slot", scal(nl) is num(4), "number of legs", "get_num_legs returns %s" % show(nl, 3), **at_of(W.fn(ROB + "::get_num_legs")))
        # initial velocity
        g = W.fn(ROB + "::get_init_velocity")
        w = msym("w", 3, 1)
        qv = [dsym("dq%d" % i) for i in range(12)]
        ws = [dsym("w%d" % i) for i in range(3)]
        for pat in itertools.product((0, 1), repeat=4):
            rp = W.new(ROB, "robot%d:%s" % (n, pat))
            W.run(W.fn(ROB + "::MiniCheetahKinematics", 3), rp, [enc, mat(12, 1, qv), mat(4, 1, [TRUE if x else FALSE for x in pat])])
            v = W.run(g, rp, [mat(3, 1, ws)])
            key = "initial velocity, contacts %s (%d)" % ("".join(map(str, pat)), n)
            if shape(v) != (3, 1):
                ctx.ob("P21.velocity", False, key, "shape %s" % (shape(v),), **at_of(g))
                continue
            if not any(pat):
                ctx.ob("P21.velocity", v is Z(3, 1), key, "is %s" % show(v, 5), **at_of(g))
                continue
            ok = False
            for short, name in LEGS:
                k = en[short]
                if pat[k] and short in P:
                    ok = ok or all(lin_same(T_, el(v, r, 0), velocity_of(T_, P[short], k, r), qv, ws) for r in range(3))
            ctx.ob("P21.velocity", ok, key, "the velocity is not -J dq - w x p of a leg in contact: %s" % show(el(v, 0, 0), 8)[:300], **at_of(g))
    ctx.used(W.I)
    ctx.require("P21.jacobian", 140, "Jacobian entries")
    ctx.require("P21.slot", 90, "stored entries")


def velocity_of(T_, p, k, r):
    """coefficients of -J dq - w x p: {('dq', i): poly, ('w', i): poly}"""
    out = {("dq", 3 * k + c): {m: -x for m, x in T_.diff(p[r], 3 * k + c).items()} for c in range(3)}
    a, b = (r + 1) % 3, (r + 2) % 3        # (w x p)_r = w_a p_b - w_b p_a
    out[("w", a)] = {m: -x for m, x in p[b].items()}
    out[("w", b)] = dict(p[a])
    return out


def lin_same(T_, v, exp, qv, ws):
    """v linear in dq, w with the given coefficients"""
    idx = {q: ("dq", i) for i, q in enumerate(qv)}
    idx.update({w: ("w", i) for i, w in enumerate(ws)})
    got = {}
    for mono, c in poly(scal(v)).items():
        lin = [a for a, k in mono if a in idx and k == 1]
        if len(lin) != 1:
            return False
        rest = num(c)
        for a, k in mono:
            if a is not lin[0]:
                for _ in range(k):
                    rest = mul(rest, a)
        key = idx[lin[0]]
        got[key] = Trig.add(got.get(key, {}), T_.of(rest))
    return all(same(got.get(k, {}), exp.get(k, {})) for k in set(got) | set(exp))


def family(ctx, W, T_, name, enc, p, jp):
    """H, R and the body / spatial Jacobians of one foot against its position p and its orientation"""
    def get(pre, sh):
        f = W.fn("%s_Body_to_%sFoot" % (pre, name))
        v = W.run(f, None, [enc])
        if shape(v) != sh:
            ctx.ob("P21.family", False, "%s %s shape" % (name, pre), "%s" % (shape(v),), **at_of(f))
            return None, f
        return [[T_.of(el(v, r, c)) for c in range(sh[1])] for r in range(sh[0])], f
    sh = {"H": (4, 4), "R": (3, 3), "Jb": (6, 12), "Js": (6, 12), "Jvb": (3, 12), "Jvs": (3, 12), "Jwb": (3, 12), "Jws": (3, 12)}
    M = {k: get(k, s) for k, s in sh.items()}
    if M["R"][0] is None:
        return
    one, R = {(): Fraction(1)}, M["R"][0]
    P = [T_.of(el(p, r, 0)) for r in range(3)]

    def mm(a, b):
        out = []
        for i in range(len(a)):
            row = []
            for j in range(len(b[0])):
                x = {}
                for k in range(len(b)):
                    x = T_.add(x, T_.mul(a[i][k], b[k][j]))
                row.append(x)
            out.append(row)
        return out
    tr = lambda a: [list(r) for r in zip(*a)]
    Rt = tr(R)
    exp = {"H": [R[r] + [P[r]] for r in range(3)] + [[{}, {}, {}, one]]}
    dP = [[T_.diff(P[r], c) for c in range(12)] for r in range(3)]
    wb, ws, vs = ([[None] * 12 for _ in range(3)] for _ in range(3))
    for c in range(12):
        dR = [[T_.diff(x, c) for x in r] for r in R]
        B, S = mm(Rt, dR), mm(dR, Rt)
        for i in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            wb[i][c], ws[i][c] = B[b][a], S[b][a]
        for i in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            vs[i][c] = T_.add(dP[i][c], T_.add(T_.mul(ws[a][c], P[b]), T_.mul(ws[b][c], P[a]), -1), -1)
    vb = mm(Rt, dP)
    exp.update(Jwb=wb, Jws=ws, Jvb=vb, Jvs=vs, Jb=wb + vb, Js=ws + vs)
    RtR = mm(Rt, R)
    for r in range(3):
        for c in range(3):
            ctx.ob("P21.family", same(RtR[r][c], one if r == c else {}), "%s R^T R (%d,%d)" % (name, r, c), "is %s" % tshow(RtR[r][c]), **at_of(M["R"][1]))
    for k, e in exp.items():
        m, f = M[k]
        for r in range(len(e) if m else 0):
            for c in range(len(e[0])):
                ctx.ob("P21.family", same(m[r][c], e[r][c]), "%s %s(%d,%d)" % (name, k, r, c), "is %s, the pose gives %s" % (tshow(m[r][c]), tshow(e[r][c])), **at_of(f))
