"""P28: static bias initialisation."""
from fractions import Fraction
from ..dag import *
from .. import dag
from ..model import *
from ..facts import AnalysisBroken
from .eqs import IPQ, IMU, make_prop, quat_R, vecel, mprod, ykeys, gravity, cfgval
from .meas import present
from .state import at_of
from .steps import Mode, one_pop
from .gyro import Gyro, GQ

PLANS = {0: ("", "-"), 1: ("+", "-+"), 2: ("++", "+-+", "--++"), 3: ("+++", "+-+-+")}


def mean(vs):
    s = vs[0]
    for v in vs[1:]:
        s = madd(s, v)
    return mscale(num(Fraction(1, len(vs))), s)


def read_cfg(W, key):
    from .. import lib
    if lib.neutral(key) is not None:
        return lib.neutral(key)
    xs = set()
    for v in W.st.env.values():
        if isinstance(v, N):
            xs |= {x for x in subterms(v) if x.op == "yas" and ykeys(x.a[0])[-1:] == (key,)}
    return xs.pop() if len(xs) == 1 else sym("unused " + key)


def p28(ctx):
    ctx.rule("P28.prior", "without static initialisation, or without samples to average, the configured priors are used at once")
    ctx.rule("P28.consume", "each call takes exactly one sample while the configured number is not reached, and nothing when the queue is empty")
    ctx.rule("P28.done", "the initialisation is reported finished exactly when the biases have been set")
    ctx.rule("P28.mean", "the biases are the mean of the body-frame rates and of the body-frame, lever-arm and gravity compensated accelerations of exactly the consumed samples")
    ctx.rule("P28.gyro", "the gyro filter starts with zero rate and the mean rate of the consumed samples as bias, and emits nothing before")
    prop(ctx)
    filt(ctx)
    ctx.require("P28.mean", 10, "static initialisations")
    ctx.require("P28.gyro", 8, "gyro filter initialisations")


def setup(ctx, static, n, ori, mode):
    W = World(ctx, opaque=GAMMA_SKEW, assume=mode)
    ip = make_prop(W, "RightInvariant")
    present(W, {"static_bias_initialization": static, "use_imu_ori_to_init": ori, **({"init_bias_size": num(n)} if n is not None else {})})
    return W, ip


def prop(ctx):
    for static in (TRUE, FALSE):
        for ori in (FALSE, TRUE):
            for n in ((0, 1, 2, 3) if static is TRUE else (2,)):
                for plan in PLANS[n]:
                    mode = Mode()
                    W, ip = setup(ctx, static, n, ori, mode)
                    f = W.fn(IPQ + "::InitImuBias")
                    at = at_of(f)

                    def get(g):
                        return W.getter(ip, IPQ + "::" + g)
                    label = "static %s, %d samples, orientation %s, arrivals %r" % ("on" if static is TRUE else "off", n, "used" if ori is TRUE else "not used", plan)
                    prior = (get("get_estimate_gyro_bias"), get("get_estimate_accel_bias"))
                    ctx.ob("P28.done", get("get_bias_initialized") is FALSE, label + " at construction", "initialisation is reported finished before it was run", **at)
                    if static is FALSE or n == 0:
                        mode.empty = plan.startswith("-")
                        e0 = len(W.I.events)
                        W.run(f, ip)
                        pops = [e for e in W.I.events[e0:] if e.kind == "qop" and e.d["op"] == "pop" and e.gate is not FALSE]
                        now = (get("get_estimate_gyro_bias"), get("get_estimate_accel_bias"))
                        exp = [read_cfg(W, k) for k in ("gyroscope_bias", "accelerometer_bias")]
                        exp = [mat(3, 1, [vecel(x, i) for i in range(3)]) for x in exp]
                        ok = all(mat_equal(a, b) for a, b in zip(now, exp))
                        ctx.ob("P28.prior", ok and not pops, label, "the biases are %s, expected the priors; %d samples taken" % ([show(x, 4)[:120] for x in now], len(pops)), **at)
                        ctx.ob("P28.done", get("get_bias_initialized") is TRUE, label, "initialisation with priors is not reported finished", **at)
                        ctx.used(W.I)
                        continue
                    taken, good = [], True
                    for c in plan + "=":
                        if c == "=" and get("get_bias_initialized") is TRUE:
                            break                # finished together with the last sample
                        mode.empty = c == "-"
                        e0 = len(W.I.events)
                        W.run(f, ip)
                        p, ps = one_pop(W.I.events[e0:])
                        live = [e for e in ps if e.gate is not FALSE]
                        if c == "+":
                            good = ctx.ob("P28.consume", p is not None and p not in taken, label, "with %d of %d samples, a call takes %d samples from the queue" % (len(taken), n, len(live)), **at)
                            if not good:
                                break
                            taken.append(p)
                            fin = get("get_bias_initialized")
                            ctx.ob("P28.done", fin is FALSE or (fin is TRUE and len(taken) == n), label, "after %d of %d samples the initialisation is reported %s" % (len(taken), n, show(fin, 3)), **at)
                        elif c == "-":
                            ctx.ob("P28.consume", not live and get("get_bias_initialized") is FALSE, label + " empty", "with an empty queue: %d samples taken, finished: %s" % (len(live), show(get("get_bias_initialized"), 3)), **at)
                        else:
                            ctx.ob("P28.consume", not live, label + " full", "takes %d samples beyond the configured number" % len(live), **at)
                    if not good:
                        continue
                    ctx.ob("P28.done", get("get_bias_initialized") is TRUE, label, "after %d samples the initialisation is still not finished" % n, **at)
                    bg, ba = get("get_estimate_gyro_bias"), get("get_estimate_accel_bias")
                    Ri = quat_R(read_cfg(W, "rotation_imu2body"))
                    dag.ORTHO.add(Ri)
                    t = read_cfg(W, "translation_imu2body")
                    t = mat(3, 1, [vecel(t, i) for i in range(3)])
                    ws, accs, rots = [], [[], []], {}
                    for p in taken:
                        w = mmul(Ri, W.getter(p, IMU + "::get_angular_velocity"))
                        a = msub(mmul(Ri, W.getter(p, IMU + "::get_lin_acc")), mprod([skew(w), skew(w), t]))
                        ws.append(w)
                        if ori is TRUE:
                            from ..lib import toR
                            Rq = toR(W.getter(p, IMU + "::get_quaternion"))
                            S = msym("Rq%d" % len(ws), 3, 3)
                            dag.ORTHO.add(S)        # orientation samples are unit quaternions
                            rots[Rq] = S
                            for k, R in enumerate((mmul(Ri, Rq), mmul(Rq, T(Ri)))):
                                accs[k].append(mmul(T(R), madd(mmul(R, a), gravity())))
                        else:
                            accs[0].append(madd(a, gravity()))
                    ctx.ob("P28.mean", mat_equal(bg, mean(ws)), label + " gyroscope", "gyroscope bias is %s, expected %s" % (show(bg, 6)[:300], show(mean(ws), 6)[:300]), **at, sample=show(bg, 5)[:200])
                    ok = any(x and mat_equal(subst(ba, rots), subst(mean(x), rots)) for x in accs)
                    ctx.ob("P28.mean", ok, label + " accelerometer", "accelerometer bias is %s, expected %s" % (show(ba, 6)[:400], show(mean(accs[0]), 6)[:400]), **at)
                    ctx.used(W.I)


def filt(ctx):
    for gyro in (False, True):
        for static, n in ((FALSE, 2), (TRUE, 0), (TRUE, 1), (TRUE, 2), (TRUE, 3)):
            for plan in PLANS[n][:2]:
                mode = Mode()
                g = Gyro(ctx, 1, 0, gyro, {"init_bias_size": num(n)}, static=static, assume=mode)
                W = g.W
                est = [(q, v) for q, (t, v) in g.fields().items() if shape(v) == (6, 1) or v.op == "ite" and shape(v.a[1]) == (6, 1)]
                if len(est) != 1:
                    raise AnalysisBroken("%d members of the gyro filter look like its estimate" % len(est))
                eq_ = est[0][0]

                def estimate():
                    return W.I.read(W.st, g.field(eq_), None)
                out = W.loc(W.probe(W.fn(GQ + "::get_filtered_imu_data_buffer_ptr"), g.o))
                label = "gyro filter, %s propagation, static %s, %d samples, arrivals %r" % ("gyro" if gyro else "random-walk", "on" if static is TRUE else "off", n, plan)
                taken, good, pushes = [], True, 0
                use = plan if static is TRUE and n else ""
                for c in use + "=":
                    mode.empty = c == "-"
                    evs = g.step()
                    pops = [e for e in evs if e.kind == "qop" and e.d["op"] == "pop" and e.gate is not FALSE and (g.queues.get(e.d["loc"]) or "").startswith("imu")]
                    pushes += sum(1 for e in evs if e.kind == "qop" and e.d["op"] in ("push", "emplace") and e.gate is not FALSE and e.d["loc"] == out)
                    want = 1 if c == "+" else 0
                    good = ctx.ob("P28.consume", len(pops) == want and all(e.gate is TRUE for e in pops), label, "with %d of %d samples and arrivals %r, a step takes %d samples" % (len(taken), n, c, len(pops)), **g.at)
                    if not good:
                        break
                    taken += [qfr(e) for e in pops]
                if not good:
                    continue
                ctx.ob("P28.gyro", pushes == 0, label + " output", "samples are emitted before the initialisation is finished", **g.at)
                v = estimate()
                if static is FALSE:
                    x = read_cfg(W, "ang_vel_bias")
                    b = mat(3, 1, [vecel(x, i) for i in range(3)])
                elif n == 0:
                    b = Z(3, 1)
                else:
                    b = mean([W.getter(p, IMU + "::get_angular_velocity") for p in taken])
                ok = all(el(v, i, 0) is ZERO for i in range(3)) and all(el(v, 3 + i, 0) is el(b, i, 0) for i in range(3))
                ctx.ob("P28.gyro", ok, label, "the estimate starts as %s, expected zero rate and bias %s" % (show(v, 5)[:300], show(b, 5)[:200]), **g.at, sample=show(v, 4)[:200])
                # the next step with data is a filter step
                mode.empty = False
                evs = g.step()
                pushes = [e for e in evs if e.kind == "qop" and e.d["op"] in ("push", "emplace") and e.gate is not FALSE and e.d["loc"] == out]
                ctx.ob("P28.gyro", bool(pushes), label + " start", "the filter does not run after its initialisation", **g.at)
                ctx.used(W.I)


def qfr(e):
    from ..vf import qfront
    return qfront(e.d["pre"])
