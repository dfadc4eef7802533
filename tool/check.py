#!/usr/bin/env python3-vt
"""check.py PXX [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse, importlib, json, os, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
from sa.facts import AnalysisBroken, VERIF
from sa.ctx import Ctx
from sa import registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(a.pid, a.tier if a.tier in ("quick", "thorough") else "quick", seed)
    ent = registry.CHECKS[a.pid]
    mod = importlib.import_module("sa.checks." + ent["module"])
    t0 = time.time()
    try:
        getattr(mod, ent["entry"])(ctx)
        if not ctx.obs:
            raise AnalysisBroken("no obligation was generated")
        broken = None
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    new, known = [], []
    seen = set()
    for v in ctx.viol:
        if v["key"] in ctx.known:
            if v["key"] not in seen:
                known.append(v)
        elif v["key"] not in seen:
            new.append(v)
        seen.add(v["key"])
    byrule = {}
    for r, k, ok in ctx.obs:
        d = byrule.setdefault(r, {"instances": 0, "discharged": 0})
        d["instances"] += 1
        d["discharged"] += ok
    evd = os.environ.get("DRIFT_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = {"explanation": ent["explain"],
           "obligations": len(ctx.obs), "discharged": sum(1 for o in ctx.obs if o[2]),
           "rules": {r: dict(rule=ctx.rules.get(r, ""), **byrule[r]) for r in byrule},
           "functions_analysed": len(ctx.functions),
           "functions": sorted(ctx.functions)[:200],
           "unmodelled_external_calls": ctx.unknown,
           "known_findings_seen": [v["key"] for v in known],
           "samples": ctx.samples, "notes": ctx.notes,
           "exhaustive": True}
    ev = {"property": a.pid, "tier": ctx.tier, "seed": seed, "level": ent["level"], "coverage": cov,
          "assumptions": ent["assumptions"], "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    if broken:
        ev["coverage"]["error"] = broken
    with open(os.path.join(evd, a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for v in known:
        print("KNOWN-FINDING: property=%s %s (%s:%s %s)" % (a.pid, ctx.known[v["key"]], v["file"], v["line"], v["key"]))
    for v in new:
        print("  %s:%s: in %s: [%s] %s" % (v["file"], v["line"], v["fn"], v["key"], v["msg"]))
    if new:
        rp = os.path.join(evd, a.pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.pid, rp))
        if broken:
            print("note: analysis also stopped early: " + broken.splitlines()[-1], file=sys.stderr)
        return 1
    if broken:
        print("ERROR: analysis did not complete: " + broken, file=sys.stderr)
        return 3
    print("OK property=%s obligations=%d discharged=%d functions=%d (%.1fs)" % (
        a.pid, cov["obligations"], cov["discharged"], cov["functions_analysed"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    rc = [3]

    def run():
        rc[0] = main()
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
