"""Context of one check run: obligations, violations, evidence."""
import json, os, time
from . import facts
from .facts import AnalysisBroken, REPO, VERIF


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []            # (rule, construct, ok)
        self.viol = []           # dict
        self.notes = []
        self.samples = []
        self.rules = {}
        self._F = {}
        self.known = load_known(pid)
        self.functions = set()
        self.unknown = {}

    def facts(self, *groups):
        g = tuple(groups) or ("core", "inst")
        if g not in self._F:
            self._F[g] = facts.load(g)
        return self._F[g]

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rid, ok, key, msg="", file="", line=0, fn="", sample=None):
        """one obligation.  key: stable identity of the construct (used for known findings)"""
        ok = bool(ok)
        self.obs.append((rid, key, ok))
        if not ok:
            self.viol.append({"rule": rid, "key": "%s:%s" % (rid, key), "msg": msg, "file": rel(file), "line": line, "fn": fn})
        elif sample and len(self.samples) < 12:
            self.samples.append({"rule": rid, "construct": key, "detail": sample})
        return ok

    def at(self, ev):
        return dict(file=ev.file, line=ev.line, fn=ev.fn)

    def used(self, interp):
        self.functions |= interp.nfuncs
        for k, n in interp.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + n

    def require(self, rid, n, what):
        c = sum(1 for o in self.obs if o[0] == rid)
        if c < n:
            raise AnalysisBroken("%s: rule %s matched %d constructs (expected at least %d): %s" % (self.pid, rid, c, n, what))


def rel(p):
    p = str(p or "")
    return os.path.relpath(p, REPO) if p.startswith(REPO + "/") else p


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln[len("finding: property=%s " % pid):]
                k, _, d = rest.partition(" | ")
                assert k.startswith("key=")
                out[k[4:].strip()] = d.strip()
    return out
