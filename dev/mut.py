"""mutation runner: python3 dev/mut.py FILE [name...]; FILE defines M = [(name, props, [(file, old, new[, count])])].
props: space separated checks expected to alarm; prefix '=' means behaviour preserving (all listed checks stay quiet)."""
import os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("DRIFT_REPO", "/repo")


def one(m):
    name, props, edits = m
    keep = props.startswith("=")
    w = "/tmp/mut/" + name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ("src", "include", "ROS", "config", "tests", "baselines", "CMakeLists.txt"):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(w, d), symlinks=True)
        elif os.path.exists(s):
            shutil.copy(s, w)
    out = []
    for f, old, new in edits:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%-28s EDIT: %d matches in %s: %r" % (name, t.count(old), f, old[:50])
        open(p, "w").write(t.replace(old, new))
    hits, errs, det = [], [], []
    for pid in props.lstrip("=").split():
        r = subprocess.run(["python3-vt", "/verif/tool/check.py", pid], capture_output=True, text=True,
                           env=dict(os.environ, DRIFT_REPO=w, DRIFT_EVIDENCE=w))
        if r.returncode == 1:
            hits.append(pid)
            det.append([x for x in r.stdout.strip().splitlines() if not x.startswith("KNOWN")][0][:300])
        elif r.returncode:
            errs.append(pid + ": " + (r.stderr.strip().splitlines() or ["?"])[-1][:200])
    shutil.rmtree(w, ignore_errors=True)
    ok = (not hits and not errs) if keep else bool(hits)
    return "%s %-28s %s%s %s" % ("ok  " if ok else "MISS" if not keep else "FALSE", name, hits or "-", (" ERR " + str(errs)) if errs else "", det[0] if det and not ok else "")


def main():
    M = runpy.run_path(sys.argv[1])["M"]
    if sys.argv[2:]:
        M = [m for m in M if any(a in m[0] for a in sys.argv[2:])]
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(one, M):
            print(r, flush=True)


main()
