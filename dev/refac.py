"""refac.py [-jN] [-p "P01 P02"] FILE [bundle...]: applies bundles of behaviour-preserving edits (B = {name: [(file, old, new)]}), builds, tests, and runs every check, which must stay quiet"""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
S = r'''
mount --bind $W /repo; cd /repo
bash /opt/vp/build.sh > $W.b 2>&1 || { echo NOBUILD; grep -m3 error $W.b; }
bash /opt/vp/test.sh $W.json > /dev/null 2>&1
'''
a = sys.argv[1:]
j, pids = 6, None
while a and a[0].startswith("-"):
    o = a.pop(0)
    if o.startswith("-j"):
        j = int(o[2:])
    else:
        pids = a.pop(0).split()
B = runpy.run_path(a[0])["B"]
if pids is None:
    pids = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
os.makedirs("/tmp/rf", exist_ok=True)
for name in [n for n in B if not a[1:] or any(x in n for x in a[1:])]:
    w = "/tmp/rf/" + name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    bad = False
    for f, old, new, *al in B[name]:
        p = os.path.join(w, f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) != (al[0] if al else 1):
            print("%s EDIT %d matches in %s: %r" % (name, s.count(old), f, old[:60]))
            bad = True
            continue
        s = s.replace(old, new)
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    if bad:
        continue
    r = subprocess.run(["unshare", "-m", "bash", "-c", S], env=dict(os.environ, W=w), capture_output=True, text=True)
    ok = set(json.load(open(w + ".json"))["passed"]) if os.path.exists(w + ".json") else set()
    if "NOBUILD" in r.stdout or base - ok:
        print(name, "DOES NOT BUILD/PASS", r.stdout.strip()[:600], sorted(base - ok)[:3])
        continue

    def one(pid):
        c = subprocess.run(["python3-vt", "/verif/tool/check.py", pid], capture_output=True, text=True, env=dict(os.environ, DRIFT_REPO=w, DRIFT_EVIDENCE=w))
        if c.returncode:
            v = [x for x in c.stdout.splitlines() if not x.startswith("KNOWN") and not x.startswith("VIOLATION")]
            return "%s FALSE %s rc=%d %s" % (name, pid, c.returncode, "\n    ".join(x[:400] for x in (v[:3] or c.stderr.strip().splitlines()[-1:])))
    with ThreadPoolExecutor(j) as ex:
        res = [x for x in ex.map(one, pids) if x]
    print(name, "quiet" if not res else "", flush=True)
    for x in res:
        print("  " + x, flush=True)
    shutil.rmtree(w, ignore_errors=True)
