"""vseed.py [-jN] ID...: builds, tests and demonstrates seeds in private copies (bind-mounted over /repo in a mount namespace of their own) and runs the property's check"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"
S = r'''
set -e
mount --bind $W /repo; cd /repo
mkdir $W.d; cp -a $D/. $W.d/; rm -f $W.d/patch.diff $W.d/meta.json
set +e
bash /opt/vp/build.sh > $W.b0 2>&1
(cd /repo; timeout 300 bash $W.d/demo.sh > $W.demo0 2>&1; echo "clean=$?" )
git -C /repo apply $D/patch.diff || echo "NOAPPLY"
bash /opt/vp/build.sh > $W.b 2>&1 || echo NOBUILD
bash /opt/vp/test.sh $W.json > /dev/null 2>&1
(cd /repo; timeout 300 bash $W.d/demo.sh > $W.demo 2>&1; echo "patched=$?" )
'''


def one(i):
    d, w = os.path.join(V, i), "/tmp/sd/" + i
    for x in ("", ".d"):
        shutil.rmtree(w + x, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    r = subprocess.run(["unshare", "-m", "bash", "-c", S], env=dict(os.environ, W=w, D=d), capture_output=True, text=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = set(json.load(open(w + ".json"))["passed"]) if os.path.exists(w + ".json") else set()
    p = json.load(open(d + "/meta.json"))["property"]
    c = subprocess.run(["python3-vt", "/verif/tool/check.py", p], capture_output=True, text=True, env=dict(os.environ, DRIFT_REPO=w, DRIFT_EVIDENCE=w))
    v = [x for x in c.stdout.splitlines() if not x.startswith("KNOWN") and not x.startswith("VIOLATION")]
    demo = open(w + ".demo").read().strip().splitlines()[-2:] if os.path.exists(w + ".demo") else ""
    good = "clean=0" in r.stdout and "patched=0" not in r.stdout and "NO" not in r.stdout and not base - ok
    out = "%s %s %s: %s tests-failing=%s check rc=%d %s | %s" % ("GOOD" if good else "BAD ", "CAUGHT" if c.returncode == 1 else "MISSED", i, r.stdout.split(), sorted(base - ok)[:3], c.returncode, (v[:1] or c.stderr.strip().splitlines()[-1:])[0][:250] if v or c.stderr else "", demo)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + ".d", ignore_errors=True)
    return out


a = sys.argv[1:]
j = 3
if a and a[0].startswith("-j"):
    j = int(a.pop(0)[2:])
os.makedirs("/tmp/sd", exist_ok=True)
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, a or sorted(os.listdir(V))):
        print(r, flush=True)
