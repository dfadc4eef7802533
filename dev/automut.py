"""random line-level mutants: python3 dev/automut.py SEED COUNT [-j N] [pathfilter]; prints those no check reports"""
import os, random, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor, as_completed
REPO = "/repo"
FAST = "P22 P32 P31 P24 P16 P25 P08 P13 P09 P05 P29 P10 P28 P17 P14 P21 P07 P03 P26 P02 P06 P20 P01 P04 P18 P12 P23 P15 P19 P11 P27".split()
OPS = [
 (r"(?<![<>=!+\-*/&|])\+(?![+=])", "-"), (r"(?<![\w(,=] )(?<=[\w)\]] )-(?= ?[\w(])", "+"), (r" \* ", " / "), (r"\+=", "-="), (r"-=", "+="),
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
 (r"\.transpose\(\)", ""), (r"\.inverse\(\)", ".transpose()"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b3\b", "4"), (r"\b4\b", "3"), (r"\b6\b", "3"), (r"\b9\b", "6"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ""), (r"\bcontinue;", ""), (r"\breturn;", ""),
 (r"get_rotation\(\)", "get_rotation().transpose()"), (r"get_world_rotation", "get_rotation"), (r"get_world_velocity", "get_world_position"), (r"get_world_position", "get_world_velocity"),
 (r"if \((.*)\) \{$", r"if (!(\1)) {"), (r"^(\s+)([\w.\->()\[\]]+(?: ?[+\-]?= |\().*;)\s*$", r"\1;"),
 (r"\bfront\(\)", "back()"), (r"unlock\(\)", "try_lock()") , (r"\.pop\(\)", ".front()"), (r"->pop\(\)", "->front()"),
 (r"push_back\((\w+)\)", r"push_back(\1), 0"), (r"\bcos\(", "sin("), (r"\bsin\(", "cos("), (r"get_time\(\)", "get_propagate_time()"), (r"set_time\(", "set_propagate_time("),
 (r"set_propagate_time\(", "set_time("), (r"gyroscope", "accelerometer"), (r"accelerometer", "gyroscope"), (r"\(0, 0\)", "(0, 3)"), (r"dt \* dt", "dt"), (r"0\.5 \* ", ""),
 (r"Identity\(", "Zero("), (r"Zero\(", "Identity("), (r"rows\(\)", "cols()"), (r"lock\(\);", "unlock();"), (r"\+\+", "--"), (r"\bLeft", "Right"), (r"WorldCentric", "BodyCentric"),
 (r"(\w+)\((\w+), (\w+)\)", r"\1(\3, \2)"), (r"x\(\)", "y()"), (r"z\(\)", "y()"),
]


REL = [("ROS/", "P29 P31"), ("estimator/", "P08 P09 P10 P05 P31 P25 P02 P01 P03 P04 P26 P23 P06"),
       ("imu_propagation", "P16 P05 P13 P31 P28 P14 P26 P15 P06 P12 P23 P02 P01 P11"), ("velocity_correction", "P16 P07 P31 P18 P06 P26 P23 P02 P01 P11"),
       ("legged_kin", "P22 P07 P31 P18 P21 P26 P06 P12 P19 P23 P02 P01 P11"), ("inekf", "P16 P13 P31 P15 P14 P26 P11 P12 P18"), ("robot_state", "P32 P13 P31 P26 P12 P14"),
       ("imu_filter", "P20 P31 P07 P28 P06 P26 P23 P03 P02 P01 P11"), ("measurement", "P22 P26 P31 P21 P18 P27"), ("math/", "P17 P31 P27"), ("kinematics", "P21 P22 P31 P18"),
       ("", "P32 P13 P31 P16 P26 P12 P06 P07 P05 P27 P15")]


def sites(filt):
    out = []
    for pat in ("src/**/*.cpp", "include/**/*.cpp", "include/**/*.h", "ROS/drift/src/**/*.cpp"):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            r = os.path.relpath(f, REPO)
            if "math/" in r and "lie" not in r or "robots/" in r or filt and filt not in r:
                continue
            com = False
            for i, l in enumerate(open(f).read().split("\n")):
                s = l.strip()
                if "/*" in s:
                    com = True
                if com or s.startswith(("//", "*", "#", "template", "using", "namespace")) or "cout" in s or not s:
                    if "*/" in s:
                        com = False
                    continue
                code = l.split("//")[0].rstrip()
                for a, b in OPS:
                    for m in re.finditer(a, code):
                        n = code[:m.start()] + m.expand(b) + code[m.end():]
                        if n != code and '"' not in code[:m.start()]:
                            out.append((r, i, n))
    return out


def one(k):
    idx, (f, i, n) = k
    w = "/tmp/am/%d" % idx
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ("src", "include", "ROS", "config", "tests", "baselines", "CMakeLists.txt"):
        s = os.path.join(REPO, d)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(w, d))
    p = os.path.join(w, f)
    ls = open(p).read().split("\n")
    old = ls[i]
    ls[i] = n
    open(p, "w").write("\n".join(ls))
    errs, hit = [], None
    order = next(v for k, v in REL if k in f).split()
    for pid in order:
        r = subprocess.run(["python3-vt", "/verif/tool/check.py", pid], capture_output=True, text=True, env=dict(os.environ, DRIFT_REPO=w, DRIFT_EVIDENCE=w))
        if r.returncode == 1:
            hit = pid
            break
        if r.returncode:
            e = (r.stderr.strip().splitlines() or ["?"])[-1][:160]
            errs.append(pid + ": " + e)
            if "clang reports" in r.stderr or "error:" in r.stderr and "pars" in r.stderr or "does not compile" in r.stderr or "dxtract" in r.stderr:
                break
            if len(errs) > 2:
                break
    shutil.rmtree(w, ignore_errors=True)
    if hit:
        return "caught %s %s:%d" % (hit, f, i + 1)
    return "%s %s:%d\n   - %s\n   + %s\n   %s" % ("ERR" if errs else "SURVIVES", f, i + 1, old.strip(), n.strip(), errs[:2])


def main():
    a = sys.argv[1:]
    j = 7
    if "-j" in a:
        k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    random.seed(int(a[0]))
    S = sites(a[2] if len(a) > 2 else "")
    random.shuffle(S)
    seen, pick = {}, []
    for s in S:
        key = (s[0], s[1])
        if key in seen:
            continue
        seen[key] = 1
        pick.append(s)
    pick = pick[:int(a[1])]
    print(len(S), "sites", flush=True)
    with ThreadPoolExecutor(j) as ex:
        for r in as_completed([ex.submit(one, x) for x in enumerate(pick)]):
            print(r.result(), flush=True)


main()
