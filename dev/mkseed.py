"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec (id, property, needs, breaks, edits, demo C++ or sh)."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd = the repository, after its build
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'cd /; rm -rf "${T:?}"' EXIT
g++ -std=c++17 -O0 -w %s-I"$R/include" -I"$R/include/drift" -I/usr/include/eigen3 "$H/demo.cpp" "$R/_build/libdrift.a" -lyaml-cpp -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
"""


def mk(id, property, needs, breaks, edits, demo=None, demo_sh=None, flags="", extra=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = os.path.join(t, "w", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, f, s.count(old), old[:80])
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(diff)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % flags)
    os.chmod(d + "/demo.sh", 0o755)
    for n, s in (extra or {}).items():
        open(os.path.join(d, n), "w").write(s)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("seed", id)
