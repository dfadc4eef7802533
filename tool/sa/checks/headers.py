"""P27: public headers."""
import glob, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from .. import facts
from ..facts import AnalysisBroken

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"


def roots():
    """(include directory, flags, header list) of every public include tree"""
    R = facts.REPO
    out = []
    for inc, extra in ((R + "/include", []),):
        hs = sorted(h for e in ("h", "hpp", "hh") for h in glob.glob(inc + "/**/*." + e, recursive=True))
        if hs:
            out.append((inc, ["-I" + inc] + (["-I" + R + "/include"] if inc != R + "/include" else []) + extra, hs))
    return out


def flags(extra):
    return ["-std=c++17"] + extra + ["-isystem", "/usr/include/eigen3", "-w"]


def parse(text, fl, mode):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "t.cpp")
        with open(p, "w") as f:
            f.write(text)
        r = subprocess.run([CLANG] + flags(fl) + mode + [p], capture_output=True, text=True, errors="replace")
    return r


def first_error(r):
    for l in r.stderr.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m:
            return m.groups()
    return None


def own_text(pre, inc):
    """preprocessed text of every header of the tree, by file"""
    out, cur, depth = {}, None, []
    for l in pre.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"((?: \d)*)', l)
        if m:
            f = os.path.realpath(m.group(2)) if m.group(2).startswith("/") else m.group(2)
            cur = f
            continue
        if cur and cur.startswith(inc) and l.strip():
            out.setdefault(cur, []).append(" ".join(l.split()))
    return out


def code(h):
    """does the file hold anything but comments and preprocessor lines?"""
    t = open(h, errors="replace").read()
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    t = re.sub(r"//[^\n]*", "", t).replace("\\\n", " ")
    return any(l.strip() and not l.lstrip().startswith("#") for l in t.split("\n"))


def p27(ctx):
    ctx.rule("P27.alone", "every public header compiles on its own, included twice")
    ctx.rule("P27.together", "every public header contributes the same declarations next to all others, in either order, as alone")
    ctx.rule("P27.linkage", "no header defines a function or variable with external linkage that is neither inline nor a template")
    ctx.rule("P27.defined", "every public function a header declares is defined in a header or in the library")
    nh = 0
    for inc, fl, hs in roots():
        def name(h):
            return os.path.relpath(h, inc)

        def alone(h):
            t = '#include "%s"\n#include "%s"\n' % (name(h), name(h))
            return h, parse(t, fl, ["-fsyntax-only"]), parse('#include "%s"\n' % name(h), fl, ["-E"])
        orders = {}

        def together(order, lst):
            t = "".join('#include "%s"\n' % name(h) for h in lst)
            # the probe shows that strong definitions are seen
            probe = "int drift_verif_probe(int x) { return x; }\ninline int drift_verif_inline(int x) { return x; }\nint drift_verif_probe_var = drift_verif_inline(1);\n"
            orders[order] = (parse(t, fl, ["-E"]), parse(t + probe, fl, ["-S", "-emit-llvm", "-o", "-"]))
        with ThreadPoolExecutor(8) as ex:
            js = [ex.submit(together, o, l) for o, l in (("in order", hs), ("in reverse order", hs[::-1]))]
            res = list(ex.map(alone, hs))
            for j in js:
                j.result()
        single = {}
        for h, r, pre in res:
            nh += 1
            err = first_error(r)
            ctx.ob("P27.alone", r.returncode == 0, name(h), "included twice on its own it does not compile: %s" % (
                "%s:%s: %s" % (facts.rel(err[0]), err[1], err[2]) if err else r.stderr[-300:]),
                facts.rel(err[0]) if err else facts.rel(h), int(err[1]) if err else 1, name(h), sample=name(h))
            single[os.path.realpath(h)] = own_text(pre.stdout, os.path.realpath(inc)).get(os.path.realpath(h), [])
        for order, (pre, r) in orders.items():
            own = own_text(pre.stdout, os.path.realpath(inc))
            for h in hs:
                rp = os.path.realpath(h)
                a, b = single[rp], own.get(rp, [])
                d = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                same = len(b) >= len(a) and len(b) % len(a) == 0 and a * (len(b) // len(a)) == b if a else not b and not code(h)
                ctx.ob("P27.together", same, "%s, %s" % (name(h), order), "with all headers included %s its text differs from what it declares alone, e.g. %r is missing" % (
                    order, (a + [""])[d][:120] if d < len(a) else (b + [""])[d][:120]), facts.rel(h), 1, name(h))
            err = first_error(r)
            ctx.ob("P27.together", r.returncode == 0, "all headers %s" % order, "all headers together do not compile: %s" % (
                "%s:%s: %s" % (facts.rel(err[0]), err[1], err[2]) if err else r.stderr[-300:]), facts.rel(err[0]) if err else facts.rel(inc), int(err[1]) if err else 1, "include")
            if r.returncode:
                continue
            weak, strong = linkage(r.stdout)
            probes = [x for x in strong if x.startswith("drift_verif_")]
            if len(probes) != 2:
                raise AnalysisBroken("definitions are not visible in the intermediate representation: %s" % strong[:5])
            strong = [x for x in strong if x not in probes]
            F = ctx.facts()
            for s in strong:
                f = next(iter(F.by_q.get(s.split("(")[0].split()[-1] if "(" in s else s, [])), None) or F.globals.get(s) or {}
                ctx.ob("P27.linkage", False, s, "%s is defined in a header with external linkage and is not inline: two translation units that include it do not link" % s,
                       facts.rel(f.get("file") or hs[0]), f.get("l", 0), s)
            ctx.ob("P27.linkage", not strong, "%s, all headers %s" % (facts.rel(inc), order), "%d strong definitions" % len(strong), facts.rel(inc), 1, "include",
                   sample="no strong definition beside the probes")
    ctx.require("P27.alone", 50, "public headers")
    # declarations without a definition
    F = ctx.facts()
    have = {fid for fid, f in F.functions.items() if "body" in f or f.get("defaulted")} | {d["fid"] for _, d in F.decls if d["body"]}
    n = 0
    seen = set()
    for d in [d for _, d in F.decls]:
        file = facts.rel(d["file"])
        if not file.startswith("include/"):
            continue
        key = (d["fid"], d["l"])
        if key in seen or d["linkage"] != "ext":
            continue
        seen.add(key)
        if d["access"] == 2:      # private: nobody outside can call it
            continue
        n += 1
        ctx.ob("P27.defined", d["pure"] or d["fid"] in have, "%s#%s" % (d["q"], d["fid"]), "%s is declared for users but defined nowhere" % d["q"], file, d["l"], d["q"])
    for r in F.records.values():
        if not facts.rel(r["file"]).startswith("include/") or "<" not in r["full"]:
            continue
        for m in r["methods"]:
            if m["access"] == 2 or m["pure"]:
                continue
            n += 1
            f = F.functions.get(m["fid"])
            ok = f is not None or m["fid"] in have
            ctx.ob("P27.defined", ok, "%s#%s" % (m["q"], m["fid"]), "%s of the class template has no definition in a header" % m["q"], facts.rel(r["file"]), r["l"], m["q"])
    ctx.require("P27.defined", 150, "public functions")


STRONG = re.compile(r"^(?:@|define )")
WEAK = ("private", "internal", "linkonce", "linkonce_odr", "weak", "weak_odr", "external", "available_externally", "appending", "common", "extern_weak")


def linkage(ir):
    """-> number of discardable definitions, demangled names of strong definitions"""
    names, weak = [], 0
    for l in ir.splitlines():
        if l.startswith("define "):
            m = re.search(r"@(\"[^\"]+\"|[-\w$.]+)\(", l)
            if any(w in WEAK for w in l[7:l.index("@")].split()):
                weak += 1
                continue
            names.append(m.group(1).strip('"'))
        elif l.startswith("@") and " = " in l:
            k = l.split(" = ", 1)[1].split()
            if any(w in WEAK for w in k[:6]) or not any(w in ("global", "constant") for w in k[:8]):
                continue
            names.append(l[1:].split(" = ")[0].strip('"'))
    if not names:
        return weak, []
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return weak, r.stdout.split("\n")[:len(names)]
