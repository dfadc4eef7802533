"""Facts about /repo's current source: runs the libTooling extractor over every
translation unit and indexes the result.  Nothing is executed; clang only parses
and type-checks."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TOOL = os.path.dirname(HERE)
VERIF = os.path.dirname(TOOL)
BUILD = os.path.join(VERIF, "build")
REPO = os.environ.get("DRIFT_REPO", "/repo")
FLAGS = ["-std=c++17", "-I%s/include" % REPO, "-I/usr/include/eigen3",
         "-resource-dir=/usr/lib/llvm-18/lib/clang/18", "-ferror-limit=0", "-w"]


class AnalysisBroken(Exception):
    pass


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(TOOL, "build_tool.sh")], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build the extractor: " + r.stderr[-2000:])


def repo_sources():
    ext = (".cpp", ".cc", ".cxx", ".c", ".h", ".hh", ".hpp", ".hxx", ".inl", ".inc", ".ipp",
           ".tpp", ".txx", ".def", ".tcc")
    out = set()
    for top in ("src", "include", "baselines", "ROS"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out.update(os.path.join(d, f) for f in fs if f.endswith(ext))
    return sorted(out)


class Facts:
    def __init__(self):
        self.functions = {}    # fid -> fn
        self.by_q = {}         # qualified name -> [fn]
        self.records = {}      # qualified full name -> record
        self.enums = {}
        self.globals = {}
        self.globdecls = []
        self.decls = []        # (tu, declaration)
        self.units = []        # (file, n_functions, errors)
        self.tu_funcs = {}     # tu -> [fid]

    def add(self, tu, d):
        for f in d["functions"]:
            f["tu"] = tu
            if f["q"] == "main":
                f["fid"] += "@" + str(f.get("file"))      # one per program
            if f["fid"] not in self.functions or (
                    "body" in f and "body" not in self.functions[f["fid"]]):
                self.functions[f["fid"]] = f
                self.by_q.setdefault(f["q"], [])
                self.by_q[f["q"]] = [x for x in self.by_q[f["q"]] if x["fid"] != f["fid"]] + [f]
        self.decls += [(tu, x) for x in d["decls"]]
        for r in d["records"]:
            self.records.setdefault(r["full"], r)
        for e in d["enums"]:
            self.enums.setdefault(e["q"], e)
        for g in d["globals"]:
            self.globdecls.append((tu, g))
            old = self.globals.get(g["q"])
            if old is None or ("init" in g and "init" not in old):
                self.globals[g["q"]] = g
        self.units.append((tu, len(d["functions"]), d["errors"]))
        self.tu_funcs[tu] = [f["fid"] for f in d["functions"]]

    # ---- lookups -------------------------------------------------------
    def rec(self, q):
        """record by qualified name (first instantiation)"""
        for k, r in self.records.items():
            if r["q"] == q or k == q:
                return r
        return None

    def fn(self, q, nparams=None, required=True):
        c = [f for f in self.by_q.get(q, []) if "body" in f or f.get("ctor")]
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if not c:
            if required:
                raise AnalysisBroken("anchor vanished: no definition of %s%s" %
                                     (q, "" if nparams is None else "/%d" % nparams))
            return None
        return c[0]

    def bases(self, q, acc=None):
        acc = [] if acc is None else acc
        r = self.rec(q)
        if r:
            for b in r["bases"]:
                bq = b.split("<")[0]
                acc.append(bq)
                self.bases(bq, acc)
        return acc

    def derived(self, q):
        return [r["q"] for r in self.records.values() if q in self.bases(r["q"])]

    def all_fields(self, q):
        out = []
        for b in reversed(self.bases(q)):
            r = self.rec(b)
            if r:
                out += [(b, f) for f in r["fields"]]
        r = self.rec(q)
        if r:
            out += [(q, f) for f in r["fields"]]
        return out

    def overrider(self, cls, fid):
        """most derived override of method fid in class cls"""
        chain = [cls] + self.bases(cls)
        for c in chain:
            r = self.rec(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["fid"] == fid:
                    return fid
                if self._overrides(m, fid):
                    return m["fid"]
        return fid

    def _overrides(self, m, fid, depth=0):
        if fid in m["overrides"]:
            return True
        for o in m["overrides"]:
            for r in self.records.values():
                for mm in r["methods"]:
                    if mm["fid"] == o and depth < 5 and self._overrides(mm, fid, depth + 1):
                        return True
        return False


def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p


PLACE = b"@REPO@/"


def _extract(src, flags, roots, cache):
    """facts of one translation unit, as bytes; cached with the checkout's path
    replaced by a placeholder"""
    root = (REPO.rstrip("/") + "/").encode()
    try:
        with open(cache, "rb") as f:
            raw = f.read()
        os.utime(cache)
        return raw.replace(PLACE, root), ""
    except OSError:
        pass
    tmp = cache + ".%d.%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run([os.path.join(BUILD, "dxtract"), tmp, ",".join(roots), src, "--"] + flags,
                       capture_output=True, text=True, cwd="/")
    if not os.path.exists(tmp):
        raise AnalysisBroken("extractor failed on %s: %s" % (src, r.stderr[-1500:]))
    with open(tmp, "rb") as f:
        raw = f.read()
    with open(tmp, "wb") as f:
        f.write(raw.replace(root, PLACE))
    os.replace(tmp, cache)
    return raw, r.stderr


GROUPS = {
    # group -> (list of (glob or path), extra flags, extra roots, errors allowed)
    "core": (["%s/src/**/*.cpp" % REPO], [], [], False),
    "inst": ([TOOL + "/tu/inst.cpp"], [], [], False),
    "wheel": (["%s/baselines/src/**/*.cpp" % REPO],
              ["-I%s/baselines/include" % REPO], [], False),
    "ros": (["%s/ROS/drift/src/**/*.cpp" % REPO],
            ["-I%s/stubs" % TOOL, "-I%s/ROS/drift/include" % REPO], [TOOL + "/stubs"], False),
    "rosmain": (["%s/ROS/drift/examples/*.cpp" % REPO, "%s/ROS/drift/baselines/*.cpp" % REPO],
            ["-I%s/stubs" % TOOL, "-I%s/ROS/drift/include" % REPO, "-I%s/baselines/include" % REPO], [TOOL + "/stubs"], False),
}


def _mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:
        return time.time()


def _content(p):
    with open(p, "rb") as f:
        return f.read()


def _tu_keys(files):
    """cache key per translation unit: everything it could include (all sources that
    are not themselves compiled, or every source if one includes a .cpp) and itself"""
    srcs = repo_sources()
    body = {f: _content(f) for f in srcs}
    own = [f for f in srcs if f.endswith(".cpp") and not f.startswith(REPO + "/include/")]
    names = {os.path.basename(f).encode() for f in own}
    mixed = any(m.group(1) in names for c in body.values() for m in
                re.finditer(rb'#\s*include\s*[<"](?:[^>"\n]*/)?([^>"/\n]*)[>"]', c))
    mixed = mixed or any(re.search(rb'#\s*include\s+[A-Za-z_]', c) for c in body.values())
    shared = srcs if mixed else [f for f in srcs if f not in set(own)]
    tool = [s for s in glob.glob(TOOL + "/stubs/**/*", recursive=True) if os.path.isfile(s)]
    tool += [TOOL + "/tu/inst.cpp", TOOL + "/dxtract.cpp"]
    h = hashlib.sha256()
    for p in sorted(shared) + sorted(tool):
        h.update(os.path.relpath(p, REPO if p in body else VERIF).encode())
        h.update(hashlib.sha256(body[p] if p in body else _content(p)).digest())
    h.update(repr((FLAGS, GROUPS)).replace(REPO + "/", "@REPO@/").encode())
    base = h.hexdigest()
    out = {}
    for g, f in files:
        k = hashlib.sha256((base + g + rel(f)).encode() + (body[f] if f in body else _content(f)))
        out[(g, f)] = k.hexdigest()[:32]
    return out


def load(groups=("core", "inst")):
    build_tool()
    cdir = os.path.join(BUILD, "facts")
    os.makedirs(cdir, exist_ok=True)
    old = sorted((os.path.join(cdir, d) for d in os.listdir(cdir)), key=_mtime)
    for d in old[:-400]:                  # drop what other source states left behind
        if time.time() - _mtime(d) > 900:
            subprocess.run(["/bin/rm", "-rf", d])
    todo = []
    for g in groups:
        pats, fl, roots, _ = GROUPS[g]
        files = sorted({f for p in pats for f in glob.glob(p, recursive=True)})
        if not files:
            raise AnalysisBroken("no translation units for group " + g)
        todo += [(g, f) for f in files]
    keys = _tu_keys(todo)
    jobs = [(g, f, FLAGS + GROUPS[g][1], [REPO] + GROUPS[g][2],
             os.path.join(cdir, "%s.%s.json" % (os.path.basename(f), keys[(g, f)])))
            for g, f in todo]
    F = Facts()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: _extract(j[1], j[2], j[3], j[4]), jobs))
    for j, (c, err) in zip(jobs, res):
        d = json.loads(c.decode("utf-8", "replace"))
        if d["errors"]:
            msg = err
            if not msg:
                msg = "(cached)"
            raise AnalysisBroken("clang reports %d errors in %s: %s" % (d["errors"], j[1], msg[:1500]))
        F.add(rel(j[1]), d)
    return F
