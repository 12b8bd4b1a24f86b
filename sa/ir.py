"""Loads the resolved syntax trees of /repo (runs the extractor on the current working tree)."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis itself is broken (not a verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d" % os.getpid()
    r = sh(["g++", "-std=c++17", "-fno-rtti", "-O1", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
            LLVM + "/lib/libclang-cpp.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"])
    if r.returncode:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


class Program:
    def __init__(self):
        self.fns = {}       # mangled -> function
        self.byq = {}       # qualified name -> [function]
        self.recs = {}      # qualified name -> record
        self.globs = {}     # mangled -> variable
        self.tus = []
        self.lambdas = {}   # (tu, class id) -> lambda node

    def fn(self, q, nparams=None, body=True):
        r = [f for f in self.byq.get(q, []) if (not body or f.get("body")) and
             (nparams is None or len(f["params"]) == nparams)]
        return r

    def fn1(self, q, nparams=None, pred=None):
        r = self.fn(q, nparams)
        if pred:
            r = [f for f in r if pred(f)]
        if len(r) != 1:
            raise AnalysisError("anchor %s: %d definitions found, 1 expected" % (q, len(r)))
        return r[0]


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def _fix(n, types, tu, prog, fctx):
    """Resolve type indices to type objects and give every node a stable site id."""
    if isinstance(n, dict):
        for k in ("t", "to", "ct", "at", "ret", "xt"):
            v = n.get(k)
            if isinstance(v, int):
                n[k] = types[v] if v >= 0 else None
        for k in ("ps", "targs", "bases"):
            v = n.get(k)
            if isinstance(v, list) and v and isinstance(v[0], int):
                n[k] = [types[x] if x >= 0 else None for x in v]
        if n.get("e") == "lambda":
            n["tu"] = tu
            prog.lambdas[(tu, n["cls"])] = n
        if "e" in n or "s" in n:
            fctx[1] += 1
            n["sid"] = "%s:%s#%d" % (fctx[0], n.get("l", 0), fctx[1])
        for v in list(n.values()):
            if isinstance(v, (dict, list)) and not (isinstance(v, dict) and v.get("_ty")):
                _fix(v, types, tu, prog, fctx)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)) and not (isinstance(v, dict) and v.get("_ty")):
                _fix(v, types, tu, prog, fctx)


def load(repo=None):
    repo = repo or REPO
    exe = extractor()
    scratch = tempfile.mkdtemp(prefix="sa-db-")
    try:
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        r = sh(["cmake", "-S", repo, "-B", scratch, "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_TESTING=ON", "-Wno-dev"], env=env)
        dbf = os.path.join(scratch, "compile_commands.json")
        if r.returncode or not os.path.exists(dbf):
            raise AnalysisError("cmake failed: " + r.stderr[-1500:])
        db = json.load(open(dbf))
        seen = {}
        for e in db:
            f = os.path.realpath(os.path.join(e["directory"], e["file"]))
            if os.path.relpath(f, repo).startswith("tests"):
                continue
            seen.setdefault(f, e)
        files = sorted(seen)
        if not files:
            raise AnalysisError("no translation units")

        def run(f):
            r = subprocess.run([exe, repo, scratch, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode or not r.stdout.strip():
                raise AnalysisError("cannot parse %s: %s" % (f, r.stderr.decode("utf-8", "replace")[-1500:]))
            return f, r.stdout
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(run, files))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    prog = Program()
    prog.repo = repo
    prog.files = files
    prog.compile = {f: seen[f] for f in files}
    for f, out in outs:
        doc = None
        for line in out.splitlines():
            if line.strip():
                doc = json.loads(line)
                break
        types = doc["types"]
        for t in types:
            t["_ty"] = True
        for t in types:
            for k in ("to", "ret"):
                if isinstance(t.get(k), int):
                    t[k] = types[t[k]] if t[k] >= 0 else None
            for k in ("ps", "targs"):
                if t.get(k) and isinstance(t[k][0], int):
                    t[k] = [types[x] if x >= 0 else None for x in t[k]]
        rel = os.path.relpath(f, repo)
        prog.tus.append(rel)
        for fn in doc["functions"]:
            if fn["m"] in prog.fns and prog.fns[fn["m"]].get("body"):
                continue
            ctx = [fn["q"], 0]
            _fix(fn, types, rel, prog, ctx)
            fn["tu"] = rel
            fn["nodes"] = ctx[1]
            fn["file"] = os.path.relpath(fn["file"], repo)
            prog.fns[fn["m"]] = fn
        for rec in doc["records"]:
            _fix(rec, types, rel, prog, [rec["q"], 0])
            rec["file"] = os.path.relpath(rec["file"], repo)
            prog.recs.setdefault(rec["q"], rec)
        for g in doc["globals"]:
            _fix(g, types, rel, prog, [g["q"], 0])
            g["file"] = os.path.relpath(g["file"], repo)
            prog.globs.setdefault(g["m"], g)
    for fn in prog.fns.values():
        prog.byq.setdefault(fn["q"], []).append(fn)
    return prog


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p.fns), "functions", len(p.recs), "records", len(p.globs), "globals", "%.1fs" % (time.time() - t))
    for q in sorted(p.byq):
        print(q, [(f["file"], f["line"]) for f in p.byq[q]])
