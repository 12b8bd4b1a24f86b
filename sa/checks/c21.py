"""C21: objects that own keys, or point into themselves, cannot be duplicated.

Which classes these are is found by dataflow over destructors and constructors; that no program can duplicate them is
a type-level fact, witnessed by the compiler on a program that asks for every way of duplicating."""
import os
import shlex
import subprocess
import tempfile

from ..q import *
from .. import ir

ANCHORS = ("DKIM::PublicKey", "DKIM::AdditionalSignaturesOptions", "DKIM::SignatoryOptions")
OPS = (("copy", "is_copy_constructible", "copy constructor"), ("copyasg", "is_copy_assignable", "copy assignment"),
       ("move", "is_move_constructible", "move constructor"), ("moveasg", "is_move_assignable", "move assignment"))


def check(prog, R):
    R.say("owner", "a class is in scope when its destructor releases what one of its pointer members refers to, or its constructor stores in a "
                   "pointer member the address of a part of the same object")
    R.say("witness", "a program that copies or moves an object of such a class, by construction or assignment, does not compile")
    R.say("inside", "the class itself and its friends cannot duplicate it either: the operations are deleted, or declared without a definition")
    scope = {}
    for q, r in sorted(prog.recs.items()):
        if not r["file"].startswith("src/") or not q.startswith("DKIM::"):
            continue
        why = owns(prog, R, q) or points(prog, R, q)
        if why:
            scope[q] = why
    for q in ANCHORS:
        if q not in prog.recs:
            raise ir.AnalysisError("class %s is gone" % q)
        if q not in scope:
            R.ok("owner", q, "%s neither releases what a member points to nor points into itself" % q)
    for q, why in sorted(scope.items()):
        R.ok("owner", q, "%s %s" % (q, why))
        inside(prog, R, q, why)
    if scope:
        witness(prog, R, scope)


def unconst(t):
    return unref(t) if t else {}


def owns(prog, R, q):
    """The destructor releases (directly or through what it calls) an object a member points to."""
    hit = []

    def free(I_, st, p, how, node):
        x = p
        while x.op in ("init", "cast", "conv") and x.a:
            x = x.a[0]
        if x.op == "fld" and x.a[0] is a_this[0]:
            hit.append((x.a[1], how))
        return [st]
    for f in prog.fns.values():
        if f.get("cls") == q and "~" in f["q"] and f.get("body") is not None:
            a_this = [T("obj", "this")]
            a = An(prog, f, extra={"#free": free})
            a_this[0] = a.this
            hit.clear()
            a = An(prog, f, extra={"#free": free})
            R.an(a)
    # members released by a unique_ptr are released by it; the pointer type itself cannot be copied
    raw = {f["n"] for f in prog.recs[q]["fields"] if (unref(f["t"]) or {}).get("k") == "ptr"}
    own = sorted({(m, h) for m, h in hit if m in raw})
    return "releases in its destructor what its member %s points to" % ", ".join("%s (%s)" % x for x in own) if own else None


def points(prog, R, q):
    """A constructor stores the address of a part of the object (or of an element it put into one of its containers) in a member."""
    out = set()
    for f in prog.fns.values():
        if f.get("cls") != q or f.get("body") is None or f["q"].split("::")[-1] != q.split("::")[-1]:
            continue
        if len(f["params"]) == 1 and isinstance(unref(f["params"][0]["t"]), dict) and (unref(f["params"][0]["t"]) or {}).get("n") == q:
            continue
        a = An(prog, f)
        R.an(a)
        raw = {x["n"] for x in prog.recs[q]["fields"] if (x["t"] or {}).get("k") in ("ptr", "ref", "lref")}
        for st, v in a.rets:
            for k, x in st.store.items():
                if k.op == "fld" and k.a[0] is a.this and k.a[1] in raw and x.op in ("addr", "ptr", "alias") and own_part(a, x.a[0]):
                    out.add(k.a[1])
    return "points into itself with its members %s" % ", ".join(sorted(out)) if out else None


def own_part(a, l):
    while isinstance(l, T):
        if l is a.this:
            return True
        if l.op == "heap":
            return True
        if l.op in ("fld", "at", "el", "data") and l.a:
            l = l.a[0]
        else:
            return False
    return False


def inside(prog, R, q, why):
    r = prog.recs[q]
    for key, trait, name in OPS:
        ms = [m for m in r["methods"] if m.get(key)]
        w = "%s:%s %s" % (r["file"], r["line"], q)
        if not ms:
            if key in ("move", "moveasg"):
                R.ok("inside", w, "no %s is declared" % name)
                continue
            # another declaration suppresses it (a declared move operation deletes the copies)
            R.ok("inside", w, "no %s exists" % name)
            continue
        for m in ms:
            if m.get("deleted"):
                R.ok("inside", w, "%s deleted" % name)
                continue
            if m.get("implicit") or m.get("default"):
                R.bad("inside", w, "%s: %s, and its %s is generated member by member" % (q, why, name))
                continue
            f = prog.fns.get(m["m"])
            if f is None or f.get("body") is None:
                R.test("inside", m["access"] != "public", w, "%s: %s, and its %s is public" % (q, why, name), sample="%s has no definition" % name)
            elif key in ("move", "moveasg"):
                R.unsure("inside", w, "%s defines a %s of its own" % (q, name))
            else:
                R.bad("inside", w, "%s: %s, and it defines a %s" % (q, why, name))


def flags(prog):
    for f, e in sorted(prog.compile.items()):
        if os.sep + "src" + os.sep in f:
            a = e.get("arguments") or shlex.split(e["command"])
            out = []
            it = iter(a[1:])
            for x in it:
                if x in ("-I", "-isystem", "-D"):
                    out += [x, next(it)]
                elif x.startswith(("-I", "-D", "-std=", "-isystem")):
                    out.append(x)
            return out
    return []


def compiles(prog, text):
    fd, p = tempfile.mkstemp(suffix=".cpp", prefix="sa-witness-")
    try:
        os.write(fd, text.encode())
        os.close(fd)
        r = subprocess.run(["g++", "-fsyntax-only", "-w"] + flags(prog) + (["-std=c++17"] if not any(x.startswith("-std=") for x in flags(prog)) else []) +
                           ["-I" + os.path.join(prog.repo, "src"), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return r.returncode == 0, r.stderr
    finally:
        os.unlink(p)


def witness(prog, R, scope):
    heads = sorted({prog.recs[q]["file"] for q in scope})
    inc = "#include <type_traits>\n#include <utility>\n" + "".join('#include "%s"\n' % os.path.join(prog.repo, h) for h in heads)
    ok, err = compiles(prog, inc + "".join("static_assert(sizeof(%s) > 0, \"\");\nstatic_assert(std::is_destructible<%s>::value, \"\");\n" % (q, q) for q in scope))
    if not ok:
        raise ir.AnalysisError("the control program does not compile: " + err[:800])
    for q, why in sorted(scope.items()):
        r = prog.recs[q]
        w = "%s:%s %s" % (r["file"], r["line"], q)
        for key, trait, name in OPS:
            ms = [m for m in r["methods"] if m.get(key)]
            if key in ("move", "moveasg") and ms and all(not m.get("implicit") and not m.get("default") and not m.get("deleted") for m in ms):
                R.unsure("witness", w, "%s defines a %s of its own" % (q, name))
                continue
            ok, err = compiles(prog, inc + "static_assert(!std::%s<%s>::value, \"\");\n" % (trait, q))
            R.test("witness", ok, w, "%s: %s, and a program using its %s compiles" % (q, why, name), sample="%s of %s does not compile" % (name, q))
