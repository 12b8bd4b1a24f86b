"""What the checks about Validatory::CheckSignature share."""
from ..q import *

SIG = "DKIM::Signature::"
PUB = "DKIM::PublicKey::"
CHECK = "DKIM::Validatory::CheckSignature"


def enum(prog, ty, name):
    for n, v in ty.get("consts", []):
        if n.split("::")[-1] == name:
            return v
    return None


def retenum(prog, q, name):
    """Value of an enumerator of the type method q returns."""
    f = prog.fn(q)
    if not f:
        raise ir.AnalysisError("anchor %s is not defined" % q)
    v = enum(prog, unref(f[0]["ret"]), name)
    if v is None:
        raise ir.AnalysisError("enumerator %s of %s not found" % (name, q))
    return v


def analyses(prog, R, **kw):
    fs = prog.fn(CHECK)
    if not fs:
        raise ir.AnalysisError("anchor %s is not defined" % CHECK)
    for f in fs:
        a = An(prog, f, **kw)
        a.sig = a.ploc(a.pidx(lambda t: t.get("n") == "DKIM::Signature")[0])
        a.pub = a.ploc(a.pidx(lambda t: t.get("n") == "DKIM::PublicKey")[0])
        R.an(a)
        yield a


def crypto(st):
    """Verification primitives called on the way to st: term -> domain of the result."""
    out = {}
    for t, d in st.dom.items():
        if t.op in ("rsaverify", "edverify"):
            out[t] = d
    for t, v in st.facts.items():
        if t.op == "eq0" and isinstance(t.a[0], T) and t.a[0].op in ("rsaverify", "edverify"):
            d = IS.of([0])
            out[t.a[0]] = d if v else d.compl()
    return out


def accepted(st):
    """The primitives that reported success on the way to st."""
    r = []
    for t, d in crypto(st).items():
        if t.op == "rsaverify" and d == IS.of([1]):
            r.append(t)
        if t.op == "edverify" and d == IS.of([0]):
            r.append(t)
    return r
