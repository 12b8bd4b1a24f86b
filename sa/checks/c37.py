"""C37: Reset restores every field to its initial state."""
from ..q import *

CLASSES = ("DKIM::Signature", "DKIM::PublicKey", "DKIM::TagList", "DKIM::Message")


def leaves(prog, rec, loc, path=""):
    """Fields of a record, those of member records of the library included: (path, location, type)."""
    for b in rec.get("bases", []):
        r = prog.recs.get(b if isinstance(b, str) else b.get("n"))
        if r:
            yield from leaves(prog, r, loc, path)
    for f in rec["fields"]:
        l, t = fld(loc, f["n"]), f["t"]
        r = prog.recs.get(t.get("n")) if t.get("k") == "rec" and t.get("repo") else None
        if r and t.get("n") in CLASSES:
            yield from leaves(prog, r, l, path + f["n"] + ".")
        else:
            yield path + f["n"], l, t


def blank(a, s, v):
    """Is v an empty text or collection?"""
    return same(a, s, a.I.size(v), I(0)) is True


def check(prog, R):
    R.say("fields", "on every way out of Reset(), every field (fields of member objects included) has the value the constructor gives it; "
                    "nothing of the old value is left")
    R.say("built", "the constructor gives every field a value")
    R.say("returns", "Reset() always returns")
    for cls in CLASSES:
        rec = prog.recs.get(cls)
        if rec is None:
            raise ir.AnalysisError("class %s not found" % cls)
        rs = [f for f in prog.fn(cls + "::Reset") if not f["params"]]
        cs = [f for f in prog.fn(cls + "::" + cls.split("::")[-1]) if all(p.get("def") for p in f["params"]) and not f["params"]]
        if not rs:
            raise ir.AnalysisError("anchor %s::Reset() is not defined" % cls)
        this = T("obj", "this")
        fields = list(leaves(prog, rec, this))
        new = {}
        if cs:
            b = An(prog, cs[0], this=this, without="all")
            R.an(b)
            for p, l, t in fields:
                vs = set(b.I.read(s, l, t) for s, v in b.rets)
                for s, v in b.rets:
                    x = b.I.read(s, l, t)
                    R.test("built", None if opaque_in(x) else not mentions(x, lambda y: y.op == "init" and mentions(y, lambda z: z is this)), b.where,
                           "%s is left without a value" % p, sample=p, notes=s.notes)
                new[p] = vs.pop() if len(vs) == 1 else None
        a = An(prog, rs[0], this=this, without="all")
        R.an(a)
        R.test("returns", not a.throws and bool(a.rets), a.where, "Reset() can end by an exception")
        for s, v in a.rets:
            for p, l, t in fields:
                x = a.I.read(s, l, t)
                old = mentions(x, lambda y: y.op == "init" and mentions(y, lambda z: z is this))
                if not cs:
                    w = None
                else:
                    w = new.get(p)
                if w is None:
                    # built by default member initialisation: empty, null or zero
                    R.test("fields", False if old else True if x in (T("null"), T("nil"), I(0)) or blank(a, s, x) else None, a.where,
                           "%s is %s" % (p, sh(x)[:120]), sample=p, notes=s.notes)
                    continue
                eq = x is w or same(a, s, x, w) is True or blank(a, s, x) and blank(a, s, w)
                R.test("fields", eq or (False if old or not opaque_in(x) else None), a.where,
                       "%s becomes %s, a new object has %s" % (p, sh(x)[:120], sh(w)[:120]), sample="%s = %s" % (p, sh(w)[:40]), notes=s.notes)
