"""C04: signatures missing a mandatory tag are rejected."""
from .sigparse import *


def check(prog, R):
    R.say("present", "on every normal return of Signature::Parse the tags a, b, bh, d, h and s are known to be present")
    R.say("b non-empty", "on every normal return the value of b is known not to be empty")
    R.say("v or i", "on every normal return v is known to be present for DKIM and i for ARC signatures")
    R.say("error", "every error Signature::Parse raises is a permanent error")
    a = analysis(prog, R)
    for s, v in a.rets:
        arc = is_arc(a, s)
        for n in ("a", "b", "bh", "d", "h", "s") + (("i",) if arc else ("v",) if arc is False else ()):
            p, val, off = tag(a, s, n)
            R.test("present" if n not in "iv" else "v or i", p is True, "%s tag %s" % (a.where, n),
                   "a path accepts a signature %s tag %s" % ("without" if p is False else "without knowing that it has", n),
                   sample=n, notes=s.notes)
            if n == "b" and p:
                R.test("b non-empty", same(a, s, a.I.size(val), I(0)) is False or val.op == "str" and val.a[0], a.where,
                       "a path accepts an empty b tag", notes=s.notes)
        if arc is None:
            R.unsure("v or i", a.where, "kind of signature unknown on a path")
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)
