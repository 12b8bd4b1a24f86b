"""C09: expired signatures and out-of-range ARC instances are rejected."""
from .sigparse import *


def check(prog, R):
    R.say("expired", "on every normal return with x= its number is known not to be below the current time")
    R.say("instance", "on every normal return for ARC the instance GetARCInstance() reports is the number in i and known to be 1 to 50")
    R.say("error", "every error Signature::Parse raises is a permanent error")
    a = analysis(prog, R)
    for s, v in a.rets:
        p, val, _ = tag(a, s, "x")
        if p is None:
            unknown(R, "expired", a, s, "x")
        elif p:
            nums = [t for f in list(s.facts) + list(s.dom) for t in subterms(f) if
                    t.op in ("strtol", "strtoul") and t.a[0] is val or t.op == "ovfval" and t.a[1] is val]
            now = [t for f in list(s.facts) + list(s.dom) for t in subterms(f) if t.op == "now"]
            other = [f for f in list(s.facts) + list(s.dom) if mentions(f, lambda x: x is val) and f.op not in ("has", "hasin", "ovf", "size")
                     and not any(mentions(f, lambda x, y=y: x is y) for y in nums)]
            good = any(same(a, s, n, w, "<") is False or inrange(a, s, n, w) for n in nums for w in now)
            R.test("expired", True if good else None if not nums and other else False, a.where,
                   "a path accepts a signature with x= that may be below the current time; known: %s" %
                   [sh(f)[:150] for f in list(s.facts) + list(s.dom) if mentions(f, lambda x: x is val)][:5], sample="not expired", notes=s.notes)
        arc = is_arc(a, s)
        if arc is None:
            R.unsure("instance", a.where, "kind of signature not known")
        elif arc:
            p, val, _ = tag(a, s, "i")
            g = a.get(s, SIG + "GetARCInstance", a.this)
            if g is None or not p:
                R.unsure("instance", a.where, "instance not understood")
                continue
            n = widecast(g)
            isnum = n.op in ("strtol", "strtoul") and n.a[0] is val and n.a[1] in (10, I(10))
            if not isnum and (opaque_in(n) or n.op not in ("init", "int", "strtol", "strtoul", "lin", "cast")):
                R.unsure("instance", a.where, "instance is %s" % sh(g)[:200])
                continue
            lo, hi = same(a, s, g, I(1), ">="), same(a, s, g, I(50), "<=")
            R.test("instance", bool(isnum and lo and hi), a.where, "the instance is %s; at least 1: %s, at most 50: %s" % (sh(g)[:200], lo, hi),
                   sample=sh(g), notes=s.notes)
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)


def inrange(a, s, n, w):
    """n >= w through conversions of n or w."""
    for t, b in s.facts.items():
        if t.op == "le0" and b is False and widecast(t.a[0]) is add(add(n, mulc(w, -1)), I(1)):
            return True
        if t.op == "le0" and b is True and widecast(t.a[0]) is add(w, mulc(n, -1)):
            return True
    return False
