"""C06: a signature that does not cover From is rejected."""
from .sigparse import *


def is_from(a, s, e):
    """Is the list element e known to be "from" ignoring case?"""
    if "from" in (pinned(s, T("lower", e)), pinned(s, T("cz", T("lower", e)))):
        return True
    p = pinned(s, e)
    if p is not None:
        return p.lower() == "from"
    for t, d in s.dom.items():
        if t.op == "cmpz" and d == IS.of([0]):
            for x, y in (t.a, t.a[::-1]):
                if y.op == "str" and y.a[0].lower() == "from" and x in (T("lower", e), T("cz", T("lower", e))):
                    return True
    return False


def elems(s, lst):
    """Elements of the list value (or of its lower-cased copy) state s knows something about."""
    out = set()
    for t in list(s.facts) + list(s.dom) + list(s.sdom):
        for x in subterms(t):
            if x.op in ("elv", "chat") and x.a[0] is lst:
                out.add(x)
    return out


def check(prog, R):
    R.say("from", "on every normal return of Signature::Parse one element of GetSignedHeaders() is known to equal \"from\" "
                  "as a whole, ignoring letter case")
    R.say("list", "GetSignedHeaders() is the complete list parsed from the h tag")
    R.say("error", "every error Signature::Parse raises is a permanent error")
    a = analysis(prog, R)
    for s, v in a.rets:
        p, val, _ = tag(a, s, "h")
        lst = a.get(s, SIG + "GetSignedHeaders", a.this)
        if not p or lst is None:
            R.unsure("from", a.where, "signed header list not understood")
            continue
        w = T("vlist", val)
        R.test("list", True if lst is w else None if opaque_in(lst) or lst.op in ("map1", "filter") else False, a.where,
               "the signed header list is %s" % sh(lst)[:300], notes=s.notes)
        good = False
        for e in elems(s, lst) | elems(s, w):
            if is_from(a, s, e):
                good = True
        if not good and since(a, s, lambda w: any(is_from(a, w, e) for e in elems(w, lst))):
            good = True
        dunno = False
        for t, b in s.facts.items():
            if t.op in ("any", "findpos", "has", "all") and (t.a[0] in (lst, w) or mentions(t.a[0], lambda x: x in (lst, w))):
                k = fromfact(a, s, t, b)
                if k:
                    good = True
                elif k is None:
                    dunno = True
        if not good and any(x.op in ("count", "countif") and mentions(x, lambda y: y in (lst, w)) for x in list(s.dom)):
            dunno = True
        R.test("from", True if good else None if dunno else False, a.where,
               "a path accepts a signature without finding \"from\" in its list; known about the elements: %s" %
               [sh(x)[:120] for x in elems(s, lst)][:5], sample="from found", notes=s.notes)
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)


def fromfact(a, s, t, b):
    """Does a fact about a search in the list say that "from" is there?  None: cannot tell."""
    if t.op == "has":
        x = t.a[1]
        if not b:
            return False
        if t.a[0].op == "map1":
            e = T("elv", t.a[0].a[0], T("some"), "f")
            w = subst(t.a[0].a[1], lambda y: e if y.op == "hole" else None)
            s2 = a.I.assume_streq(s, w, x.a[0], True) if x.op == "str" else a.I.assume(s, T("eq", w, x), True)
            return True if s2 is None or is_from(a, s2, e) else None if opaque_in(t.a[0].a[1]) else False
        return None if t.a[0].op != "vlist" else x.op == "str" and x.a[0].lower() == "from"
    if t.op in ("any", "findpos"):
        if not b:
            return False
        # one element, any: whenever the predicate is true for it, is it "from"?
        e = T("elv", t.a[0], T("some"), "f")
        p = subst(t.a[1], lambda x: e if x.op == "hole" else None)
        if not mentions(p, lambda x: x is e):
            return None
        low = t.a[0].op == "map1" and t.a[0].a[0] == "lower"
        try:
            yes = [s2 for s2, v in a.I.truth(s, p) if v]
        except (TypeError, ValueError, KeyError, IndexError):
            return None
        if all(is_from(a, s2, e) for s2 in yes):
            return True
        return None if low or opaque_in(p) else False
    return None
