"""C03: a key record can veto: hash list, key type and strict-domain flag."""
from .verifier import *


def check(prog, R):
    R.say("hash", "on every normal return the record restricts no hashes or its list contains the signature's hash")
    R.say("type", "on every normal return the key type equals the signature's key type")
    R.say("strict", "on every normal return the signature is an ARC one, or the record has no flag s, or the signing domain equals the "
          "identity domain")
    R.say("error", "every error CheckSignature raises is a permanent error")
    for a in analyses(prog, R):
        for s, v in a.rets:
            algs = a.get(s, PUB + "GetDigestAlgorithms", a.pub)
            alg = a.get(s, SIG + "GetDigestAlgorithm", a.sig)
            if None in (algs, alg):
                R.unsure("hash", a.where, "accessors not understood")
                continue
            ok = same(a, s, a.I.size(algs), I(0)) is True or member(a, s, algs, alg) is True
            if not ok and loops_over(a, algs):
                ok = None
            R.test("hash", ok, a.where, "a path returns although the record's hash list may exclude the signature's hash", notes=s.notes,
                   sample=[(repr(t), v) for t, v in s.facts.items() if t.op == "has"][:2])
            x, y = a.get(s, SIG + "GetSignatureAlgorithm", a.sig), a.get(s, PUB + "GetSignatureAlgorithm", a.pub)
            R.test("type", same(a, s, x, y) is True, a.where, "a path returns although the key types %r and %r may differ" % (x, y),
                   sample=(repr(x), repr(y)), notes=s.notes)
            arc = a.get(s, SIG + "IsARC", a.sig)
            flags = a.get(s, PUB + "GetFlags", a.pub)
            d, m = a.get(s, SIG + "GetDomain", a.sig), a.get(s, SIG + "GetMailDomain", a.sig)
            ok = same(a, s, arc, I(0)) is False or member(a, s, flags, S("s")) is False or same(a, s, d, m) is True
            if not ok and (loops_over(a, flags) or domains_compared(s, d, m)):
                ok = None
            R.test("strict", ok, a.where, "a path accepts an ordinary signature although flag s may be set and the domains may differ",
                   sample=[(repr(t)[:200], v) for t, v in s.facts.items() if t.op in ("has", "eq")][:3], notes=s.notes)
        for s, e in a.throws:
            R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)


def domains_compared(s, d, m):
    """Another kind of comparison of the two domains that came out equal."""
    for t, v in list(s.facts.items()) + list(s.dom.items()):
        if t.op in ("eq", "cmpz") and mentions(t, lambda x: x is d) and mentions(t, lambda x: x is m):
            if (t.op == "eq" and v is True) or (t.op == "cmpz" and v == IS.of([0])):
                return any(x.op == "lower" for x in subterms(t))
    return False
