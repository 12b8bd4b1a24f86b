"""C07: the identity domain is the signing domain or below it."""
from .sigparse import *


def check(prog, R):
    R.say("domain", "GetDomain() reports the value of d in lower case")
    R.say("absent", "without i= (DKIM) the identity domain is the signing domain and the local part is empty")
    R.say("split", "with i= the local part and the lower-cased identity domain are what is before and after the first @ of the "
                   "decoded value, and the @ is known to be there")
    R.say("below", "with i= the identity domain is known to equal the signing domain or to end in \".\" + signing domain")
    R.say("error", "every error Signature::Parse raises is a permanent error")
    a = analysis(prog, R)
    for s, v in a.rets:
        if is_arc(a, s) is not False:
            continue
        dp, dv, _ = tag(a, s, "d")
        dom = a.get(s, SIG + "GetDomain", a.this)
        md = a.get(s, SIG + "GetMailDomain", a.this)
        lp = a.get(s, SIG + "GetMailLocalPart", a.this)
        if not dp or None in (dom, md, lp):
            R.unsure("domain", a.where, "accessors not understood")
            continue
        R.test("domain", eqs(a, s, dom, T("lower", dv)), a.where, "the signing domain is %s" % sh(dom), sample=sh(dom), notes=s.notes)
        p, val, _ = tag(a, s, "i")
        if p is None:
            unknown(R, "absent", a, s, "i")
        elif not p:
            R.test("absent", eqs(a, s, md, dom) and lp is EMPTY, a.where,
                   "without i the identity domain is %s and the local part %s" % (sh(md), sh(lp)), sample=sh(md), notes=s.notes)
        else:
            dec = T("qpdec", val, I(0))
            at = S("@")
            fs = [x for t in list(s.facts) + list(s.dom) + list(s.store.values()) for x in subterms(t)
                  if x.op in ("find", "findset") and x.a[0] is dec]
            f = fs[0] if fs else T("find", dec, at, I(0))
            wl, wd = T("sub", dec, I(0), f), T("lower", T("sub", dec, add(f, I(1)), END_))
            odd = opaque_in(md) or opaque_in(lp)
            R.test("split", lp is wl and md is wd and at_known(s, dec) or (None if odd else False), a.where,
                   "local part %s, identity domain %s, @ known to be there: %s" % (sh(lp), sh(md), at_known(s, dec)),
                   sample=(sh(lp), sh(md)), notes=s.notes)
            R.test("below", below(a, s, md, dom), a.where,
                   "a path accepts the identity domain without relating it to the signing domain; known: %s" %
                   [sh(x)[:150] for x in list(s.facts) + list(s.dom) if mentions(x, lambda y: y is md)][:6], sample="related", notes=s.notes)
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)


def eqs(a, s, x, y):
    return x is y or bytes_equal(a, s, x, y)


def at_known(s, dec):
    for t, b in s.facts.items():
        if b and t.op in ("has", "hasin") and t.a[0] is dec:
            return True
    return False


def below(a, s, md, dom):
    if eqs(a, s, md, dom):
        return True
    dot = T("cat", T("str", "."), dom)
    n = a.I.size(dom)
    m = a.I.size(md)
    dunno = False
    for t, b in list(s.facts.items()) + [(t, d) for t, d in s.dom.items()]:
        if t.op == "eq" and b is True or t.op == "cmpz" and b == IS.of([0]):
            for x, y in (t.a[:2], t.a[:2][::-1]):
                x, y = unz(x), unz(y)
                if x.op == "sub" and x.a[0] is md:
                    st, ln = x.a[1], x.a[2]
                    if unz(y) is dot or cateq(y, dom):
                        # the last size(dom)+1 octets
                        if same(a, s, st, add(m, mulc(add(n, I(1)), -1))) and tail(a, s, md, st, ln):
                            return True
                        return False
                    if y is dom:
                        # the last size(dom) octets; the octet before must be a dot
                        if same(a, s, st, add(m, mulc(n, -1))) and tail(a, s, md, st, ln):
                            k = T("chat", md, add(st, I(-1)))
                            d = s.dom.get(k)
                            if d is not None and d == IS.of([46]):
                                return True
                            if any(u.op in ("chat", "ch", "elv") and w == IS.of([46]) and mentions(u, lambda z: z is md) for u, w in s.dom.items()):
                                return True
                    if opaque_in(st):
                        dunno = True
                elif x.op == "cpre" and x.a[0] is md:
                    # a common prefix relates the two only if they are known to be equally long
                    if y in (dom, T("cpre", dom, x.a[1])) and same(a, s, m, n) and same(a, s, x.a[1], n, ">="):
                        return True
                elif mentions(x, lambda z: z is md) and x is not md and y.op != "str":
                    dunno = True
        elif t.op in ("endswith", "hassuffix", "any", "findpos") and mentions(t, lambda z: z is md):
            dunno = True
    return None if dunno else False


def unz(x):
    return x.a[0] if x.op == "cz" else x


def cateq(y, dom):
    ps = parts(y)
    return len(ps) == 2 and ps[0] in (S("."), T("chs", I(46))) and ps[1] is dom


def tail(a, s, md, st, ln):
    if ln is END_:
        return True
    return bool(same(a, s, add(st, ln), a.I.size(md)) or same(a, s, add(st, ln), a.I.size(md), ">="))
