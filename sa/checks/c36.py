"""C36: ARC and DKIM profiles are not mixed up."""
from .sigparse import *
from . import verifier

ARCN = "arc-message-signature"
BOTH = ("a", "b", "bh", "d", "h", "s")


def check(prog, R):
    R.say("kind", "on every normal return of Signature::Parse, IsARC() is true exactly when the lower-cased header name is known to be "
                  "arc-message-signature")
    R.say("v optional", "for ARC v is not asked for; for DKIM it is known to be present")
    R.say("i", "for ARC the i tag is the instance and the identity rule is not applied; for DKIM the instance stays unset")
    R.say("alike", "every other tag is accepted with the same set of facts about it for both kinds")
    R.say("strict", "in Validatory::CheckSignature acceptance depends on the domains only for non-ARC signatures")
    a = analysis(prog, R)
    name = None
    rules = {True: {}, False: {}}
    for s, v in a.rets:
        arc = is_arc(a, s)
        name = a.get(s, "DKIM::Header::GetName", a.hdr)
        low = T("lower", name)
        k = known_name(a, s, name)
        if arc is None or k is None:
            part = a.I.dom(s, a.I.size(low)).single() is None      # a search says what the name contains, not what it is
            if arc is not None and not any(x.op in ("any", "findpos", "has", "hasin") and mentions(x, lambda y: y is name) and
                                           not (part and x.op == "has" and x.a[0] in (name, low) and x.a[1].op == "str") for x in s.facts):
                R.test("kind", False, a.where, "treated as %s although the name is %s known not to be %s: %s" %
                       ("ARC" if arc else "DKIM", "only" if arc else "not", ARCN,
                        [sh(x)[:120] for x in list(s.facts) + list(s.dom) + list(s.sdom) if mentions(x, lambda y: y is name)][:4]), notes=s.notes)
            else:
                R.unsure("kind", a.where, "kind %s, name %s" % (arc, k))
            continue
        R.test("kind", arc == k, a.where, "a header whose name is%s %s is treated as %s" %
               ("" if k else " not", ARCN, "ARC" if arc else "DKIM"), sample=(arc, k), notes=s.notes)
        vp = tag(a, s, "v")[0]
        ip, iv, _ = tag(a, s, "i")
        if arc:
            R.test("v optional", vp is not True, a.where, "an ARC signature is accepted only with v", notes=s.notes)
            if ip:
                touched = [x for x in list(s.facts) + list(s.dom) if mentions(x, lambda y: y.op == "qpdec" and y.a[0] is iv)]
                R.test("i", not touched, a.where, "the identity of an ARC signature is examined: %s" % [sh(x)[:100] for x in touched][:3],
                       sample="instance", notes=s.notes)
        else:
            R.test("v optional", vp is True, a.where, "a DKIM signature is accepted without v", notes=s.notes)
            g = a.get(s, SIG + "GetARCInstance", a.this)
            R.test("i", g is not None and g is I(0) or (None if g is None else False), a.where,
                   "the instance of a DKIM signature is %s" % (sh(g) if g is not None else "?"), notes=s.notes)
        for n in ("a", "b", "bh", "c", "d", "h", "l", "q", "s", "x"):
            p, val, _ = tag(a, s, n)
            rules[arc].setdefault(n, set()).add((p, profile(s, val) if p else None))
    for n in rules[False]:
        x, y = rules[True].get(n, set()), rules[False][n]
        if x == y:
            R.ok("alike", a.where, n)
        else:
            px, py = set(p for p, _ in x), set(p for p, _ in y)
            if px != py:
                R.bad("alike", "%s tag %s" % (a.where, n), "presence required differently: ARC %s, DKIM %s" % (px, py))
            else:
                d = [(k, f) for k, w in (("ARC", x - y), ("DKIM", y - x)) for _, f in w]
                weak = [1 for w, o in ((x - y, y), (y - x, x)) for p, f in w for p2, g in o if p == p2 and f is not None and f < g]
                (R.bad if weak else R.unsure)("alike", "%s tag %s" % (a.where, n), "accepted under different conditions: %s" %
                      [(k, [str(z)[:120] for z in sorted(f, key=str)]) for k, f in d][:2])
    # the strict-domain rule
    n = 0
    for b in verifier.analyses(prog, R):
        for s, v in b.rets:
            arc = holds(b, s, b.I.compare(s, "==", b.get(s, SIG + "IsARC", b.sig), I(1)))
            dom, md = b.get(s, SIG + "GetDomain", b.sig), b.get(s, SIG + "GetMailDomain", b.sig)
            if arc and dom is not None and md is not None:
                t = [x for x in list(s.facts) + list(s.dom) if mentions(x, lambda y: y is dom) and mentions(x, lambda y: y is md)]
                R.test("strict", not t, b.where, "ARC signature accepted depending on %s" % [sh(x)[:100] for x in t][:2], sample="ARC", notes=s.notes)
                n += 1
            elif arc is False:
                R.ok("strict", b.where)
    if not n:
        R.unsure("strict", CHECK, "no path known to be ARC")


def known_name(a, s, name):
    low = T("lower", name)
    if pinned(s, low) is not None:
        return pinned(s, low) == ARCN
    for t, d in s.dom.items():
        if t.op == "cmpz":
            for x, y in (t.a, t.a[::-1]):
                if y.op == "str" and y.a[0].lower() == ARCN and (x is low or x is T("cz", low)):
                    return True if d == IS.of([0]) else False if 0 not in d else None
    v = s.sdom.get(low)
    if v is not None and v[0] == "ne" and ARCN in v[1]:
        return False
    b = s.facts.get(T("eq", low, S(ARCN)))
    if b is None:
        b = s.facts.get(T("eq", S(ARCN), low))
    if b is not None:
        return b
    if same(a, s, a.I.size(name), I(len(ARCN))) is False:
        return False
    n = a.I.dom(s, a.I.size(low))
    if n is not None and len(ARCN) not in n:
        return False
    return None


def profile(s, val):
    """What is known about a value, independent of names of loop turns."""
    out = set()
    for src in (s.facts, s.dom, s.sdom):
        for t, b in src.items():
            if mentions(t, lambda x: x is val) and not mentions(t, lambda x: x.op == "qpdec"):
                out.add((strip_phi(sh(t)), str(b)))
    return frozenset(out)


def strip_phi(x):
    import re
    return re.sub(r"phi<[^>]*>", "phi", x)
