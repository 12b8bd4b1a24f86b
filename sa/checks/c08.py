"""C08: the body length tag is 1 to 76 digits, in range, and read without regard to history."""
from .sigparse import *

DIG = IS.rng(48, 57)


def octets(x):
    if isinstance(x, IS):
        return [c for c in range(-128, 256) if c in x]
    return x


def digits_only(a, s, val):
    """Is every octet of val known to be a decimal digit? None: looked at in a way not followed."""
    for t, b in s.facts.items():
        if t.op == "hasin" and t.a[0] is val and b is False and \
                set(range(256)) - set(x & 255 for x in octets(t.a[1])) <= set(range(48, 58)):
            return True
    dunno = False
    for t, b in s.facts.items():
        if t.op in ("any", "all", "findpos") and mentions(t.a[0], lambda x: x is val):
            dunno = True
    for L in a.I.loops.values():
        for it in walks(L):
            if it.cv is not val:
                continue
            dunno = True
            if full_walk(a, L, it) and same(a, s, it.phi, a.I.size(val)):
                ds = [d for st in L.altst for t, d in st.dom.items() if it.elem(t)]
                if len(ds) >= len(L.altst) and all(d <= DIG for d in ds):
                    return True
    return None if dunno else False


def check(prog, R):
    R.say("digits", "with l= every octet of its value is known to be a decimal digit, on every normal return")
    R.say("length", "with l= the value is known to have 1 to 76 octets")
    R.say("range", "with l= the number did not overflow and is known not to be negative as a signed number")
    R.say("value", "with l= the limit is on and GetBodySize() is the decimal number in the value; without l= it is off")
    R.say("history", "no decision of Signature::Parse depends on errno as the caller left it")
    R.say("error", "every error Signature::Parse raises is a permanent error")
    a = analysis(prog, R)
    err = T("init", T("errno"))
    for s, v in a.rets:
        p, val, _ = tag(a, s, "l")
        lim = a.get(s, SIG + "GetBodySizeLimit", a.this)
        size = a.get(s, SIG + "GetBodySize", a.this)
        on = same(a, s, lim, I(1)) if lim is not None else None
        if p is None:
            unknown(R, "value", a, s, "l")
            continue
        if on is None or size is None:
            R.unsure("value", a.where, "limit %s" % (sh(lim) if lim is not None else "?"))
            continue
        if not p:
            R.test("value", on is False, a.where, "without l= the limit is on", sample="off", notes=s.notes)
            continue
        R.test("value", on, a.where, "with l= the limit stays off", sample="on", notes=s.notes)
        num = widecast(size)
        known = num.op in ("strtoul", "strtol") and num.a[0] is val
        odd = opaque_in(num) or num.op in ("init", "call") or mentions(num, lambda x: x is val)
        ten = known and num.a[1] in (10, I(10))
        R.test("value", ten or (None if odd and not known and num.op != "cast" else False), a.where,
               "GetBodySize() is %s" % sh(size), sample=sh(size), notes=s.notes)
        n = a.I.size(val)
        dom = a.I.dom(s, n)
        R.test("length", dom is not None and dom <= IS.rng(1, 76), a.where, "the length of the value is only known to be in %s" % (dom,),
               sample=str(dom), notes=s.notes)
        R.test("digits", digits_only(a, s, val), a.where, "a path accepts l= without finding only digits in it", sample="digits", notes=s.notes)
        if known:
            ov = s.facts.get(T("ovf", num.op, num.a[0], num.a[1]))
            big = a.I.refine(s, num, IS.rng(0, (1 << 63) - 1).compl()) is None
            sg = any(d <= IS.rng(0, (1 << 63) - 1) for t, d in s.dom.items() if widecast(t) is num)
            R.test("range", (ov is False) and (big or sg), a.where,
                   "overflow excluded: %s; negative excluded: %s" % (ov is False, big or sg), sample="in range", notes=s.notes)
        elif known is False and odd:
            R.unsure("range", a.where, "number not understood: %s" % sh(num)[:200])
    for s in [x[0] for x in a.rets] + [x[0] for x in a.throws]:
        h = [t for t in list(s.facts) + list(s.dom) if mentions(t, lambda x: x is err)]
        R.test("history", not h, a.where, "a decision depends on errno before the call: %s" % [sh(x)[:120] for x in h][:3], notes=s.notes)
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)
