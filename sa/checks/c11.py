"""C11: the signature header is hashed last, emptied of its b= value."""
from .verifier import *

H = "DKIM::Header::"
WS = frozenset([9, 10, 13, 32])


def nonws(s):
    """Is s the set of all octets that are not white space?"""
    return isinstance(s, frozenset) and len(s) == 252 and not (s & WS)


def check(prog, R):
    R.say("last", "the digested text ends with exactly one canonicalization, in the signature's header mode, and nothing follows it")
    R.say("text", "the text canonicalized last is the text of the signature header with one gap and nothing else changed")
    R.say("gap", "the gap is the value of the b tag of that signature together with all white space before and after it")
    R.assumes("the signature object was parsed from the header handed over with it; its b tag exists (C04)")
    for a in analyses(prog, R):
        hp = a.ploc(a.pidx(lambda t: t.get("n") not in ("DKIM::Signature", "DKIM::PublicKey"))[0])
        seen = set()
        for s, v in a.rets:
            tags = [t for t, val in s.facts.items() if t.op == "has" and t.a[1] is S("b")]
            if tags and not s.facts[tags[0]]:
                continue
            for t in accepted(s):
                dg = t.a[1]
                k = (dg.a[1], frozenset((x, str(d)) for x, d in s.dom.items() if x.op in ("findset", "find", "rfindset", "rfind")))
                if dg.op != "digest" or k in seen:
                    continue
                seen.add(k)
                one(a, R, s, parts(dg.a[1]), hp)
        R.test("last", len(seen) > 0, a.where, "no digest found on any accepting path")


def one(a, R, s, ps, hp):
    w = a.where
    if not ps or ps[-1].op != "chdr":
        if ps and ps[-1].op in ("str", "star", "sub"):
            R.test("last", False, w, "the digested text ends with %s" % sh(ps[-1])[:300], notes=s.notes)
        else:
            R.unsure("last", w, "the digested text ends with %s" % (sh(ps[-1])[:300] if ps else "nothing"))
        return
    mode, text = ps[-1].a
    want = a.get(s, SIG + "GetCanonModeHeader", a.sig)
    R.test("last", mode is want, w, "canonicalized with mode %s instead of %s" % (sh(mode), sh(want)), sample=sh(mode), notes=s.notes)
    hobj = hdr_object(a, s, text, hp)
    if hobj is None:
        R.unsure("text", w, "text is %s" % sh(text)[:400])
        return
    whole = a.get(s, H + "GetHeader", hobj)
    off = uncast(a.get(s, H + "GetValueOffset", hobj))
    pc = pieces(text, whole)
    if pc is None:
        if opaque_in(text):
            R.unsure("text", w, "text is %s" % sh(text)[:400])
        else:
            R.test("text", False, w, "the text canonicalized last is %s" % sh(text)[:600], notes=s.notes)
        return
    ok = pc and pc[0][0] is I(0) and len(pc) <= 2 and (len(pc) == 1 or pc[1][1] is END_)
    if not R.test("text", ok, w, "pieces of the header used: %s" % [(sh(x), sh(y)) for x, y in pc], sample=[(sh(x), sh(y)) for x, y in pc], notes=s.notes):
        return
    g0 = pc[0][1]
    g1 = pc[1][0] if len(pc) == 2 else END_
    bt = tag_b(a, s, text)
    if bt is None:
        if g0 is END_:
            R.test("gap", False, w, "nothing is removed from the header", notes=s.notes)
        else:
            R.unsure("gap", w, "b tag not found in %s" % sh(text)[:400])
        return
    bpos, bval = bt
    r0, r1 = side(a, s, g0, "rfindset", whole, off, add(bpos, I(-1)), 1), side(a, s, g1, "findset", whole, off, add(bpos, a.I.size(bval)), 0)
    for name, g, r in (("start", g0, r0), ("end", g1, r1)):
        if r is None:
            R.unsure("gap", w, "%s of the gap is %s" % (name, sh(g)[:300]))
        else:
            R.test("gap", r, w, "the %s of the gap is %s; expected the %s white space next to the value of b=" %
                   (name, sh(g)[:300], "first" if name == "start" else "last"), sample=(name, sh(g)[:300]), notes=s.notes)


def hdr_object(a, s, text, hp):
    """The header object whose text is used: the one the caller handed over."""
    for x in subterms(text):
        if x.op == "init" and x.a[0].op == "fld":
            o = x.a[0].a[0]
            if mentions(o, lambda y: y is hp) and a.get(s, H + "GetHeader", o) is x:
                return o
    return None


def tag_b(a, s, text):
    """(offset, value) of the b tag entry used."""
    for x in subterms(text):
        if x.op == "get" and x.a[0].op == "mget" and x.a[0].a[1] is S("b"):
            e = x.a[0]
            from ..engine import State
            tmp = T("obj", "btag")
            st = s.copy()
            a.I.write(st, tmp, e, {"k": "rec", "repo": True, "n": "DKIM::TagListEntry"})
            o = a.get(st, "DKIM::TagListEntry::GetValueOffset", tmp)
            v = a.get(st, "DKIM::TagListEntry::GetValue", tmp)
            if o is not None and v is not None:
                return uncast(o), v
    return None


def side(a, s, g, op, whole, off, frm, plus):
    """Is boundary g the search for the next non-white octet from frm (in the value part, or in the whole header)?"""
    if g is END_ or g is add(off, a.I.size(T("sub", whole, off, END_))) or g is a.I.size(whole):
        # nothing but white space up to the end
        for t, d in s.dom.items():
            if t.op == op and d == IS.of([E.NPOS]) and op == "findset" and search_ok(t, whole, off, frm) is not None:
                return search_ok(t, whole, off, frm)
        return False
    fs = [x for x in subterms(g) if x.op in ("findset", "rfindset", "find", "rfind")]
    if opaque_in(g) or mentions(g, lambda x: x.op == "strip"):
        return None
    if not fs:
        return False
    for t in fs:
        if t.op != op:
            continue
        base = I(0) if t.a[0] is whole else off
        if g is add(add(base, t), I(plus)):
            return search_ok(t, whole, off, frm)
    return False if all(t.op in ("findset", "rfindset") for t in fs) else None


def search_ok(t, whole, off, frm):
    src, cs, start = t.a[0], t.a[1], uncast(t.a[2])
    if src is whole:
        rel = off
    elif src.op == "sub" and src.a[0] is whole and uncast(src.a[1]) is off and src.a[2] is END_:
        rel = I(0)
    else:
        return None
    return nonws(cs) and start is add(rel, frm)
