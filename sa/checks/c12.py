"""C12: the signer lists exactly the headers it hashed, in the order hashed."""
from .signer import *


def check(prog, R):
    R.say("content", "the signed digest consists of what one loop over the message header fields added, and the canonicalized emitted header")
    R.say("bottom-up", "that loop walks all header fields of the message, from the last to the first")
    R.say("pairs", "each of its turns either adds the canonicalized text of that turn's field and CRLF to the digest and the lower-cased "
                   "name of that field to the list of signed names, or adds nothing to either")
    R.say("list", "h= is the list of signed names followed by the configured oversign names, lower-cased, in that order, joined by colons")
    for n, a in runs(prog, R):
        memo = set()
        for t in turns(a, R, "content"):
            tg = tags(t)
            if tg is None:
                R.unsure("list", t.where, "the emitted header is not a tag list")
                continue
            h = [v for k, v in tg if k == "h"]
            if not R.test("list", len(h) == 1, t.where, "%d h= tags" % len(h), notes=t.st.notes):
                continue
            for p in succeeded(t):
                L, loc = header_loop(t, p)
                if L is None:
                    dg = digest_of(p)
                    bad = dg.op == "digest" and not opaque_in(dg.a[1])
                    R.test("content", False if bad else None, t.where, loc, notes=t.st.notes)
                    continue
                key = (L.lid, loc, tuple((x.op, x.a[0] if x.op in ("star", "phi") else x.id) for x in h[0]))
                R.ok("content", t.where, "star . chdr")
                nl, why = joined(a, h[0])
                if nl is None or nl is False:
                    R.test("list", None if nl is None else False, t.where, "h= is not a list joined by colons: %s" % why, notes=t.st.notes)
                    continue
                if (L.lid, loc, nl) in memo:
                    R.ok("list", t.where)
                    continue
                memo.add((L.lid, loc, nl))
                one(a, R, t, L, loc, nl)


def one(a, R, t, L, loc, nl):
    w = "%s, loop at line %s" % (a.where, L.node.get("l"))
    m = msg_loc(a)
    hv = a.get(a.e0, MSG + "GetHeaders", m) if m is not None else None
    its = walks(L)
    it = [i for i in its if i.cv is hv or i.cv.op == "rev" and i.cv.a[0] is hv]
    if not it:
        R.unsure("bottom-up", w, "the loop does not visibly walk the header fields")
        return
    it = it[0]
    rev = (it.d == "r") != (it.cv is not hv)
    R.test("bottom-up", rev, w, "the header fields are walked from the first to the last", sample=(sh(it.cv), it.d))
    fw = full_walk(a, L, it)
    R.test("bottom-up", fw, w, "the walk over the header fields can start late or stop early", sample="full")
    ps = list(parts(nl))
    if not ps or ps[0].op != "star" or a.I.loops.get(ps[0].a[0]) is not L:
        ov = option(a, "GetOversignHeaders")
        if ps and (oversign(a, ps[0], ov) is not None):
            R.bad("list", w, "h= starts with the oversign names")
        elif ps and (ps[0].op == "rev" or ps[0].op == "phi" and a.I.loops.get(ps[0].a[0]) is L and any(
                parts(x.get(ps[0].a[1], EMPTY))[:1] and parts(x[ps[0].a[1]])[0].op == "item" for x in L.alts)):
            R.bad("list", w, "h= lists the names in the opposite order")
        else:
            R.unsure("list", w, "h= lists %s" % sh(nl)[:200])
        return
    mode = option(a, "GetCanonModeHeader")
    nd = L.stars[ps[0].a[1]]
    for st, d, l in zip(L.altst, L.stars[loc], nd):
        e = T("elv", it.cv, it.phi, it.d)
        hdr = T("deref", e)
        text, name = a.get(st, HDR + "GetHeader", hdr), a.get(st, HDR + "GetName", hdr)
        if d is EMPTY and (l is EMPTY or l is T("nil")):
            R.ok("pairs", w, "nothing")
            continue
        okd = d is T("cat", T("chdr", mode, text), S("\r\n"))
        okl = l is T("item", T("lower", name))
        imp = opaque_in2(d, it) or opaque_in2(l, it)
        R.test("pairs", True if okd and okl else None if imp else False, w, "a turn adds %s to the digest and %s to the names" %
               (sh(d)[:200] or "nothing", sh(l)[:200] or "nothing"), sample=(sh(d)[:100], sh(l)[:100]), notes=st.notes)
    rest = ps[1:]
    ov = option(a, "GetOversignHeaders")
    if len(rest) == 1:
        r = oversign(a, rest[0], ov)
        R.test("list", True if r == "lower" else False if r else None, w, "the signed names are followed by %s" % sh(rest[0])[:200],
               sample=sh(nl)[:200], notes=t.st.notes)
    elif not rest:
        R.test("list", same(a, t.st, a.I.size(ov), I(0)) is True or False, w, "the oversign names are not listed", notes=t.st.notes)
    else:
        R.test("list", None if any(opaque_in(x) for x in rest) else False, w, "the signed names are followed by %s" % [sh(x)[:100] for x in rest], notes=t.st.notes)


def opaque_in2(t, it):
    return mentions(t, lambda x: x.op in ("sym", "star", "ent", "phi") and x is not it.phi and x not in (it.cv,))


def oversign(a, t, ov):
    """'lower' if t is the list ov with every name in lower case, 'plain' if it is ov, None otherwise."""
    if t is ov:
        return "plain"
    if t.op == "map1" and t.a[0] is ov:
        return "lower" if t.a[1].op == "lower" and t.a[1].a[0].op == "hole" else "other"
    if t.op == "star":
        L = a.I.loops.get(t.a[0])
        if L is None:
            return None
        for it in walks(L):
            if it.cv is ov and it.d == "f" and full_walk(a, L, it):
                ds = L.stars[t.a[1]]
                if all(d.op == "item" and d.a[0].op == "lower" and it.elem(d.a[0].a[0]) for d in ds):
                    return "lower"
                if all(d.op == "item" and it.elem(d.a[0]) for d in ds):
                    return "plain"
                return "other"
    return None
