"""C16: the signed digest covers exactly the emitted header text."""
from .signer import *


def check(prog, R):
    R.say("covered", "the last thing in the digest given to the signing primitive is the canonicalization, in the configured header mode, "
                     "of exactly the emitted text up to and including b=")
    R.say("appended", "what follows b= in the emitted text is the base64 signature cut into consecutive pieces with only CRLF and white "
                      "space in between and nothing behind it")
    R.say("line breaks", "every CR in the emitted text is followed by LF and that by white space, and there is no other LF")
    for n, a in runs(prog, R):
        mode = option(a, "GetCanonModeHeader")
        memo = {}
        for t in turns(a, R, "covered"):
            ok = succeeded(t)
            if not ok:
                R.unsure("covered", t.where, "no signing primitive known to have succeeded (see C15)")
                continue
            if tags(t) is None:
                R.test("covered", None if opaque_in(t.text) else False, t.where, "the emitted header is %s" % sh(t.text)[:200], notes=t.st.notes)
                continue
            for p in ok:
                dg = digest_of(p)
                if dg.op != "digest":
                    R.unsure("covered", t.where, "what is signed is %s" % sh(dg)[:100])
                    continue
                last = parts(dg.a[1])[-1] if parts(dg.a[1]) else EMPTY
                good = last is T("chdr", mode, t.text) and t.head[-1].a[0].endswith("b=")
                imp = last.op != "chdr" and opaque_in(last)
                what = ""
                if not good and last.op == "chdr":
                    if last.a[0] is not mode:
                        what = "canonicalized with mode %s" % sh(last.a[0])[:80]
                    else:
                        what = differ(last.a[1], t.text) or "b= is followed by white space"
                R.test("covered", True if good else None if imp else False, t.where, "the digest ends with %s; %s" % (sh(last)[:100], what),
                       sample=sh(last)[:200], notes=t.st.notes)
            r = [folded(a, t.tail, signature_text(p)) for p in ok]
            best = [x for x in r if x[0]] or [x for x in r if x[0] is None] or r
            R.test("appended", best[0][0], t.where, "%s" % best[0][1], sample=[sh(x)[:60] for x in t.tail], notes=t.st.notes)
            for v, why in breaks(a, t.head + t.tail):
                R.test("line breaks", v, t.where, why, sample="folded", notes=t.st.notes)


def differ(x, y):
    a, b = parts(x), parts(y)
    for i in range(max(len(a), len(b))):
        p = a[i] if i < len(a) else None
        q = b[i] if i < len(b) else None
        if p is not q:
            return "hashed %s, emitted %s" % (sh(p)[:80] if p is not None else "nothing", sh(q)[:80] if q is not None else "nothing")
    return ""


def text_breaks(x, last):
    """Position-free problems of a literal: None if fine, 'end' if it ends in CRLF, else a description."""
    i = 0
    while i < len(x):
        c = x[i]
        if c == "\n":
            return "LF without CR"
        if c == "\r":
            if x[i + 1:i + 2] != "\n":
                return "CR without LF"
            if i + 2 >= len(x):
                return "end"
            if x[i + 2] not in " \t":
                return "a line break followed by %r" % x[i + 2]
            i += 2
        i += 1
    return None


def starts_blank(p):
    """Does a part start with white space: True, False, None."""
    if p.op == "str":
        return p.a[0][:1] in (" ", "\t") and p.a[0][:1] != ""
    return None


def seq_breaks(ps, follow):
    """Problems in a sequence of parts, given whether what follows starts with white space."""
    for i, p in enumerate(ps):
        if p.op != "str":
            continue
        r = text_breaks(p.a[0], i == len(ps) - 1)
        if r is None:
            continue
        if r != "end":
            yield False, r
            continue
        nxt = follow if i == len(ps) - 1 else ps[i + 1]
        if nxt is None:
            yield False, "a line break at the end"
        elif nxt is True or nxt is not False and nxt is not None and not isinstance(nxt, bool) and starts_blank(nxt):
            pass
        else:
            yield (False if nxt is False or nxt.op in ("str", "chat", "elv", "b64enc", "dec", "sub") else None), \
                "a line break followed by %s" % (sh(nxt)[:60] if nxt is not False else "other text")


def breaks(a, ps):
    n = 0
    for i, p in enumerate(ps):
        nxt = ps[i + 1] if i + 1 < len(ps) else None
        if p.op == "str":
            follow = nxt
            if nxt is not None and nxt.op == "star":
                # the loop may add nothing: then what follows it
                follow = None
                for d in a.I.loops[nxt.a[0]].stars[nxt.a[1]] if nxt.a[0] in a.I.loops else []:
                    pd = parts(d)
                    if pd:
                        f = first(a, pd[0])
                        if text_breaks(p.a[0], False) == "end" and f is not True:
                            yield f, "a line break followed by %s" % sh(pd[0])[:60]
                            n += 1
                nn = ps[i + 2] if i + 2 < len(ps) else None
                f = first(a, nn) if nn is not None else None
                if text_breaks(p.a[0], False) == "end":
                    n += 1
                    yield (False if nn is None else f), "a line break followed by %s" % (sh(nn)[:60] if nn is not None else "the end of the header")
                continue
            f = first(a, nxt) if nxt is not None else None
            for v, why in seq_breaks([p], nxt if f is None and nxt is not None else (f if nxt is not None else None)):
                n += 1
                yield v, why
        elif p.op == "star":
            L = a.I.loops.get(p.a[0])
            if L is None:
                yield None, "loop not found"
                continue
            for k, d in enumerate(L.stars[p.a[1]]):
                pd = parts(d)
                # what comes after this turn's text: the next turn's, or what follows the loop
                follow = True
                if pd and pd[-1].op == "str" and text_breaks(pd[-1].a[0], True) == "end":
                    cands = []
                    if nxt is not None and nxt.op == "phi" and nxt.a[0] == p.a[0]:
                        v = L.alts[k].get(nxt.a[1])
                        cands = [parts(v)[0] if v is not None and parts(v) else None]
                    elif nxt is not None:
                        cands = [nxt] + [parts(x)[0] for x in L.stars[p.a[1]] if parts(x)]
                    else:
                        cands = [None]
                    follow = True
                    for c in cands:
                        f = False if c is None else first(a, c)
                        if f is not True:
                            follow = f
                    n += 1
                    if follow is not True:
                        yield follow, "a line break followed by %s" % [sh(c)[:60] if c is not None else "the end" for c in cands]
                for v, why in seq_breaks(pd, True):
                    n += 1
                    yield v, why
    yield True, ""


def first(a, p):
    """Does a part start with white space?"""
    if p.op == "str":
        return bool(p.a[0]) and p.a[0][0] in " \t"
    if p.op == "phi":
        # every value it can have: the initial one and the one after each turn
        L = a.I.loops.get(p.a[0])
        if L is None:
            return None
        vs = [L.init.get(p.a[1])] + [x.get(p.a[1]) for x in L.alts]
        for v in vs:
            if v is None:
                return None
            q = parts(v)
            if not q:
                return None
            if q[0].op == "phi" and q[0].a[0] == p.a[0] and q[0].a[1] is p.a[1]:
                continue
            if q[0].op != "str" or q[0].a[0][0] not in " \t":
                return False if q[0].op in ("str", "elv", "chat", "b64enc") else None
        return True
    if p.op in ("elv", "chat", "b64enc", "dec", "sub", "get", "init"):
        return False
    return None
