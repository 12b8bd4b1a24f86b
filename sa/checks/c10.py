"""C10: the verifier hashes the signed headers in order, bottom-up, once each."""
from .verifier import *

H = "DKIM::Header::"


def check(prog, R):
    R.say("content", "the digest handed to the primitive covers the listed headers and then one more canonicalized header (C11), nothing else")
    R.say("list order", "the listed headers are added by walking the signature's whole signed-header list from first to last")
    R.say("every name", "a turn adds nothing only when no unused header field of that name is left")
    R.say("bottom-up", "a turn adds the canonicalized text of the bottom-most unused header field of that name and CRLF")
    R.say("once", "the field added is removed from the unused ones in the same turn")
    R.say("unused set", "the unused fields are all header fields of the message except the signature header, under their lower-cased names, in message order")
    for a in analyses(prog, R):
        done = {}
        for s, v in a.rets:
            for t in accepted(s):
                dg = t.a[1]
                if dg.op != "digest" or dg in done:
                    continue
                done[dg] = 1
                one(a, R, s, dg)
        R.test("content", bool(done), a.where, "no digest found on any accepting path")


def one(a, R, s, dg):
    w = a.where
    ps = parts(dg.a[1])
    mode = a.get(s, SIG + "GetCanonModeHeader", a.sig)
    if any(p.op not in ("star", "chdr", "str") for p in ps):
        R.unsure("content", w, "digested text not understood: %r" % [p.op for p in ps])
        return
    ok = [p.op for p in ps] == ["star", "chdr"]
    if not R.test("content", ok, w, "the digested text consists of %r" % [repr(p)[:200] for p in ps], sample=[p.op for p in ps], notes=s.notes):
        return
    lid, loc = ps[0].a
    L = a.I.loops.get(lid)
    if L is None:
        R.unsure("content", w, "loop not found")
        return
    names = a.get(s, SIG + "GetSignedHeaders", a.sig)
    its = walks(L)
    it = [i for i in its if i.cv is names]
    if not it:
        rv = [i for i in its if i.cv.op == "rev" and i.cv.a[0] is names]
        if rv or (its and all(i.cv.op == "init" for i in its)):
            R.bad("list order", w, "the loop walks %r instead of the signed-header list" % [repr(i.cv) for i in its])
        else:
            R.unsure("list order", w, "the loop adding headers does not visibly walk the signed-header list")
        return
    it = it[0]
    if it.d != "f":
        R.bad("list order", w, "the signed-header list is walked backwards")
        return
    fw = full_walk(a, L, it)
    R.test("list order", fw, w, "the walk over the signed-header list can stop early" if fw is False else "walk not understood",
           sample=(repr(it.cv), repr(it.start)), notes=s.notes)
    # the map of unused fields
    maps = [l for l in L.changed if any((x.get(l) is not None and x[l].op in ("mput",)) for x in L.alts)]
    deltas = L.stars[loc]
    if len(maps) != 1:
        if not maps and all(not mentions(d, lambda x: x.op in ("mget",)) for d in deltas):
            R.unsure("once", w, "unused header fields are not kept in a map by name")
        elif not maps:
            R.bad("once", w, "a header field that was added stays among the unused ones (nothing is removed)")
        else:
            R.unsure("once", w, "several maps change in the loop")
        return
    ml = maps[0]
    order = builder(a, R, L, ml, w)
    for alt, st, d in zip(L.alts, L.altst, deltas):
        where = "%s, loop at line %s" % (w, L.node.get("l"))
        # the map this turn looks at, and the key it uses
        ph = [x for x in subterms(alt[ml]) if x.op == "phi" and x.a[0] == L.lid and x.a[1] is ml]
        m = ph[0] if ph else None
        looked = [t for t in list(st.facts) + [y for z in st.dom for y in subterms(z)]
                  if t.op in ("has", "mget") and t.a[0] is m]
        keys = list(dict.fromkeys([t.a[1] for t in looked] + ([alt[ml].a[1]] if alt[ml].op == "mput" else [])))
        if m is None or len(keys) != 1:
            R.unsure("every name", where, "a turn that does not look up one name")
            continue
        key = keys[0]
        good = key.op == "lower" and it.elem(key.a[0])
        if not good and it.elem(key):
            R.test("every name", False, where, "the name of the list is looked up without regard to its letter case being removed (%r)" % key, notes=st.notes)
            continue
        if not good:
            R.unsure("every name", where, "looked-up name is %r" % key)
            continue
        has = holds(a, st, T("has", m, key))
        lst = a.I.mget(m, key)
        n0 = same(a, st, a.I.size(lst), I(0))
        if d is EMPTY:
            none = has is False or n0 is True
            R.test("every name", none, where, "a turn adds nothing although an unused field of that name may be left", sample="nothing left", notes=st.notes)
            if alt[ml].op == "mput":
                R.test("once", alt[ml].a[2] is lst or alt[ml].a[2] is EMPTY and none, where, "an unused field is dropped without being added", notes=st.notes)
            continue
        dp = parts(d)
        if not (len(dp) == 2 and dp[0].op == "chdr" and dp[1] is S("\r\n")):
            if dp[0].op == "chdr" or all(p.op in ("str", "chdr", "init") for p in dp):
                R.test("bottom-up", False, where, "a turn adds %r instead of one canonicalized header and CRLF" % [repr(p)[:160] for p in dp], notes=st.notes)
            else:
                R.unsure("bottom-up", where, "a turn adds %r" % [p.op for p in dp])
            continue
        mode2, text = dp[0].a
        R.test("bottom-up", mode2 is mode, where, "header canonicalized with mode %r" % mode2, notes=st.notes)
        e = [x for x in subterms(text) if x.op == "elv" and x.a[0] is lst]
        if not e:
            R.unsure("bottom-up", where, "the header added is %r" % text)
            continue
        e = e[0]
        full = a.get(st, H + "GetHeader", T("deref", e))
        R.test("bottom-up", text is full, where, "the text added is %r, not the whole header field" % text, notes=st.notes)
        last = (e.a[2] == "f" and e.a[1] is sub(a.I.size(lst), I(1))) or (e.a[2] == "r" and e.a[1] is I(0))
        first = (e.a[2] == "f" and e.a[1] is I(0)) or (e.a[2] == "r" and e.a[1] is sub(a.I.size(lst), I(1)))
        if not (last or first) or order is None:
            R.unsure("bottom-up", where, "element %r of the unused fields" % e)
            continue
        R.test("bottom-up", last == (order == "asc"), where, "the topmost unused field is taken instead of the bottom-most",
               sample=("last" if last else "first", order), notes=st.notes)
        want = T("popb", lst) if last else T("popf", lst)
        new = alt[ml].a[2] if alt[ml].op == "mput" and alt[ml].a[0] is m and alt[ml].a[1] is key else None
        R.test("once", new is want, where, "after adding the field the unused fields of that name are %r" % (new if new is not None else alt[ml],),
               sample=repr(new), notes=st.notes)


def builder(a, R, L, ml, w):
    """Check how the map was filled before loop L; 'asc' or 'desc' for the order inside each list."""
    ini = L.init.get(ml)
    if ini is None or ini.op not in ("phi",):
        R.unsure("unused set", w, "initial unused set is %r" % (ini,))
        return None
    B = a.I.loops.get(ini.a[0])
    if B is None:
        R.unsure("unused set", w, "loop filling the unused set not found")
        return None
    bl = ini.a[1]
    where = "%s, loop at line %s" % (w, B.node.get("l"))
    b0 = B.init.get(bl)
    R.test("unused set", b0 is not None and b0.op == "nil", where, "the set of unused fields does not start empty (%r)" % (b0,))
    order = None
    msgs = msg_headers(a)
    its = [i for i in walks(B) if i.cv is msgs]
    if not its:
        R.unsure("unused set", where, "the loop filling the unused set does not visibly walk the message's header list %r" % (msgs,))
        return None
    it = its[0]
    fw = full_walk(a, B, it)
    R.test("unused set", fw, where, "the walk over the header fields of the message can stop early" if fw is False else "walk not understood")
    hp = a.ploc(a.pidx(lambda t: t.get("n") not in ("DKIM::Signature", "DKIM::PublicKey"))[0])
    for alt, st in zip(B.alts, B.altst):
        v = alt[bl]
        m = [x for x in subterms(v) if x.op == "phi" and x.a[0] == B.lid and x.a[1] is bl]
        if not m:
            R.unsure("unused set", where, "turn not understood")
            continue
        m = m[0]
        own = [x for x, val in st.facts.items() if x.op == "eq" and any(it.elem(p) and mentions(q, lambda z: z is hp)
                                                                        for p, q in (x.a, x.a[::-1]))]
        own = st.facts[own[0]] if own else None
        if v is m:
            R.test("unused set", own is True, where, "a header field other than the signature header is left out", sample="signature header left out", notes=st.notes)
            continue
        if v.op != "mput" or v.a[0] is not m:
            R.unsure("unused set", where, "turn stores %r" % v)
            continue
        key, lst = v.a[1], a.I.mget(m, v.a[1])
        pp = parts(v.a[2])
        items = [p for p in pp if p.op == "item"]
        if len(items) != 1 or not it.elem(items[0].a[0]) or len(pp) != 2:
            if all(not it.elem(i.a[0]) for i in items) or len(pp) > 2:
                R.unsure("unused set", where, "turn stores %r" % v.a[2])
            else:
                R.test("unused set", False, where, "a header field replaces the ones of the same name: %r" % v.a[2], notes=st.notes)
            continue
        app = pp[1] is items[0]
        oth = pp[0] if app else pp[1]
        if oth is not lst:
            R.unsure("unused set", where, "turn stores %r" % v.a[2])
            continue
        e = items[0].a[0]
        nm = a.get(st, H + "GetName", T("deref", e))
        R.test("unused set", key is T("lower", nm), where, "a header field is filed under %r, not under its lower-cased name" % key,
               sample=repr(key), notes=st.notes)
        R.test("unused set", own is False, where, "the signature header itself may be among the signed header fields", sample=own, notes=st.notes)
        o = "asc" if app == (it.d == "f") else "desc"
        order = o if order in (None, o) else "?"
    return order if order in ("asc", "desc") else None


def msg_headers(a):
    n = [f["n"] for f in a.prog.recs["DKIM::Validatory"]["fields"] if (unref(f["t"]) or {}).get("n") == "DKIM::Message"]
    return a.get(a.entry(), "DKIM::Message::GetHeaders", fld(a.this, n[0])) if len(n) == 1 else None
