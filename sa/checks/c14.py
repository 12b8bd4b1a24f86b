"""C14: the emitted signature header states what was actually used."""
from .options import *

USED = ("GetCanonModeHeader", "GetCanonModeBody", "GetBodySignLength", "GetBodyLength", "GetARCInstance", "GetTimestampSign", "GetTimestamp", "GetExpirationSign",
        "GetExpiration", "GetExpirationAbsolute", "GetIdentity", "GetDigestAlgorithm")


def check(prog, R):
    R.say("tag list", "the emitted header is a name, a colon and a tag list in which no tag name is repeated; b= is the last tag")
    R.say("kind", "with an ARC instance the name is ARC-Message-Signature and there is no v tag, otherwise it is DKIM-Signature with v=1")
    R.say("d, s", "d and s are domain and selector of the signature of that turn")
    R.say("a", "a names the key type of that signature, whose primitive is the one that was called, and the configured hash")
    R.say("c", "c names the configured header mode and body mode")
    R.say("bh", "bh is the base64 of the digest, with the configured hash, of the canonical body in the configured body mode and length")
    R.say("l, t, x, i", "each is there exactly when configured, with the configured value; i is the ARC instance for ARC headers and the "
                        "encoded identity otherwise; a time of -1 means the current time")
    R.say("options", "the configured values are exactly what was set, no bit of them lost")
    for nm, f in methods(prog, OPTC):
        if nm in SCALARS and nm != "SetRSAPrivateKey":
            setter(prog, R, OPTC, nm, f, ("options", "options", None, "options"), only=USED)
    fields = {x: field_of(prog, ADD + x) for x in ("GetDomain", "GetSelector", "GetSignatureAlgorithm")}
    sa = enums(prog, ADD + "GetSignatureAlgorithm")
    names = alg_names(prog)
    modes = mode_names(prog)
    for n, a in runs(prog, R):
        o = {x: option(a, x) for x in ("GetCanonModeHeader", "GetCanonModeBody", "GetBodySignLength", "GetBodyLength", "GetARCInstance",
                                       "GetTimestampSign", "GetTimestamp", "GetExpirationSign", "GetExpiration", "GetExpirationAbsolute",
                                       "GetIdentity", "GetDigestAlgorithm")}
        for k, v in o.items():
            if v is None:
                raise ir.AnalysisError("%s%s is not one value" % (OPT, k))
        for t in turns(a, R, "tag list"):
            one(a, R, t, o, fields, sa, names, modes)


def alg_names(prog):
    """{(signature algorithm, hash): name} as the name function gives them."""
    return table(prog, "DKIM::Util::Algorithm2String")


def mode_names(prog):
    return {k[0]: v for k, v in table(prog, "DKIM::Util::CanonMode2String").items()}


def table(prog, q):
    """A name function of enumerators, tabulated over all of them: {tuple of enumerators: text or None}."""
    import itertools
    out = {}
    for f in prog.fn(q):
        ps = f["params"]
        doms = [[(n.split("::")[-1], x) for n, x in (unref(p["t"]) or {}).get("consts", [])] for p in ps]
        if not all(doms):
            continue
        for combo in itertools.product(*doms):
            b = An(prog, f, without="all", args={p["d"]["n"]: I(x) for p, (_, x) in zip(ps, combo)})
            vs = set(v for s, v in b.rets)
            v = vs.pop() if len(vs) == 1 else None
            if v is not None and v.op == "ptr" and v.a[0].op in ("data", "cdata", "strlit"):
                v = v.a[0].a[0]
            out[tuple(c[1] for c in combo)] = v.a[0] if v is not None and v.op == "str" else None
    return out


def isdec(v, x):
    """Is the value the decimal form of x?"""
    return len(v) == 1 and v[0].op == "dec" and widecast(v[0].a[0]) is widecast(x)


def truthy(a, s, v):
    z = same(a, s, v, I(0))
    return None if z is None else not z


def one(a, R, t, o, fields, sa, names, modes):
    s, w = t.st, t.where
    tg = tags(t)
    if tg is None:
        R.test("tag list", None if opaque_in(t.text) and len(t.head) < 6 else False, w, "the emitted header is not a tag list: %s" % sh(t.text)[:300], notes=s.notes)
        return
    nm = [k for k, v in tg[1:]]
    dup = [k for k in set(nm) if nm.count(k) > 1]
    R.test("tag list", not dup, w, "tag %s is repeated" % dup, sample=nm, notes=s.notes)
    R.test("tag list", nm[-1:] == ["b"] and not tg[-1][1], w, "b= is not the last tag", notes=s.notes)
    v = {}
    for k, x in tg[1:]:
        v.setdefault(k, x)

    def val(rule, k, ok, want):
        x = v.get(k)
        imp = ok is None or (not ok and x and any(y.op in ("sym", "phi", "star", "ent", "join") for y in x))
        R.test(rule, True if ok else None if imp else False, w, "%s= is %s, expected %s" % (k, [sh(y)[:100] for y in x] if x is not None else "missing", want),
               sample=(k, [sh(y)[:60] for y in x or []]), notes=s.notes)
    arc = truthy(a, s, o["GetARCInstance"])
    name = tg[0][0].strip().lower()
    if arc is None:
        R.test("kind", False if ("v" in v) == (name == "dkim-signature") and name in ("dkim-signature", "arc-message-signature") and not
               mentions(t.text, lambda x: x is o["GetARCInstance"]) else None, w, "the kind does not depend on the ARC instance", notes=s.notes)
    else:
        R.test("kind", name == ("arc-message-signature" if arc else "dkim-signature"), w, "the header is named %r %s ARC instance" %
               (tg[0][0], "with an" if arc else "without"), sample=tg[0][0], notes=s.notes)
        if arc:
            R.test("kind", "v" not in v, w, "an ARC signature has a v tag", sample="no v", notes=s.notes)
        else:
            val("kind", "v", v.get("v") == [S("1")], "1")
    for k, acc in (("d", "GetDomain"), ("s", "GetSelector")):
        val("d, s", k, v.get(k) is not None and len(v[k]) == 1 and v[k][0] is t.elem(fields[acc]), "the configured one")
    # a
    sav = t.elem(fields["GetSignatureAlgorithm"])
    x = v.get("a")
    ok = False
    ps = t.pinned(sav)
    if x and len(x) == 1 and x[0].op == "algname":
        ok = algarg(a, s, x[0].a[0], sav) and algarg(a, s, x[0].a[1], o["GetDigestAlgorithm"])
    elif x and all(y.op == "str" for y in x):
        ok = ps is not None and "".join(y.a[0] for y in x) == {(0, 0): "rsa-sha1", (0, 1): "rsa-sha256", (1, 0): "ed25519-sha1", (1, 1): "ed25519-sha256"}.get(
            (1 if ps == [z for q, z in sa.items() if "ED25519" in q][0] else 0, 1 if "256" in a.algname else 0))
    val("a", "a", ok, "the key type and hash")
    good = succeeded(t)
    for p in good:
        want = [z for q, z in sa.items() if ("ED25519" in q) == (p.op == "edsign")]
        R.test("a", None if ps is None and not good else ps in want, w, "%s made the signature of a key of type %s" % (p.op, ps), sample=(p.op, ps), notes=s.notes)
    # c
    x = v.get("c")
    hm, bm = o["GetCanonModeHeader"], o["GetCanonModeBody"]
    got = modeparts(a, s, x or [], modes)
    val("c", "c", None if got is None else got == [hm, bm] or known_modes(t, got, hm, bm), "header mode / body mode")
    # bh
    x = v.get("bh")
    ok = False
    if x and len(x) == 1 and x[0].op == "b64enc":
        dg = x[0].a[0]
        if dg.op == "digest":
            md = dg.a[0]
            bp = parts(dg.a[1])
            ok = md.op == "mdalg" and str(md.a[0]).strip("'") == ("sha1" if a.algname.endswith("SHA1") else "sha256") and \
                all(p.op == "cbody" for p in bp) and [p.a[0] for p in bp] == [I(0), I(1)] and len(set(p.a[1:] for p in bp)) == 1
            if ok:
                src, ty, off, lim, size = bp[0].a[1:]
                m = msg_loc(a)
                ok = ty is bm and off is a.get(a.e0, MSG + "GetBodyOffset", m) and lim is o["GetBodySignLength"] and size is o["GetBodyLength"]
                if not ok and any(opaque_in(z) for z in (ty, off, lim, size)):
                    ok = None
        else:
            ok = None if opaque_in(dg) else False
    val("bh", "bh", ok, "the base64 body digest")
    # l
    on = truthy(a, s, o["GetBodySignLength"])
    optional(R, t, v, "l", on, lambda x: isdec(x, o["GetBodyLength"]), "the body length")
    # t
    on = truthy(a, s, o["GetTimestampSign"])
    m1 = same(a, s, o["GetTimestamp"], I(-1))
    tv = T("now") if m1 else o["GetTimestamp"] if m1 is False else None
    optional(R, t, v, "t", on, lambda x: tv is not None and isnow(x, tv), "the timestamp")
    # x
    xon = truthy(a, s, o["GetExpirationSign"])
    ab = truthy(a, s, o["GetExpirationAbsolute"])

    def expok(x):
        if ab is None:
            return None
        if ab:
            return isdec(x, o["GetExpiration"])
        base = tv if on and tv is not None else T("now")
        return len(x) == 1 and x[0].op == "dec" and (same_sum(x[0].a[0], base, o["GetExpiration"]) or
                                                     # no timestamp was given, so now
                                                     (on is False and same_sum(x[0].a[0], T("now"), o["GetExpiration"])))
    optional(R, t, v, "x", xon, expok, "the expiration")
    # i
    ident = o["GetIdentity"]
    if arc:
        optional(R, t, v, "i", True, lambda x: isdec(x, o["GetARCInstance"]), "the ARC instance")
    elif arc is False:
        e = same(a, s, a.I.size(ident), I(0))
        optional(R, t, v, "i", None if e is None else not e, lambda x: len(x) == 1 and x[0].op == "qpenc" and x[0].a[0] is ident, "the encoded identity")


def isnow(x, tv):
    if tv.op == "now":
        return len(x) == 1 and x[0].op == "dec" and widecast(x[0].a[0]).op == "now"
    return isdec(x, tv)


def same_sum(t, x, y):
    t = widecast(t)
    if x.op == "now":
        for z in subterms(t):
            if z.op == "now" and t is add(z, widecast(y)):
                return True
        return False
    return t is add(widecast(x), widecast(y))


def optional(R, t, v, k, on, ok, want):
    s, w = t.st, t.where
    if on is None:
        # one treatment whether configured or not
        R.test("l, t, x, i", False if not s.notes else None, w, "%s= is %s whether configured or not" % (k, "emitted" if k in v else "left out"), notes=s.notes)
        return
    if not on:
        R.test("l, t, x, i", k not in v, w, "%s= is emitted without being configured" % k, sample=(k, "absent"), notes=s.notes)
        return
    x = v.get(k)
    r = ok(x) if x is not None else False
    imp = r is None or (not r and x and any(y.op in ("sym", "phi", "star", "ent", "join") or y.op == "dec" and opaque_in(y) for y in x))
    R.test("l, t, x, i", True if r else None if imp else False, w, "%s= is %s, expected %s" %
           (k, [sh(y)[:100] for y in x] if x is not None else "missing", want), sample=(k, [sh(y)[:60] for y in x or []]), notes=s.notes)


def algarg(a, s, x, want):
    return x is want or same(a, s, x, want) is True


def modeparts(a, s, x, modes):
    """The two modes named in c=: terms or enumerators."""
    out = []
    txt = ""
    for p in x:
        if p.op == "modename":
            out.append(p.a[0])
            txt += "#"
        elif p.op == "str":
            txt += p.a[0]
        else:
            return None if opaque_in(p) else [None]
    if txt == "#/#":
        return out
    inv = {n: I(k) for k, n in modes.items() if n}
    res = []
    k = 0
    for seg in txt.split("/"):
        if seg == "#":
            res.append(out[k])
            k += 1
        else:
            res.append(inv.get(seg, seg))
    return res


def known_modes(t, got, hm, bm):
    if len(got) != 2:
        return False
    return all(isinstance(g, T) and same(t.a, t.st, g, m) is True for g, m in zip(got, (hm, bm)))
