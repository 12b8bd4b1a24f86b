"""C27: key records: version, type, revocation and restrictions are enforced."""
from .sigparse import *

KPARSE = "DKIM::PublicKey::Parse"


def tagval(a, s, name):
    """(present?, value) of a tag of the record in s."""
    tg = [f for f in (a.prog.recs.get("DKIM::PublicKey") or {}).get("fields", []) if E.cls(f["t"]) == "DKIM::TagList"
          or (f["t"] or {}).get("n") == "DKIM::TagList"]
    if len(tg) != 1:
        raise ir.AnalysisError("the tag list of PublicKey is not found")
    st = s.copy()
    st.store[NAME] = S(name)
    a.I.kill(st, ENTRY)
    pres, vals = set(), set()
    for s2, v in a.call(st, "DKIM::TagList::GetTag", fld(a.this, tg[0]["n"]), [NAME, ENTRY]):
        for s3, b in a.I.truth(s2, v):
            pres.add(b)
            if b:
                vals.add(a.get(s3, "DKIM::TagListEntry::GetValue", ENTRY))
    return (pres.pop() if len(pres) == 1 else None, vals.pop() if len(vals) == 1 else None)


def check(prog, R):
    R.say("v", "on every normal return v is absent or known to be exactly DKIM1")
    R.say("k", "k is absent (rsa) or known to be rsa or ed25519, and GetSignatureAlgorithm() reports it")
    R.say("p", "p is known to be present and not empty")
    R.say("key", "the reported key of the stated type was decoded from p: an RSA key whose type was checked, or exactly 32 octets")
    R.say("h", "h is absent and the hash list empty, or the list holds exactly the known names in h, in order, and is known not to be empty")
    R.say("s", "s is absent or one of its elements is known to be email or *")
    R.say("t", "GetFlags() is the list in t, empty without t")
    R.say("error", "every error is a permanent error")
    R.say("y", "SoftFail() reports whether y is known to be among the flags")
    testing(prog, R)
    a = An(prog, prog.fn1(KPARSE), st=fresh_state(prog, "DKIM::PublicKey"))
    R.an(a)
    R.assumes("the record object is fresh or was reset (C37)", "no memory exhaustion inside OpenSSL (EVP_PKEY_get1_RSA of an RSA key succeeds)")
    if not a.rets:
        R.bad("key", a.where, "no key record is ever accepted")
    RSA = retenum(prog, PUB + "GetSignatureAlgorithm", "DKIM_SA_RSA")
    ED = retenum(prog, PUB + "GetSignatureAlgorithm", "DKIM_SA_ED25519")
    A1, A256 = [retenum(prog, SIG + "GetDigestAlgorithm", x) for x in ("DKIM_A_SHA1", "DKIM_A_SHA256")]
    for s, v in a.rets:
        p, val = tagval(a, s, "v")
        if p is None:
            unknown(R, "v", a, s, "v")
        elif p:
            x = pinned(s, val)
            R.test("v", None if x is None and looked_up(s, val) and pinned(s, T("lower", val)) is None else x == "DKIM1", a.where, "a path accepts %s" % ("v=%r" % x if x is not None else "an unknown version"),
                   sample=x, notes=s.notes)
        p, val = tagval(a, s, "k")
        alg = a.get(s, PUB + "GetSignatureAlgorithm", a.this)
        want = None
        if p is None:
            unknown(R, "k", a, s, "k")
        elif p:
            x = pinned(s, val)
            want = {"rsa": RSA, "ed25519": ED}.get(x)
            R.test("k", None if x is None and looked_up(s, val) and pinned(s, T("lower", val)) is None else want is not None, a.where,
                   "a path accepts %s" % ("k=%r" % x if x is not None else "an unknown key type"), sample=x, notes=s.notes)
        else:
            want = RSA
        if want is not None:
            R.test("k", same(a, s, alg, I(want)), a.where, "GetSignatureAlgorithm() is %s" % sh(alg), sample=sh(alg), notes=s.notes)
        p, val = tagval(a, s, "p")
        ok = p is True and (same(a, s, a.I.size(val), I(0)) is False)
        R.test("p", ok, a.where, "a path accepts a record %s" % ("without p" if p is not True else "whose p may be empty"), notes=s.notes)
        if ok and want is not None:
            key(R, a, s, val, want == RSA)
        hashes(R, a, s, A1, A256)
        p, val = tagval(a, s, "s")
        if p is None:
            unknown(R, "s", a, s, "s")
        elif p:
            lst = T("vlist", val)
            good = any(member(a, s, lst, S(x)) is True or any(pinned(s, e) == x for e in elems(s, lst)) for x in ("email", "*"))
            good = good or since(a, s, lambda w: any(pinned(w, e) == x for e in elems(w, lst) for x in ("email", "*")))
            part = any(x.op in ("any", "findpos", "has", "count") and x.a[0] is lst for x in list(s.facts) + list(s.dom)) or \
                any(looked_up(s, e) for e in elems(s, lst))
            R.test("s", True if good else None if part else False, a.where,
                   "a path accepts s= without finding email or * in it", sample="email or *", notes=s.notes)
        p, val = tagval(a, s, "t")
        fl = a.get(s, PUB + "GetFlags", a.this)
        if p is None:
            unknown(R, "t", a, s, "t")
        else:
            R.test("t", fl is T("vlist", val) if p else a.I.size(fl) is I(0) or same(a, s, a.I.size(fl), I(0)), a.where,
                   "the flags are %s" % sh(fl)[:300], sample=sh(fl), notes=s.notes)
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)


def elems(s, lst):
    out = set()
    for t in list(s.facts) + list(s.dom) + list(s.sdom):
        for x in subterms(t):
            if x.op in ("elv", "chat") and x.a[0] is lst:
                out.add(x)
    return out


def from_p(s, t, val):
    """Is t the decoded value, white space at most removed?"""
    return t.op == "b64dec" and (t.a[0] is val or t.a[0].op in ("strip", "filter") and t.a[0].a[0] is val or
                                 (None if opaque_in(t) and mentions(t, lambda x: x is val) else False))


def key(R, a, s, val, rsa):
    if not rsa:
        k = a.get(s, PUB + "GetED25519PublicKey", a.this)
        f = from_p(s, k, val)
        n = same(a, s, a.I.size(k), I(32))
        R.test("key", f and bool(n) if f is not None else None, a.where, "the ed25519 key is %s, 32 octets: %s" % (sh(k), n),
               sample=sh(k), notes=s.notes)
        return
    k = a.get(s, PUB + "GetRSAPublicKey", a.this)
    types = [(t, d) for t, d in s.dom.items() if t.op == "keytype"]
    good = False
    for t, d in types:
        if d <= IS.of([6, 19]) and from_p(s, t.a[1], val):
            good = True
    obj = k is not None and (mentions(k, lambda x: x.op.startswith("obj:RSA")) or k is T("null"))
    R.test("key", True if good and obj else None if k is not None and opaque_in(k) else False, a.where,
           "the RSA key is %s, its type known: %s" % (sh(k) if k is not None else "?", good), sample=sh(k) if k is not None else "", notes=s.notes)


def hashes(R, a, s, A1, A256):
    p, val = tagval(a, s, "h")
    g = a.get(s, PUB + "GetDigestAlgorithms", a.this)
    if p is None:
        return unknown(R, "h", a, s, "h")
    if g is None:
        return R.unsure("h", a.where, "hash list not understood")
    empty = same(a, s, a.I.size(g), I(0))
    if not p:
        return R.test("h", empty, a.where, "without h the hash list is %s" % sh(g), sample="no h", notes=s.notes)
    R.test("h", empty is False, a.where, "with h the hash list may be empty, which means no restriction", notes=s.notes)
    lst = T("vlist", val)
    want = {"sha256": A256, "sha1": A1}
    if g.op == "star":
        L = a.I.loops.get(g.a[0])
        ok = L is not None and g.a[1] in getattr(L, "stars", {})
        it = [i for i in (walks(L) if ok else []) if i.cv is lst]
        if not ok or not it:
            return R.unsure("h", a.where, "loop that fills the hash list not understood: %s" % sh(g)[:200])
        it = it[0]
        R.test("h", full_walk(a, L, it), a.where, "the names in h are not all looked at", notes=s.notes)
        for alt, d in zip(L.altst, L.stars[g.a[1]]):
            e = [pinned(alt, x) for x in elems(alt, lst) if it.elem(x)]
            name = [x for x in e if x is not None]
            if name and name[0] in want:
                R.test("h", d is T("item", I(want[name[0]])), a.where, "for %s in h the list gets %s" % (name[0], sh(d)),
                       sample="%s -> %s" % (name[0], sh(d)), notes=s.notes)
            elif name:
                R.test("h", d is EMPTY, a.where, "for %s in h the list gets %s" % (name[0], sh(d)), notes=s.notes)
            elif d is EMPTY:
                # not one of the known names?
                for n in want:
                    for x in elems(alt, lst) or [None]:
                        diff = x is not None and (same(a, alt, x, S(n)) is False)
                        R.test("h", diff or None, a.where, "%s in h may be left out of the list" % n, sample="unknown name", notes=alt.notes)
            else:
                odd = any(looked_up(alt, x) for x in elems(alt, lst))
                R.test("h", None if odd or opaque_in(d) else False, a.where, "the list gets %s for a name that is not known" % sh(d), notes=alt.notes)
        return
    R.unsure("h", a.where, "the hash list is %s" % sh(g)[:300])


def testing(prog, R):
    """SoftFail: exactly when y is among the flags."""
    fs = prog.fn(PUB + "SoftFail")
    if not fs:
        raise ir.AnalysisError("anchor %sSoftFail is not defined" % PUB)
    for f in fs:
        a = An(prog, f)
        R.an(a)
        lst = a.get(a.entry(), PUB + "GetFlags", a.this)
        if lst is None:
            R.unsure("y", a.where, "the flags are not one value")
            continue
        for s0, v in a.rets:
            for s, b in a.I.truth(s0, v):
                m = member(a, s, lst, S("y"))
                if m is None and b and (any(pinned(s, e) == "y" for e in elems(s, lst)) or
                                        since(a, s, lambda w: any(pinned(w, e) == "y" for e in elems(w, lst)))):
                    m = True
                imp = any(L.alts for L in a.I.loops.values()) and not b
                R.test("y", True if m is b else None if m is None and imp else False, a.where, "a path reports %s %s" %
                       (b, "where y is not known to be among the flags" if b else "where y may be among the flags"), sample=b, notes=s.notes)
        for s, e in a.throws:
            R.test("y", None if s.notes else False, a.where, "a way out by exception")
