"""What setters of the option classes do to what their getters report."""
from .signer import *

OPTC = "DKIM::SignatoryOptions"
ADDC = "DKIM::AdditionalSignaturesOptions"
# setter -> {getter: index of the parameter, or the constant it reports afterwards}
SCALARS = {
    "SetDomain": {"GetDomain": 0},
    "SetSelector": {"GetSelector": 0},
    "SetDigestAlgorithm": {"GetDigestAlgorithm": 0},
    "SetSignatureAlgorithm": {"GetSignatureAlgorithm": 0},
    "SetSignBodyLength": {"GetBodyLength": 0, "GetBodySignLength": True},
    "SetCanonModeHeader": {"GetCanonModeHeader": 0},
    "SetCanonModeBody": {"GetCanonModeBody": 0},
    "SetARCInstance": {"GetARCInstance": 0},
    "SetTimestamp": {"GetTimestamp": 0, "GetTimestampSign": True},
    "SetExpiration": {"GetExpiration": 0, "GetExpirationAbsolute": 1, "GetExpirationSign": True},
    "SetIdentity": {"GetIdentity": 0},
    "SetRSAPrivateKey": {"GetRSAPrivateKey": 0},
}
# setters whose effect on their own getters is decided elsewhere (C23, C45)
OWN = {
    "SetPrivateKey": ("GetRSAPrivateKey", "GetED25519PrivateKey"),
    "SetHeaders": ("GetHeaders",),
    "AddHeaders": ("GetHeaders",),
    "DelHeaders": ("GetHeaders",),
    "SetOversignHeaders": ("GetOversignHeaders",),
    "AddAdditionalSignature": ("GetAdditionalSignatures",),
}
FRESH = {"GetBodySignLength": 0, "GetTimestampSign": 0, "GetExpirationSign": 0, "GetARCInstance": 0}


def getters(prog, cls):
    return sorted(q for q in prog.byq if q.startswith(cls + "::Get") and prog.fn(q) and not prog.fn(q)[0]["params"])


def methods(prog, cls):
    """Public member functions that can change an object: [(name, function)]."""
    for q in sorted(x for x in prog.byq if x.startswith(cls + "::")):
        for f in prog.fn(q):
            nm = q.split("::")[-1]
            if nm == cls.split("::")[-1] or nm.startswith("~") or f.get("cm") or f.get("static") or f.get("cls") != cls or f.get("access") not in (None, "public"):
                continue
            yield nm, f


def setter(prog, R, cls, nm, f, rules, only=None):
    """rules: names of the rules (stored, kept, result, thrown); only: getters that matter."""
    stored, kept, result, thrown = rules
    a = An(prog, f)
    R.an(a)
    e0 = a.entry()
    gs = [g for g in getters(prog, cls) if only is None or g.split("::")[-1] in only]
    old = {g: a.get(e0, g, a.this) for g in gs}
    args = [a.rd(e0, a.ploc(i), unref(p["t"])) if p["t"].get("k") in ("ref", "rref") else a.ploc(i) for i, p in enumerate(f["params"])]
    want = SCALARS.get(nm, {})
    for s, v in a.rets:
        for g in gs:
            k = g.split("::")[-1]
            new = a.get(s, g, a.this)
            if k in OWN.get(nm, ()):
                continue
            if new is None or old[g] is None:
                R.unsure(stored if k in want else kept, a.where, "%s afterwards is not one value" % k)
                continue
            if k in want:
                w = want[k]
                if w is True:
                    z = same(a, s, new, I(0))
                    ok = None if z is None else not z
                    if z is None and not opaque_in(new):
                        ok = False
                    R.test(stored, ok, a.where, "%s afterwards is %s" % (k, sh(new)[:120]), sample=(k, sh(new)[:80]), notes=s.notes)
                elif w < len(args):
                    ok = exactly(a, s, new, args[w])
                    if ok is False and elsewhere(s, new):
                        ok = None
                    R.test(stored, ok, a.where, "%s afterwards is %s, not the argument" % (k, sh(new)[:120]), sample=(k, sh(new)[:80]), notes=s.notes)
            else:
                ok = new is old[g] or same(a, s, new, old[g]) or grown(new, old[g])
                R.test(kept, True if ok else None if opaque_in(new) else False, a.where, "%s becomes %s" % (k, sh(new)[:120]), sample=(nm, k), notes=s.notes)
        rt = f.get("ret") or {}
        if result and rt.get("k") in ("ref", "rref") and (unref(rt) or {}).get("n") == cls:
            R.test(result, True if v is a.this else None if v is None or opaque_in(v) else False, a.where, "the result is %s, not the object itself" %
                   (sh(v)[:100] if v is not None else "?"), sample=nm, notes=s.notes)
    for s, e in a.throws:
        for g in gs:
            new = a.get(s, g, a.this)
            k = g.split("::")[-1]
            if k in OWN.get(nm, ()):
                continue
            R.test(thrown, True if new is old[g] and new is not None else None if new is None or opaque_in(new) else False,
                   "%s thrown at %s" % (a.where, e.where()), "%s becomes %s" % (k, sh(new)[:120] if new is not None else "?"), sample=(nm, k), notes=s.notes)


def elsewhere(s, v):
    """Is the value read from an element of a list while something was written through a pointer that may lead there?"""
    return mentions(v, lambda x: x.op == "elv") and any(mentions(loc, lambda x: x.op == "deref") for loc in s.store)


def grown(new, old):
    """Is it read from the same element of a list that grew at its end (the list of signatures is never empty)?"""
    for x in subterms(old):
        if x.op == "elv" and x.a[1] is I(0) and x.a[2] == "f":
            for y in subterms(new):
                if y.op == "elv" and y.a[1:] == x.a[1:] and y.a[0] is not x.a[0] and parts(y.a[0])[:1] == parts(x.a[0])[:1]:
                    return subst(new, lambda t: x if t is y else None) is old
    return False


def exactly(a, s, new, arg):
    """Is new the argument, no bit of it lost?"""
    if new is arg or widecast(new) is arg or same(a, s, new, arg) is True:
        return True
    if opaque_in(new):
        return None
    return False
