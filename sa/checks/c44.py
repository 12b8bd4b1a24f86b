"""C44: what the signer emits can be parsed back."""
from .signer import *
from . import c12

NAMECH = frozenset(range(0x21, 0x7f)) - {ord(";"), ord(":")}
SAFE = {"algname", "modename", "dec", "b64enc", "qpenc"}


def check(prog, R):
    R.say("names", "every header field name that enters the list of signed names is known to be non-empty and to consist of printable "
                   "ASCII octets other than ';' (and, being the text before the first colon, ':')")
    R.say("values", "every other part of the emitted header is fixed text, a number, the name of an algorithm or mode, base64 text, "
                    "quoted-printable text, or the domain or selector of the signature (which C33 validates)")
    R.say("identity", "the identity enters only as the result of the quoted-printable encoder")
    R.say("grammar", "the emitted tags are named by fixed text that the tag grammar allows, and separated by ';'")
    fields = [field_of(prog, ADD + x) for x in ("GetDomain", "GetSelector")]
    for n, a in runs(prog, R):
        memo = set()
        ident = option(a, "GetIdentity")
        for t in turns(a, R, "grammar"):
            s, w = t.st, t.where
            tg = tags(t)
            if tg is None:
                R.test("grammar", None if opaque_in(t.text) and len(t.head) < 6 else False, w, "the emitted header is not a tag list: %s" % sh(t.text)[:300],
                       notes=s.notes)
                continue
            for k, v in tg[1:]:
                R.test("grammar", bool(k) and k[0].isalpha() and all(c.isalnum() or c == "_" for c in k), w, "tag name %r" % k, sample=k, notes=s.notes)
                if k == "h":
                    nl, why = joined(a, v)
                    if nl is None or nl is False:
                        R.test("names", None if nl is None else False, w, "h= is not a list joined by colons: %s" % why, notes=s.notes)
                    elif nl not in memo:
                        memo.add(nl)
                        for p in parts(nl):
                            names(a, R, t, p)
                    else:
                        R.ok("names", w)
                    continue
                for p in v:
                    raw = mentions(p, lambda x: x is ident) and not inside(p, ident, "qpenc")
                    if ident is not None and mentions(p, lambda x: x is ident):
                        R.test("identity", not raw, w, "%s= contains %s" % (k, sh(p)[:120]), sample=sh(p)[:80], notes=s.notes)
                        if raw:
                            continue
                    if p.op == "str":
                        ok = all(c in FWS or 0x21 <= ord(c) <= 0x7e and c != ";" for c in p.a[0])
                    elif p.op in SAFE:
                        ok = True
                    elif p.op == "get" and t.iselem(p) and p.a[1] in fields:
                        ok = True
                    else:
                        ok = charset(s, p) <= NAMECH or (None if p.op in ("phi", "star", "sym", "ent", "join") else False)
                    R.test("values", ok, w, "%s= contains %s, which is not encoded or validated" % (k, sh(p)[:150]), sample=(k, sh(p)[:80]), notes=s.notes)


def inside(p, x, op):
    """Does x occur in p only below an application of op?"""
    if p is x:
        return False
    if p.op == op:
        return True
    for y in p.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if isinstance(z, T) and not inside(z, x, op):
                return False
    return True


ALL = frozenset(range(256))


def charset(st, x):
    """Octets the string x can contain, as far as the facts of st tell."""
    if x.op == "str":
        return frozenset(ord(c) for c in x.a[0])
    r = ALL
    for t, v in st.facts.items():
        if v is False and t.op == "hasin" and t.a[0] is x and isinstance(t.a[1], frozenset):
            r &= ALL - {c & 255 for c in t.a[1]}
    if x.op == "lower":
        b = charset(st, x.a[0])
        r &= frozenset(c + 32 if 65 <= c <= 90 else c for c in b)
    elif x.op in ("sub", "strip", "chs"):
        if isinstance(x.a[0], T) and x.op != "chs":
            r &= charset(st, x.a[0])
    return r


def names(a, R, t, p):
    """The names a part of the list of signed names can hold."""
    ov = option(a, "GetOversignHeaders")
    if c12.oversign(a, p, ov) is not None:
        R.ok("names", t.where, "configured oversign names")
        return
    if p.op == "nil" or p is EMPTY:
        return
    L = a.I.loops.get(p.a[0]) if p.op == "star" else None
    if L is None:
        R.unsure("names", t.where, "signed names from %s" % sh(p)[:150])
        return
    w = "%s, loop at line %s" % (a.where, L.node.get("l"))
    m = msg_loc(a)
    hv = a.get(a.e0, MSG + "GetHeaders", m) if m is not None else None
    for st, d in zip(L.altst, L.stars[p.a[1]]):
        for x in parts(d):
            if x.op == "nil" or x is EMPTY:
                R.ok("names", w, "none added")
                continue
            if x.op != "item":
                R.unsure("names", w, "a turn adds %s" % sh(x)[:150])
                continue
            x = x.a[0]
            base = x.a[0] if x.op == "lower" else x
            cs = charset(st, x) & charset(st, T("lower", x))
            if base is not x:
                lo = charset(st, base)
                cs &= frozenset(c + 32 if 65 <= c <= 90 else c for c in lo)
            elts = [y for y in subterms(base) if y.op == "elv" and (y.a[0] is hv or y.a[0].op == "rev" and y.a[0].a[0] is hv)]
            colon = {ord(":")} if any(base is a.get(st, HDR + "GetName", T("deref", y)) for y in elts) else set()
            bad = cs - NAMECH - colon
            ne = same(a, st, a.I.size(x), I(0)) is False or same(a, st, a.I.size(base), I(0)) is False
            imp = any(y.op in ("sym", "ent") for y in subterms(x)) or cs == ALL and any(mentions(f, lambda y: y is x or y is base) and f.op not in
                                                                                       ("eq0", "hasin", "has", "badhdr", "eq", "le0") for f in st.facts)
            R.test("names", True if not bad else None if imp else False, w, "a name containing %s can be listed" %
                   ", ".join("0x%02x" % c for c in sorted(bad)[:6]), sample=sh(x)[:100], notes=st.notes)
            R.test("names", True if ne else None if imp else False, w, "an empty name can be listed", sample="not empty", notes=st.notes)
