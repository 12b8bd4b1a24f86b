"""C33: domains and selectors are validated before they are stored."""
from .options import elsewhere, grown
from .signer import *

VALID = "DKIM::Util::ValidateDomain"
ALNUM = frozenset(range(48, 58)) | frozenset(range(65, 91)) | frozenset(range(97, 123))
LABEL = ALNUM | {45}
CLASSES = ("DKIM::SignatoryOptions", "DKIM::AdditionalSignaturesOptions")


def check(prog, R):
    R.say("set", "SetDomain and SetSelector of both option classes return only when ValidateDomain accepted the argument, which is then what "
                 "the getter reports, and throw only a permanent error, only when it was refused, with the old value still reported")
    R.say("other", "no other public member function changes the domain or selector")
    R.say("label", "ValidateDomain cuts its argument at every dot and accepts only if every piece is known to be non-empty, made of ASCII "
                   "letters, digits and hyphens, and not to start or end with a hyphen; it refuses only when some piece is not")
    setters(prog, R)
    language(prog, R)


def setters(prog, R):
    for cls in CLASSES:
        for what in ("Domain", "Selector"):
            fs = prog.fn("%s::Set%s" % (cls, what))
            if not fs:
                raise ir.AnalysisError("anchor %s::Set%s is not defined" % (cls, what))
        for q in sorted(x for x in prog.byq if x.startswith(cls + "::")):
            for f in prog.fn(q):
                nm = q.split("::")[-1]
                if nm == cls.split("::")[-1] or nm.startswith("~") or f.get("cm") or f.get("static") or f.get("cls") != cls or f.get("access") not in (None, "public"):
                    continue
                method(prog, R, cls, nm, f)


def method(prog, R, cls, nm, f):
    a = An(prog, f)
    R.an(a)
    e0 = a.entry()
    which = nm[3:] if nm in ("SetDomain", "SetSelector") else None
    old = {w: a.get(e0, "%s::Get%s" % (cls, w), a.this) for w in ("Domain", "Selector")}
    arg = a.rd(e0, a.ploc(0), unref(f["params"][0]["t"])) if which else None
    for s, v in a.rets:
        for w in old:
            new = a.get(s, "%s::Get%s" % (cls, w), a.this)
            if w == which:
                imp = new is None or opaque_in(new)
                ok = valid(s, arg)
                R.test("set", True if ok else None if loops_str(a, arg) else False, a.where, "a path stores a %s that ValidateDomain did not accept" % w.lower(),
                       sample="validated", notes=s.notes)
                R.test("set", True if new is arg else None if imp or elsewhere(s, new) else False, a.where, "the %s becomes %s" % (w.lower(), sh(new) if new is not None else "?"),
                       sample=sh(new) if new is not None else None, notes=s.notes)
            elif new is None or old[w] is None:
                R.unsure("other", a.where, "the %s afterwards is not one value" % w.lower())
            else:
                R.test("other", True if new is old[w] or valid(s, new) or grown(new, old[w]) else None if opaque_in(new) else False, a.where, "the %s becomes %s" % (w.lower(), sh(new)),
                       sample="unchanged", notes=s.notes)
    for s, e in a.throws:
        for w in old:
            new = a.get(s, "%s::Get%s" % (cls, w), a.this)
            R.test("set" if which else "other", None if new is None else new is old[w], "%s thrown at %s" % (a.where, e.where()), "the %s becomes %s" %
                   (w.lower(), sh(new) if new is not None else "?"), sample="unchanged", notes=s.notes)
        if which:
            R.test("set", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, sample=e.ty, notes=s.notes)
            R.test("set", valid(s, arg) is False or (None if loops_str(a, arg) else False), "%s thrown at %s" % (a.where, e.where()),
                   "a %s that was not refused is an error" % which.lower(), sample="refused", notes=s.notes)


def valid(s, x):
    """What ValidateDomain said about x: True, False or None (not asked)."""
    for t, v in s.facts.items():
        if t.op == "validdomain" and t.a[0] is x:
            return v
    for t, d in s.dom.items():
        if t.op == "validdomain" and t.a[0] is x:
            return True if 0 not in d else False if d == IS.of([0]) else None
    return None


def loops_str(a, x):
    return any(mentions(t, lambda y: y is x) for L in a.I.loops.values() for st in L.altst for t in list(st.facts) + list(st.dom))


# ------------------------------------------------------------------ the language ValidateDomain accepts
def octets(cs):
    return frozenset(c & 255 for c in cs)


def label(a, s, x):
    """Is the string x known to be a label (True), known not to be (False), or neither (None)?"""
    if same(a, s, a.I.size(x), I(0)) is True:
        return False
    ne = same(a, s, a.I.size(x), I(0)) is False
    first = char(a, s, x, lambda p: p is I(0))
    last = char(a, s, x, lambda p: p is add(a.I.size(x), I(-1)) or uncast(p) is add(a.I.size(x), I(-1)))
    allc = frozenset(range(256))
    for t, v in s.facts.items():
        if t.op == "hasin" and t.a[0] is x and isinstance(t.a[1], frozenset):
            o = octets(t.a[1])
            if v is False:
                allc &= frozenset(range(256)) - o
            elif not (o & LABEL):
                return False
        elif t.op == "has" and t.a[0] is x and v and t.a[1].op in ("chs", "str", "int"):
            k = t.a[1]
            k = k.a[0] if k.op == "chs" else k
            if k.op == "str" and len(k.a[0]) == 1 and ord(k.a[0]) not in LABEL or k.op == "int" and k.a[0] & 255 not in LABEL:
                return False
    for cs in (first, last):
        if cs is not None and not (cs & ALNUM):
            return False
    if ne and first is not None and last is not None and first & allc <= ALNUM and last & allc <= ALNUM and allc <= LABEL:
        return True
    return None


def char(a, s, x, at):
    """Octets the character of x at a position can be, or None if nothing was asked."""
    r = None
    for t, v in list(s.facts.items()):
        if t.op == "has" and t.a[0].op == "str" and isinstance(t.a[1], T):
            k = t.a[1].a[0] if t.a[1].op == "chs" else t.a[1]
            if isinstance(k, T) and k.op == "chat" and k.a[0] is x and at(k.a[1]):
                tab = frozenset(ord(c) for c in t.a[0].a[0])
                r = (r if r is not None else frozenset(range(256))) & (tab if v else frozenset(range(256)) - tab)
    for t, d in s.dom.items():
        if t.op == "chat" and t.a[0] is x and at(t.a[1]) and d.size() <= 256:
            r = (r if r is not None else frozenset(range(256))) & octets(d.values())
    return r


def language(prog, R):
    fs = prog.fn(VALID)
    if not fs:
        R.unsure("label", VALID, "ValidateDomain is not defined")
        return
    for f in fs:
        a = An(prog, f)
        R.an(a)
        x = a.rd(a.entry(), a.ploc(0), unref(f["params"][0]["t"]))
        cut = None
        for L in a.I.loops.values():
            for loc in L.changed:
                if L.init.get(loc) is not I(0) or not L.alts:
                    continue
                ph = phi_of(L, loc)
                nx = set(alt.get(loc) for alt in L.alts)
                dot = [t for st in L.altst for u in list(st.dom) + list(st.facts) for t in subterms(u)
                       if t.op in ("find", "findset") and t.a[0] is x and isdot(t.a[1]) and t.a[-1] is ph]
                if dot and nx == {add(dot[0], I(1))}:
                    cut = (L, loc, ph, dot[0])
                elif dot and len(nx) == 1 and all(n is not None and n.op in ("lin", "find") and sub(n, dot[0]).op == "int" for n in nx):
                    R.bad("label", a.where, "the search for the next dot goes on at %s" % [sh(n)[:80] for n in nx])
        if cut is None:
            # a different way of going through the text
            for s, v in a.rets:
                if holds(a, s, v) is True and not loops_str(a, x) and not opaque_facts(s) and label(a, s, x) is not True:
                    R.test("label", False, a.where, "a path accepts text without looking at all of its labels", notes=s.notes)
                    break
            else:
                R.unsure("label", a.where, "the text is not visibly cut at dots")
            continue
        L, loc, ph, dot = cut
        R.ok("label", a.where, "cut at %s" % sh(dot)[:60])
        piece, tail = T("sub", x, ph, dot), T("sub", x, ph, END_)
        for st in L.altst:
            R.test("label", True if label(a, st, piece) else None if opaque_facts(st, piece) else False, a.where,
                   "a piece before a dot is passed over without being known to be a label (known: %s)" % known(st, piece), sample=known(st, piece), notes=st.notes)
        for s, v in a.rets:
            r = holds(a, s, v)
            more = same(a, s, dot, END_)
            last = tail if more is True else piece if more is False else None
            if r is None:
                R.unsure("label", a.where, "the answer on a path is %s" % sh(v)[:100])
            elif r:
                R.test("label", True if last is tail and label(a, s, tail) else None if opaque_facts(s, tail) else False, a.where,
                       "text is accepted although the last piece is not known to be a label (known: %s)" % known(s, last), sample=known(s, tail), notes=s.notes)
            else:
                k = label(a, s, piece) if last is piece else label(a, s, tail) if last is tail else None
                R.test("label", True if k is False else None if opaque_facts(s, last) else False, a.where,
                       "text is refused although no piece is known not to be a label (known: %s)" % known(s, last), sample=known(s, last), notes=s.notes)
        for s, e in a.throws:
            R.bad("label", a.where, "ValidateDomain can throw %s" % e.ty)


def isdot(t):
    return t is S(".") or t is T("chs", I(46)) or t is I(46) or t == frozenset([46])


def known(s, x):
    out = []
    for src in (s.facts, s.dom):
        for t, v in src.items():
            if x is not None and mentions(t, lambda y: y is x):
                out.append("%s %s" % (sh(t)[:90], v))
    return sorted(out)[:5]


def opaque_facts(s, x=None):
    """Does the state know things (about x) that the rule does not read?"""
    for src in (s.facts, s.dom, s.sdom):
        for t in src:
            if (x is None or mentions(t, lambda y: y is x)) and mentions(t, lambda y: y.op in ("sym", "star", "ent", "any", "join")):
                return True
    return False
