"""C45: header selection options ignore letter case."""
from .signer import *
from . import c12
from ..models import HOLE


def check(prog, R):
    R.say("select", "a turn of the header loop signs its field exactly when no names are configured or the lower-cased name of the field is "
                    "among the lower-cased configured names (fields whose name can not be written in h= apart)")
    R.say("oversign", "the configured oversign names enter h= in lower case")
    R.say("signed names", "the names of the signed fields enter h= in lower case")
    R.say("exclude", "deleting names removes exactly the configured names that are equal to one of them ignoring case")
    R.say("configure", "setting names replaces the configured list and adding names appends to it")
    for n, a in runs(prog, R):
        memo = set()
        for t in turns(a, R, "select"):
            tg = tags(t)
            h = [v for k, v in tg or [] if k == "h"]
            if len(h) != 1:
                R.unsure("select", t.where, "no single h= tag")
                continue
            nl, why = joined(a, h[0])
            for p in parts(nl) if nl else []:
                lower(a, R, t, p)
            for p in succeeded(t):
                L, loc = header_loop(t, p)
                if L is None:
                    R.unsure("select", t.where, loc)
                elif (L.lid, loc) not in memo:
                    memo.add((L.lid, loc))
                    select(a, R, L, loc)
    options(prog, R)


def lower(a, R, t, p):
    ov = option(a, "GetOversignHeaders")
    r = c12.oversign(a, p, ov)
    if r is not None:
        R.test("oversign", True if r == "lower" else False if r == "plain" else None, t.where, "the oversign names are listed as %s" % sh(p)[:120],
               sample=sh(p)[:120], notes=t.st.notes)
        return
    L = a.I.loops.get(p.a[0]) if p.op == "star" else None
    if L is None:
        return
    for st, d in zip(L.altst, L.stars[p.a[1]]):
        for x in parts(d):
            if x.op == "item":
                R.test("signed names", True if x.a[0].op == "lower" else None if any(y.op in ("sym", "ent", "join") for y in subterms(x)) else False,
                       "%s, loop at line %s" % (a.where, L.node.get("l")), "a turn lists %s" % sh(x)[:120], sample=sh(x)[:120], notes=st.notes)


def select(a, R, L, loc):
    w = "%s, loop at line %s" % (a.where, L.node.get("l"))
    m = msg_loc(a)
    hv = a.get(a.e0, MSG + "GetHeaders", m) if m is not None else None
    it = [i for i in walks(L) if i.cv is hv or i.cv.op == "rev" and i.cv.a[0] is hv]
    if not it:
        R.unsure("select", w, "the loop does not visibly walk the header fields")
        return
    it = it[0]
    conf = option(a, "GetHeaders")
    for st, d in zip(L.altst, L.stars[loc]):
        name = a.get(st, HDR + "GetName", T("deref", T("elv", it.cv, it.phi, it.d)))
        sel = chosen(a, st, conf, name)
        none = nothing(a, st, conf)
        look = sorted(set(sh(f)[:160] for f in st.facts if f.op in ("has", "any", "hasin", "eq") and mentions(f, lambda x: x is name or x is conf)))
        imp = any(mentions(f, lambda x: x.op == "elv" and (x.a[0] is conf or mentions(x.a[0], lambda y: y is conf)) or x.op in ("sym", "ent")) for f in
                  list(st.facts) + list(st.dom)) and not any(f.op in ("has", "any", "hasin") and mentions(f, lambda x: x is conf or x.op == "star") for f in st.facts)
        if d is EMPTY:
            unw = unwritable(a, st, name)
            ok = unw or sel is False and none is False
            what = "a turn skips a field although it can be selected (%s)" % look
        else:
            ok = none is True or sel is True
            what = "a turn signs a field that need not be selected (%s)" % look
        R.test("select", True if ok else None if imp else False, w, what, sample=look, notes=st.notes)


def unwritable(a, st, name):
    """Is the name known not to fit into h=?"""
    for n in (name, T("lower", name)):
        if same(a, st, a.I.size(n), I(0)) is True:
            return True
        for f, v in st.facts.items():
            if v and f.op == "hasin" and f.a[0] is n and isinstance(f.a[1], frozenset) and not ({c & 255 for c in f.a[1]} & (frozenset(range(0x21, 0x7f)) - {ord(";"), ord(":")})):
                return True
    return False


def lowered(a, x, conf):
    """Is x the configured list with every name in lower case?"""
    if x.op == "sorted":
        x = x.a[0]
    if x.op == "map1" and x.a[0].op == "sorted":
        x = T("map1", x.a[0].a[0], x.a[1])
    if x.op == "map1" and x.a[1].op == "lower" and x.a[1].a[0].op == "hole":
        return x.a[0] is conf or c12.oversign(a, x.a[0], conf) in ("lower", "plain")
    return c12.oversign(a, x, conf) == "lower"


def nothing(a, st, conf):
    """Is the configured list known to be empty / not empty?"""
    r = same(a, st, a.I.size(conf), I(0))
    if r is not None:
        return r
    for t, d in st.dom.items():
        if t.op == "size" and lowered(a, t.a[0], conf):
            z = same(a, st, t, I(0))
            if z is not None:
                return z
    return None


def chosen(a, st, conf, name):
    """Is the lower-cased name known (not) to be among the lower-cased configured names?"""
    lo = T("lower", name)
    for f, v in st.facts.items():
        if f.op == "has" and f.a[1] is lo and lowered(a, f.a[0], conf):
            return v
        if f.op in ("any", "hasin") and (f.a[0] is conf or lowered(a, f.a[0], conf)) and isinstance(f.a[1], T) and eqcase(f.a[1], HOLE, name):
            return v
    return None


def eqcase(p, x, y):
    """Is p the statement that x and y are equal ignoring case?"""
    lx, ly = T("lower", x), T("lower", y)
    if p.op == "eq":
        return set(p.a) == {lx, ly}
    return p.op == "eq0" and p.a[0].op == "cmpz" and set(p.a[0].a) == {lx, ly}


def options(prog, R):
    for q in ("SetHeaders", "AddHeaders", "DelHeaders", "SetOversignHeaders"):
        fs = prog.fn(OPT + q)
        if not fs:
            raise ir.AnalysisError("anchor %s is not defined" % (OPT + q))
        for f in fs:
            a = An(prog, f)
            R.an(a)
            e0 = a.entry()
            acc = OPT + ("GetOversignHeaders" if "Over" in q else "GetHeaders")
            old = a.get(e0, acc, a.this)
            arg = a.rd(e0, a.ploc(0), unref(f["params"][0]["t"]))
            if a.throws:
                R.test("configure", None if any(s.notes for s, e in a.throws) else False, a.where, "a way out by exception")
            for s, v in a.rets:
                new = a.get(s, acc, a.this)
                if new is None:
                    R.unsure("configure", a.where, "the list afterwards is not one value")
                    continue
                imp = opaque_in(new)
                if q == "DelHeaders":
                    delete(a, R, s, old, arg, new)
                elif q == "AddHeaders":
                    R.test("configure", True if new is T("cat", old, arg) or appended(a, new, old, arg) else None if imp else False, a.where,
                           "the configured names become %s" % sh(new)[:150], sample=sh(new)[:100], notes=s.notes)
                else:
                    R.test("configure", True if new is arg or appended(a, new, None, arg) or lowered(a, new, arg) else None if imp else False, a.where,
                           "the configured names become %s" % sh(new)[:150], sample=sh(new)[:100], notes=s.notes)


def appended(a, new, old, arg):
    """old followed by the elements of arg, added one by one (or in lower case)."""
    ps = list(parts(new))
    if old is not None:
        if not ps or ps[0] is not old:
            return False
        ps = ps[1:]
    return len(ps) == 1 and (c12.oversign(a, ps[0], arg) in ("lower", "plain"))


def delete(a, R, s, old, arg, new):
    w = a.where
    if new.op == "filter" and new.a[0] is old:
        p = new.a[1]
        ok = p.op == "has" and p.a[1] is T("lower", HOLE) and lowered(a, p.a[0], arg)
        R.test("exclude", True if ok else None if opaque_in(p) else False, w, "names are removed when %s" % sh(p)[:150], sample=sh(p)[:150], notes=s.notes)
        return
    if new.op != "phi":
        R.test("exclude", None if opaque_in(new) else False, w, "the configured names become %s" % sh(new)[:200], notes=s.notes)
        return
    L = a.I.loops.get(new.a[0])
    it = [i for i in walks(L) if i.cv is arg] if L is not None else []
    if not it:
        R.unsure("exclude", w, "the loop does not visibly walk the names to delete")
        return
    it = it[0]
    R.test("exclude", full_walk(a, L, it), w, "not every name to delete is looked at", sample="full walk", notes=s.notes)
    R.test("exclude", L.init.get(new.a[1]) is old, w, "the list starts as %s" % sh(L.init.get(new.a[1]) or new)[:100], notes=s.notes)
    for alt, st in zip(L.alts, L.altst):
        v = alt.get(new.a[1])
        ok = v is not None and v.op == "filter" and v.a[0] is new and eqcase(v.a[1], HOLE, T("elv", it.cv, it.phi, it.d))
        imp = v is None or any(x.op in ("sym", "star", "ent", "join") or x.op == "phi" and x is not new and x is not it.phi for x in subterms(v))
        R.test("exclude", True if ok else None if imp else False, w, "a turn makes the list %s" % (sh(v)[:200] if v is not None else "?"),
               sample=sh(v)[:150] if v is not None else None, notes=st.notes)
