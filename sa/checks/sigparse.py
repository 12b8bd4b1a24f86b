"""What the checks about Signature::Parse share."""
from .verifier import *

PARSE = "DKIM::Signature::Parse"
H = "DKIM::Header::"
NAME = T("obj", "tag name")
ENTRY = T("obj", "tag entry")
ENT = {"k": "rec", "repo": True, "n": "DKIM::TagListEntry"}


def fresh_state(prog, rec, this=T("obj", "this"), **kw):
    """State right after constructing an object of class rec at this."""
    fs = [f for f in prog.fn(rec + "::" + rec.split("::")[-1]) if not f["params"]]
    if not fs:
        return E.State()
    a = An(prog, fs[0], this=this, **kw)
    if len(a.rets) != 1:
        raise ir.AnalysisError("constructor of %s: %d outcomes" % (rec, len(a.rets)))
    s = a.rets[0][0].copy()
    return s


def analysis(prog, R):
    a = An(prog, prog.fn1(PARSE), st=fresh_state(prog, "DKIM::Signature"))
    R.an(a)
    R.assumes("the signature object is fresh or was reset (C37)")
    a.hdr = T("deref", a.ploc(0))
    if not a.rets:
        R.bad("accept", a.where, "no signature is ever accepted")
    return a


def tag(a, s, name):
    """(present?, value, offset) of a tag as GetTag reports it in state s."""
    k = (s, name)
    m = a.memo.get(k)
    if m is not None:
        return m
    st = s.copy()
    st.store[NAME] = S(name)
    a.I.kill(st, ENTRY)
    r = a.call(st, SIG + "GetTag", a.this, [NAME, ENTRY])
    pres, vals, offs = set(), set(), set()
    for s2, v in r:
        for s3, b in a.I.truth(s2, v):
            pres.add(b)
            if b:
                vals.add(a.get(s3, "DKIM::TagListEntry::GetValue", ENTRY))
                offs.add(a.get(s3, "DKIM::TagListEntry::GetValueOffset", ENTRY))
    m = a.memo[k] = (pres.pop() if len(pres) == 1 else None, vals.pop() if len(vals) == 1 else None,
                     offs.pop() if len(offs) == 1 else None)
    return m


def pinned(s, t):
    """The constant a string is known to equal in s."""
    if t is None:
        return None
    if t.op == "str":
        return t.a[0]
    v = s.sdom.get(t)
    if v is not None and v[0] == "eq":
        return v[1]
    for x, d in s.dom.items():
        if x.op == "cmpz" and d == IS.of([0]):
            for p, q in (x.a, x.a[::-1]):
                if p is t and q.op == "str":
                    return q.a[0]
    for x, v in s.sdom.items():
        # a prefix is known, and that it is all there is
        if v[0] == "eq" and x.op in ("sub", "cpre") and x.a[0] is t and (x.op == "cpre" or x.a[1] is I(0)) and \
                s.dom.get(T("size", t)) == IS.of([len(v[1])]):
            return v[1]
    return None


def plain(x, t):
    """Is x the string t, a piece of it, or its lower-cased form?"""
    while x is not t and x.op in ("sub", "cpre", "lower", "cz"):
        x = x.a[0]
    return x is t


def looked_up(s, t):
    """Is t matched against something the analysis only knows as a table, or scanned?"""
    for x in list(s.facts) + list(s.dom):
        if x.op in ("has", "any", "findpos", "eq", "eq0", "le0", "cmpz", "hasin", "find") and mentions(x, lambda y: y is t):
            if x.op in ("cmpz", "eq") and all(plain(q, t) or q.op == "str" for q in x.a):
                continue
            if x.op in ("eq0", "le0") and not mentions(x, lambda y: y.op not in ("size", "lin", "int") and not mentions(t, lambda z: z is y)):
                continue
            if x.op in ("has", "hasin", "find") and x.a[0] is t:
                continue
            return True
    return False


def is_arc(a, s):
    return holds(a, s, a.I.compare(s, "==", a.get(s, SIG + "IsARC", a.this), I(1)))


def unknown(R, rule, a, s, name):
    """A path on which the presence of a tag is not known: it was never asked for, unless the tags are walked."""
    walked = any(mentions(t, lambda x: x.op in ("elv", "chat", "mapat") and x.a and isinstance(x.a[0], T) and x.a[0].op == "tags")
                 for t in list(s.facts) + list(s.dom) + list(s.sdom))
    R.test(rule, None if walked else False, "%s tag %s" % (a.where, name),
           "a path accepts a signature without ever looking for %s" % name, notes=s.notes)
