"""C35: only signature headers of the requested kind are offered."""
from .c34 import *

VAL = "DKIM::Validatory::"
KINDS = {"DKIM": "dkim-signature", "ARC": "arc-message-signature"}


def check(prog, R):
    R.say("source", "GetSignatures() is one list, filled in the constructor by one walk over all header fields of the message, first to last, appending")
    R.say("kind", "a turn appends that turn's header field exactly when its lower-cased name is known to be dkim-signature and the type DKIM, "
                  "or arc-message-signature and the type ARC; otherwise it appends nothing")
    R.say("none", "with type NONE the list is empty")
    R.say("kept", "no other function of the class changes the list")
    m = An(prog, prog.fn1(MSG + "IsDone"), this=T("obj", "m"))
    v = m.rets[0][1] if len(m.rets) == 1 else None
    done = v.a[0].a[1] if v is not None and v.op == "init" and v.a[0].op == "fld" else None
    ex = {MSG + "ParseLine": line_contract(done)} if done else {}
    fs = prog.fn(VAL + "Validatory")
    if not fs:
        raise ir.AnalysisError("anchor %s is not defined" % (VAL + "Validatory"))
    for f in fs:
        one(prog, R, f, ex)
    # the list is not changed elsewhere
    b = An(prog, prog.fn1(VAL + "GetSignatures"))
    R.an(b)
    for s, v in b.rets:
        loc = v
        R.test("kept", loc is not None and loc.op == "fld" and loc.a[0] is b.this or (v.op == "init" or None), b.where,
               "GetSignatures returns %s" % sh(v), sample=sh(v), notes=s.notes)


def one(prog, R, f, ex):
    ti = [i for i, p in enumerate(f["params"]) if (unref(p["t"]) or {}).get("k") == "enum"]
    if not ti:
        return
    pt = unref(f["params"][ti[0]]["t"])
    names = {}
    for n, x in pt.get("consts", []):
        names[n.split("::")[-1]] = x
    if "DKIM" not in names or "ARC" not in names or "NONE" not in names:
        raise ir.AnalysisError("enumerators DKIM, ARC, NONE of the validator type not found")
    a = An(prog, f, extra=ex)
    R.an(a)
    ploc = a.ploc(ti[0])
    memo = {}
    ty0 = ploc

    def types(s):
        d = a.I.dom(s, ty0)
        return [n for n, x in names.items() if d is None or x in d]
    for s, v in a.rets:
        L = a.get(s, VAL + "GetSignatures", a.this)
        mt = types(s)
        if L is None:
            R.unsure("source", a.where, "the list is not one value")
            continue
        if mt == ["NONE"]:
            R.test("none", L in (EMPTY, T("nil")) or same(a, s, a.I.size(L), I(0)), a.where, "with type NONE the list is %s" % sh(L),
                   sample="empty", notes=s.notes)
            continue
        if L in (EMPTY, T("nil")):
            R.test("source", "DKIM" not in mt and "ARC" not in mt, a.where, "the list is empty for type %s whatever the header" % mt, notes=s.notes)
            continue
        if L.op != "star":
            if L.op == "cat" and L.a[0].op == "star":
                R.bad("source", a.where, "the list also holds %s" % sh(L)[:200])
            else:
                R.test("source", front(a, L), a.where, "the list is %s" % sh(L)[:200], notes=s.notes)
            continue
        key = L.a
        lp = a.I.loops.get(L.a[0])
        hv = a.get(s, MSG + "GetHeaders", msg_loc(a) or a.this)
        if (lp, hv) not in memo:
            memo[(lp, hv)] = 1
            loop(a, R, lp, L.a[1], hv, types, names)
        # which alternatives could a run of this type take: decided per alternative


def loop(a, R, L, loc, hv, types, names):
    w = "%s, loop at line %s" % (a.where, L.node.get("l"))
    its = [i for i in walks(L)]
    it = [i for i in its if i.cv is hv]
    if not it:
        if its and any(i.cv.op == "rev" and i.cv.a[0] is hv for i in its):
            R.bad("source", w, "the header fields are walked from the last to the first")
        else:
            R.unsure("source", w, "the loop does not visibly walk the header fields")
        return
    it = it[0]
    if it.d != "f":
        R.bad("source", w, "the header fields are walked from the last to the first")
        return
    fw = full_walk(a, L, it)
    R.test("source", fw, w, "the walk over the header fields can start late or stop early", sample=sh(it.cv))
    deltas = L.stars[loc]
    for st, d in zip(L.altst, deltas):
        mt = types(st)
        low = known(st, it)
        elem = None
        if d is EMPTY or d is T("nil"):
            app = False
        elif d.op == "item" and it.elem(d.a[0]):
            app = True
        else:
            R.test("kind", None if opaque_in(d) and not mentions(d, lambda x: it.elem(x)) else False, w,
                   "a turn appends %s" % sh(d)[:200], notes=st.notes)
            continue
        if app:
            for n in mt:
                if n == "NONE":
                    continue
                ok = low == KINDS[n]
                R.test("kind", ok if low != "?" else None, w, "with type %s a field is offered whose name is %s" %
                       (n, repr(low) if isinstance(low, str) else "not known"), sample=(n, low), notes=st.notes)
        else:
            for n in mt:
                if n == "NONE":
                    continue
                if isinstance(low, str):
                    ok = low != KINDS[n]
                else:
                    ok = True if low is not None and KINDS[n] in low else False
                R.test("kind", ok if low != "?" else None, w, "with type %s a field named %s can be left out" %
                       (n, KINDS[n]), sample=(n, "skipped"), notes=st.notes)


def front(a, L):
    """False if the list is known to be built by putting fields before the earlier ones."""
    if L.op == "ent" or L.op == "phi":
        lp = a.I.loops.get(L.a[0])
        if lp is not None and any(x.get(L.a[1]) is not None and x[L.a[1]].op == "cat" and x[L.a[1]].a[0].op == "item" for x in lp.alts):
            return False
    return None


def known(st, it):
    """What is known of the lower-cased name of the element of this turn: the name, the set of names it is not, or '?'."""
    def isname(x):
        return x.op == "lower" and mentions(x, lambda y: it.elem(y))
    no = set()
    odd = False
    for t, v in st.sdom.items():
        if isname(t):
            if v[0] == "eq":
                return v[1]
            no |= set(v[1])
    for t, d in st.dom.items():
        if t.op == "cmpz" and any(isname(x) for x in t.a):
            o = [x for x in t.a if x.op == "str"]
            if o and d == IS.of([0]):
                return o[0].a[0].lower()
            if o and 0 not in d:
                no.add(o[0].a[0].lower())
    for t, b in st.facts.items():
        if t.op == "eq" and any(isname(x) or x.op == "cz" and isname(x.a[0]) for x in t.a):
            o = [x for x in t.a if x.op == "str"]
            if o and b:
                return o[0].a[0]
            if o:
                no.add(o[0].a[0])
        elif t.op in ("any", "findpos") and mentions(t, lambda y: it.elem(y)):
            odd = True
    for t, d in st.dom.items():
        if t.op == "size" and mentions(t, lambda y: it.elem(y)):
            for k in KINDS.values():
                if len(k) not in d:
                    no.add(k)
    return "?" if odd else no
