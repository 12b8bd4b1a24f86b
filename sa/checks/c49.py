"""C49: the signing options report what was set."""
from .options import *


def check(prog, R):
    R.say("stored", "after a setter of either option class returns, its getters report exactly its arguments, and an optional tag it is about is on")
    R.say("kept", "every other getter still reports what it did before (the lists and keys a function is about are decided by C45 and C23)")
    R.say("thrown", "after a setter throws, every getter still reports what it did before")
    R.say("result", "a setter's result is the object it was called on")
    R.say("fresh", "a fresh object asks for no body length, time, expiration or ARC instance, and names the From field among the fields to sign")
    R.say("first", "what the options report as domain, selector, key type and keys is what their first signature reports, and another signature is a new "
                   "one, put at the end")
    for cls in (OPTC, ADDC):
        seen = set()
        for nm, f in methods(prog, cls):
            setter(prog, R, cls, nm, f, ("stored", "kept", "result", "thrown"))
            seen.add(nm)
        need = [k for k in list(SCALARS) + list(OWN) if k not in seen] if cls == OPTC else \
            [k for k in ("SetDomain", "SetSelector", "SetSignatureAlgorithm", "SetRSAPrivateKey", "SetPrivateKey") if k not in seen]
        if need:
            raise ir.AnalysisError("anchor %s::%s is not defined" % (cls, need[0]))
    fresh(prog, R)
    another(prog, R)


def fresh(prog, R):
    fs = [f for f in prog.fn(OPTC + "::SignatoryOptions") if not f["params"]]
    if not fs:
        R.unsure("fresh", OPTC, "no default constructor is defined")
        return
    for f in fs:
        a = An(prog, f)
        R.an(a)
        for s, v in a.rets:
            for k, want in sorted(FRESH.items()):
                v = a.get(s, OPTC + "::" + k, a.this)
                R.test("fresh", None if v is None or opaque_in(v) else v is I(want), a.where, "%s of a fresh object is %s" % (k, sh(v) if v is not None else "?"),
                       sample=(k, want), notes=s.notes)
            h = a.get(s, OPTC + "::GetHeaders", a.this)
            if h is None or opaque_in(h) or any(p.op != "item" for p in parts(h)):
                R.unsure("fresh", a.where, "the names of a fresh object are %s" % (sh(h)[:100] if h is not None else "?"))
            else:
                R.test("fresh", any(p.a[0].op == "str" and p.a[0].a[0].lower() == "from" for p in parts(h)), a.where, "From is not signed by default",
                       sample="from", notes=s.notes)
            l = a.get(s, OPTC + "::GetAdditionalSignatures", a.this)
            ps = list(parts(l)) if l is not None else []
            first = ps[0].a[0] if ps and ps[0].op == "item" else None
            if first is None or first.op != "objref":
                R.test("first", None if l is None or opaque_in(l) or ps else False, a.where, "a fresh object holds the signatures %s" %
                       (sh(l)[:100] if l is not None else "?"), notes=s.notes)
                continue
            R.test("first", len(ps) == 1, a.where, "a fresh object holds %d signatures" % len(ps), sample="one", notes=s.notes)
            for k in ("GetDomain", "GetSelector", "GetSignatureAlgorithm", "GetRSAPrivateKey", "GetED25519PrivateKey"):
                x, y = source(a, s, OPTC + "::" + k, a.this), source(a, s, ADDC + "::" + k, first.a[0])
                R.test("first", None if x is None or y is None else x is y, a.where, "%s reads %s, for the first signature %s" %
                       (k, sh(x) if x is not None else "?", sh(y) if y is not None else "?"), sample=(k, sh(y)[:60] if y is not None else None), notes=s.notes)


def source(a, s, q, obj):
    """The location getter q of obj reports the value of, found by changing what is stored."""
    st = s.copy()
    out = []
    for loc in list(st.store):
        if loc.op != "fld" or loc.a[0].op not in ("heap", "obj", "this") and loc.a[0] is not obj:
            continue
        t = s.copy()
        mark = T("param", "verif", "mark:%d" % id(loc))
        t.store[loc] = mark
        if a.get(t, q, obj) is mark:
            out.append(loc)
    return out[0] if len(out) == 1 else None


def another(prog, R):
    for f in prog.fn(OPTC + "::AddAdditionalSignature"):
        a = An(prog, f)
        R.an(a)
        g = OPTC + "::GetAdditionalSignatures"
        old = a.get(a.entry(), g, a.this)
        for s, v in a.rets:
            new = a.get(s, g, a.this)
            if new is None or old is None or v is None:
                R.unsure("first", a.where, "the signatures afterwards are not one value")
                continue
            ok = new is cat(old, T("item", T("objref", v))) and v.op == "heap"
            R.test("first", True if ok else None if opaque_in(new) or opaque_in(v) else False, a.where, "the signatures become %s and the result is %s" %
                   (sh(new)[:120], sh(v)[:80]), sample="a new one at the end", notes=s.notes)
        for s, e in a.throws:
            R.test("first", None if s.notes else False, a.where, "a way out by exception")
