"""C17: several signatures made together do not influence each other."""
from .signer import *


def check(prog, R):
    R.say("digest", "what each signature signs is the digest of the message header fields, made before the loop over the signatures, and "
                    "that signature's own canonicalized header")
    R.say("own", "the text of a signature and what was signed depend on nothing a turn for another signature left behind")
    R.say("key", "the key, domain and selector used on a turn are those of the signature of that turn")
    R.say("all", "every requested signature is made, and two are separated by CRLF")
    fields = {x: field_of(prog, ADD + x) for x in ("GetDomain", "GetSelector", "GetRSAPrivateKey", "GetED25519PrivateKey", "GetSignatureAlgorithm")}
    for n, a in runs(prog, R):
        sig = option(a, "GetAdditionalSignatures")
        for L, loc in outer(a, R, "all"):
            its = [i for i in walks(L) if i.cv is sig or i.cv.op == "rev" and i.cv.a[0] is sig]
            if its:
                R.test("all", full_walk(a, L, its[0]), a.where, "the walk over the signatures can start late or stop early", sample=sh(its[0].cv))
        ts = list(turns(a, R, "all"))
        seps = set(t.sep for t in ts)
        for t in ts:
            z = same(a, t.st, a.I.size(phi_of(t.L, t.loc)), I(0))
            if z is None:
                z0 = same(a, t.st, t.it.phi, t.it.start)
                z = z0
            sep = t.sep
            R.test("all", (sep == "" if z else sep == "\r\n") if z is not None else (False if len(seps) == 1 else None), t.where,
                   "the %s signature is preceded by %r" % ("first" if z else "next" if z is False else "?", sep), sample=(z, sep), notes=t.st.notes)
            c = carried(t, cat(*(t.head + t.tail)))
            R.test("own", not c, t.where, "the text of a signature depends on %s of an earlier turn" % [sh(x)[:60] for x in c][:3], sample="own", notes=t.st.notes)
            for p in succeeded(t):
                dg = digest_of(p)
                if dg.op == "digest":
                    c = carried(t, dg)
                    R.test("own", not c, t.where, "what is signed depends on %s of an earlier turn" % [sh(x)[:60] for x in c][:3], sample="own", notes=t.st.notes)
                    L, why = header_loop(t, p)
                    ps = parts(dg.a[1])
                    good = L is not None and L is not t.L and not L.lid.endswith("^" + t.L.lid)
                    R.test("digest", True if good and ps[-1].a[1] is t.text else None if L is None and opaque_in(dg.a[1]) and not c else False, t.where,
                           why if L is None else "the signed digest ends with %s" % sh(ps[-1])[:80], sample="star . own header", notes=t.st.notes)
                k = key_of(p)
                others = [x for x in subterms(k) if x.op == "get" and not t.it.elem(x.a[0])] + carried(t, k)
                R.test("key", not others, t.where, "the key used is %s" % sh(k)[:100], sample=sh(k)[:80], notes=t.st.notes)
                if not any(t.iselem(x) for x in subterms(k)):
                    R.test("key", None if opaque_in(k) else False, t.where, "the key used is %s" % sh(k)[:100], notes=t.st.notes)
            tg = tags(t)
            if tg:
                for nm, acc in (("d", "GetDomain"), ("s", "GetSelector")):
                    v = [x for y, x in tg if y == nm]
                    if v and v[0]:
                        mine = len(v[0]) == 1 and v[0][0] is t.elem(fields[acc])
                        R.test("key", True if mine else None if any(opaque_in(x) and not t.iselem(x) and x.op != "get" for x in v[0]) else False, t.where,
                               "%s= is %s" % (nm, [sh(x)[:80] for x in v[0]]), sample=nm, notes=t.st.notes)
