"""C15: no signature is emitted unless the signing primitive succeeded."""
from .signer import *


def check(prog, R):
    R.say("each", "the result is made by one loop over all requested signatures; every turn adds one signature header")
    R.say("succeeded", "on every turn that adds a signature a signing primitive was called and its result is known to be success "
                       "(RSA_sign 1, crypto_sign_detached 0)")
    R.say("digest", "what the primitive was given is a complete digest that includes the canonicalized emitted header")
    R.say("key", "the primitive used the private key of the signature of that turn, which is known to be present (RSA handle not null, "
                 "Ed25519 secret of full length)")
    R.say("emitted", "the text behind b= is the output of that very call")
    R.say("error", "when the primitive fails or the key is missing the call ends in a permanent error")
    kr, ke = field_of(prog, ADD + "GetRSAPrivateKey"), field_of(prog, ADD + "GetED25519PrivateKey")
    for n, a in runs(prog, R):
        sig = option(a, "GetAdditionalSignatures")
        for L, loc in outer(a, R, "each"):
            its = [i for i in walks(L) if i.cv is sig or i.cv.op == "rev" and i.cv.a[0] is sig]
            if its:
                R.test("each", full_walk(a, L, its[0]), a.where, "the walk over the signatures can start late or stop early", sample=sh(its[0].cv))
        for t in turns(a, R, "each"):
            R.ok("each", t.where)
            ok = succeeded(t)
            if len(ok) != 1:
                d = {p.op: str(x) for p, x in t.prims.items()}
                R.test("succeeded", False if not t.st.notes else None, t.where, "a signature is emitted although %s" %
                       ("no signing primitive was called" if not d else "success is not known: %s" % d if not ok else "several were called"), notes=t.st.notes)
                continue
            p = ok[0]
            R.ok("succeeded", t.where, p.op)
            dg = digest_of(p)
            good = dg.op == "digest" and any(x.op == "chdr" for x in parts(dg.a[1]))
            R.test("digest", True if good else None if opaque_in(dg) and dg.op != "digest" else False, t.where, "the primitive was given %s" % sh(dg)[:120],
                   sample=sh(dg)[:120], notes=t.st.notes)
            k = key_of(p)
            want = t.elem(kr if p.op == "rsasign" else ke)
            kk = k.a[0] if k.op in ("ptr", "data", "cdata", "skval", "buf") and isinstance(k.a[0], T) else k
            mine = k is want or kk is want or mentions(k, lambda x: x is want)
            R.test("key", True if mine else (None if not other_key(t, k) else False), t.where, "the key used is %s" % sh(k)[:120],
                   sample=sh(k)[:120], notes=t.st.notes)
            if p.op == "rsasign":
                f = t.st.facts.get(T("eq", T("null"), want))
                R.test("key", f is False, t.where, "the RSA key may be missing", sample="not null", notes=t.st.notes)
            else:
                d = a.I.dom(t.st, a.I.size(want))
                R.test("key", d.lo() >= 64, t.where, "the Ed25519 key may have %s octets" % d, sample=str(d), notes=t.st.notes)
            src = [x for x in subterms(t.delta) if x.op in ("rsasig", "edsig")]
            v, why = folded(a, t.tail, signature_text(p))
            R.test("emitted", v, t.where, "what follows b= is not the output of that call: %s" % why, sample=p.op, notes=t.st.notes)
        nerr = 0
        for s, e in a.throws:
            fl = [t for t, d in s.dom.items() if t.op == "rsasign" and d != IS.of([1]) or t.op == "edsign" and d != IS.of([0])]
            fl += [t for t, v in s.facts.items() if t.op == "eq0" and isinstance(t.a[0], T) and t.a[0].op in ("rsasign", "edsign") and v is False and t.a[0].op == "edsign"]
            nokey = any(t.op == "eq" and v and T("null") in t.a for t, v in s.facts.items())
            if fl or nokey:
                nerr += 1
                R.test("error", a.err(s, e)[0] == "permanent", e.where(), "a failed signature ends in a %s error" % a.err(s, e)[0],
                       sample=a.err(s, e)[0], notes=s.notes)
        # a failing primitive on the way to a normal return was reported above ("succeeded")


def other_key(t, k):
    """Is k known to be the key of something else?"""
    return not opaque_in(k) or any(x.op == "get" and not t.it.elem(x.a[0]) for x in subterms(k))
