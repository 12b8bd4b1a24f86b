"""C23: fixed-length reads of keys and signatures are length checked."""
from ..q import *
from .. import roots
from ..linear import entails
from ..contracts import sig_parse, key_parse
from .c22 import region, beyond
from .c26 import txt

# bytes a primitive reads through an argument without being told how many there are
FIXED = {
    "crypto_sign_verify_detached": ((1, 64, "signature"), (4, 32, "public key")),
    "crypto_sign_ed25519_verify_detached": ((1, 64, "signature"), (4, 32, "public key")),
    "crypto_sign_detached": ((5, 64, "secret key"),),
    "crypto_sign_ed25519_detached": ((5, 64, "secret key"),),
    "crypto_sign_seed_keypair": ((3, 32, "seed"),),
    "crypto_sign_ed25519_seed_keypair": ((3, 32, "seed"),),
}
# pointer and length given to a primitive
COUNTED = {
    "RSA_verify": ((2, 3), (4, 5)),
    "RSA_sign": ((2, 3),),
    "crypto_sign_verify_detached": ((2, 3),),
    "crypto_sign_ed25519_verify_detached": ((2, 3),),
    "crypto_sign_detached": ((3, 4),),
    "crypto_sign_ed25519_detached": ((3, 4),),
}
# key handles that must be there
HANDLE = {"RSA_verify": 6, "RSA_sign": 6, "RSA_size": 1, "RSA_bits": 1, "RSA_up_ref": 1, "RSA_check_key": 1,
          "EVP_PKEY_get1_RSA": 1, "EVP_PKEY_up_ref": 1, "EVP_PKEY_size": 1, "EVP_PKEY_id": 1, "EVP_PKEY_base_id": 1, "EVP_PKEY_get0_RSA": 1}


def check(prog, R):
    R.say("fixed", "a primitive that reads a fixed number of bytes gets a pointer to at least that many")
    R.say("counted", "a primitive or copy told a number of bytes to read gets a pointer to at least that many")
    R.say("handle", "a key handle is given to a primitive only when it is known to be present")
    for f in roots.library(prog):
        ex = {"DKIM::Signature::Parse": sig_parse, "DKIM::PublicKey::Parse": key_parse, "DKIM::Util::Resolver::GetTXT": txt}
        ex.pop(f["q"], None)
        ex["#callback"] = callback
        a = An(prog, f, extra=ex)
        R.an(a)
        # reading of DNS answers is C24
        reads(R, a)


class Site:
    def __init__(self, I_, node):
        self.s = "%s:%s" % (I_.frame.fn["q"], node.get("l"))
        self.argn = None

    def where(self):
        return self.s


def callback(I_, st, f, vs, argn, K, node):
    if len(vs) == 2 and (unref(argn[0].get("t") or {}) or {}).get("k") == "ptr" and (unref(argn[1].get("t") or {}) or {}).get("int"):
        I_.log.append(("read", st, ("client function", vs[0], I_.read(st, vs[1]) if argn[1].get("vc") in ("l", "x") else vs[1]), Site(I_, node)))
    st = st.copy()
    for v, n in zip(vs, argn):
        if n.get("vc") in ("l", "x") and not (n.get("t") or {}).get("const"):
            l = v.a[0] if v.op == "alias" else v
            st.store[l] = T("txt", I_.fresh("cb", node, l))
    return [(st, I_.fresh("callback", node))]


def reads(R, a):
    done = set()
    for kind, st, d, c in a.I.log:
        if kind == "read":
            q, p, n = d
            one(R, a, st, c, "counted", q, p, n, "bytes", done)
        elif kind == "update":
            one(R, a, st, c, "counted", "digest update", d[1], d[2], "bytes", done)
        elif kind == "memcmp":
            for p in d[:2]:
                one(R, a, st, c, "counted", "memcmp", p, d[2], "bytes", done)
        elif kind == "crypto":
            for i, n, what in FIXED.get(d[0], ()):
                one(R, a, st, c, "fixed", d[0], d[i], I(n), what + " bytes", done)
            for i, j in COUNTED.get(d[0], ()):
                one(R, a, st, c, "counted", d[0], d[i], d[j], "bytes", done)
            if d[0] in HANDLE:
                handle(R, a, st, c, d[0], d[HANDLE[d[0]]], done)


def one(R, a, st, c, rule, q, p, n, what, done):
    w = "%s (in %s)" % (a.where, c.where())
    p = uncast(p)
    n = uncast(n)
    room = None
    if p.op == "ptr" and mentions(a.I.read(st, p.a[0]), lambda t: t.op == "dnsanswer"):
        return
    if p.op == "param":
        # the bytes were handed in by the caller of this function
        return
    if p is NULL:
        r = True if entails(a, st, n) else None
    else:
        room = readable(a, st, p)
        if rule == "fixed" and p.op == "ptr" and p.a[0].op == "data":
            # the terminator is no part of a key or signature
            room = sub(room, I(1))
        if room is None:
            r = None
        elif entails(a, st, sub(n, room)) and (entails(a, st, mulc(n, -1)) or n.op == "size"):
            r = True
        else:
            r = beyond(a, st, sub(n, room), opaque_in(n) or opaque_in(p))
    k = (w, rule, p, n, r)
    if k in done:
        return
    done.add(k)
    R.test(rule, r, w, "%s reads %s %s from %s, which is only known to hold %s" % (
        q, sh(n)[:120], what, sh(p)[:160], sh(room)[:120] if room is not None else "an unknown number"),
        sample="%s: %s %s of %s" % (q, sh(n)[:80], what, sh(p)[:80]), notes=st.notes)


def readable(a, st, p):
    """Bytes that can be read through p."""
    if p.op == "ptr" and p.a[0].op == "data":
        # the terminator of a string can be read too
        return add(sub(a.I.size(p.a[0].a[0]), p.a[1]), I(1))
    if p.op == "ptr" and p.a[0].op == "strlit":
        return sub(I(len(p.a[0].a[0]) + 1), p.a[1])
    if p.op == "ptr":
        v = a.I.read(st, p.a[0])
        if v.op == "cstr":
            return add(sub(a.I.size(v.a[0]), p.a[1]), I(1))
    if p.op == "addr" and p.a[0].op == "chr":
        s = a.I.read(st, p.a[0].a[0])
        return add(sub(a.I.size(s), p.a[0].a[1]), I(1))
    if p.op == "ptr" and p.a[0].op in ("init", "sym"):
        return None
    return region(a, st, p)


def handle(R, a, st, c, q, h, done):
    h = uncast(h)
    w = "%s (in %s)" % (a.where, c.where())
    if h is NULL:
        r = False
    elif h.op in ("addr", "ptr"):
        r = True
    else:
        f = st.facts.get(E.eqatom(h, NULL))
        r = f is False
        if not r:
            r = False if f is True or not (h.op == "sym") else None
    k = (w, q, h, r)
    if k in done:
        return
    done.add(k)
    R.test("handle", r, w, "%s is given %s, which may be missing" % (q, sh(h)[:200]), sample="%s: %s" % (q, sh(h)[:100]), notes=st.notes)
