"""C22: writes into fixed-size buffers are bounded by the buffer."""
from ..q import *
from .. import ir, roots
from ..bounds import inrange
from ..linear import entails, norm
from ..contracts import sig_parse, key_parse
from .c26 import txt, callback

UNBOUNDED = ("sprintf", "vsprintf", "strcpy", "strcat", "gets", "stpcpy", "scanf", "sscanf", "fscanf", "wcscpy", "wcscat")
MDMAX = 64
RAW = ("v", "fld", "heap", "tmp", "at", "el", "g", "exc")


def check(prog, R):
    R.say("fill", "a call that fills a buffer is given a length no larger than what is left of that buffer")
    R.say("output", "a digest, signature or key written by a primitive goes to a buffer at least as large as the primitive can write")
    R.say("index", "a subscripted element lies within its array, and a subscripted character within its string or at its end")
    R.say("unbounded", "no library function calls a routine that writes a string of unknown length")
    R.assumes("OpenSSL and libsodium write no more than documented: the digest size, RSA_size(key), 64-byte signatures and secret keys, 32-byte public keys")
    extra = {"DKIM::Signature::Parse": sig_parse, "DKIM::PublicKey::Parse": key_parse, "DKIM::Util::Resolver::GetTXT": txt}
    for f in roots.library(prog):
        ex = {k: v for k, v in extra.items() if k != f["q"]}
        ex["#callback"] = callback
        a = An(prog, f, extra=ex)
        R.an(a)
        writes(R, a)
        if f["q"] != "DKIM::Util::Resolver::GetTXT":
            indexes(R, a)
    unbounded(prog, R)


# ------------------------------------------------------------------ capacities
def pointee(n):
    """Declared type of the object an argument expression points to."""
    while n is not None:
        t = unref(n.get("t") or {}) or {}
        if t.get("k") == "ptr" and (t.get("to") or {}).get("size"):
            return t["to"]
        n = n.get("x") if n.get("e") in ("cast", "icast", "paren") else None
    return None


def region(a, st, p, node=None):
    """Size in bytes of the region p points to, minus the offset; None when not known."""
    p = uncast(p)
    if p.op == "addr":
        t = a.I.loctype.get(p.a[0]) or fieldtype(a, p.a[0]) or pointee(node)
        t = unref(t) if t else None
        return I(t["size"]) if t and t.get("size") else None
    if p.op != "ptr":
        return None
    r, off = p.a
    if r.op == "data":
        return sub(a.I.size(r.a[0]), off)
    n = st.store.get(fld(r, "#cnt"))
    if n is not None:
        return sub(n, off)
    if r in a.I.heapsize:
        cnt, ty = a.I.heapsize[r]
        if cnt is None:
            return None
        return mulc(sub(cnt, off), ty.get("size") or (ty.get("bits") or 8) // 8)
    t = a.I.loctype.get(r) or fieldtype(a, r)
    t = unref(t) if t else None
    if not t:
        return None
    if t.get("k") == "arr":
        el = unref(t["to"])
        return mulc(sub(I(t["len"]), off), el.get("size") or (el.get("bits") or 8) // 8)
    if t.get("n") == "std::array" and t.get("size"):
        return sub(I(t["size"]), off)
    return None


def fieldtype(a, l):
    if l.op != "fld":
        return None
    b = l.a[0]
    t = unref(a.I.loctype.get(b) or {}) or {}
    n = t.get("n") if t else None
    if n is None and b is a.this:
        n = a.fn.get("cls")
    r = a.prog.recs.get(n) if n else None
    for f in (r or {}).get("fields", ()):
        if f["n"] == l.a[1]:
            return f["t"]
    return None


def fits(a, st, p, n, node=None):
    """Is n <= capacity of p?  True / False / None."""
    c = region(a, st, p, node)
    if c is None:
        return None
    n = widecast(n)
    ok = entails(a, st, sub(n, c)) and entails(a, st, mulc(c, -1))
    if ok:
        return True
    return beyond(a, st, sub(n, c), opaque_in(n) or opaque_in(p))


def writes(R, a):
    done = set()
    some = False
    for kind, st, d, c in a.I.log:
        if kind == "fill":
            q, p, n = d
            rule = "fill"
        elif kind == "final":
            p, dg = d[1], d[2]
            dm = a.I.dom(st, T("size", dg))
            n = I(dm.hi()) if dm and 0 <= dm.hi() <= MDMAX else I(MDMAX)
            q, rule = "digest", "output"
        elif kind == "crypto" and d[0] in OUT:
            for i, need in OUT[d[0]]:
                one(R, a, st, c, "output", d[0], d[i], need(d), done)
            continue
        else:
            continue
        one(R, a, st, c, rule, q, p, n, done)
    return some


def rsasize(d):
    t = T("rsasize", d[6])
    E.TR.setdefault(t, IS.rng(0, 1 << 20))
    return t


OUT = {
    "RSA_sign": ((4, rsasize),),
    "crypto_sign_detached": ((1, lambda d: I(64)),),
    "crypto_sign_ed25519_detached": ((1, lambda d: I(64)),),
    "crypto_sign_seed_keypair": ((1, lambda d: I(32)), (2, lambda d: I(64))),
    "crypto_sign_ed25519_seed_keypair": ((1, lambda d: I(32)), (2, lambda d: I(64))),
}


def one(R, a, st, c, rule, q, p, n, done):
    w = "%s (in %s)" % (a.where, c.where())
    if p is NULL and rule == "fill":
        # nothing can be written through a null pointer of zero length
        r = True if entails(a, st, n) else None
    else:
        r = fits(a, st, p, n, c.argn[0] if rule == "fill" and c.argn else None)
    k = (c.where(), rule, p, n, r)
    if k in done:
        return
    done.add(k)
    R.test(rule, r, w, "%s may write %s bytes into %s, which has %s" % (q, sh(n)[:120], sh(p)[:120], sh(region(a, st, p))[:120] if region(a, st, p) is not None else "an unknown number"),
           sample="%s: %s bytes into %s" % (q, sh(n)[:80], sh(p)[:80]), notes=st.notes)


FAR = 1 << 40


def beyond(a, st, x, opaque):
    """x <= 0 is not entailed: False when x is bounded by what is known (and the bound is not enough), None when nothing relates it."""
    if not opaque or entails(a, st, sub(x, I(FAR))):
        return False
    return None


# ------------------------------------------------------------------ subscripts
def indexes(R, a):
    done = set()
    for kind, st, d, c in a.I.log:
        if kind == "aidx":
            b, i, p, node = d
            r = inarray(a, st, uncast(p))
            w = "%s (line %s)" % (a.where, node.get("ln") or node.get("line") or node.get("sid"))
            what = "element %s of %s" % (sh(i)[:150], sh(b)[:120])
        elif kind == "idx":
            q, s, i = d
            r = inrange(a, st, s, i)
            if r is not True:
                r = beyond(a, st, sub(i, a.I.size(s)), r is None or opaque_in(s) or opaque_in(i))
            w = "%s (in %s)" % (a.where, c.where())
            what = "character %s of %s" % (sh(i)[:150], sh(s)[:120])
        else:
            continue
        k = (w, d[0] if kind == "aidx" else d[1], i, r)
        if k in done:
            continue
        done.add(k)
        R.test("index", r, w, what + " may lie outside", sample=what, notes=st.notes)


def inarray(a, st, p):
    if p.op == "it":
        return None
    c = None
    if p.op == "ptr":
        r, off = p.a
        if r.op == "data":
            x = inrange(a, st, r.a[0], off)
            n = a.I.size(r.a[0])
            x = x or (entails(a, st, sub(off, n)) and entails(a, st, mulc(off, -1))) or x
            return True if x else beyond(a, st, sub(off, n), x is None or opaque_in(r) or opaque_in(off))
        if r.op == "strlit":
            c = I(len(r.a[0]) + 1)
        else:
            n = st.store.get(fld(r, "#cnt"))
            t = a.I.loctype.get(r) or fieldtype(a, r)
            t = unref(t) if t else None
            if n is not None:
                c = n
            elif r in a.I.heapsize:
                c = a.I.heapsize[r][0]
            elif t and t.get("k") == "arr":
                c = I(t["len"])
            elif r.op == "g":
                g = a.prog.globs.get(r.a[0])
                t = unref(g["t"]) if g else None
                c = I(t["len"]) if t and t.get("k") == "arr" else None
        if c is None:
            return None
        off = widecast(off)
        if entails(a, st, add(sub(off, c), I(1))) and entails(a, st, mulc(off, -1)):
            return True
        return beyond(a, st, sub(off, c), opaque_in(off))
    return None


def unbounded(prog, R):
    n = 0
    for f in prog.fns.values():
        if f.get("body") is None or not f["file"].startswith("src/"):
            continue
        n += 1
        def see(x, f=f):
            if x.get("e") in ("call", "mcall") and (x.get("fn") or {}).get("q", "").split("::")[-1] in UNBOUNDED:
                R.bad("unbounded", "%s in %s" % (f["q"], f["file"]), "%s calls %s" % (f["q"], x["fn"]["q"]))
        ir.walk(f["body"], see)
    R.ok("unbounded", "src/", "%d functions" % n)
