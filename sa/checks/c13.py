"""C13: signer and verifier agree on every algorithm and mode table."""
from .signer import *
from . import c14, c02, c05
from . import verifier as V
from .sigparse import analysis, tag, pinned, SIG
from ..contracts import sig_parse

NID = {64: "sha1", 672: "sha256"}


def check(prog, R):
    R.say("algorithm names", "the name the signer writes for a key type and hash is the one Signature::Parse reads back as that pair; a "
                             "name for a pair the parser does not know is not one it accepts")
    R.say("mode names", "the name the signer writes for a canonicalization mode is the one Signature::Parse reads back as that mode")
    R.say("digests", "for each hash algorithm the signer and the verifier use the same digest function for body and header")
    R.say("digest id", "the digest identifier handed to RSA on either side is that of the digest function used")
    R.say("modes", "on either side header text is canonicalized with the header mode and the body with the body mode, limit switch and "
                   "length of the signature at hand")
    parsed(prog, R)
    use = {}         # hash enumerator -> {(side, what): function}
    signer_side(prog, R, use)
    verifier_side(prog, R, use)
    for h, d in sorted(use.items()):
        vals = set(d.values())
        R.test("digests", len(vals) == 1 if None not in vals else None if len(vals) == 2 else False, "hash %s" % h, "not one digest function: %s" % sorted(
            "%s %s: %s" % (k[0], k[1], v) for k, v in d.items()), sample=sorted("%s %s: %s" % (k[0], k[1], v) for k, v in d.items()))
        for side in (("signer", "body"), ("signer", "header"), ("verifier", "body"), ("verifier", "header")):
            if side not in d:
                R.unsure("digests", "hash %s" % h, "the %s's %s digest was not seen" % side)


def parsed(prog, R):
    a = analysis(prog, R)
    algs, modes = {}, {}
    for s, v in a.rets:
        p, val, _ = tag(a, s, "a")
        n = pinned(s, val) if p else None
        if n is not None:
            g = [a.get(s, SIG + q, a.this) for q in ("GetSignatureAlgorithm", "GetDigestAlgorithm")]
            c = tuple(a.I.const(s, x) if x is not None else None for x in g)
            algs.setdefault(n, set()).add(c)
        p, val, _ = tag(a, s, "c")
        if not p:
            continue
        w = pinned(s, val)
        g = [a.I.const(s, x) if x is not None else None for x in (a.get(s, SIG + q, a.this) for q in ("GetCanonModeHeader", "GetCanonModeBody"))]
        if w is not None:
            hp, _, bp = w.partition("/")
            modes.setdefault(("header", hp), set()).add(g[0])
            if "/" in w:
                modes.setdefault(("body", bp), set()).add(g[1])
            continue
        sl = c05.has_slash(s, val)
        for t in list(s.facts) + list(s.dom) + list(s.sdom):
            for x in subterms(t):
                if x.op == "sub" and x.a[0] is val and pinned(s, x) is not None and sl:
                    k = "header" if x.a[1] is I(0) else "body" if x.a[2] is END_ else None
                    if k:
                        modes.setdefault((k, pinned(s, x)), set()).add(g[0 if k == "header" else 1])
    if not algs:
        R.unsure("algorithm names", a.where, "the names the parser accepts are not known")
    inv = {}
    for n, cs in algs.items():
        for c in cs:
            inv.setdefault(c, set()).add(n)
    for pair, n in sorted(c14.alg_names(prog).items()):
        w = "DKIM::Util::Algorithm2String for %s" % (pair,)
        if algs and None not in [x for cs in algs.values() for c in cs for x in c]:
            if n is None:
                R.unsure("algorithm names", w, "the name is not one constant")
            else:
                R.test("algorithm names", (n in inv[pair] if pair in inv else True) and algs.get(n, {pair}) == {pair}, w,
                       "the signer writes %r; the parser reads %s" % (n, {k: sorted(v) for k, v in algs.items()}), sample=(n, pair))
        elif algs:
            R.unsure("algorithm names", w, "what the parser reads is not constant")
    if not modes:
        R.unsure("mode names", a.where, "the names the parser accepts are not known")
    for m, n in sorted(c14.mode_names(prog).items()):
        for k in ("header", "body"):
            w = "DKIM::Util::CanonMode2String for %s" % m
            got = modes.get((k, n))
            if n is None:
                R.unsure("mode names", w, "the name is not one constant")
            elif modes:
                R.test("mode names", None if got and None in got else got == {m}, w, "the signer writes %r, which the parser reads as %s mode %s" %
                       (n, k, sorted(got) if got else "nothing"), sample=(k, n, m))


def mdname(t):
    return str(t.a[0]).strip("'") if t.op == "mdalg" else None


def note(R, use, h, key, md, where):
    d = use.setdefault(h, {})
    if key in d and d[key] != md and None not in (md, d[key]):
        R.bad("digests", where, "%s %s digest is %s and %s" % (key[0], key[1], d[key], md))
    d[key] = md


def hashes(prog):
    return {x: n for n, x in enums(prog, OPT + "GetDigestAlgorithm").items()}


def chdrs(a, t, seen=None):
    """Canonicalized header texts a digest is made of: [chdr]."""
    seen = set() if seen is None else seen
    out = []
    for x in subterms(t):
        if x in seen:
            continue
        if x.op == "chdr":
            seen.add(x)
            out.append(x)
        elif x.op == "star":
            seen.add(x)
            L = a.I.loops.get(x.a[0])
            for d in (L.stars.get(x.a[1]) or []) if L is not None else []:
                out += chdrs(a, d, seen)
    return out


def bodykey(R, rule, where, dg, exp, notes):
    ps = parts(dg.a[1])
    key = ps[0].a[1:] if ps and ps[0].op == "cbody" else None
    if key is None or not all(p.op == "cbody" and p.a[1:] == key for p in ps):
        R.test(rule, None if opaque_in(dg) else False, where, "the body digest covers %s" % sh(dg.a[1])[:120], notes=notes)
        return
    got = (key[1], key[3], key[4])
    R.test(rule, got == exp, where, "the body is canonicalized with %s, the signature says %s" % ([sh(x) for x in got], [sh(x) for x in exp]),
           sample=[sh(x) for x in got], notes=notes)


def signer_side(prog, R, use):
    for n, a in runs(prog, R):
        hm, bm, lim, size = [option(a, x) for x in ("GetCanonModeHeader", "GetCanonModeBody", "GetBodySignLength", "GetBodyLength")]
        memo = set()
        for t in turns(a, R, "modes"):
            for p in succeeded(t):
                dg = digest_of(p)
                if dg in memo:
                    continue
                memo.add(dg)
                if dg.op != "digest":
                    R.test("digests", None if opaque_in(dg) else False, t.where, "what is signed is %s" % sh(dg)[:100], notes=t.st.notes)
                    continue
                md = mdname(dg.a[0])
                note(R, use, n, ("signer", "header"), md, t.where)
                if p.op == "rsasign":
                    k = t.a.I.const(t.st, p.a[0]) if isinstance(p.a[0], T) else None
                    R.test("digest id", None if k is None or md is None else NID.get(k) == md, t.where, "RSA is told %s, the digest is %s" % (k, md), sample=(k, md),
                           notes=t.st.notes)
                hs = chdrs(a, dg)
                for c in hs:
                    R.test("modes", True if c.a[0] is hm or same(a, t.st, c.a[0], hm) else None if opaque_in(c.a[0]) else False, t.where,
                           "header text is canonicalized with %s" % sh(c.a[0])[:100], sample=sh(c.a[0]), notes=t.st.notes)
            bh = [v for k, v in tags(t) or [] if k == "bh"]
            for x in bh[:1]:
                if len(x) == 1 and x[0].op == "b64enc" and x[0].a[0].op == "digest":
                    dg = x[0].a[0]
                    if (dg, "b") not in memo:
                        memo.add((dg, "b"))
                        note(R, use, n, ("signer", "body"), mdname(dg.a[0]), t.where)
                        bodykey(R, "modes", t.where, dg, (bm, lim, size), t.st.notes)


def verifier_side(prog, R, use):
    names = hashes(prog)
    for a in V.analyses(prog, R):
        for s, v in a.rets:
            da = a.I.dom(s, a.get(s, SIG + "GetDigestAlgorithm", a.sig))
            hm = a.get(s, SIG + "GetCanonModeHeader", a.sig)
            for t in V.accepted(s):
                dg = t.a[1]
                if dg.op != "digest":
                    continue
                md = mdname(dg.a[0])
                vals = da.values() if da.size() < 8 else []
                if not vals:
                    R.unsure("digests", a.where, "the hash algorithm is not known where a signature is accepted")
                for x in vals:
                    note(R, use, names.get(x, str(x)), ("verifier", "header"), md, a.where)
                if t.op == "rsaverify":
                    k = a.I.const(s, t.a[0]) if isinstance(t.a[0], T) else None
                    R.test("digest id", None if k is None or md is None else NID.get(k) == md, a.where, "RSA is told %s, the digest is %s" % (k, md), sample=(k, md), notes=s.notes)
                for c in chdrs(a, dg):
                    R.test("modes", True if c.a[0] is hm or same(a, s, c.a[0], hm) else None if opaque_in(c.a[0]) else False, a.where,
                           "header text is canonicalized with %s" % sh(c.a[0])[:100], sample=sh(c.a[0]), notes=s.notes)
    for f in prog.fn(c02.GET):
        a = An(prog, f, extra={"DKIM::Signature::Parse": sig_parse})
        R.an(a)
        sig = a.ploc(a.pidx(lambda t: t.get("n") == "DKIM::Signature")[0])
        for s, v in a.rets:
            bh = a.get(s, SIG + "GetBodyHash", sig)
            da = a.I.dom(s, a.get(s, SIG + "GetDigestAlgorithm", sig))
            cands = [x for t in list(s.facts) + list(s.dom) for x in subterms(t) if x.op == "digest"]
            for dg in dict.fromkeys(cands):
                if not bytes_equal(a, s, bh, dg):
                    continue
                for x in (da.values() if da.size() < 8 else []):
                    note(R, use, names.get(x, str(x)), ("verifier", "body"), mdname(dg.a[0]), a.where)
                bodykey(R, "modes", a.where, dg, tuple(a.get(s, SIG + q, sig) for q in ("GetCanonModeBody", "GetBodySizeLimit", "GetBodySize")), s.notes)
