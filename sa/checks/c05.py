"""C05: only understood values of v, a, c and q, each selecting its meaning."""
from .sigparse import *

ALGS = {"rsa-sha256": ("DKIM_SA_RSA", "DKIM_A_SHA256"), "rsa-sha1": ("DKIM_SA_RSA", "DKIM_A_SHA1"),
        "ed25519-sha256": ("DKIM_SA_ED25519", "DKIM_A_SHA256")}
MODES = {"simple": "DKIM_C_SIMPLE", "relaxed": "DKIM_C_RELAXED"}


def has_slash(s, v):
    """Does the string contain a slash? True, False or unknown."""
    p = pinned(s, v)
    if p is not None:
        return "/" in p
    for x in (T("has", v, T("str", "/")), T("hasin", v, IS.of([47]))):
        if x in s.facts:
            return s.facts[x]
    for x, b in s.facts.items():
        if x.op in ("has", "hasin") and x.a[0] is v and not (isinstance(x.a[1], IS) and x.a[1] != IS.of([47])):
            y = x.a[1]
            if y in (47, frozenset([47])) or isinstance(y, T) and (y is S("/") or y is T("chs", I(47)) or y is I(47)):
                return b
    return None


def check(prog, R):
    R.say("v", "on every normal return for DKIM the value of v is known to be exactly \"1\"")
    R.say("a", "on every normal return a is known to be one of the three algorithm names and the two getters report what it names")
    R.say("c", "on every normal return c is absent and both modes are simple, or its header part (before the first slash) and body "
               "part (after it, simple without a slash) are known to be simple or relaxed and the getters report what they name")
    R.say("q", "on every normal return q is absent or known to be \"dns/txt\", and the getter reports dns/txt")
    R.say("error", "every error Signature::Parse raises is a permanent error")
    a = analysis(prog, R)

    def reports(rule, s, q, want, val):
        g = a.get(s, SIG + q, a.this)
        c = same(a, s, g, I(retenum(prog, SIG + q, want))) if g is not None else None
        if c is None and g is not None and g.op == "init":
            c = False
        R.test(rule, c, "%s: %s" % (a.where, q), "%s reports %s for %r" % (q, sh(g) if g is not None else "?", val),
               sample="%r -> %s" % (val, want), notes=s.notes)

    def pin(rule, s, val, ok, what):
        """The constant val is known to be; reports the obligation."""
        p = pinned(s, val)
        if p is not None:
            R.test(rule, p in ok, a.where, "a path accepts %s %r" % (what, p), sample=p, notes=s.notes)
            return p if p in ok else None
        if pinned(s, T("lower", val)) is not None:
            R.test(rule, False, a.where, "a path accepts %s in any letter case" % what, notes=s.notes)
        elif mentions(val, lambda x: x.op in ("phi", "sym")) or looked_up(s, val):
            R.unsure(rule, a.where, "%s is %s, compared in a way the analysis does not follow" % (what, sh(val)[:200]))
        else:
            R.test(rule, False, a.where, "a path accepts %s without pinning it to one of %s (known: %s)" %
                   (what, sorted(ok), [sh(x)[:80] for x, b in s.facts.items() if mentions(x, lambda y: y is val)][:6]), notes=s.notes)
        return None

    for s, v in a.rets:
        arc = is_arc(a, s)
        if arc is False:
            p, val, _ = tag(a, s, "v")
            if p:
                pin("v", s, val, ("1",), "version")
            elif p is False:
                R.test("v", False, a.where, "a path accepts a DKIM signature without version", notes=s.notes)
            else:
                unknown(R, "v", a, s, "v")
        p, val, _ = tag(a, s, "a")
        if p is None:
            unknown(R, "a", a, s, "a")
        if p:
            n = pin("a", s, val, ALGS, "algorithm")
            if n:
                reports("a", s, "GetSignatureAlgorithm", ALGS[n][0], n)
                reports("a", s, "GetDigestAlgorithm", ALGS[n][1], n)
        p, val, _ = tag(a, s, "c")
        if p is False:
            reports("c", s, "GetCanonModeHeader", "DKIM_C_SIMPLE", "(no c)")
            reports("c", s, "GetCanonModeBody", "DKIM_C_SIMPLE", "(no c)")
        elif p is None:
            unknown(R, "c", a, s, "c")
        else:
            whole = pinned(s, val)
            if whole is not None:
                hp, _, bp = whole.partition("/")
                if "/" not in whole:
                    bp = "simple"
                R.test("c", hp in MODES and bp in MODES, a.where, "a path accepts c=%r" % whole, sample=whole, notes=s.notes)
            else:
                sl = has_slash(s, val)
                if sl is None:
                    R.unsure("c", a.where, "whether c has a slash is not known on a path")
                    continue
                if sl:
                    fs = set(x for t in list(s.facts) + list(s.dom) + list(s.sdom) for x in subterms(t)
                             if x.op in ("find", "findset") and x.a[0] is val)
                    hv = bv = None
                    for t in list(s.facts) + list(s.dom) + list(s.sdom):
                        for x in subterms(t):
                            if x.op == "sub" and x.a[0] is val:
                                if x.a[1] is I(0) and x.a[2] in fs:
                                    hv = x
                                elif x.a[2] is END_ and any(x.a[1] is add(y, I(1)) for y in fs):
                                    bv = x
                    if hv is None or bv is None:
                        R.test("c", None if hv is None and bv is None and looked_up(s, val) else False, a.where,
                               "a path accepts c with a slash without looking at its %s part" % ("header" if hv is None else "body"),
                               notes=s.notes)
                        continue
                    hp = pin("c", s, hv, MODES, "header canonicalization")
                    bp = pin("c", s, bv, MODES, "body canonicalization")
                else:
                    hp, bp = pin("c", s, val, MODES, "header canonicalization"), "simple"
            if hp in MODES:
                reports("c", s, "GetCanonModeHeader", MODES[hp], hp)
            if bp in MODES:
                reports("c", s, "GetCanonModeBody", MODES[bp], bp)
        p, val, _ = tag(a, s, "q")
        if p:
            pin("q", s, val, ("dns/txt",), "query method")
        elif p is None:
            unknown(R, "q", a, s, "q")
        reports("q", s, "GetQueryType", "DKIM_Q_DNSTXT", "dns/txt")
    for s, e in a.throws:
        R.test("error", e.ty == PERM, "%s thrown at %s" % (a.where, e.where()), "an error of type %s" % e.ty, notes=s.notes)
