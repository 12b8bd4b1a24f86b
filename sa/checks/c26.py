"""C26: failures surface as typed errors with the right result class."""
from .verifier import *
from .. import roots
from ..bounds import inrange, fields_of
from ..contracts import sig_parse, key_parse

GPK = "DKIM::Validatory::GetPublicKey"
WORDS = {"NONE": "none", "PASS": "pass", "FAIL": "fail", "POLICY": "policy", "NEUTRAL": "neutral", "TEMPERROR": "temperror", "PERMERROR": "permerror"}
MEMORY = ("std::bad_alloc", "std::length_error")


def check(prog, R):
    R.say("type", "every exception that leaves a library function is a permanent or temporary error of the library")
    R.say("temporary", "a temporary error leaves only the key lookup")
    R.say("fail", "an error of class fail leaves a function only when the body hash or the signature was found not to match; "
                  "every other permanent error has class permerror and every temporary one temperror")
    R.say("position", "every string position handed to a library call that raises std::out_of_range lies within the string")
    R.say("word", "each result class has its own word, the same in both error types")
    R.assumes("memory exhaustion is not considered (std::bad_alloc)", "streams handed in by the client do not have exceptions enabled",
              "function objects handed in by the client are not empty")
    words(prog, R)
    invariant(prog, R)
    for f in roots.library(prog):
        ex = {}
        if f["q"] != "DKIM::Signature::Parse":
            ex["DKIM::Signature::Parse"] = sig_parse
        if f["q"] != "DKIM::PublicKey::Parse":
            ex["DKIM::PublicKey::Parse"] = key_parse
        if f["q"] != "DKIM::Util::Resolver::GetTXT":
            ex["DKIM::Util::Resolver::GetTXT"] = txt
        ex["#callback"] = callback
        a = An(prog, f, extra=ex)
        R.an(a)
        leaves(prog, R, a)
        positions(R, a)


def txt(I_, st, c):
    st = st.copy()
    t = I_.fresh("txt", c.node)
    E.TR.setdefault(t, IS.rng(0, 1))
    if len(c.args) > 1 and c.isloc(1):
        st.store[c.args[1]] = T("txt", t)
    return [(st, t)]


def callback(I_, st, f, vs, argn, K, node):
    """A function of the client: may change what it gets by reference."""
    st = st.copy()
    for v, n in zip(vs, argn):
        if n.get("vc") in ("l", "x") and not (n.get("t") or {}).get("const"):
            l = v.a[0] if v.op == "alias" else v
            st.store[l] = T("txt", I_.fresh("cb", node, l))
    t = I_.fresh("callback", node)
    return [(st, t)]


def leaves(prog, R, a):
    if not a.throws:
        R.ok("type", a.where, "raises nothing")
    for s, e in a.throws:
        w = "%s (thrown at %s)" % (a.where, e.where())
        if e.ty in MEMORY:
            continue
        k, res = a.err(s, e)
        if not R.test("type", k in ("permanent", "temporary"), w, "raises %s" % e.ty, sample=k, notes=s.notes):
            continue
        if k == "temporary":
            R.test("temporary", a.fn["q"] == GPK, w, "a temporary error leaves %s" % a.fn["q"], sample=e.where(), notes=s.notes)
        if a.fn["q"].startswith(PERM) or a.fn["q"].startswith(TEMP):
            continue
        if res == "fail":
            R.test("fail", mismatch(prog, a, s), w, "class fail although no comparison is known to have failed", sample=e.where(), notes=s.notes)
        else:
            want = "permerror" if k == "permanent" else "temperror"
            R.test("fail", res == want, w, "a %s error of class %s" % (k, res), sample=(k, res), notes=s.notes)


def mismatch(prog, a, s):
    """Is a mismatch of the body hash or of the signature known in s?"""
    if any(t not in accepted(s) for t in crypto(s)):
        return True

    def about(x):
        # a digest, or the size of the bytes compared or verified
        return x.op in ("digest", "mdlen")
    for t, v in s.facts.items():
        if not v and t.op in ("eq", "eq0") and mentions(t, about):
            return True
    for t, d in s.dom.items():
        if t.op == "cmpz" and 0 not in d and mentions(t, about):
            return True
    ps = a.pidx(lambda t: t.get("n") == "DKIM::Signature")
    if ps:
        sig = a.ploc(ps[0])
        sizes = {SIG + "GetBodyHash": (20, 32), SIG + "GetSignatureData": (64,)}
        for q, ns in sizes.items():
            v = a.get(s, q, sig)
            if v is None:
                continue
            d = a.I.dom(s, a.I.size(v))
            da = a.get(s, SIG + "GetDigestAlgorithm", sig)
            if q.endswith("BodyHash"):
                alg = a.I.dom(s, da) if da is not None else None
                for nm, n in (("DKIM_A_SHA1", 20), ("DKIM_A_SHA256", 32)):
                    if alg == IS.of([retenum(prog, SIG + "GetDigestAlgorithm", nm)]) and n not in d and a.fn["q"].split("::")[-1] != "CheckSignature":
                        return True
            elif 64 not in d and a.I.dom(s, a.get(s, SIG + "GetSignatureAlgorithm", sig)) == \
                    IS.of([retenum(prog, SIG + "GetSignatureAlgorithm", "DKIM_SA_ED25519")]):
                return True
    return False


def positions(R, a):
    seen = {}
    for kind, st, d, c in a.I.log:
        if kind not in ("pos", "mapat"):
            continue
        w = "%s (in %s)" % (a.where, c.where())
        if kind == "mapat":
            R.unsure("position", w, "map::at")
            continue
        q, s, p = d
        k = (c.node["sid"], s, p)
        r = inrange(a, st, s, p)
        if r is True and k in seen:
            continue
        seen[k] = 1
        R.test("position", r, w, "%s gets position %s of %s" % (q.split("::")[-1], sh(p)[:200], sh(s)[:200]),
               sample="%s: %s of %s" % (q.split("::")[-1], sh(p)[:80], sh(s)[:80]), notes=st.notes)


def words(prog, R):
    for ty in (PERM, TEMP):
        fs = prog.fn(ty + "::getAuthenticationResult")
        if not fs:
            raise ir.AnalysisError("anchor %s::getAuthenticationResult is not defined" % ty)
        cs = [f for f in prog.fn(ty + "::" + ty.split("::")[-1]) if len(f["params"]) == 2 and unref(f["params"][1]["t"]).get("k") == "enum"]
        if not cs:
            R.unsure("word", ty, "no constructor taking a message and a class")
            continue
        seen = {}
        for n, x in unref(cs[0]["params"][1]["t"])["consts"]:
            nm = n.split("::")[-1].replace("AR_", "")
            a = An(prog, cs[0], args={cs[0]["params"][1]["d"]["n"]: I(x)})
            R.an(a)
            for s, v in a.rets:
                r = a.get(s, ty + "::getAuthenticationResult", a.this)
                if r is not None and r.op == "ptr" and r.a[0].op in ("data", "cdata", "strlit"):
                    r = r.a[0].a[0]
                w = r.a[0] if r is not None and r.op == "str" else None
                R.test("word", (w == WORDS.get(nm, w) and w is not None) if r is not None else None, "%s:%s %s" % (fs[0]["file"], fs[0]["line"], fs[0]["q"]),
                       "class %s is reported as %s" % (n, sh(r) if r is not None else None), sample=(nm, w), notes=s.notes)
                if w in seen and seen[w] != nm:
                    R.bad("word", fs[0]["q"], "classes %s and %s share the word %s" % (nm, seen[w], w))
                seen[w] = nm


def invariant(prog, R):
    """The value offset of a header lies within its text: kept by every function of the class, and the fields are private."""
    h, o = fields_of(prog)
    if h is None:
        R.unsure("position", "DKIM::Header", "the fields behind GetHeader and GetValueOffset were not identified")
        return
    rec = prog.recs.get("DKIM::Header")
    pub = [f["n"] for f in rec["fields"] if f["n"] in (h, o) and f["access"] == "public"]
    R.test("position", not pub, "%s:%s DKIM::Header" % (rec["file"], rec["line"]), "%s can be changed by anyone" % pub, sample="private")
    for f in roots.library(prog):
        if f.get("cls") != "DKIM::Header" or f.get("cm") or f.get("dtor"):
            continue
        a = An(prog, f)
        R.an(a)
        hl, ol = fld(a.this, h), fld(a.this, o)
        ft = {x["n"]: x["t"] for x in rec["fields"]}
        for s, v in a.rets:
            t, p = a.rd(s, hl, ft[h]), uncast(a.rd(s, ol, ft[o]))
            if p is T("init", ol):
                # the text may only have grown
                ok = t is T("init", hl) or (t.op == "cat" and t.a[0] is T("init", hl))
            else:
                ok = inrange(a, s, t, p)
            R.test("position", ok, a.where, "leaves value offset %s for the text %s" % (sh(p), sh(t)), sample=(sh(p), sh(t)), notes=s.notes)
