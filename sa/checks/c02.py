"""C02: the body hash must match in full before a signature is handed out."""
from .verifier import *
from .. import models as M
from ..contracts import sig_parse

GET = "DKIM::Validatory::GetSignature"


def check(prog, R):
    R.say("parsed", "every normal return of GetSignature hands out the signature parsed from the header it was given")
    R.say("compared", "every normal return of GetSignature is preceded by a successful comparison, in length and every octet, of the "
          "parsed bh= value with the body digest")
    R.say("digest", "that digest is the digest with the signature's hash algorithm of the message body canonicalized with the "
          "signature's body mode, length limit switch and length, from the body offset of the message")
    R.say("mismatch", "the path on which the comparison fails ends in a permanent error of class fail")
    R.assumes("EVP_Digest* calls succeed", "CanonicalizationBody delivers the canonical body through its callback (C30, C31)")
    fs = prog.fn(GET)
    if not fs:
        raise ir.AnalysisError("anchor %s is not defined" % GET)
    sha = {"sha1": retenum(prog, SIG + "GetDigestAlgorithm", "DKIM_A_SHA1"),
           "sha256": retenum(prog, SIG + "GetDigestAlgorithm", "DKIM_A_SHA256")}
    for f in fs:
        a = An(prog, f, extra={"DKIM::Signature::Parse": sig_parse})
        R.an(a)
        sig = a.ploc(a.pidx(lambda t: t.get("n") == "DKIM::Signature")[0])
        R.test("compared", len(a.rets) > 0, a.where, "no path returns normally")
        for s, v in a.rets:
            bh = a.get(s, SIG + "GetBodyHash", sig)
            dom = a.get(s, SIG + "GetDomain", sig)
            ok = all(x is not None and x.op == "fldof" and x.a[0].op == "parsed" for x in (bh, dom)) and bh.a[0] is dom.a[0]
            hp = a.pidx(lambda t: t.get("n") != "DKIM::Signature")[0]
            ok = ok and mentions(bh.a[0], lambda x: x is a.ploc(hp))
            if not R.test("parsed", ok, a.where, "the signature handed out holds bh %r, domain %r" % (bh, dom), sample=bh, notes=s.notes):
                continue
            # which digests was it compared with?
            cands = [x for t in list(s.facts) + list(s.dom) for x in subterms(t) if x.op == "digest"]
            eqs = [d for d in dict.fromkeys(cands) if bytes_equal(a, s, bh, d)]
            if not eqs:
                loopy = any(t.op in ("digest",) for L in a.I.loops.values() for st in L.altst for u in list(st.facts) + list(st.dom)
                            for t in subterms(u))
                if loopy:
                    R.unsure("compared", a.where, "the body hash is compared octet by octet in a loop")
                else:
                    R.test("compared", False, a.where, "a path returns without the parsed body hash having been found equal to a body "
                           "digest in length and every octet; digests looked at: %r" % list(dict.fromkeys(cands))[:2], notes=s.notes)
                continue
            R.ok("compared", a.where, eqs[0])
            dg = eqs[0]
            alg = a.I.dom(s, a.get(s, SIG + "GetDigestAlgorithm", sig))
            want = IS.of([sha.get(dg.a[0].a[0] if dg.a[0].op == "mdalg" else None, -1)])
            R.test("digest", alg == want, a.where, "digest %r used for algorithm values %r" % (dg.a[0], alg), sample=(repr(dg.a[0]), repr(alg)),
                   notes=s.notes)
            ps = parts(dg.a[1])
            key = ps[0].a[1:] if ps and ps[0].op == "cbody" else None
            full = key and len(ps) == 2 and all(p.op == "cbody" and p.a[0] is I(i) and p.a[1:] == key for i, p in enumerate(ps))
            if full is None and not any(x.op in ("star", "sym", "phi", "ent", "bytes") for x in subterms(dg.a[1])):
                full = False
            if not R.test("digest", full, a.where, "the digested text is %r, not one whole canonical body" % (dg.a[1],), notes=s.notes):
                continue
            fv = file_source(a, s)
            exp = (fv, a.get(s, SIG + "GetCanonModeBody", sig), body_offset(a, s, prog),
                   a.get(s, SIG + "GetBodySizeLimit", sig), a.get(s, SIG + "GetBodySize", sig))
            for what, x, y in zip(("input stream", "body mode", "body offset", "length limit switch", "length"), key, exp):
                if y is None:
                    R.unsure("digest", a.where, "%s of the message not identified" % what)
                    continue
                eq = x is y or same(a, s, x, y) is True
                R.test("digest", eq, a.where, "%s used is %r, expected %r" % (what, x, y), sample=(what, repr(x)), notes=s.notes)
        n = 0
        for s, e in a.throws:
            if any(v and t.op == "badsig" for t, v in s.facts.items()):
                continue
            n += 1
            R.test("mismatch", a.err(s, e) == ("permanent", "fail"), "%s thrown at %s" % (a.where, e.where()),
                   "the error is %r" % (a.err(s, e),), sample=e.where(), notes=s.notes)
        R.test("mismatch", n > 0, a.where, "no path reports a mismatch")


def members(prog, rec, pred):
    return [f["n"] for f in (prog.recs.get(rec) or {}).get("fields", []) if pred(unref(f["t"]) or {})]


def file_source(a, s):
    ns = members(a.prog, "DKIM::Validatory", lambda t: "istream" in (t.get("n") or "") + (t.get("s") or ""))
    if len(ns) != 1:
        return None
    return M.s_src(a.I, s, a.I.deref_alias(s, fld(a.this, ns[0]), [f["t"] for f in a.prog.recs["DKIM::Validatory"]["fields"] if f["n"] == ns[0]][0]))


def body_offset(a, s, prog):
    ns = members(prog, "DKIM::Validatory", lambda t: t.get("n") == "DKIM::Message")
    if len(ns) != 1:
        return None
    return a.get(s, "DKIM::Message::GetBodyOffset", fld(a.this, ns[0]))
