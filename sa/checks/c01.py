"""C01: a signature is accepted only if the cryptographic check accepted it."""
from .verifier import *


def check(prog, R):
    R.say("accept", "every normal return of CheckSignature is preceded by a successful verification primitive")
    R.say("algorithm", "the successful primitive is the one of the signature's algorithm")
    R.say("signature bytes", "the primitive got exactly the signature bytes of the signature object")
    R.say("digest", "the primitive got one complete finished digest")
    R.say("key", "the primitive got the key of the supplied public key object")
    R.say("reject", "a primitive reporting anything else ends in a permanent error of class fail")
    R.assumes("RSA_verify reports success by 1 and crypto_sign_verify_detached by 0, every other value is a failure",
              "EVP_Digest* calls succeed")
    rsa = retenum(prog, SIG + "GetSignatureAlgorithm", "DKIM_SA_RSA")
    ed = retenum(prog, SIG + "GetSignatureAlgorithm", "DKIM_SA_ED25519")
    for a in analyses(prog, R):
        R.test("accept", len(a.rets) > 0, a.where, "no path returns normally")
        for s, v in a.rets:
            acc = accepted(s)
            if not R.test("accept", acc, a.where, "a path returns although no verification primitive reported success; "
                          "primitives seen: %r" % list(crypto(s).items())[:2], sample=acc[:1], notes=s.notes):
                continue
            sg = a.get(s, SIG + "GetSignatureAlgorithm", a.sig)
            data = a.get(s, SIG + "GetSignatureData", a.sig)
            good = False
            why = []
            for t in acc:
                alg = a.I.dom(s, sg)
                want = rsa if t.op == "rsaverify" else ed
                dg, sb, key = (t.a[1], t.a[2], t.a[3]) if t.op == "rsaverify" else (t.a[1], t.a[0], t.a[2])
                k = a.get(s, PUB + ("GetRSAPublicKey" if t.op == "rsaverify" else "GetED25519PublicKey"), a.pub)
                w = []
                if alg != IS.of([want]):
                    w.append(("algorithm", "%s accepted for algorithm values %r" % (t.op, alg)))
                if sb is not data:
                    w.append(("signature bytes", "signature handed over is %r, signature of the header is %r" % (sb, data)))
                if dg.op != "digest":
                    w.append(("digest", "digest handed over is %r" % (dg,)))
                if key is not k:
                    w.append(("key", "key handed over is %r, key of the record is %r" % (key, k)))
                if not w:
                    good = True
                    for r in ("algorithm", "signature bytes", "digest", "key"):
                        R.ok(r, a.where, t)
                why += w
            if not good:
                for r, w in why:
                    R.test(r, False, a.where, w, notes=s.notes)
        for s, e in a.throws:
            failed = [t for t in crypto(s) if t not in accepted(s)]
            if failed:
                R.test("reject", a.err(s, e) == ("permanent", "fail"), "%s thrown at %s" % (a.where, e.where()),
                       "primitive failed but the error is %r" % (a.err(s, e),), sample=e.where(), notes=s.notes)
