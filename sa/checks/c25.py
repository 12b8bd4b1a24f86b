"""C25: the key is looked up under the right name, and failures are classified as retryable or final."""
from .verifier import *
from ..contracts import key_parse
from ..models import tostr

RES = "DKIM::Util::Resolver::"
GPK = "DKIM::Validatory::GetPublicKey"
PUB = "DKIM::PublicKey::"
# <netdb.h>: what a lookup without an answer left in h_errno
FINAL = {1: "HOST_NOT_FOUND", 3: "NO_RECOVERY", 4: "NO_DATA"}


def lookup(kind):
    """A lookup: its outcome is a fresh truth value and a fresh text appended to the result argument."""
    def h(I_, st, c_or_f, vs=None, argn=None, K=None, node=None):
        if vs is None:
            c = c_or_f
            node, args, ref = c.node, [c.v(st, i) for i in range(len(c.args))], [c.args[i] if c.isloc(i) else None for i in range(len(c.args))]
            f, tys = c.obj, [c.ty(i) for i in range(len(c.args))]
        else:
            f = c_or_f
            args, ref, tys = [], [], []
            for v, n in zip(vs, argn):
                l = n.get("vc") in ("l", "x")
                args.append(I_.read(st, v, n.get("t")) if l else v)
                ref.append((v.a[0] if v.op == "alias" else v) if l else None)
                tys.append(n.get("t"))
        st = st.copy()
        ok = I_.fresh("looked", node)
        E.TR.setdefault(ok, IS.rng(0, 1))
        txt = T("txt", ok)
        st.ghost = st.ghost + (("lookup", kind, f, tuple(args), ok),)
        if len(ref) > 1 and ref[1] is not None:
            st.store[ref[1]] = cat(args[1], txt)
        else:
            st.note("lookup result goes to an unknown place")
        return [(st, ok)]
    return h


def parsed(I_, st, c):
    out = []
    n = len(c.K.throws)
    st = st.copy()
    st.ghost = st.ghost + (("parse", c.obj, c.v(st, 0)),)
    return key_parse(I_, st, c)


def check(prog, R):
    R.say("name", "every lookup asks for <selector>._domainkey.<domain>, with the selector and domain of the signature")
    R.say("which", "the lookup calls the custom resolver, with its data pointer, when one is set, and otherwise the system resolver")
    R.say("once", "every normal return and every temporary error follows exactly one lookup")
    R.say("retry", "when the lookup failed the outcome is a temporary error, and a temporary error occurs only then")
    R.say("empty", "when the lookup succeeded with an empty text the outcome is a permanent error")
    R.say("record", "a normal return has parsed exactly the text the successful lookup delivered, into the key object of the caller")
    R.say("query", "the system resolver asks for TXT records of class IN of the name it was given")
    R.say("class", "a query without an answer is reported as done for the codes NO_DATA, HOST_NOT_FOUND and NO_RECOVERY, with nothing "
                   "added to the result, and as failed for every other code")
    R.say("text", "only TXT records add to the result, and an answer larger than the buffer is a failed lookup")
    R.assumes("a std::function object is empty exactly when no function was assigned to it")
    keyside(prog, R)
    system(prog, R)


def keyside(prog, R):
    ex = {RES + "GetTXT": lookup("system"), "#callback": lookup("custom"), PUB + "Parse": parsed,
          RES + "Resolver": lambda I_, st, c: [(st, T("void"))], RES + "~Resolver": lambda I_, st, c: [(st, T("void"))]}
    a = An(prog, GPK, extra=ex)
    R.an(a)
    sig = a.ploc(a.pidx(lambda t: t.get("n") == "DKIM::Signature")[0])
    pub = a.ploc(a.pidx(lambda t: t.get("n") == "DKIM::PublicKey")[0])
    e0 = a.entry()
    dom, sel = a.get(e0, "DKIM::Signature::GetDomain", sig), a.get(e0, "DKIM::Signature::GetSelector", sig)
    want = cat(sel, S("._domainkey."), dom)
    own = [f["n"] for f in prog.recs["DKIM::Validatory"]["fields"]]
    custom, data = fld(a.this, "CustomDNSResolver"), fld(a.this, "CustomDNSData")
    if "CustomDNSResolver" not in own or "CustomDNSData" not in own:
        raise ir.AnalysisError("DKIM::Validatory::CustomDNSResolver / CustomDNSData not found")
    cv = T("init", custom)
    dv = T("init", data)

    def is_set(s):
        """Is a custom resolver known to be set (1), known not to be (0)?"""
        for t, v in s.facts.items():
            if t.op in ("eq", "fset") and mentions(t, lambda x: x is cv):
                return (not v) if t.op == "eq" else v
        return None

    def lk(s, w, rule):
        """The one lookup made on this path."""
        L = [g for g in s.ghost if g[0] == "lookup"]
        for g in L:
            _, kind, f, args, ok = g
            q = args[0]
            R.test("name", q is want, w, "looks up %s" % sh(q), sample=sh(q), notes=s.notes)
            st = is_set(s)
            if kind == "custom":
                R.test("which", st is True and f is cv or (None if st is None and f is cv else False), w,
                       "the custom resolver is called although none is set" if st is not True else "calls %s" % sh(f), sample="custom", notes=s.notes)
                R.test("which", len(args) > 2 and args[2] is dv, w, "the custom resolver gets %s as its data" % sh(args[2:]), sample="data", notes=s.notes)
            else:
                R.test("which", st is False, w, "the system resolver is used although a custom one may be set", sample="system", notes=s.notes)
        return L

    def worked(s, ok):
        return holds(a, s, ok)
    for s, v in a.rets:
        w = a.where
        L = lk(s, w, "once")
        R.test("once", len(L) == 1, w, "%d lookups before a normal return" % len(L), sample="1 lookup", notes=s.notes)
        if len(L) != 1:
            continue
        ok = L[0][4]
        R.test("retry", worked(s, ok) is True, w, "returns normally although the lookup may have failed", sample="ok", notes=s.notes)
        P = [g for g in s.ghost if g[0] == "parse"]
        txt = T("txt", ok)
        R.test("empty", same(a, s, a.I.size(txt), I(0)) is False or bool(P) and False, w, "an empty answer is not rejected", sample="size", notes=s.notes)
        R.test("record", len(P) == 1 and P[0][1] is pub and P[0][2] is txt, w,
               "parsed: %s" % [(sh(g[1]), sh(g[2])) for g in P], sample="parsed the text", notes=s.notes)
    for s, e in a.throws:
        k, res = a.err(s, e)
        w = "%s (thrown at %s)" % (a.where, e.where())
        L = lk(s, w, "once")
        ok = L[0][4] if len(L) == 1 else None
        P = [g for g in s.ghost if g[0] == "parse"]
        if k == "temporary":
            R.test("once", len(L) == 1, w, "%d lookups before a temporary error" % len(L), sample="1 lookup", notes=s.notes)
            R.test("retry", ok is not None and worked(s, ok) is False, w, "a temporary error although the lookup did not fail", sample=k, notes=s.notes)
        elif k == "permanent":
            if ok is not None:
                R.test("retry", worked(s, ok) is True, w, "a failed lookup ends in a permanent error", sample=k, notes=s.notes)
                R.test("record", not P or P[0][2] is T("txt", ok), w, "parses %s" % [sh(g[2]) for g in P], sample="rejected", notes=s.notes)
                R.test("empty", bool(P) or same(a, s, a.I.size(T("txt", ok)), I(0)) is True, w,
                       "a non-empty answer is rejected without being parsed", sample="empty", notes=s.notes)
            else:
                R.test("once", not L, w, "%d lookups" % len(L), notes=s.notes)
                # only signatures that do not ask for dns/txt may end without a lookup
                qt = a.get(s, "DKIM::Signature::GetQueryType", sig)
                want_q = [x for n, x in (prog.fn1("DKIM::Signature::GetQueryType")["ret"] or {}).get("consts", []) if n.endswith("DKIM_Q_DNSTXT")]
                if qt is not None and want_q:
                    R.test("once", same(a, s, qt, I(want_q[0])) is False, w, "a dns/txt signature is refused without a lookup", sample="unsupported", notes=s.notes)
        else:
            R.bad("retry", w, "raises %s" % k)


def system(prog, R):
    a = An(prog, RES + "GetTXT")
    R.an(a)
    name, out = a.ploc(0), a.ploc(1)
    nm, old = T("init", name), T("init", out)
    D = [(st, d, c) for k, st, d, c in a.I.log if k == "dns"]
    seen = set()
    for st, d, c in D:
        w = "%s:%s" % (a.fn["file"], c.line())
        args = d[1]
        k = 1 if len(args) == 6 else 0
        q = tostr(a.I, st, args[k], None)
        R.test("query", q is nm and args[k + 1] is I(1) and args[k + 2] is I(16), w,
               "asks for class %s type %s of %s" % (sh(args[k + 1]), sh(args[k + 2]), sh(q)), sample="IN TXT", notes=st.notes)
        seen.add(c.node["sid"])
    if not D:
        R.bad("query", a.where, "no DNS query is made")
        return

    def code(s):
        h = [t for t in set(s.store.values()) if t.op == "herr"]
        return h[0] if h else None
    for s, v in a.rets:
        w = a.where
        q = [t for t in s.dom if t.op == "sym" and t.a[1] == "resq"]
        n = a.I.dom(s, q[0]) if q else None
        ok = holds(a, s, v)
        res = a.rd(s, out, unref(a.fn["params"][1]["t"]))
        if n is None or ok is None:
            R.unsure("class", w, "result %s for answer length %s" % (sh(v), n))
            continue
        if n <= IS.of([-1]) if hasattr(n, "__le__") else all(x < 0 for x in list(n)[:3]):
            h = code(s)
            d = a.I.dom(s, h) if h is not None else None
            if d is None:
                R.test("class", False if ok else None, w, "reported as %s without looking at the error code" % sh(v), notes=s.notes)
                continue
            cs = [x for x in range(-1, 5) if x in d]
            R.test("class", all((x in FINAL) == bool(ok) for x in cs), w, "codes %s are reported as %s" % (cs, "done" if ok else "failed"),
                   sample=(cs, ok), notes=s.notes)
            if ok:
                R.test("class", res is old, w, "a lookup without answer delivers %s" % sh(res), sample="nothing", notes=s.notes)
            continue
        if -1 in n:
            R.test("class", False if ok else None, w, "reported as %s without looking whether the query failed" % sh(v), notes=s.notes)
            continue
        big = [x for x in (65537, 1 << 20, (1 << 31) - 1) if x in n]
        sz = answer_size(D)
        if sz is not None and ok:
            R.test("text", sz + 1 not in n, w, "an answer larger than the buffer of %d octets is taken for complete" % sz, sample=str(sz), notes=s.notes)
    texts(prog, R, a, out)


def answer_size(D):
    x = D[0][1][1][-1]
    return x.a[0] if x.op == "int" else None


def texts(prog, R, a, out):
    """Every growth of the result happens in a turn whose record is known to be of type TXT."""
    n = 0
    for L in a.I.loops.values():
        for st, alt in zip(L.altst, L.alts):
            v = alt.get(out)
            if v is None:
                continue
            ph = [x for x in subterms(v) if x.op == "phi" and x.a[0] == L.lid and x.a[1] is out]
            if v.op != "cat" or not ph:
                continue
            n += 1
            ty = [t for t, d in list(st.dom.items()) if d == IS.of([16]) and mentions(t, lambda x: x.op in ("atv", "bor") and mentions(x, lambda y: y.op == "dnsanswer"))]
            R.test("text", bool(ty), "%s loop at line %s" % (a.where, L.lid.split(":")[-1].split("#")[0]),
                   "text is added for a record not known to be of type TXT: %s" % sh(v)[:200], sample=sh(ty[0])[:150] if ty else None, notes=st.notes)
    if not n:
        R.unsure("text", a.where, "no loop adding to the result was recognised")
