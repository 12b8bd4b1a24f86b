"""What the checks about Signatory::CreateSignature share."""
from .c34 import *

CREATE = "DKIM::Signatory::CreateSignature"
OPT = "DKIM::SignatoryOptions::"
ADD = "DKIM::AdditionalSignaturesOptions::"
VSIG = "DKIM::Signature::"
FWS = " \t\r\n"


def enums(prog, q):
    """Enumerators of the type method q returns: {name: value}."""
    f = prog.fn(q)
    if not f:
        raise ir.AnalysisError("anchor %s is not defined" % q)
    return {n.split("::")[-1]: x for n, x in unref(f[0]["ret"]).get("consts", [])}


def runs(prog, R, extra=None):
    """CreateSignature analysed once per hash algorithm: (name of the enumerator, analysis).

    The message has been read (that it is read completely, and only then used, is decided by C34 and C18)."""
    fs = prog.fn(CREATE)
    if not fs:
        raise ir.AnalysisError("anchor %s is not defined" % CREATE)
    m = An(prog, prog.fn1(MSG + "IsDone"), this=T("obj", "m"))
    v = m.rets[0][1] if len(m.rets) == 1 else None
    done = v.a[0].a[1] if v is not None and v.op == "init" and v.a[0].op == "fld" else None
    for f in fs:
        oi = [i for i, p in enumerate(f["params"]) if (unref(p["t"]) or {}).get("n") == "DKIM::SignatoryOptions"]
        for n, x in sorted(enums(prog, OPT + "GetDigestAlgorithm").items(), key=lambda z: z[1]):
            def pre(a, st):
                d = a.get(st, OPT + "GetDigestAlgorithm", a.ploc(oi[0]))
                if d is not None:
                    st.dom[d] = IS.of([x])
                m = msg_loc(a)
                if done and m is not None:
                    st.store[fld(m, done)] = I(1)
            a = An(prog, f, pre=pre, extra=dict(extra or {}), frame_min=1 << 30)
            a.opt = a.ploc(oi[0])
            a.algname = n
            a.alg = x
            a.e0 = a.entry()
            R.an(a)
            yield n, a


def option(a, name):
    """Value of an option, as the caller passed it."""
    return a.get(a.e0, OPT + name, a.opt)


def field_of(prog, q):
    """Name of the field accessor q returns."""
    f = prog.fn(q)
    if not f:
        raise ir.AnalysisError("anchor %s is not defined" % q)
    b = An(prog, f[0], this=T("obj", "x"))
    vs = set()
    for s, v in b.rets:
        if v is not None and (f[0].get("ret") or {}).get("k") in ("ref", "rref"):
            v = b.rd(s, v, unref(f[0]["ret"]))
        vs.add(v)
    v = vs.pop() if len(vs) == 1 else None
    if v is not None and v.op == "init" and v.a[0].op == "fld" and v.a[0].a[0] is T("obj", "x"):
        return v.a[0].a[1]
    return None


class Turn:
    """One way of making one signature: the state, the text added to the result."""

    def __init__(self, a, L, it, st, delta):
        self.a, self.L, self.it, self.st, self.delta = a, L, it, st, delta
        self.where = "%s, loop at line %s" % (a.where, L.node.get("l"))
        ps = list(parts(delta))
        self.sep = None
        if ps and ps[0].op == "str":
            t = ps[0].a[0]
            n = len(t) - len(t.lstrip("\r\n"))
            self.sep = t[:n]
            if n:
                ps[0] = S(t[n:])
        k = [i for i, p in enumerate(ps) if p.op == "str" and p.a[0].rstrip(FWS).endswith("b=")]
        self.head = self.tail = None
        if k:
            self.head = ps[:k[-1] + 1]
            self.tail = ps[k[-1] + 1:]
        self.text = cat(*self.head) if self.head else None
        self.prims = {}
        for t, d in list(st.dom.items()) + [(t.a[0], IS.of([0]) if v else IS.of([0]).compl()) for t, v in st.facts.items() if t.op == "eq0"]:
            if t.op in ("rsasign", "edsign"):
                self.prims[t] = d

    def elem(self, field):
        """Value of a field of the signature being made."""
        return T("get", T("elv", self.it.cv, self.it.phi, self.it.d), field)

    def iselem(self, t):
        return t.op == "get" and self.it.elem(t.a[0])

    def pinned(self, v):
        """The only value v can have, or None."""
        d = self.a.I.dom(self.st, v)
        return d.lo() if d is not None and d.size() == 1 else None


def outer(a, R, rule):
    """The loop that makes one signature per turn: [(loop, location of the result)]."""
    out = []
    for s, v in a.rets:
        if v is not None and v.op == "star":
            L = a.I.loops.get(v.a[0])
            if L is not None and (L, v.a[1]) not in out:
                out.append((L, v.a[1]))
        elif v is not None and v.op == "str":
            R.bad(rule, a.where, "the result is the constant %s" % sh(v)[:80])
        else:
            R.unsure(rule, a.where, "the result is %s" % (sh(v)[:200] if v is not None else "?"))
    return out


def turns(a, R, rule):
    for L, loc in outer(a, R, rule):
        sig = option(a, "GetAdditionalSignatures")
        it = [i for i in walks(L) if i.cv is sig or i.cv.op == "rev" and i.cv.a[0] is sig]
        if not it:
            R.unsure(rule, a.where, "the loop at line %s does not visibly walk the signatures" % L.node.get("l"))
            continue
        for st, d in zip(L.altst, L.stars[loc]):
            t = Turn(a, L, it[0], st, d)
            t.loc = loc
            if t.head is None:
                if opaque_in(d) and not any(p.op == "str" for p in parts(d)):
                    R.unsure(rule, t.where, "the text of a signature is not understood: %s" % sh(d)[:200])
                else:
                    R.test(rule, False if not st.notes else None, t.where, "a turn adds %s, which is not a signature header" % (sh(d)[:300] or "nothing"))
                continue
            yield t


def tags(t):
    """The emitted header of a turn as [(name, [parts of the value])]; the first pair is the header name and what is
    between it and the colon.  None if it is not a tag list."""
    segs = [[]]
    for p in t.head:
        if p.op != "str":
            segs[-1].append(p)
            continue
        bits = p.a[0].split(";")
        for i, b in enumerate(bits):
            if i:
                segs.append([])
            if b:
                segs[-1].append(S(b))
    out = []
    first = segs[0]
    if not first or first[0].op != "str" or ":" not in first[0].a[0]:
        return None
    name, rest = first[0].a[0].split(":", 1)
    out.append((name, []))
    segs[0] = ([S(rest)] if rest else []) + first[1:]
    for i, s in enumerate(segs):
        s = trimparts(s)
        if s and s[-1].op == "phi" and all(p.op in ("star", "str") for p in s[:-1]):
            # text built by a loop: what it starts with
            L = t.a.I.loops.get(s[-1].a[0])
            ini = L.init.get(s[-1].a[1]) if L is not None else None
            if ini is not None:
                k = [j for j, p in enumerate(s) if p.op != "str"][0]
                s = trimparts(s[:k] + list(parts(ini)) + s[k:])
                for j in range(len(s) - 1, 0, -1):
                    if s[j].op == "str" and s[j - 1].op == "str":
                        s[j - 1:j + 1] = [S(s[j - 1].a[0] + s[j].a[0])]
        if not s:
            if i == len(segs) - 1:
                continue
            return None
        if s[0].op != "str" or "=" not in s[0].a[0]:
            return None
        n, v = s[0].a[0].split("=", 1)
        out.append((n.strip(FWS), trimparts(([S(v)] if v else []) + s[1:])))
    return out


def trimparts(s):
    s = list(s)
    while s and s[0].op == "str" and not s[0].a[0].lstrip(FWS):
        s.pop(0)
    if s and s[0].op == "str":
        s[0] = S(s[0].a[0].lstrip(FWS))
    while s and s[-1].op == "str" and not s[-1].a[0].rstrip(FWS):
        s.pop()
    if s and s[-1].op == "str":
        s[-1] = S(s[-1].a[0].rstrip(FWS))
    return s


def unfold(ps):
    """Parts with the white space taken out of the literal text, adjacent literals joined."""
    out = []
    for p in ps:
        if p.op == "str":
            x = "".join(c for c in p.a[0] if c not in FWS)
            if not x:
                continue
            if out and out[-1].op == "str":
                out[-1] = S(out[-1].a[0] + x)
                continue
            p = S(x)
        out.append(p)
    return out


def joined(a, ps, sep=":"):
    """(list value, problem) when the parts are the elements of one list joined by sep and folded: proved by induction
    over the loops that build them.  (None, reason) when the shape is not understood, (False, reason) when it is wrong."""
    if len(ps) == 2 and ps[0].op == "star" and ps[1].op == "phi":
        star, ph = ps
    elif len(ps) == 1 and ps[0].op == "star":
        star, ph = ps[0], None
    elif len(ps) == 1 and ps[0].op in ("phi", "ent"):
        star, ph = None, ps[0]
    else:
        return None, "made of %r" % [p.op for p in ps]
    L = a.I.loops.get((star or ph).a[0])
    if L is None:
        return None, "loop not found"
    its = [i for i in walks(L)]
    if not its:
        return None, "the loop does not visibly walk a list"
    loc = ph.a[1] if ph is not None else None
    for it in its:
        r = joined1(a, L, it, star.a[1] if star is not None else None, loc, sep)
        if r[0] is not None:
            return r
    return r


def joined1(a, L, it, sloc, loc, sep):
    fw = full_walk(a, L, it)
    if fw is not True:
        return (False if fw is False else None), "the walk over the list can start late or stop early"
    if it.d != "f":
        return False, "the list is walked backwards"
    phi = phi_of(L, loc) if loc is not None else None
    for k, (alt, st) in enumerate(zip(L.alts, L.altst)):
        d = L.stars[sloc][k] if sloc is not None else EMPTY
        new = unfold(list(parts(d)) + (list(parts(alt[loc])) if loc is not None else []))
        first = same(a, st, it.phi, I(0))
        if phi is not None:
            if not new or new[0] is not phi:
                return (None if any(p.op in ("phi", "sym", "ent") and p is not phi for p in new) else False), \
                    "a turn does not keep the text before it: %s" % [sh(p)[:80] for p in new]
            new = new[1:]
        el = [p for p in new if it.elem(p)]
        lit = [p for p in new if p.op == "str"]
        if len(el) + len(lit) != len(new):
            return None, "a turn adds %s" % [sh(p)[:80] for p in new]
        want = [[("e",)], [sep, ("e",)]]
        got = [("e",) if it.elem(p) else p.a[0] for p in new]
        if first is True and got == want[0] or first is False and got == want[1]:
            continue
        if first is None and got in want:
            # the separator may depend on something else that tells the first turn
            f = empty_tells(a, L, st, loc, sloc)
            if f is None:
                return None, "whether a turn is the first is not known"
            if (got == want[0]) == f:
                continue
        return False, "a turn (%s) adds %s" % ({True: "first", False: "later", None: "any"}[first], [sh(p)[:80] for p in new])
    return it.cv, None


def phi_of(L, loc):
    """The value of loc at the start of a turn."""
    for x in list(L.alts):
        for v in x.values():
            for t in subterms(v):
                if t.op == "phi" and t.a[0] == L.lid and t.a[1] is loc:
                    return t
    for k, st in L.exits:
        for v in list(st.store.values()) + list(st.facts) + list(st.dom):
            for t in subterms(v):
                if t.op == "phi" and t.a[0] == L.lid and t.a[1] is loc:
                    return t
    return T("phi", L.lid, loc, ())


def empty_tells(a, L, st, loc, sloc):
    """Is this the first turn, judged by the text so far being as it was before the loop?"""
    for l in (loc, sloc):
        if l is None:
            continue
        ph = phi_of(L, l)
        z = same(a, st, a.I.size(ph), I(0))
        ini = L.init.get(l)
        if z is not None and ini is not None and (ini is EMPTY or ini is T("nil")):
            # every turn makes it non-empty
            ok = True
            for alt, s in zip(L.alts, L.altst):
                v = alt.get(l)
                if v is None:
                    ok = False
            return z if ok else None
    return None


def folded(a, ps, whole):
    """True if the parts are the string `whole`, cut into consecutive pieces with nothing but CRLF and white space in
    between, nothing at the end.  False if not, None if not understood; with a reason."""
    if len(ps) == 1 and ps[0] is whole:
        return True, None
    if not ps:
        return False, "nothing follows b="
    star = [p for p in ps if p.op == "star"]
    if len(star) != 1:
        if any(opaque_in(p) for p in ps):
            return None, "made of %s" % [sh(p)[:80] for p in ps]
        return False, "b= is followed by %s" % [sh(p)[:80] for p in ps]
    star = star[0]
    L = a.I.loops.get(star.a[0])
    if L is None:
        return None, "loop not found"
    if unfold(ps) != [star] and not (ps[0] is star and ps[-1].op in ("phi", "sub") and len(unfold(ps)) == 2):
        return False, "b= is followed by %s" % [sh(p)[:80] for p in ps]
    deltas = L.stars[star.a[1]]
    rest = unfold(ps)[1:]
    if ps[-1].op == "str":
        return False, "the signature is followed by %s" % sh(ps[-1])
    # (a) a shrinking remainder
    for loc in L.changed:
        ini = L.init.get(loc)
        if ini is None or ini is not whole and not (ini.op == whole.op and ini.op == "b64enc"):
            continue
        ph = phi_of(L, loc)
        if ini is not whole and False:
            continue
        for alt, st, d in zip(L.alts, L.altst, deltas):
            new = alt[loc]
            pcs = [p for p in parts(d) if p.op != "str"]
            lit = [p for p in parts(d) if p.op == "str"]
            r = cover(pcs, ph, new)
            if r is not True:
                return (None if r is None else False), "a turn adds %s and keeps %s" % ([sh(p)[:80] for p in pcs], sh(new)[:80])
            if any(not c.a[0].strip(FWS) == "" for c in lit):
                return False, "a turn adds %s" % [sh(p)[:80] for p in lit]
            ends = parts(d) and parts(d)[-1].op == "str"
            z = same(a, st, a.I.size(new), I(0))
            if ends and z is not False and not rest:
                return (False if z or all(x is not EMPTY and parts(x)[-1].op == "str" for x in deltas) else None), "white space can follow the last piece"
        if rest:
            if rest[0] is not ph:
                return None, "the loop is followed by %s" % sh(rest[0])
        else:
            for k, st in L.exits:
                z = same(a, st, a.I.size(ph), I(0))
                if z is not True:
                    return (False if z is False else None), "the loop can end before the signature does"
        return True, None
    # (b) an index
    for loc in L.changed:
        ini = L.init.get(loc)
        if ini is not I(0):
            continue
        ph = phi_of(L, loc)
        ok = True
        for alt, st, d in zip(L.alts, L.altst, deltas):
            pcs = [p for p in parts(d) if p.op != "str"]
            if len(pcs) != 1 or pcs[0].op != "sub" or not b64(pcs[0].a[0], whole) or pcs[0].a[1] is not ph:
                ok = False
                break
            if pcs[0].a[2] is not alt[loc]:
                ok = False
                break
            if any(c.op == "str" and c.a[0].strip(FWS) for c in parts(d)):
                return False, "a turn adds %s" % sh(d)[:100]
            if parts(d)[-1].op == "str" and same(a, st, alt[loc], a.I.size(whole), "<") is not True:
                return None, "white space can follow the last piece"
        if not ok:
            continue
        for k, st in L.exits:
            if same(a, st, ph, a.I.size(whole), ">=") is not True:
                return None, "the loop can end before the signature does"
        return True, None
    return None, "the loop that adds the signature is not understood"


def b64(t, whole):
    return t is whole or t.op == whole.op == "b64enc"


def cover(pcs, ph, new):
    """Do the pieces followed by the new remainder make up the old one?"""
    if len(pcs) != 1:
        return None if pcs else False
    p = pcs[0]
    if p is ph and (new is EMPTY):
        return True
    if p.op != "sub" or p.a[0] is not ph or p.a[1] is not I(0):
        return False if p.op == "sub" and p.a[0] is ph else None
    if new.op != "sub" or new.a[0] is not ph:
        return None
    return new.a[1] is p.a[2] and new.a[2] is END_


def digest_of(p):
    return p.a[1] if p.op == "rsasign" else p.a[0]


def key_of(p):
    return p.a[2] if p.op == "rsasign" else p.a[1]


def succeeded(t):
    """The primitives known to have succeeded on this turn."""
    return [p for p, d in t.prims.items() if d == IS.of([1] if p.op == "rsasign" else [0])]


def signature_text(p):
    return T("b64enc", T("rsasig" if p.op == "rsasign" else "edsig", p))


def carried(t, term, seen=None):
    """Values left over from earlier turns that a term of this turn depends on."""
    out = []
    seen = seen if seen is not None else set()
    for x in subterms(term):
        if x.op not in ("phi", "star") or x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x.a[0] == t.L.lid and x is not t.it.phi and x.a[1].op != "off":
            out.append(x)
        elif x.op in ("phi", "star") and x.a[0] != t.L.lid and x.a[1] is not None:
            L = t.a.I.loops.get(x.a[0])
            if L is None or "^" not in L.lid and L is not t.L and x.op == "star":
                continue
            if L is None:
                continue
            for d in (L.stars.get(x.a[1]) or []) + [alt[x.a[1]] for alt in L.alts if x.a[1] in alt] + \
                    ([L.init[x.a[1]]] if x.a[1] in L.init else []):
                out += carried(t, d, seen)
    return out


def header_loop(t, p):
    """(loop, location) that adds the message header fields to the digest signed by p; or (None, why)."""
    dg = digest_of(p)
    if dg.op != "digest":
        return None, "what is signed is %s" % sh(dg)[:120]
    ps = parts(dg.a[1])
    if len(ps) == 2 and ps[0].op == "star" and ps[1].op == "chdr":
        L = t.a.I.loops.get(ps[0].a[0])
        return (L, ps[0].a[1]) if L is not None else (None, "loop not found")
    return None, "the signed digest is made of %s" % [sh(x)[:80] for x in ps]
