"""C40: the command line tool: what it prints and returns on every path, with the library by contract."""
import re

from ..q import *
from ..contracts import fill, perm
from .. import ir

V = "DKIM::Validatory::"
O = "DKIM::SignatoryOptions::"
STEPS = ("GetSignature", "GetPublicKey", "CheckSignature")


def loc(st, c, i):
    """What argument i designates: a location for objects, else the value."""
    return c.args[i] if i < len(c.args) and c.isloc(i) else c.v(st, i)


def note(st, *g):
    st = st.copy()
    st.ghost = st.ghost + (g,)
    return st


def step(name):
    """A step of the verification: succeeds, or fails with either error; it fills the object it is handed."""
    what = {"GetSignature": (1, "DKIM::Signature"), "GetPublicKey": (1, "DKIM::PublicKey")}.get(name)

    def h(I_, st, c):
        args = tuple(c.v(st, i) if name != "GetPublicKey" and i == 0 else loc(st, c, i) for i in range(len(c.args)))
        out = []
        for res in (PERM, TEMP, "ok"):
            if res == TEMP and name != "GetPublicKey":
                continue
            s = note(st, name, res, args)
            if what and what[0] < len(c.args):
                I_.kill(s, c.args[what[0]])
                fill(I_, s, c.args[what[0]], what[1], T("parsed", T("str", name + " " + res), c.v(st, 0)))
            if res == "ok":
                out.append((s, T("void")))
            else:
                c.K.throws.append((s, E.Exc(res, None, c.node, c.q)))
        return out
    return h


def setter(name):
    def h(I_, st, c):
        return [(note(st, "set", name, c.obj, tuple(c.v(st, i) for i in range(len(c.args))), c.K and c.node.get("l")), c.obj)]
    return h


def classname(I_, st, c):
    t = T("arclass", c.obj)
    return [(st, T("ptr", T("data", t), I(0)))]


def text(t):
    """The pieces of a printed text: literals as str, values as terms."""
    if t.op == "cat":
        return [y for x in t.a for y in text(x)]
    return [t.a[0]] if t.op == "str" else [t]


def literal(t):
    return "\0".join(x for x in text(t) if isinstance(x, str))


def claims(t):
    return re.search(r"(?<![A-Za-z])(OK|PASS|PASSED|VALID|VERIFIED|pass|Pass|ok|Ok)(?![A-Za-z])", literal(t)) is not None


def prints(st):
    return [(x[1], x[2], x[3]) for x in st.trace if x and x[0] == "print"]


def check(prog, R):
    R.say("ok", "success is printed for a signature only where reading it (with its body hash), looking up its key and checking it, each with the "
                "objects of that signature, have returned")
    R.say("report", "every turn over the signatures prints a line for it: success if all steps returned, else the result class and the text of the error "
                    "that was raised; no other error class is claimed, and no error of the library escapes")
    R.say("every", "the loop over the signatures visits all of them")
    R.say("status", "the exit status is zero only for a printed signature, a validation, or help")
    R.say("open", "a signature is created only over a message that could be opened")
    R.say("signature", "what is printed when signing is the created header")
    R.say("options", "every option that uses its argument requires one in both forms, every option named in the usage text is in the table")
    R.say("given", "domain, selector, key, key type, instance and type of signature are those given by the options")
    R.assumes("the operations of the library called by the tool do what their own properties state", "getopt_long follows its documentation")
    m = [f for f in prog.fn("main") if f["file"].startswith("tools/")]
    if len(m) != 1:
        raise ir.AnalysisError("anchor main of the tool: %d definitions found" % len(m))
    f = m[0]
    setters = {g["q"] for g in prog.fns.values() if g["q"].startswith(O + "Set")}
    made = []
    ctors = []

    def skip(I_, st, c):
        return [(st, T("void"))]

    def verifier(I_, st, c):
        ctors.append((st.copy(), [loc(st, c, 0)] + [c.v(st, i) for i in range(1, len(c.args))], c))
        return [(note(st, "validatory", c.obj), T("void"))]

    def signer(I_, st, c):
        return [(note(st, "signatory", c.obj, loc(st, c, 0)), T("void"))]

    def create(I_, st, c):
        made.append((st.copy(), loc(st, c, 0), c))
        s = note(st, "create", PERM)
        c.K.throws.append((s, E.Exc(PERM, None, c.node, c.q)))
        return [(note(st, "create", "ok"), T("created", c.v(st, 0)))]

    def sigs(I_, st, c):
        return [(st, fld(c.obj, "#signatures"))]

    ex = {"#notrack": True, V + "Validatory": verifier, V + "~Validatory": skip, V + "GetSignatures": sigs,
          V + "CheckBodyHash": step("CheckBodyHash"),
          "DKIM::Signatory::Signatory": signer, "DKIM::Signatory::~Signatory": skip, "DKIM::Signatory::CreateSignature": create,
          O + "SignatoryOptions": skip, O + "~SignatoryOptions": skip}
    for n in STEPS:
        ex[V + n] = step(n)
    for q in setters:
        ex[q] = setter(q[len(O):])
    for q in GETRES.values():
        ex[q] = classname
    exits = []
    a = An(prog, f, extra=ex, exits=exits)
    R.an(a)
    opts = options(prog, R, a, f)
    verify(R, a)
    status(R, a, exits, opts, made)
    given(prog, R, a, opts, made, ctors)
    if not made:
        R.unsure("signature", a.where, "no creation of a signature was reached")
    if not ctors:
        R.unsure("ok", a.where, "no verification was reached")


def ends(a):
    """Every state in which something the tool did comes to an end."""
    for L in a.I.loops.values():
        for st in L.altst:
            yield "turn", L, st, None
    for st, v in a.rets:
        yield "return", None, st, v
    for st, e in a.throws:
        yield "throw", None, st, e


def done(st):
    """The steps taken, by name: [(result, arguments)]."""
    return [(g[0], g[1], g[2]) for g in st.ghost if g[0] in STEPS]


def elem(a, st, v):
    """The signature header an argument names: an iterator or the element."""
    if v.op == "it":
        return T("elv", v.a[1], v.a[2], v.a[3])
    return v


def verified(a, st):
    """All steps have returned for one signature: None, or what is missing."""
    d = done(st)
    bad = [x for x in d if x[1] != "ok"]
    if bad:
        return "%s failed" % bad[0][0]
    by = {}
    for n, _, args in d:
        by.setdefault(n, []).append(args)
    for n in STEPS:
        if n not in by:
            return "%s was not called" % n
    g, k, s = by["GetSignature"][-1], by["GetPublicKey"][-1], by["CheckSignature"][-1]
    if len(g) < 2 or len(k) < 2 or len(s) < 3:
        return "?"
    if elem(a, st, g[0]) is not elem(a, st, s[0]):
        return "the header checked is not the one read (%s, %s)" % (sh(s[0])[:60], sh(g[0])[:60])
    if not (g[1] is k[0] is s[1]):
        return "the signature checked is not the one read"
    if k[1] is not s[2]:
        return "the key used is not the one looked up"
    return None


def verify(R, a):
    lists = 0
    for kind, L, st, v in ends(a):
        if kind == "throw":
            if done(st):
                R.test("report", False, a.where, "an error raised by %s leaves the tool" % done(st)[-1][0], notes=st.notes)
            continue
        out = prints(st)
        for dest, t, l in out:
            if claims(t):
                why = verified(a, st)
                R.test("ok", None if why == "?" else why is None, a.where, "line %s prints %r although %s" % (l, literal(t)[:60], why),
                       sample="line %s after %s" % (l, ", ".join(x[0] for x in done(st))), notes=st.notes)
        if kind == "turn" and done(st):
            bad = [x for x in done(st) if x[1] != "ok"]
            if not bad:
                R.test("report", any(claims(t) for _, t, _ in out) or len(done(st)) < 3 and None, a.where,
                       "nothing reports the verified signature", notes=st.notes)
                continue
            cls = bad[-1][1]
            exc = [x for _, t, _ in out for p in text(t) if not isinstance(p, str) for x in subterms(p) if x.op == "arclass"]
            what = [x for _, t, _ in out for p in text(t) if not isinstance(p, str) for x in subterms(p) if x.op == "what"]
            R.test("report", bool(out), a.where, "nothing is printed when %s fails with %s" % (bad[-1][0], cls), sample="%s: %s" % (bad[-1][0], cls), notes=st.notes)
            if out:
                lit = " ".join(literal(t) for _, t, _ in out)
                R.test("report", bool(exc or what), a.where, "what is printed when %s fails with %s names neither the class nor the error" % (bad[-1][0], cls), notes=st.notes)
                temp = re.search(r"TEMP|temp", lit) is not None
                perma = re.search(r"PERM|perm", lit) is not None
                R.test("report", not (temp and cls == PERM or perma and cls == TEMP), a.where, "a %s is reported as %r" % (cls, lit[:80]), notes=st.notes)
                named = temp if cls == TEMP else True
                R.test("report", bool(exc) or named, a.where, "the class of a %s is not reported" % cls, notes=st.notes)
        elif kind == "turn" and not done(st):
            for it in walks(L):
                if mentions(it.cv, lambda x: x.op == "fld" and x.a[1] == "#signatures"):
                    R.test("report", False, a.where, "a signature may be passed over without a word", notes=st.notes)
    for L in a.I.loops.values():
        for it in walks(L):
            if mentions(it.cv, lambda x: x.op == "fld" and x.a[1] == "#signatures"):
                lists += 1
                w = full_walk(a, L, it)
                R.test("every", w, a.where, "not every signature is visited", sample="loop at line %s" % L.node.get("l"))
    if not lists:
        R.unsure("every", a.where, "no loop over the signatures was found")


def optloop(a):
    """The loop that reads the options, with the option of each turn: (loop, {way round: IS})."""
    for L in a.I.loops.values():
        by = {}
        for i, s in enumerate(L.altst):
            for t in s.dom:
                if t.op == "sym" and len(t.a) > 1 and t.a[1] == "getopt" and L.lid in t.a[0]:
                    by[i] = (t, s.dom[t])
        if by:
            return L, by
    return None, {}


def options(prog, R, a, f):
    """{option: {location: value it gets}}, and the rule on the tables."""
    L, by = optloop(a)
    ev = [e for e in a.I.log if e[0] == "getopt"]
    if L is None or not ev:
        R.unsure("options", a.where, "the loop over the options was not found")
        return None
    args = ev[0][2]
    short = longs = None
    p = args[2] if len(args) > 2 else None
    if p is not None and p.op == "ptr" and p.a[0].op == "data" and p.a[0].a[0].op == "str":
        short = {}
        s = p.a[0].a[0].a[0].lstrip("+-:")
        for i, ch in enumerate(s):
            if ch != ":":
                short[ch] = s[i + 1:i + 2] == ":"
    p = args[3] if len(args) > 3 else None
    if p is not None and p.op == "ptr" and p.a[0].op == "g":
        g = prog.globs.get(p.a[0].a[0])
        longs = table((g or {}).get("init"))
    if short is None or longs is None:
        R.unsure("options", a.where, "the tables of options could not be read")
    out = {}
    for i, (t, d) in by.items():
        for c in d.values() if d.hi() - d.lo() < 256 else ():
            if not 32 < c < 127:
                continue
            ch = chr(c)
            for loc_, v in L.alts[i].items():
                if loc_.op in ("g", "errno") or v is None or v is L.start.get(loc_) or v is t or loc_.op == "g":
                    continue
                out.setdefault(ch, {}).setdefault(loc_, []).append(v)
            used = any(mentions(v, lambda x: x.op == "optarg") for loc_, v in L.alts[i].items() if loc_.op != "g")
            if short is not None:
                R.test("options", not used or short.get(ch) is True, a.where, "-%s uses its argument but does not require one" % ch, sample="-%s" % ch)
            if longs is not None:
                for n, has, val in longs:
                    if val == c:
                        R.test("options", not used or has == 1, a.where, "--%s uses its argument but does not require one" % n, sample="--%s" % n)
    if longs is not None and short is not None:
        for n, has, val in longs:
            if val and 32 < val < 127:
                R.test("options", short.get(chr(val)) == (has == 1), a.where, "--%s and -%s differ" % (n, chr(val)))
        said = set()
        for fn in prog.fns.values():
            if fn["file"].startswith("tools/") and fn.get("body") is not None:
                ir.walk(fn["body"], lambda n: said.update(re.findall(r"-(\w)?,?\s+--([a-z][a-z-]*)", n["v"])) if n.get("e") == "str" and isinstance(n.get("v"), str) else None)
        for s_, n in sorted(said):
            hit = [x for x in longs if x[0] == n]
            R.test("options", bool(hit), a.where, "the usage text names --%s, which is not accepted" % n, sample="--%s" % n)
            if hit and s_:
                R.test("options", hit[0][2] == ord(s_), a.where, "--%s is not -%s" % (n, s_))
    return out


def const(n):
    while isinstance(n, dict) and n.get("e") in ("cast", "paren"):
        if "cv" in n:
            return n["cv"]
        n = n.get("x")
    if not isinstance(n, dict):
        return None
    if n.get("e") == "str":
        return n.get("v")
    if n.get("e") == "null":
        return None
    return n.get("cv", n.get("v"))


def table(init):
    """[(name, has argument, value)] of an array of struct option."""
    while isinstance(init, dict) and init.get("e") != "ilist":
        init = init.get("x")
    if not isinstance(init, dict):
        return None
    out = []
    for e in init.get("args", []):
        v = [const(x) for x in (e.get("args") or [])]
        if len(v) == 4 and isinstance(v[0], str):
            out.append((v[0], v[1], v[3]))
    return out or None


def holder(opts, ch):
    """Locations option ch sets."""
    return list((opts or {}).get(ch, {}).items())


def validating(a, st, opts):
    """Has the option that asks for validation only been given?"""
    for loc_, vs in holder(opts, "v"):
        for t, d in st.dom.items():
            if t.op == "phi" and t.a[1] is loc_ and all(v.op == "int" and d == IS.of([v.a[0]]) for v in vs):
                return True
    return False


def status(R, a, exits, opts, made):
    for st, v, c in [(s, v, None) for s, v in a.rets] + [(s, v, c) for s, v, c in exits]:
        d = a.I.dom(st, v) if v.op != "int" else IS.of([v.a[0]])
        if not (d & IS.of([0])):
            R.ok("status", a.where, "nonzero")
            continue
        cr = [g for g in st.ghost if g[0] == "create"]
        if any(g[1] != "ok" for g in cr):
            R.test("status", False, a.where, "the exit status is zero although the message could not be signed", notes=st.notes)
            continue
        if cr:
            pr = any(any(not isinstance(p, str) and any(x.op == "created" for x in subterms(p)) for p in text(t)) and (dest.op == "stdout" or "stdout" in sh(dest))
                     for dest, t, _ in prints(st))
            R.test("signature", pr, a.where, "the created signature is not printed on standard output", sample="printed", notes=st.notes)
            continue
        if validating(a, st, opts):
            R.ok("status", a.where, "validation")
            continue
        if any(t.op == "sym" and len(t.a) > 1 and t.a[1] == "getopt" and x == IS.of([ord("h")]) for t, x in st.dom.items()):
            R.ok("status", a.where, "help")
            continue
        if opts is None:
            R.unsure("status", a.where, "options are not known")
            continue
        R.test("status", False, a.where, "the exit status is zero although nothing was signed or validated", notes=st.notes)
    for st, v in a.rets:
        for dest, t, l in prints(st):
            if any(not isinstance(p, str) and any(x.op == "created" for x in subterms(p)) for p in text(t)):
                p = [x for x in text(t) if not (isinstance(x, str) and not x.strip("\r\n"))]
                ok = len(p) == 1 and not isinstance(p[0], str) and core(p[0]).op == "created"
                R.test("signature", ok or None, a.where, "what is printed is not the signature alone: %s" % sh(t)[:100], sample="line %s" % l, notes=st.notes)
    for st, o, c in made:
        m = [g for g in st.ghost if g[0] == "signatory" and g[1] is c.obj]
        if not m:
            R.unsure("open", a.where, "the message signed is not known")
            continue
        s = m[-1][2]
        fl = a.I.read(st, fld(s, "#fail"), None) if s.op != "str" else None
        src = a.I.read(st, fld(s, "#src"), None)
        d = [x for t, x in st.dom.items() if t.op == "openfail" and (src is not None and any(y is t.a[0] for y in subterms(src)) or fl is t)]
        R.test("open", True if any(x == IS.of([0]) for x in d) or fl is I(0) else False, a.where, "a message that could not be opened is signed", notes=st.notes)


def core(t):
    while t.op in ("cstrof", "data") and t.a:
        t = t.a[0]
    if t.op == "ptr":
        return core(t.a[0])
    return t


def given(prog, R, a, opts, made, ctors):
    if not opts:
        return
    L, _ = optloop(a)

    def is_opt(v, ch):
        """Is v the value option ch leaves?"""
        return any(x.op == "phi" and x.a[0] == L.lid and any(x.a[1] is l for l, _ in holder(opts, ch)) for x in [v])

    for st, o, c in made:
        sets = {}
        for g in st.ghost:
            if g[0] == "set" and g[2] is o:
                sets.setdefault(g[1], []).append(g[3])
        for name, ch in (("SetDomain", "d"), ("SetSelector", "s"), ("SetARCInstance", "A")):
            if name not in sets:
                R.test("given", False, a.where, "-%s is not handed to the signer" % ch, notes=st.notes)
                continue
            v = sets[name][-1][0]
            R.test("given", is_opt(v, ch) or (False if v.op in ("phi", "str", "int", "param") else None), a.where,
                   "%s does not get what -%s gave: %s" % (name, ch, sh(v)[:80]), sample="%s(-%s)" % (name, ch), notes=st.notes)
        v = sets["SetPrivateKey"][-1][0] if "SetPrivateKey" in sets else None
        if v is None:
            R.unsure("given", a.where, "how the key is handed over was not followed")
        else:
            ok = v.op == "filedata" and v.a[0].op == "file" and is_opt(v.a[0].a[0], "k")
            R.test("given", ok or (False if v.op == "filedata" or v.op == "phi" else None), a.where, "the key is not the content of the file -k names: %s" % sh(v)[:80],
                   sample="SetPrivateKey(-k)", notes=st.notes)
        v = sets["SetSignatureAlgorithm"][-1][0] if "SetSignatureAlgorithm" in sets else None
        eds = [l for l, _ in holder(opts, "K")]
        want = None
        for t, x in st.sdom.items():
            if t.op == "phi" and any(t.a[1] is l for l in eds):
                if x[0] == "eq":
                    want = 1 if x[1] == "ed25519" else 0
                elif "ed25519" in str(x):
                    want = 0
        if v is None or v.op != "int" or want is None:
            R.unsure("given", a.where, "the key type was not followed: %s" % sh(v)[:60] if v is not None else "no key type")
        else:
            R.test("given", v.a[0] == want, a.where, "the key type used is not the one -K names", sample="SetSignatureAlgorithm(-K)", notes=st.notes)
    for st, args, c in ctors:
        v = args[1] if len(args) > 1 else None
        if v is None:
            R.test("given", False, a.where, "-a is not handed to the verifier", notes=st.notes)
            continue
        arc = [x for l, vs in holder(opts, "a") for x in vs]
        R.test("given", is_opt(v, "a") and all(x is I(1) for x in arc) or (False if v.op in ("int", "phi") else None), a.where,
               "the verifier does not get the type of signature -a asks for: %s" % sh(v)[:80], sample="Validatory(-a)", notes=st.notes)
        if v.op == "phi":
            R.test("given", L.init.get(v.a[1]) is I(0), a.where, "without -a the verifier is not asked for DKIM signatures", notes=st.notes)
