"""C50: base64 conversion hands everything to the codec and returns everything the codec makes of it."""
from .signer import *
from .. import models as MM

NS = "DKIM::Conversion::Base64_"
NO_NL = 0x100


def hooks(reads):
    """The BIO calls of OpenSSL, recorded per path in the ghost of the state."""
    def wrap(n, f):
        def h(I_, st, c):
            out = []
            for s, v in MM.MODELS[n](I_, st, c):
                s = s.copy()
                e = f(I_, st, c, v)
                if e is not None:
                    s.ghost = s.ghost + (e,)
                out.append((s, v))
            return out
        return h

    def read(I_, st, c, v):
        reads[v] = (c.v(st, 0), c.v(st, 1))
    k = {
        "BIO_new": lambda I_, st, c, v: ("new", v, c.v(st, 0)),
        "BIO_new_mem_buf": lambda I_, st, c, v: ("buf", v, c.v(st, 0), c.v(st, 1)),
        "BIO_push": lambda I_, st, c, v: ("push", c.v(st, 0), c.v(st, 1)),
        "BIO_write": lambda I_, st, c, v: ("write", c.v(st, 0), c.v(st, 1), c.v(st, 2)),
        "BIO_set_flags": lambda I_, st, c, v: ("flags", c.v(st, 0), c.v(st, 1)),
        "BIO_ctrl": lambda I_, st, c, v: ("ctrl", c.v(st, 0), c.v(st, 1)),
        "BIO_read": read,
    }
    return {n: wrap(n, f) for n, f in k.items()}


def check(prog, R):
    R.say("chain", "the input goes through one base64 filter joined to one memory buffer, told to use no line ends")
    R.say("in", "the whole argument, by its length, is written once, to the buffer when decoding and to the filter when encoding")
    R.say("flush", "the encoder flushes the filter after the last write")
    R.say("out", "the result is everything that is read back, in order (an encoder may leave out line ends); reading stops only when a read gives nothing")
    R.assumes("OpenSSL's base64 filter and memory buffer behave as documented", "no memory exhaustion inside OpenSSL",
              "the text is shorter than 2 GB")
    for nm in ("Decode", "Encode"):
        fs = prog.fn(NS + nm)
        if not fs:
            raise ir.AnalysisError("anchor %s%s is not defined" % (NS, nm))
        for f in fs:
            one(prog, R, f, nm == "Encode")


def one(prog, R, f, enc):
    reads = {}
    ty = f["params"][0]["t"]
    arg = E.typed(T("filedata", T("g", "the argument")), unref(ty))          # any octets, NUL among them

    def pre(a, st):
        st.store[a.ploc(0)] = arg
    if unref(ty) is ty:
        a = An(prog, f, extra=hooks(reads), args={f["params"][0]["d"]["n"]: arg})
    else:
        a = An(prog, f, extra=hooks(reads), pre=pre)
    R.an(a)
    seen = 0
    for s, v in a.rets:
        ops = s.ghost
        news = [o for o in ops if o[0] in ("new", "buf")]
        if any(same(a, s, o[1], T("null")) is True or o[1] is T("null") for o in news):
            continue                   # an allocation failed
        seen += 1
        filt = [o[1] for o in news if o[0] == "new" and o[2] is T("biometh", "BIO_f_base64")]
        mem = [o[1] for o in news if o[0] == "buf" or o[2] is T("biometh", "BIO_s_mem")]
        if len(filt) != 1 or len(mem) != 1:
            R.unsure("chain", a.where, "it does not visibly use one filter and one buffer")
            continue
        filt, mem = filt[0], mem[0]
        looped = any(st.ghost != () and len(st.ghost) > len(ops) for L in a.I.loops.values() for st in L.altst)
        R.test("chain", any(o[0] == "push" and o[1] is filt and o[2] is mem for o in ops), a.where, "the filter is not joined to the buffer", sample="joined",
               notes=s.notes)
        use = [i for i, o in enumerate(ops) if o[0] == "write" and o[1] is filt]
        fl = [i for i, o in enumerate(ops) if o[0] == "flags" and o[1] is filt and o[2].op == "int" and o[2].a[0] & NO_NL]
        R.test("chain", bool(fl) and (not use or fl[0] < use[0]), a.where, "the filter is used without the flag for text without line ends", sample="no line ends",
               notes=s.notes)
        w = [(i, o[1], o[2], o[3]) for i, o in enumerate(ops) if o[0] == "write"] + \
            [(i, o[1], o[2], o[3]) for i, o in enumerate(ops) if o[0] == "buf"]
        to = filt if enc else mem
        ok = len(w) == 1 and w[0][1] is to and w[0][2].op == "ptr" and w[0][2].a[0].op in ("data", "cdata") and w[0][2].a[0].a[0] is arg and \
            w[0][2].a[1] is I(0) and length(w[0][3]) is a.I.size(arg)
        imp = looped or any(opaque_in(x) for o in w for x in o[2:])
        R.test("in", True if ok else None if imp else False, a.where, "written is %s" % ", ".join("%s of %s octets to the %s" % (sh(p)[:60], sh(n)[:60],
               "filter" if b is filt else "buffer" if b is mem else "?") for i, b, p, n in w), sample="all of it", notes=s.notes)
        if enc:
            last = max([i for i, o in enumerate(ops) if o[0] == "write"] or [-1])
            R.test("flush", any(o[0] == "ctrl" and o[1] is filt and o[2] is I(11) for o in ops[last + 1:]) or (None if looped else False), a.where,
                   "the filter is not flushed after the last write", sample="flushed", notes=s.notes)
        out(a, R, s, v, reads, mem if enc else filt, enc)
    if not seen:
        R.bad("out", a.where, "nothing is ever returned")
    for s, e in a.throws:
        R.test("out", None if s.notes else False, a.where, "a way out by exception")


def out(a, R, s, v, reads, frm, enc):
    if v is not None and v.op != "star":
        more = [t for t in reads if a.I.dom(s, t) is not None and t in s.dom and a.I.dom(s, t).lo() > 0 and mentions(v, lambda x: x.op == "phi" and x.a[0] in t.a[0])]
        if more:
            R.bad("out", a.where, "it returns from the loop right after a read gave %s octets" % a.I.dom(s, more[0]))
            return
    if v is None or v.op != "star":
        R.test("out", None if v is None or opaque_in(v) and v.op != "cz" else False, a.where, "the result is %s" % (sh(v)[:150] if v is not None else "?"), notes=s.notes)
        return
    L = a.I.loops.get(v.a[0])
    if L is None or v.a[1] not in getattr(L, "stars", {}):
        R.unsure("out", a.where, "the loop that collects the result is not understood")
        return
    w = "%s, loop at line %s" % (a.where, L.node.get("l"))
    R.test("out", L.init.get(v.a[1]) in (S(""), None), w, "the result starts as %s" % sh(L.init.get(v.a[1]) or v)[:80], notes=s.notes)
    mine = [t for t in reads if t.a and t.a[0] and L.lid in t.a[0]]
    for st, d in zip(L.altst, L.stars[v.a[1]]):
        ts = [t for t in mine if a.I.dom(st, t) is not None and (d is not None and mentions(d, lambda x: x is t) or t in st.dom)]
        if len(ts) != 1:
            R.unsure("out", w, "a turn does not visibly make one read")
            continue
        t = ts[0]
        R.test("out", reads[t][0] is frm, w, "what is read comes from %s" % sh(reads[t][0])[:80], sample="read back", notes=st.notes)
        D = a.I.dom(st, t)
        whole = d is not None and d.op == "bytes" and d.a[0] is T("bioread", t) and d.a[1] is I(0) and widecast(d.a[2]) is t
        ln = d is not None and d.op == "bytes" and d.a[0] is T("bioread", t) and d.a[1] is I(0) and widecast(d.a[2]) is add(t, I(-1)) and newline(st, t)
        none = d is S("") and D is not None and D.hi() is not None and D.hi() <= 0
        ok = whole or none or enc and (ln or d is S("") and D.hi() == 1 and newline(st, t))
        R.test("out", True if ok else None if d is None or d.op != "str" and not d.op == "bytes" else False, w, "a turn that reads %s octets adds %s" %
               (D, sh(d)[:150] if d is not None else "?"), sample=sh(d)[:100] if d is not None else None, notes=st.notes)
    for k, st in L.exits:
        ts = [t for t in mine if t in st.dom]
        if not ts:
            R.unsure("out", w, "a way out of the loop without a read")
            continue
        bad = [t for t in ts if a.I.dom(st, t).hi() is None or a.I.dom(st, t).hi() > 0]
        R.test("out", not bad, w, "the loop ends though a read gave %s octets" % [a.I.dom(st, t) for t in bad], sample="ends when a read gives nothing", notes=st.notes)


def length(n):
    """A length without the conversions that keep it (of texts shorter than 2 GB)."""
    while n.op == "cast" and n.a[0] >= 32:
        n = n.a[2]
    return n


def newline(st, t):
    return any(x.op == "atv" and mentions(x, lambda y: y is t) and d.size() == 1 and d.lo() == 10 for x, d in st.dom.items())
