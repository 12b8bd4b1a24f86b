"""C34: message headers are split without losing or changing text."""
from .sigparse import *

MSG = "DKIM::Message::"
HDR = "DKIM::Header::"
HREC = {"k": "rec", "repo": True, "n": "DKIM::Header"}
BLANK = frozenset([9, 32])


def wsset(x):
    """Octets of a set argument, as a frozenset of 0..255."""
    if isinstance(x, IS):
        return frozenset(c & 255 for c in range(-128, 256) if c in x)
    return frozenset(c & 255 for c in x)


def istrim(t, base, ws):
    """Is t the string base with the octets of ws removed from both ends?  True, False or None."""
    def isset(x, op, whole):
        return x.op == op and whole(x.a[0]) and frozenset(range(256)) - wsset(x.a[1]) == ws
    if t.op == "trim":
        return t.a[0] is base and wsset(t.a[1]) == ws
    if t.op == "sub" and t.a[0].op == "sub" and t.a[0].a[0] is base and t.a[0].a[1] is I(0):
        # the end first, then the beginning
        hi, lo = t.a[0].a[2], t.a[1]
        r = [x for x in subterms(hi) if isset(x, "rfindset", lambda y: y is base)]
        return bool(any(hi is add(x, I(1)) for x in r) and isset(lo, "findset", lambda y: y is t.a[0]) and t.a[2] is END_)
    if t.op != "sub" or t.a[0] is not base:
        return None if opaque_in(t) or t.op in ("strip", "filter", "map1") else False
    lo, hi = t.a[1], t.a[2]
    if not isset(lo, "findset", lambda x: x is base or x.op == "sub" and x.a[0] is base and x.a[1] is I(0)):
        return False
    r = [x for x in subterms(hi) if x.op == "rfindset" and frozenset(range(256)) - wsset(x.a[1]) == ws]
    for x in r:
        if x.a[0] is base and hi is add(x, I(1)):
            return True
        if x.a[0].op == "sub" and x.a[0].a[0] is base and x.a[0].a[1] is lo and x.a[0].a[2] is END_ and hi is add(add(x, lo), I(1)):
            return True
    return False


def header_line(prog, R):
    R.say("text", "Header::ParseLine appends the line to the field, after CRLF when the field has text already")
    R.say("name", "the name is the text before the first colon of the field with blanks trimmed, set once the first colon is seen; "
                  "the value starts right after that colon")
    fs = prog.fn(HDR + "ParseLine")
    if not fs:
        return R.unsure("text", HDR + "ParseLine", "not found")
    a = An(prog, fs[0])
    R.an(a)
    data = T("deref", a.ploc(0)) if unref(fs[0]["params"][0]["t"]).get("k") == "ptr" else a.ploc(0)
    e = a.entry()
    old = a.get(e, HDR + "GetHeader", a.this)
    oname, ooff = a.get(e, HDR + "GetName", a.this), a.get(e, HDR + "GetValueOffset", a.this)
    line = a.rd(e, data, unref(fs[0]["params"][0]["t"]))
    for s, v in a.rets:
        txt, name, off = a.get(s, HDR + "GetHeader", a.this), a.get(s, HDR + "GetName", a.this), a.get(s, HDR + "GetValueOffset", a.this)
        emp = same(a, s, a.I.size(old), I(0))
        want = {True: (line, T("cat", old, line)), False: (T("cat", old, S("\r\n"), line),)}.get(emp)
        R.test("text", None if want is None else txt in want, a.where, "the field becomes %s when it was %s" %
               (sh(txt), "empty" if emp else "not empty"), sample=sh(txt), notes=s.notes)
        seen = same(a, s, ooff, I(0))
        if seen is False:
            R.test("name", name is oname and off is ooff, a.where, "name or value offset change after the first colon: %s, %s" %
                   (sh(name)[:200], sh(off)[:100]), sample="kept", notes=s.notes)
            continue
        has = None
        for t, b in s.facts.items():
            if t.op in ("has", "hasin") and t.a[0] is txt and (t.a[1] is S(":") or t.op == "hasin" and wsset(t.a[1]) == {58}):
                has = b
        if seen is None or has is None:
            R.unsure("name", a.where, "colon seen before: %s, in the field: %s" % (seen, has))
        elif not has:
            R.test("name", name is oname and off is ooff, a.where, "without a colon the name becomes %s" % sh(name)[:200], sample="none", notes=s.notes)
        else:
            fd = [x for x in subterms(off) if x.op in ("find", "findset") and x.a[0] is txt]
            ok = fd and off is add(fd[0], I(1)) and (fd[0].a[1] in (S(":"),) or wsset(fd[0].a[1]) == {58}) and (len(fd[0].a) < 3 or fd[0].a[2] is I(0))
            R.test("name", bool(ok), a.where, "the value starts at %s" % sh(off)[:200], sample=sh(off), notes=s.notes)
            if ok:
                base = T("sub", txt, I(0), fd[0])
                R.test("name", istrim(name, base, BLANK), a.where, "the name is %s" % sh(name)[:600], sample=sh(name)[:200], notes=s.notes)


def cur_field(prog):
    rec = prog.recs.get("DKIM::Message") or {}
    fs = [f for f in rec.get("fields", []) if E.cls(f["t"]) in ("std::shared_ptr", "std::unique_ptr") or (f["t"] or {}).get("k") == "ptr"]
    return fs[0] if len(fs) == 1 else None


def message_line(prog, R):
    R.say("line", "Message::ParseLine reads one line and removes nothing from it but the terminator (LF or CRLF)")
    R.say("fields", "a line that starts with a blank continues the current field; any other line ends the current field, which is put after "
                    "the earlier ones, and starts a new one; no other field is added, changed or removed")
    R.say("end", "the empty line and the end of input put the current field after the earlier ones, exactly once, and end the header")
    R.say("body", "the body starts right behind the first empty line; at the end of input there is none")
    R.say("start", "a new message has no fields, no current field and is not done")
    f = prog.fn1(MSG + "ParseLine")
    cf = cur_field(prog)
    a = An(prog, f, extra={HDR + "ParseLine": hdr_contract})
    R.an(a)
    if cf is None:
        return R.unsure("fields", a.where, "the current field of Message is not recognised")
    cur = fld(a.this, cf["n"])
    e = a.entry()
    L0 = a.get(e, MSG + "GetHeaders", a.this)
    c0 = a.I.read(e, cur, cf["t"])
    src0 = a.I.read(e, fld(a.ploc(0), "#src"))
    for s, v in a.rets:
        L, done, off = a.get(s, MSG + "GetHeaders", a.this), a.get(s, MSG + "IsDone", a.this), a.get(s, MSG + "GetBodyOffset", a.this)
        has = holds(a, s, T("not", T("eq", T("null"), c0))) if T("eq", T("null"), c0) in s.facts else None
        has = None if T("eq", T("null"), c0) not in s.facts else not s.facts[T("eq", T("null"), c0)]
        dn = same(a, s, done, I(1))
        pos = a.I.read(s, fld(a.ploc(0), "#pos"))
        fail = a.I.const(s, a.I.read(s, fld(a.ploc(0), "#fail")))
        ln = [t for t in set(x for y in list(s.facts) + list(s.dom) + list(s.store.values()) for x in subterms(y)) if t.op == "line"]
        tag_ = "field" if has else "no field"
        app = L0 if not has else T("cat", L0, T("item", c0))
        if fail == 1:
            R.test("end", has is not None and L is app and dn is True, a.where, "at the end of input (%s) the fields are %s, done %s" %
                   (tag_, sh(L), sh(done)), sample=sh(L), notes=s.notes)
            R.test("body", same(a, s, off, I(-1)), a.where, "at the end of input the body starts at %s" % sh(off), sample="none", notes=s.notes)
            continue
        if len(ln) != 1:
            R.unsure("line", a.where, "line read not recognised: %s" % [sh(x) for x in ln][:3])
            continue
        ln = ln[0]
        R.test("line", ln.a[-1] in (10, I(10)), a.where, "lines end at %s" % sh(ln), notes=s.notes)
        n = a.I.size(ln)
        # the line without its terminator
        last = T("chat", ln, add(n, I(-1)))
        d = s.dom.get(last)
        empty = same(a, s, n, I(0))
        if empty:
            l2 = EMPTY
        elif d is None:
            R.unsure("line", a.where, "last octet of the line not looked at")
            continue
        elif d == IS.of([13]):
            l2 = T("sub", ln, I(0), add(n, I(-1)))
        elif 13 not in d:
            l2 = ln
        else:
            R.unsure("line", a.where, "last octet %s" % d)
            continue
        z = True if l2 is EMPTY else same(a, s, a.I.size(l2), I(0))
        if z is None:
            R.unsure("line", a.where, "whether the line is empty is not known")
            continue
        if z:
            R.test("end", has is not None and L is app and dn is True, a.where, "at the empty line (%s) the fields are %s, done %s" %
                   (tag_, sh(L), sh(done)), sample=sh(L), notes=s.notes)
            R.test("body", same(a, s, off, pos) or (None if opaque_in(off) else False), a.where, "the body starts at %s, the line ends at %s" % (sh(off), sh(pos)), sample=sh(off), notes=s.notes)
            R.test("body", pos.op == "nextline", a.where, "after the empty line the stream is at %s" % sh(pos), notes=s.notes)
            c = a.I.read(s, cur, cf["t"])
            continue
        fc = s.dom.get(T("chat", l2, I(0))) or s.dom.get(T("chat", ln, I(0)))
        blank = None if fc is None else True if fc <= IS.of([9, 32]) else False if not (fc & IS.of([9, 32])) else None
        if blank is None:
            # one treatment for lines that start with a blank and lines that do not
            R.test("fields", None if fc is None else False, a.where, "lines whose first octet is in %s are treated alike" % fc, notes=s.notes)
            continue
        R.test("fields", dn is False or same(a, s, done, a.get(e, MSG + "IsDone", a.this)), a.where, "a field line ends the header", notes=s.notes)
        c = a.I.read(s, cur, cf["t"])
        app = T("cat", L0, T("item", c0))
        if blank and has:
            R.test("fields", L is L0 and c is c0, a.where, "a continuation line leaves the fields %s, current %s" % (sh(L), sh(c)),
                   sample="continued", notes=s.notes)
        else:
            new = c is not c0 and c.op in ("ptr", "objref", "addr", "new") or c.op.startswith("obj:")
            want = L0 if has is False else app
            R.test("fields", has is not None and L is want and new, a.where, "a field line (%s) leaves the fields %s, current %s" %
                   (tag_, sh(L), sh(c)), sample=sh(L), notes=s.notes)
        # the text added
        add_ = [t for t in s.facts if t.op == "hline"]
        R.test("line", any(t.a[1] is l2 and (t.a[0] is T("deref", c) or a.I.deref(c) is t.a[0]) for t in add_) and len(add_) == 1 or
               (None if not add_ else False), a.where, "the line added to the current field %s is %s, the line read %s" %
               (sh(c), [sh(t.a[1])[:200] for t in add_], sh(l2)), sample=sh(l2), notes=s.notes)
    # initial state
    for q in (MSG + "Message", MSG + "Reset"):
        for f in prog.fn(q):
            if f["params"]:
                continue
            b = An(prog, f)
            R.an(b)
            for s, v in b.rets:
                L, done = b.get(s, MSG + "GetHeaders", b.this), b.get(s, MSG + "IsDone", b.this)
                c = b.I.read(s, fld(b.this, cf["n"]), cf["t"])
                R.test("start", same(b, s, b.I.size(L), I(0)) is True and same(b, s, done, I(0)) is True and c in (T("null"), T("nil")),
                       b.where, "fields %s, current %s, done %s" % (sh(L), sh(c), sh(done)), sample="empty", notes=s.notes)


def hdr_contract(I_, st, c):
    """Header::ParseLine: the line is added to the field (its own rules are checked separately)."""
    from .. import models as M
    st = st.copy()
    st.facts[T("hline", c.obj, c.v(st, 0))] = True
    t = T("hlineret", c.v(st, 0))
    E.TR.setdefault(t, IS.rng(0, 1))
    return [(st, t)]


def readers(prog, R):
    """The whole header is read before it is used."""
    R.say("all", "the verifier and the signer read lines until the message says it is done or there are no more")
    b = An(prog, prog.fn1(MSG + "IsDone"), this=T("obj", "m"))
    v = b.rets[0][1] if len(b.rets) == 1 else None
    done = v.a[0].a[1] if v is not None and v.op == "init" and v.a[0].op == "fld" else None
    if done is None:
        return R.unsure("all", b.where, "how a message says that it is done is not recognised")
    for q in ("DKIM::Validatory::Validatory", "DKIM::Signatory::CreateSignature"):
        for f in prog.fn(q):
            a = An(prog, f, extra={MSG + "ParseLine": line_contract(done)})
            R.an(a)
            n = 0
            for L in a.I.loops.values():
                if not any(t.op == "lineread" for st in L.altst for t in list(st.facts) + list(st.dom)):
                    continue
                for kind, s in L.exits:
                    n += 1
                    ok = any((t.op == "lineread" and b is False) for t, b in s.facts.items()) or \
                        any(t.op == "lineread" and d == IS.of([0]) for t, d in s.dom.items()) or \
                        any(t.op in ("linedone",) and d == IS.of([1]) for t, d in s.dom.items()) or done_known(a, s)
                    R.test("all", bool(ok), "%s loop %s" % (a.where, L.lid.split(":")[-1]),
                           "the header is left before it was read completely", sample="until done", notes=s.notes)
            if not n:
                R.unsure("all", a.where, "no loop that reads the header was recognised")


def done_known(a, s):
    for t, d in s.dom.items():
        if (t.op == "linedone" or mentions(t, lambda x: x.op == "linedone")) and d == IS.of([1]):
            return True
    # done before the first line was asked for: IsDone of the message as it was
    m = msg_loc(a)
    if m is None:
        return False
    v = a.get(s, MSG + "IsDone", m)
    return v is not None and same(a, s, v, I(1)) is True


def msg_loc(a):
    rec = a.prog.recs.get(a.fn.get("cls")) or {}
    fs = [f for f in rec.get("fields", []) if (unref(f["t"]) or {}).get("n") == "DKIM::Message"]
    return fld(a.this, fs[0]["n"]) if len(fs) == 1 else None


def line_contract(done):
    """Message::ParseLine: changes the message; false only when it is done."""
    def h(I_, st, c):
        st = st.copy()
        I_.kill(st, c.obj)
        lr = T("lineread", I_.fresh("l", c.node))
        E.TR.setdefault(lr, IS.rng(0, 1))
        dn = T("linedone", lr)
        E.TR.setdefault(dn, IS.rng(0, 1))
        st.store[fld(c.obj, done)] = dn
        return [(st, lr)]
    return h


def check(prog, R):
    R.assumes("the position std::istream::tellg() reports behind a line is where the next character is read")
    header_line(prog, R)
    message_line(prog, R)
    readers(prog, R)
