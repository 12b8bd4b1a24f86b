"""C18: signing and verifying can be repeated on the same object."""
from .signer import *
from ..effects import written_globals
from ..contracts import canon_body
from . import bodycanon

OWNERS = ("DKIM::Validatory", "DKIM::Signatory")
PARSE = MSG + "ParseLine"


def base(loc):
    """Location a field path starts from."""
    while loc.op == "fld":
        loc = loc.a[0]
    return loc


def is_stream(t):
    return (unref(t) or {}).get("n", "").startswith("std::") and "istream" in (unref(t) or {}).get("n", "")


def streams(a):
    """What the object's stream members designate."""
    rec = a.prog.recs.get(a.fn.get("cls")) or {}
    out = []
    for f in rec.get("fields", []):
        if is_stream(f["t"]) or f["t"].get("k") == "ptr" and is_stream(f["t"].get("to")):
            out.append((fld(a.this, f["n"]), f["t"]))
    return out


def left_over(t, streams_):
    """Position or flags of the object's stream as an earlier call left them."""
    return t.op == "init" and t.a[0].op == "fld" and str(t.a[0].a[1]) in ("#pos", "#fail", "#eof", "#bad", "#gcount") and \
        any(mentions(t, lambda y: y is z) for z in streams_)


def changed(a, s, streams_, donef):
    """What the state changes of the object, and of the fields of the message: [(what, value)]."""
    out = []
    own = [a.ploc(i) for i in range(len(a.fn["params"]))]
    for k, v in s.store.items():
        if v is T("init", k) or k is donef and v is I(1):
            continue
        if any(k is x or mentions(k, lambda y: y is x) for x in streams_):
            continue
        b = base(k)
        if b is a.this:
            out.append((k, v))
        elif b.op in ("deref", "refd") and (mentions(b, lambda y: y is a.this) or any(mentions(b, lambda y: y is x) for x in own)):
            # what the object or an argument points to (the argument itself is the caller's)
            out.append((k, v))
    return out


def done_field(prog):
    m = An(prog, prog.fn1(MSG + "IsDone"), this=T("obj", "m"))
    v = m.rets[0][1] if len(m.rets) == 1 else None
    return v.a[0].a[1] if v is not None and v.op == "init" and v.a[0].op == "fld" else None


def parsed_again(prog, done):
    """Does Message::ParseLine leave a finished message alone, and say so?"""
    f = prog.fn(PARSE)
    if not f or done is None:
        return False

    def pre(a, st):
        st.store[fld(a.this, done)] = I(1)
    a = An(prog, f[0], pre=pre, extra={HDR + "ParseLine": hdr_contract})
    for s, v in a.rets + a.throws:
        if any(mentions(k, lambda y: y is a.this) and x is not T("init", k) and not (k is fld(a.this, done) and x is I(1)) for k, x in s.store.items()):
            return False
        if any(mentions(k, lambda y: y is a.ploc(0)) for k in s.store) or any(t.op == "hline" for t in s.facts):
            return False
    return all(v is I(0) for s, v in a.rets) and not a.throws


def check(prog, R):
    R.assumes("a resolver the caller installs does not change the validator it is called for")
    R.say("members", "no operation of a signer or validator changes a member of its object or a header field of its message, on any way out "
                     "(the stream's position and error flags aside), once the message has been read")
    R.say("position", "no result depends on where an earlier call left the stream, or on its error flags")
    R.say("body", "the body is read from the object's own stream, at the body offset of the object's own message")
    R.say("statics", "no operation writes a global or function-static object")
    R.say("rewind", "the body routine clears the stream's error flags before it seeks, and seeks to the offset it is given before it reads")
    done = done_field(prog)
    quiet = parsed_again(prog, done)

    def parse(I_, st, c):
        if quiet and I_.const(st, I_.read(st, fld(c.obj, done))) == 1:
            return [(st, I(0))]
        return line_contract(done)(I_, st, c)
    n = 0
    glob = written_globals(prog)
    owned = set()
    for cls in OWNERS:
        ops = [f for f in prog.fns.values() if f.get("cls") == cls and f.get("body") is not None and f["q"].split("::")[-1].lstrip("~") != cls.split("::")[-1]
               and f["access"] == "public" and not f.get("static") and not f.get("cm")]
        for f in sorted(ops, key=lambda f: f["line"]):
            calls = []

            def body(I_, st, c):
                calls.append((st, c.args[0], c.v(st, 2)))
                return canon_body(I_, st, c)

            def pre(a, st):
                m = msg_loc(a)
                if done and m is not None:
                    st.store[fld(m, done)] = I(1)
            extra = {PARSE: parse, bodycanon.FN: body}
            if f["q"] == CREATE:
                rs = [a for _, a in runs(prog, R, extra)]
            else:
                rs = [An(prog, f, extra=extra, pre=pre)]
                R.an(rs[0])
            for a in rs:
                a.e0 = a.entry()
                n += 1
                ss = [y for x, t in streams(a) for y in (x, T("refd", x), a.I.read(a.e0, x, t))]
                seen = {}

                def dep(t):
                    if t not in seen:
                        seen[t] = mentions(t, lambda y: left_over(y, ss))
                    return seen[t]
                for s, v in a.rets + [(s, None) for s, e in a.throws]:
                    ch = changed(a, s, ss, fld(msg_loc(a), done) if done and msg_loc(a) is not None else None)
                    R.test("members", not ch, a.where, "%s becomes %s" % (sh(ch[0][0])[:120], sh(ch[0][1])[:120]) if ch else "", sample="unchanged")
                    vs = ([v] if v is not None else []) + list(s.facts) + list(s.dom)
                    bad = [x for x in vs if dep(x)]
                    R.test("position", not bad, a.where, "the result depends on %s" % (sh(bad[0])[:200] if bad else ""), sample="independent")
                m = msg_loc(a)
                for st, loc, off in calls:
                    good = any(loc is T("deref", x) or loc is x for x in ss)
                    R.test("body", True if good else None if opaque_in(loc) else False, a.where, "the body is read from %s" % sh(loc)[:120], sample=sh(loc)[:80])
                    if m is not None:
                        want = a.get(a.e0, MSG + "GetBodyOffset", m)
                        R.test("body", same(a, st, off, want) or (None if opaque_in(off) else False), a.where, "the body is read from offset %s" % sh(off)[:120], sample=sh(off)[:80])
    for g, rule, cond, w, what, notes in bodycanon.Body(prog).obs:
        if rule == "start":
            R.test("rewind", cond, w, what, sample=what or None, notes=notes)
    for name, ws in sorted(glob.items()):
        for fn, kind, node in ws:
            if kind != "observer" and fn["file"].startswith("src/"):
                R.bad("statics", "%s:%s %s" % (fn["file"], node.get("l"), fn["q"]), "writes the global or static object %s (%s)" % (name, kind))
    R.test("statics", True, "library", "", sample="%d functions" % len(prog.fns))
    if n == 0:
        raise ir.AnalysisError("no operation of %s found" % (OWNERS,))
