"""C24: DNS answers are parsed within the bytes received."""
from ..q import *
from .. import roots
from ..linear import entails
from .c22 import region, beyond

HDR = 12     # size of the fixed header of an answer


def check(prog, R):
    R.say("read", "every byte read from the answer lies within the answer received, apart from the fixed header, which lies within the buffer")
    R.say("copy", "every string copied from the answer lies within the answer received")
    R.say("skip", "a domain name is skipped only between the start of the answer and the end of what was received")
    R.say("fits", "the answer is parsed only if what was received fits the buffer")
    R.assumes("dn_skipname reads only between its two pointers and returns a negative number or the bytes skipped",
              "the resolver writes no more than the buffer size it was given")
    n = 0
    for f in roots.library(prog):
        if not asks(prog, f):
            continue
        a = An(prog, f)
        R.an(a)
        n += bounds(R, a)
    if not n:
        R.unsure("read", "src/", "no function that reads a DNS answer was found")


def asks(prog, f):
    """Does f (or what it calls directly) send a DNS query?"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g["m"] in seen or g.get("body") is None:
            continue
        seen.add(g["m"])
        hit = []

        def see(x):
            q = (x.get("fn") or {}).get("q") or ""
            if x.get("e") in ("call", "mcall") and q.lstrip("_") in ("res_nquery", "res_query", "res_nsearch", "res_search"):
                hit.append(x)
            if x.get("e") in ("call", "mcall") and (x.get("fn") or {}).get("m") in prog.fns:
                h = prog.fns[x["fn"]["m"]]
                # only helpers, other public functions are judged on their own
                if h["access"] in ("private", "protected") or not h.get("hdr"):
                    todo.append(h)
        ir.walk(g["body"], see)
        if hit:
            return True
    return False


def unfollowed(t):
    """Does the term contain something of unknown origin?  Loop variables are followed by induction (linear.py)."""
    return mentions(t, lambda x: x.op in ("star", "join", "ent") or (x.op == "sym" and not {"skip", "resq"} & set(x.a)))


def bounds(R, a):
    ans = {}
    for kind, st, d, c in a.I.log:
        if kind == "answer" and d[0].op == "ptr":
            ans[d[0].a[0]] = (d[0].a[1], d[1], d[2])
    done = set()

    def say(rule, st, r, w, what):
        k = (rule, w, what, r)
        if k in done:
            return
        done.add(k)
        R.test(rule, r, w, what, sample=what[:200], notes=st.notes)

    def le(st, x, op=None):
        return True if entails(a, st, x) else beyond(a, st, x, unfollowed(op if op is not None else x))

    def both(*rs):
        if all(r is True for r in rs):
            return True
        return False if any(r is False for r in rs) else None

    def of(p):
        p = uncast(p) if p is not None else None
        if p is not None and p.op == "ptr" and p.a[0] in ans:
            return p.a[0], p.a[1], ans[p.a[0]]
        return None, None, None

    for kind, st, d, c in a.I.log:
        if kind == "aidx":
            reg, off, an = of(d[2])
            if reg is None:
                continue
            base, ln, got = an
            w = "%s (%s)" % (a.where, d[3].get("sid", "").split("#")[0])
            end = add(base, got)
            if off.op == "int" and 0 <= off.a[0] < HDR:
                r = True
            else:
                r = both(le(st, sub(base, off), off), le(st, add(sub(off, end), I(1)), off))
            say("read", st, r, w, "byte %s of an answer of %s bytes" % (sh(off)[:200], sh(got)[:60]))
        elif kind in ("read", "memcmp"):
            ps = [(d[1], d[2], d[0])] if kind == "read" else [(d[0], d[2], kind), (d[1], d[2], kind)]
            for p, n, q in ps:
                reg, off, an = of(p)
                if reg is None:
                    continue
                base, ln, got = an
                w = "%s (in %s)" % (a.where, c.where())
                n = widecast(n)
                r = both(le(st, sub(base, off), off), le(st, sub(add(off, n), add(base, got)), T("x", off, n)), le(st, mulc(n, -1), n))
                say("copy", st, r, w, "%s of %s bytes at %s of an answer of %s bytes" % (q, sh(n)[:160], sh(off)[:160], sh(got)[:60]))
        elif kind == "skip":
            x, y, t = d
            rx, ox, an = of(x)
            ry, oy, an2 = of(y)
            w = "%s (in %s)" % (a.where, c.where())
            if rx is None and ry is None:
                say("skip", st, None, w, "dn_skipname of %s" % sh(x)[:100])
                continue
            if rx is not ry:
                say("skip", st, None, w, "dn_skipname between different regions")
                continue
            base, ln, got = an
            r = both(le(st, sub(base, ox), ox), le(st, sub(oy, add(base, got)), oy))
            say("skip", st, r, w, "dn_skipname from %s to %s of an answer of %s bytes" % (sh(ox)[:160], sh(oy)[:60], sh(got)[:60]))
            room = region(a, st, T("ptr", rx, base))
            say("fits", st, None if room is None else le(st, sub(got, room)), w, "an answer of %s bytes in a buffer of %s" % (sh(got)[:60], sh(room)[:60] if room is not None else "?"))
    return len(ans)
