"""C41: white-space scanning never swallows input it does not return.

Every way out of the scanner is judged for every kind of white space it may have been asked for: the string returned is, piece by
piece, the text between the position at the start and the position at the end (text collected by a loop: by induction over its
turns), and it has the form of the kind asked for."""
from ..q import *
from .. import ir
from ..linear import entails
from ..models import POS, s_src
from ..span import Spans

FN = "DKIM::Tokenizer::ReadWhiteSpace"
WS = IS.of([9, 32])
LOOSE = IS.of([9, 10, 13, 32])


def check(prog, R):
    R.say("exact", "on every return the string returned is exactly the text between the position before and the position after the call "
                   "(nothing returned: the position is where it was)")
    R.say("kind", "only white space of the requested kind is returned (folding white space: WSP, or CRLF followed by WSP)")
    R.say("none", "nothing is returned only where there is no white space of the requested kind")
    R.say("cr", "when line ends are recognized, every return has seen that a CR at the place of a line end is followed by LF; the alternative is a permanent error")
    for f in prog.fn(FN):
        scan(prog, R, f)


def scan(prog, R, f):
    ks = (unref(f["params"][1]["t"]) or {}).get("consts", []) if len(f["params"]) == 2 else []
    kinds = {v: n.split("::")[-1] for n, v in ks}
    if not kinds:
        raise ir.AnalysisError("%s no longer takes (stream, kind)" % FN)
    a = An(prog, f, extra={"#notrack": True})
    R.an(a)
    strm = a.ploc(0)
    src, pos0 = T("init", fld(strm, "#src")), T("init", fld(strm, POS))
    kind = a.ploc(1)
    S_ = Spans(a, strm, src)
    for s, e in a.throws:
        R.test("cr", e.ty == PERM and any(known_bad_cr(a, s, t, src) for t in s.dom), a.where, "an error (%s) is raised although no CR without LF was seen" % e.ty, notes=s.notes)
    for s, v in a.rets:
        end = s.store.get(fld(strm, POS), pos0)
        for k in sorted(kinds):
            if k not in a.I.dom(s, kind):
                continue
            judge(R, a, S_, s, v, src, pos0, end, kinds[k])


def known_bad_cr(a, s, t, src):
    return t.op == "ch" and t.a[0] is src and a.I.dom(s, t) == IS.of([13]) and 10 not in a.I.dom(s, T("ch", src, add(t.a[1], I(1))))


def judge(R, a, S_, s, v, src, pos0, end, kind):
    w = "%s (%s)" % (a.where, kind)
    pcs = S_.pieces(v)

    def eq(x, y):
        return x is y or same(a, s, x, y) is True or entails(a, s, sub(x, y), S_.lemma) and entails(a, s, sub(y, x), S_.lemma)
    if pcs is None:
        R.test("exact", False if S_.lost else None, w, "cannot tell what is returned: %s" % shn(v), notes=s.notes)
        return

    def dom(p):
        """What is known of the octet at p, wherever the position is written differently."""
        d = a.I.dom(s, T("ch", src, p))
        for t, k in s.dom.items():
            if t.op == "ch" and t.a[0] is src and t.a[1] is not p and eq(t.a[1], p):
                d = d & k
        return d
    # line ends written out instead of copied
    pcs2, at = [], pos0
    ok = True
    chars = []
    for p in pcs:
        if p.kind == "str":
            for c in p.term.a[0]:
                ok = ok and a.I.dom(s, T("ch", src, at)) == IS.of([ord(c)])
                chars.append(("ch", IS.of([ord(c)])))
                at = add(at, I(1))
            continue
        ok = ok and eq(p.lo, at)
        at = p.hi
        chars.append((p.kind, p.dom(a, s), p))
    moved = eq(at, end)
    if v is EMPTY:
        R.test("exact", moved, w, "nothing is returned but the position moves from %s to %s" % (shn(pos0), shn(end)), notes=s.notes)
    else:
        R.test("exact", bool(ok and moved), w, "%s is returned but the text read is that from %s to %s" % (shn(v), shn(pos0), shn(end)), notes=s.notes)
    # the kind of white space
    bad = None
    crlf = False
    if kind in ("READ_WSP", "READ_WSP_LOOSE"):
        allowed = WS if kind == "READ_WSP" else LOOSE
        for c in chars:
            if c[1] is None:
                bad = bad or "?"
            elif not c[1] <= allowed:
                bad = c[1]
    elif kind == "READ_CRLF":
        if chars and [c[1] for c in chars] != [IS.of([13]), IS.of([10])]:
            bad = "not a line end"
    else:
        i = 0
        while i < len(chars):
            d = chars[i][1]
            if d is None:
                bad = bad or "?"
            elif d <= WS:
                pass
            elif chars[i][0] == "ch" and d == IS.of([13]) and i + 2 < len(chars) and chars[i + 1][1] == IS.of([10]) and folded(a, s, S_, chars, i + 2, src, end, dom):
                crlf = True
                i += 1
            else:
                bad = d
            i += 1
    R.test("kind", None if bad == "?" else bad is None, w, "%s may contain %s" % (shn(v), bad), notes=s.notes)
    # nothing returned
    first = dom(pos0)
    pairs = [t for t in s.dom if t.op == "ch" and t.a[0] is src and a.I.dom(s, t) == IS.of([13])]
    unfold = [t for t in pairs if dom(add(t.a[1], I(1))) == IS.of([10]) and not (dom(add(t.a[1], I(2))) & WS)]
    empty = v is EMPTY or all(p.kind == "run" and eq(p.hi, p.lo) for p in pcs)
    if v is EMPTY:
        if kind == "READ_FWS":
            none = not (first & IS.of([9, 13, 32])) or bool(unfold)
        else:
            none = not (first & {"READ_WSP": WS, "READ_WSP_LOOSE": LOOSE, "READ_CRLF": IS.of([13])}.get(kind, LOOSE))
        R.test("none", none, w, "nothing is returned although there may be white space", notes=s.notes)
    elif not any(c[0] == "ch" for c in chars):
        # may be empty: then the loops have seen that there is none
        d = dom(end)
        R.test("none", not (d & (LOOSE if kind == "READ_WSP_LOOSE" else WS)), w, "scanning can stop at white space", notes=s.notes)
    # CR without LF
    if kind in ("READ_CRLF", "READ_FWS"):
        for t in pairs:
            R.test("cr", a.I.dom(s, T("ch", src, add(t.a[1], I(1)))) == IS.of([10]), w, "a CR without LF is passed over", notes=s.notes)
        if not crlf and kind == "READ_FWS" and not unfold or kind == "READ_CRLF" and v is EMPTY:
            d = dom(end)
            R.test("cr", 13 not in d, w, "scanning ends at a CR without looking for its LF", notes=s.notes)
    _ = empty


def folded(a, s, S_, chars, i, src, end, dom):
    """Is the text after a line end known to start with white space?"""
    d = chars[i][1]
    if d is None or not d <= WS:
        return False
    if chars[i][0] == "ch":
        return True
    # collected by a loop: white space was seen at its start and something else at its end
    p = chars[i][2]
    if entails(a, s, sub(I(1), T("size", p.term)), S_.lemma):
        return True
    d = dom(p.lo) if p.lo is not None else IS.rng(-1, 255)
    return d <= WS and not (dom(p.hi) & d)


def shn(t):
    return "nothing" if t is None else sh(t)[:160]
