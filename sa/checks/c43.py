"""C43: colon-separated lists keep their entries whole and in order.

One turn of the outer loop is read as a sequence of steps over the text: white space, the text of an entry (collected by a loop that
holds white space back until a character follows), and the colon. Every turn must add exactly the entry it read, at the end."""
from ..q import *
from ..span import Spans
from ..models import POS

FN = "DKIM::Tokenizer::ValueList"


def check(prog, R):
    R.say("turn", "every turn reads white space, one entry and a colon, in this order and nothing else")
    R.say("entry", "the text of an entry is collected whole: every turn of the collecting loop keeps what it read, in order, with white space only between characters")
    R.say("trim", "an entry starts where no white space starts and ends before a colon or the end of the input")
    R.say("append", "the entry read, and nothing else, is added at the end of the list; it is not empty")
    R.say("end", "the list is complete only at the end of the input")
    R.say("error", "an error is a permanent error and comes from an empty entry or from malformed white space")
    for f in prog.fn(FN):
        Values(prog, R, f)


def shn(t):
    return "nothing" if t is None else sh(t)[:160]


class Values:
    def __init__(self, prog, R, f):
        self.R = R
        a = self.a = An(prog, f, without=(FN,), extra={"#notrack": True, "#gone": True}, frame_min=200)
        R.an(a)
        self.inp = T("init", a.ploc(0))
        strm = None
        for L in a.I.loops.values():
            for k in L.changed:
                if k.op == "fld" and k.a[1] == POS:
                    strm = k.a[0]
        if strm is None:
            R.test("turn", None, a.where, "the input is not read from a stream")
            return
        self.S = Spans(a, strm, self.inp)
        self.pos = self.S.pos
        self.done = set()
        for s, v in a.rets:
            ps = parts(v)
            if v.op == "nil":
                # no entry: at the end
                continue
            ph = [x for x in ps if x.op in ("star", "phi")]
            if not ph or a.I.loops.get(ph[0].a[0]) is None:
                R.test("append", None, a.where, "the result is not collected by a loop: %s" % shn(v), notes=s.notes)
                continue
            L = a.I.loops[ph[0].a[0]]
            self.lst = ph[0].a[1]
            if L.lid not in self.done:
                self.done.add(L.lid)
                self.over(L)
            if ps[0].op == "phi" and ps[0] is ph[0]:
                end = s.store.get(T("gone", self.pos))
                if end is None:
                    R.test("turn", None, a.where, "cannot tell where reading ends", notes=s.notes)
                else:
                    self.turn(L, s, list(ps[1:]), end, self.S.phi(L, self.pos), a.where, True)
                continue
            R.test("append", ps[0] is ph[0] and tuple(ps[1:]) in self.final, a.where, "the result is %s, not the list collected" % shn(v), notes=s.notes)
        for s, e in a.throws:
            sizes = [t for t in s.dom if t.op == "size" and t.a[0].op in ("star", "cat") and a.I.dom(s, t) == IS.of([0])]
            ws = (e.fn or "").endswith("ReadWhiteSpace")
            R.test("error", e.ty == PERM and (ws or bool(sizes) or any(v is True and k.op == "eq" and EMPTY in k.a for k, v in s.facts.items())), a.where,
                   "%s is raised although no entry is empty" % e.ty, notes=s.notes)

    def over(self, L):
        a, R = self.a, self.R
        w = "%s (loop at line %s)" % (a.where, L.lid.split("#")[0].split(":")[-1])
        R.test("append", L.init.get(self.lst) is not None and L.init[self.lst].op == "nil", w, "the list starts as %s" % shn(L.init.get(self.lst)))
        R.test("turn", L.init.get(self.pos) is I(0), w, "reading starts at %s" % shn(L.init.get(self.pos)))
        ph, pp = self.S.phi(L, self.lst), self.S.phi(L, self.pos)
        self.final = set()
        turns = [(alt, st, False) for alt, st in zip(L.alts, L.altst)] + [(st.store, st, True) for k, st in L.exits]
        for alt, st, last in turns:
            v = alt.get(self.lst, ph)
            ps = parts(v)
            if not ps or ps[0] is not ph and not (last and ps[0] is T("star", L.lid, self.lst)):
                R.test("append", False, w, "the list becomes %s" % shn(v), notes=st.notes)
                continue
            if last:
                self.final.add(tuple(ps[1:]))
            self.turn(L, st, list(ps[1:]), alt.get(self.pos, pp), pp, w, last)

    def turn(self, L, st, items, end, start, w, last):
        a, R, S_ = self.a, self.R, self.S
        ch = S_.chain(end, start)
        where = w
        if ch is None:
            R.test("turn", None, where, "cannot follow the position from %s to %s" % (shn(start), shn(end)), notes=st.notes)
            return
        # white space first
        i = 0
        while i < len(ch) and (ch[i][0] == "fws" or ch[i][0] == "ch" and a.I.dom(st, T("ch", self.inp, ch[i][1])) <= S_.WS or ch[i][0] == "loop" and S_.skips(ch[i][1])):
            i += 1
        at = self.at(ch, i, start, end)
        rest = ch[i:]
        if last:
            R.test("end", self.a.I.dom(st, T("ch", self.inp, end)) == IS.of([-1]), where, "the list is complete before the end of the input", notes=st.notes)
            if not rest:
                R.test("append", not items, where, "%s is added where no entry was read" % [shn(x) for x in items], notes=st.notes)
                return
        # the entry
        if not rest or rest[0][0] != "loop":
            R.test("turn", None if mentions(end, lambda x: opaque_in(x)) else False, where, "after the white space %s is read, not an entry" % (rest[0][0] if rest else "nothing"), notes=st.notes)
            return
        Lv = rest[0][1]
        R.test("trim", S_.nows(st, at), where, "an entry may start with white space", notes=st.notes)
        if len(items) != 1 or items[0].op != "item":
            R.test("append", False, where, "a turn adds %d entries" % len(items), notes=st.notes)
            return
        v = items[0].a[0]
        if v.op != "star" or v.a[0] != Lv.lid:
            R.test("append", False if v.op == "cz" or not opaque_in(v) else None, where, "the entry read is not what is added: %s" % shn(v), notes=st.notes)
            return
        R.test("append", a.I.dom(st, T("size", v)).lo() >= 1, where, "an empty entry is added", notes=st.notes)
        for ok, what, notes in S_.collects(Lv, v.a[1]):
            R.test("entry", ok, "%s (loop at line %s)" % (a.where, Lv.lid.split("#")[0].split(":")[-1]), what, notes=notes)
        stop = S_.phi(Lv, self.pos)
        d = a.I.dom(st, T("ch", self.inp, stop))
        R.test("trim", d <= IS.of([58, -1]), where, "an entry can end before %s" % d, notes=st.notes)
        # the colon
        after = rest[1:]
        if last:
            R.test("turn", not after, where, "something is read after the last entry", notes=st.notes)
        else:
            R.test("turn", len(after) == 1 and after[0][0] == "ch" and d == IS.of([58]), where, "an entry is not followed by exactly one colon", notes=st.notes)
        for k, st2 in [(k, s2) for alt, s2, ss in S_.steps(Lv) for k in (ss or ())]:
            if k[0] == "ch":
                R.test("turn", 58 not in a.I.dom(st2, T("ch", self.inp, k[1])), where, "a colon can become part of an entry", notes=st2.notes)

    def at(self, ch, i, start, end):
        """Position before step i."""
        S_ = self.S
        if i == len(ch):
            return end
        k, x = ch[i]
        return x if k in ("ch", "fws") else x.init[self.pos]
