"""C28: tag lists follow the grammar and keep values intact.

One turn of the outer loop of the parser is read as a sequence of steps over the text: white space, a name, white space, "=", white
space, a value (collected by a loop that holds white space back until a character follows), and ";". Every turn must store exactly the
pair it read."""
from ..q import *
from ..span import Spans
from ..models import POS

FN = "DKIM::TagList::Parse"
ALNUM = IS([(48, 57), (65, 90), (97, 122)])
NAME = IS([(48, 57), (65, 90), (95, 95), (97, 122)])
VALCHAR = IS([(0x21, 0x3A), (0x3C, 0x7E)])
WS = IS.of([9, 10, 13, 32])


def check(prog, R):
    R.say("turn", "every turn reads white space, a name, white space, =, white space, a value and ; in this order and nothing else")
    R.say("name", "a name is not empty, starts with a letter or digit and continues with letters, digits and underscores")
    R.say("value", "a value is collected whole: every turn of the collecting loop keeps what it read, in order, with white space only between characters")
    R.say("chars", "a value consists of printable ASCII other than ; and of white space")
    R.say("trim", "a value starts where no white space starts and ends before ; or the end of the input")
    R.say("store", "the value read and the position it starts at, and nothing else, are stored under the name read")
    R.say("twice", "nothing is stored under a name already in the list")
    R.say("end", "parsing ends only at the end of the input")
    R.say("error", "a malformed list raises a permanent error")
    R.say("refuse", "a list is refused only for an empty or repeated name, a missing =, or an octet that cannot be in a value")
    R.say("get", "looking a tag up finds exactly what was stored under its name")
    R.say("reset", "a reset list is empty")
    for f in prog.fn(FN):
        TagParse(prog, R, f)
    for f in prog.fn("DKIM::TagList::GetTag"):
        lookup(prog, R, f)
    for f in prog.fn("DKIM::TagList::Reset"):
        reset(prog, R, f)


def shn(t):
    return "nothing" if t is None else sh(t)[:160]


def tagsloc(prog, a):
    for x in prog.recs["DKIM::TagList"]["fields"]:
        if "map" in (x["t"].get("n") or ""):
            return fld(a.this, x["n"])
    return None


def lookup(prog, R, f):
    a = An(prog, f)
    R.an(a)
    m = tagsloc(prog, a)
    if m is None:
        R.test("get", None, a.where, "the tags are not kept in a map")
        return
    m = T("init", m)
    name = T("init", a.ploc(0))
    for s, v, r in [(s2, v, r) for s, v in a.rets for s2, r in a.I.truth(s, v)]:
        b = s.facts.get(T("has", m, name))
        if b is None:
            R.test("get", None if s.notes or opaque_in(v) else False, a.where, "the result is %s without looking the name up" % shn(v), notes=s.notes)
            continue
        R.test("get", r == b, a.where, "the result is %s where the name is %sin the list" % (shn(v), "" if b else "not "), notes=s.notes)
        if b:
            for x in prog.recs["DKIM::TagListEntry"]["fields"]:
                v = a.I.read(s, fld(a.ploc(1), x["n"]), x["t"])
                R.test("get", v is T("get", T("mget", m, name), x["n"]), a.where, "%s of the entry found is %s" % (x["n"], shn(v)), notes=s.notes)
    for s, e in a.throws:
        R.test("get", False, a.where, "%s is raised" % e.ty, notes=s.notes)


def reset(prog, R, f):
    a = An(prog, f)
    R.an(a)
    m = tagsloc(prog, a)
    for s, v in a.rets:
        x = s.store.get(m)
        R.test("reset", x is not None and x.op in ("nil", "mnil", "mempty"), a.where, "the tags become %s" % shn(x), notes=s.notes)


class TagParse:
    def __init__(self, prog, R, f):
        self.R = R
        a = self.a = An(prog, f, without=(FN,), extra={"#notrack": True, "#gone": True}, frame_min=200)
        R.an(a)
        self.inp = T("init", a.ploc(0))
        self.tags = tagsloc(prog, a)
        self.fields = prog.recs["DKIM::TagListEntry"]["fields"]
        strm = None
        for L in a.I.loops.values():
            for k in L.changed:
                if k.op == "fld" and k.a[1] == POS:
                    strm = k.a[0]
        if strm is None or self.tags is None:
            R.test("turn", None, a.where, "the input is not read from a stream")
            return
        self.S = Spans(a, strm, self.inp)
        self.pos = self.S.pos
        Ls = [L for L in a.I.loops.values() if self.tags in L.changed]
        if len(Ls) != 1:
            R.test("turn", None, a.where, "the tags are stored by %d loops" % len(Ls))
            return
        L = Ls[0]
        final = self.over(L)
        for s, v in a.rets:
            x = s.store.get(self.tags)
            if x is None:
                R.test("end", None if s.notes else False, a.where, "parsing ends without reading", notes=s.notes)
                continue
            end = s.store.get(T("gone", self.pos))
            if x not in final and end is not None:
                self.turn(L, s, x, end, a.where, True)
                continue
            R.test("store", x in final, a.where, "the list becomes %s at the end" % shn(x), notes=s.notes)
        for s, e in a.throws:
            R.test("error", e.ty == PERM, a.where, "%s is raised" % e.ty, notes=s.notes)
            self.refused(L, s)

    def refused(self, L, st):
        """A list is refused only for what is malformed in it."""
        a, R, S_ = self.a, self.R, self.S
        end = st.store.get(T("gone", self.pos), st.store.get(self.pos))
        start = S_.phi(L, self.pos)
        ch = S_.chain(end, start) if end is not None else None
        if ch is None:
            R.test("refuse", None, a.where, "cannot tell where reading stopped", notes=st.notes)
            return

        def dom(p):
            return a.I.dom(st, T("ch", self.inp, p))
        base = S_.phi(L, self.tags)
        dup = any(k.op == "has" and k.a[0] is base and v is True and S_.pieces(k.a[1]) for k, v in st.facts.items())
        rest = self.skip(st, ch)
        if not rest or rest[0][0] == "loop" and len(rest) == 1 and any(k.op == "size" and k.a[0].op in ("star", "phi") and k.a[0].a[0] == rest[0][1].lid and d == IS.of([0]) for k, d in st.dom.items()):
            R.test("refuse", not (dom(end) & ALNUM), a.where, "a list is refused where a name starts with %s" % (dom(end) & ALNUM), notes=st.notes)
            return
        i = 0
        while i < len(rest) and not self.isws(st, rest[i]) and not (rest[i][0] == "ch" and dom(rest[i][1]) == IS.of([61])):
            i += 1
        name, tail = rest[:i], rest[i:]
        nend = end if not tail else tail[0][1] if tail[0][0] != "loop" else tail[0][1].init[self.pos]
        tail = self.skip(st, tail)
        if not tail:
            d = (dom(nend) & NAME) | (dom(end) & (WS | IS.of([61])))
            R.test("refuse", dup or not d, a.where, "a list is refused where a new name is followed by %s" % d, notes=st.notes)
            return
        tail = self.skip(st, tail[1:])
        d = dom(end) & (VALCHAR | WS | IS.of([59, -1]))
        R.test("refuse", dup or len(tail) == 1 and not d, a.where, "a list is refused for %s in a value" % d, notes=st.notes)

    def isws(self, st, x):
        return not self.skip(st, [x])

    def at(self, k):
        return "%s (loop at line %s)" % (self.a.where, k.lid.split("#")[0].split(":")[-1])

    def over(self, L):
        a, R = self.a, self.R
        w = self.at(L)
        R.test("turn", L.init.get(self.pos) is I(0), w, "reading starts at %s" % shn(L.init.get(self.pos)))
        R.test("store", L.init.get(self.tags) is T("init", self.tags), w, "the list starts as %s" % shn(L.init.get(self.tags)))
        final = set()
        pt, pp = self.S.phi(L, self.tags), self.S.phi(L, self.pos)
        for alt, st in zip(L.alts, L.altst):
            self.turn(L, st, alt.get(self.tags, pt), alt.get(self.pos, pp), w, False)
        for k, st in L.exits:
            x, p = st.store.get(self.tags), st.store.get(self.pos)
            if p is None:
                continue
            final.add(x)
            self.turn(L, st, x, p, w, True)
        return final

    def turn(self, L, st, tags, end, w, last):
        a, R, S_ = self.a, self.R, self.S
        base = S_.phi(L, self.tags)
        start = S_.phi(L, self.pos)
        ch = S_.chain(end, start)
        if ch is None:
            R.test("turn", None, w, "cannot follow the position from %s to %s" % (shn(start), shn(end)), notes=st.notes)
            return
        if last:
            R.test("end", a.I.dom(st, T("ch", self.inp, end)) == IS.of([-1]), w, "parsing ends before the end of the input", notes=st.notes)
        rest = self.skip(st, ch)
        if last and not rest:
            R.test("store", tags is base, w, "%s is stored where nothing was read" % shn(tags), notes=st.notes)
            return
        if tags is base:
            R.test("store", False, w, "nothing is stored for the text read", notes=st.notes)
            return
        if tags.op != "mput" or tags.a[0] is not base:
            R.test("store", None if opaque_in(tags) else False, w, "the list becomes %s" % shn(tags), notes=st.notes)
            return
        name, entry = tags.a[1], tags.a[2]
        R.test("twice", st.facts.get(T("has", base, name)) is False, w, "a name already in the list can be stored again", notes=st.notes)
        # the name
        pcs = S_.pieces(name)
        if pcs is None or not pcs:
            R.test("store", False if name.op == "str" or any(x.op in ("cz", "lower") for x in subterms(name)) else None, w, "the name stored is %s" % shn(name), notes=st.notes)
            return
        for i, p in enumerate(pcs):
            q = rest[0] if rest else None
            rest = rest[1:]
            if q is None or p.kind == "ch" and not (q[0] == "ch" and q[1] is p.lo) or p.kind == "run" and not (q[0] == "loop" and q[1] is p.loop) or p.kind not in ("ch", "run"):
                R.test("store", False, w, "the name stored is not the name read", notes=st.notes)
                return
            if p.kind == "ch":
                d = a.I.dom(st, p.term)
                R.test("name", d <= (ALNUM if i == 0 else NAME), w, "a name can contain %s" % (d - (ALNUM if i == 0 else NAME)), notes=st.notes)
            else:
                sofar = S_.phi(p.loop, p.term.a[1])
                for ps, s in p.alts:
                    for j, x in enumerate(ps):
                        d = x.dom(a, s)
                        if d is None:
                            R.test("name", None, w, "a name is collected by a nested loop", notes=s.notes)
                            continue
                        first = i == 0 and j == 0 and a.I.dom(s, T("size", sofar)).lo() < 1
                        R.test("name", d <= (ALNUM if first else NAME), self.at(p.loop), "a name can %s %s" % ("start with" if first else "contain", d - (ALNUM if first else NAME)), notes=s.notes)
        nonempty = pcs[0].kind == "ch" or a.I.dom(st, T("size", name)).lo() >= 1
        R.test("name", nonempty, w, "a name can be empty", notes=st.notes)
        # =
        rest = self.skip(st, rest)
        if not rest or rest[0][0] != "ch":
            R.test("turn", False, w, "a name is not followed by =", notes=st.notes)
            return
        d = a.I.dom(st, T("ch", self.inp, rest[0][1]))
        R.test("turn", d == IS.of([61]), w, "a name can be followed by %s instead of =" % d, notes=st.notes)
        rest = self.skip(st, rest[1:])
        if not rest or rest[0][0] != "loop":
            R.test("turn", None, w, "after the = %s is read, not a value" % (rest[0][0] if rest else "nothing"), notes=st.notes)
            return
        # the value
        Lv = rest[0][1]
        at = Lv.init[self.pos]
        got = self.entry(st, entry)
        if got is None:
            R.test("store", None, w, "what is stored is not understood: %s" % shn(entry), notes=st.notes)
            return
        v, off = got
        if v.op != "star" or v.a[0] != Lv.lid:
            R.test("store", False if v.op in ("cz", "str", "lower") or not opaque_in(v) else None, w, "the value read is not what is stored: %s" % shn(v), notes=st.notes)
            return
        eq = same(a, st, widecast(off), at)
        if eq is not True and uncast(off) is not off and same(a, st, uncast(off), at):
            eq = False  # only its low bits are kept
        if eq is None and S_.chain(widecast(off), start) is not None:
            eq = False
        R.test("store", eq, w, "the position stored, %s, is not where the value starts" % shn(off), notes=st.notes)
        d = a.I.dom(st, T("ch", self.inp, at))
        R.test("trim", not (d & WS), w, "a value may start with white space", notes=st.notes)
        for ok, what, notes in S_.collects(Lv, v.a[1]):
            R.test("value", ok, self.at(Lv), what, notes=notes)
        for alt, s2, ss in S_.steps(Lv):
            for k in ss or ():
                if k[0] == "ch":
                    d = a.I.dom(s2, T("ch", self.inp, k[1]))
                    R.test("chars", d <= (VALCHAR | WS), self.at(Lv), "a value can contain %s" % (d - (VALCHAR | WS)), notes=s2.notes)
        stop = S_.phi(Lv, self.pos)
        d = a.I.dom(st, T("ch", self.inp, stop))
        R.test("trim", d <= IS.of([59, -1]), w, "a value can end before %s" % d, notes=st.notes)
        after = rest[1:]
        if last:
            R.test("turn", not after, w, "something is read after the last value", notes=st.notes)
        else:
            R.test("turn", len(after) == 1 and after[0][0] == "ch" and d == IS.of([59]), w, "a value is not followed by exactly one ;", notes=st.notes)

    def skip(self, st, ch):
        i = 0
        while i < len(ch) and (ch[i][0] == "fws" or ch[i][0] == "ch" and self.a.I.dom(st, T("ch", self.inp, ch[i][1])) <= WS or ch[i][0] == "loop" and self.S.skips(ch[i][1])):
            i += 1
        return ch[i:]

    def entry(self, st, e):
        """(value, offset) of a stored entry as its getters report them."""
        if e.op != "rec":
            return None
        a = self.a
        st, tmp = st.copy(), T("obj", "entry")
        a.I.write(st, tmp, e, {"k": "rec", "repo": True, "n": "DKIM::TagListEntry"})
        v, o = (a.get(st, "DKIM::TagListEntry::" + x, tmp) for x in ("GetValue", "GetValueOffset"))
        return (v, o) if v is not None and o is not None else None
