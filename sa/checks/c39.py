"""C39: undecodable encoded words pass through unchanged.

Every turn of the decoding loop is judged: what it adds to the result is, piece by piece, either the text it read, or the decoded
text of one complete encoded word. The two decoders are taken as functions that may fail."""
from ..q import *
from .. import ir
from ..contracts import pure
from ..models import POS
from ..span import Spans

FN = "DKIM::Conversion::EncodedWord::Decode"
DECODERS = {"qpdec": ("DKIM::Conversion::QuotedPrintable::Decode", "qQ"), "b64dec": ("DKIM::Conversion::Base64_Decode", "bB")}
EOFS = IS.of([-1])


def check(prog, R):
    R.say("literal", "a turn adds, exactly and in order, the white space it read (line ends of folding aside) and every character it read after that, or one decoded text")
    R.say("complete", "text is replaced only where =? charset ? encoding ? text ?= was read, followed by white space or the end of the input")
    R.say("encoding", "it is replaced by what the quoted-printable decoder makes of that text for the encoding q or Q, and the base64 decoder for b or B")
    R.say("space", "the white space put before literal text is what was read before it, at most without the line ends of folding")
    R.say("failure", "a failure of a decoder never leaves the function; every error comes from malformed white space")
    R.say("end", "decoding starts at the first character, and the result is complete only at the end of the input; nothing but what the turns added is returned")
    for f in prog.fn(FN):
        Decode(prog, R, f)


def shn(t):
    return "nothing" if t is None else sh(t)[:200]


class Decode:
    def __init__(self, prog, R, f):
        self.R = R
        ex = {"#notrack": True, "#gone": True}
        for op, (q, _) in DECODERS.items():
            ex[q] = pure(op)
        a = self.a = An(prog, f, extra=ex, frame_min=200)
        R.an(a)
        self.inp = T("init", a.ploc(0))
        lids = set()
        for s, v in a.rets:
            if v is EMPTY:
                continue
            ps = parts(v)
            if len(ps) != 1 or ps[0].op not in ("star", "phi") or ps[0].a[0] not in a.I.loops:
                R.test("end", None if opaque_in(v) else False, a.where, "the result is %s" % shn(v), notes=s.notes)
                continue
            lids.add((ps[0].a[0], ps[0].a[1]))
        for s, e in a.throws:
            dec = any(val is True and t.op in ("badqpdec", "badb64dec") for t, val in s.facts.items())
            ws = (e.fn or "").endswith("ReadWhiteSpace")
            R.test("failure", not dec and e.ty == PERM and ws if dec or ws else None, a.where, "%s leaves the function %s" % (e.ty, "when a decoder fails" if dec else ""), notes=s.notes)
        if not lids:
            R.test("end", None, a.where, "the result is not collected by a loop")
        for lid, out in lids:
            L = a.I.loops[lid]
            strm = [k.a[0] for k in L.changed if k.op == "fld" and k.a[1] == POS]
            if len(strm) != 1:
                R.test("literal", None, a.where, "the input is not read from one stream")
                continue
            self.out = out
            self.S = Spans(a, strm[0], self.inp)
            self.pos = self.S.pos
            self.loop(L)

    def dom(self, s, p):
        return self.a.I.dom(s, T("ch", self.inp, p))

    def lead(self, st, ch):
        i = 0
        while i < len(ch):
            k, x = ch[i]
            if k == "fws" or k == "ch" and self.dom(st, x) <= self.S.WS or k == "loop" and self.S.skips(x):
                i += 1
            else:
                break
        return i

    def loop(self, L):
        a, R, S_ = self.a, self.R, self.S
        w = self.w = "%s (loop at line %s)" % (a.where, L.lid.split("#")[0].split(":")[-1])
        R.test("end", L.init.get(self.out) is EMPTY, w, "the result starts as %s" % shn(L.init.get(self.out)))
        first = S_.chain(L.init.get(self.pos), I(0)) if L.init.get(self.pos) is not None else None
        R.test("end", None if first is None else self.lead(L.altst[0] if L.altst else None, first) == len(first), w, "text is read before the loop")
        pp, po = S_.phi(L, self.pos), S_.phi(L, self.out)
        for alt, st in zip(L.alts, L.altst):
            self.turn(st, alt.get(self.out, po), po, alt.get(self.pos, pp), pp)
        for k, st in L.exits:
            end = st.store.get(self.pos, pp)
            R.test("end", self.dom(st, end) == EOFS, w, "the result is complete before the end of the input (%s)" % self.dom(st, end), notes=st.notes)
            v = st.store.get(self.out, po)
            ps = parts(v)
            if ps and ps[0].op == "star" and ps[0].a[0] == L.lid:
                ps = [po] + list(ps[1:])
            self.turn(st, cat(*ps) if len(ps) > 1 else ps[0] if ps else EMPTY, po, end, pp, True)
        for s, v in a.rets:
            if v.op == "phi" and v.a[0] == L.lid:
                end = s.store.get(T("gone", self.pos))
                R.test("end", None if end is None else self.dom(s, end) == EOFS, w, "the result is complete before the end of the input", notes=s.notes)

    def turn(self, st, v, po, end, start, last=False):
        a, R, S_ = self.a, self.R, self.S
        ch = S_.chain(end, start)
        if ch is None:
            R.test("literal", None, self.w, "cannot follow the position to %s" % shn(end), notes=st.notes)
            return
        i = self.lead(st, ch)
        core = ch[i:]
        ps = list(parts(v))
        if not ps or ps[0] is not po:
            R.test("literal", False if not opaque_in(v) or v is EMPTY else None, self.w, "the result becomes %s" % shn(v), notes=st.notes)
            return
        ps = [x for x in ps[1:] if a.I.dom(st, T("size", x)) != IS.of([0])]
        # white space
        nws = 0
        while nws < len(ps) and self.white(st, ps[nws], ch[:i]):
            nws += 1
        rest = ps[nws:]
        if not core:
            R.test("literal", not rest, self.w, "%s is added for white space" % [shn(x) for x in rest], notes=st.notes)
            return
        if len(rest) == 1 and rest[0].op in DECODERS:
            self.word(st, rest[0], core, end)
            return
        pcs = S_.pieces(cat(*rest)) if rest else []
        at = core[0][1] if core[0][0] != "loop" else core[0][1].init.get(self.pos)
        ok = pcs is not None and S_.joined(pcs, at, end, st)
        if not ok and self.onlyws(st, core):
            ok = None
        R.test("literal", ok if ok or clear(rest) else None, self.w, "%s is added for what was read: %s" % (" ".join(shn(x) for x in rest) or "nothing", self.show(st, core)), notes=st.notes)
        kept = self.kept(st, ps[:nws], ch[:i])
        R.test("space", kept, self.w, "%s is put before literal text read after %s" % (" ".join(shn(x) for x in ps[:nws]) or "nothing", self.show(st, ch[:i])), notes=st.notes)

    def onlyws(self, st, core):
        return False

    def show(self, st, ch):
        return " ".join(str(self.dom(st, x)) if k == "ch" else k for k, x in ch) or "nothing"

    # ------------------------------------------------------------------ white space
    def white(self, st, t, lead):
        """Is the text white space collected from what was read before the word?"""
        if t.op == "star" and any(k == "loop" and x.lid == t.a[0] for k, x in lead):
            return True
        k = self.S.key(t)
        return k is not None and k in lead

    def kept(self, st, ws, lead):
        """Everything read before the word, in order, apart from CR and LF."""
        a, S_ = self.a, self.S
        want = []
        for k, x in lead:
            if k == "ch" and self.dom(st, x) <= IS.of([10, 13]):
                continue
            if k == "loop":
                want.append(("loop", x.lid))
            else:
                want.append((k, x))
        have = [("loop", t.a[0]) if t.op == "star" else S_.key(t) for t in ws]
        if have != want:
            # a loop that collects nothing but line ends
            want = [x for x in want if not (x[0] == "loop" and x not in have and self.lineends(a.I.loops[x[1]]))]
        if have != want:
            return False
        for t in ws:
            if t.op != "star":
                continue
            L = a.I.loops[t.a[0]]
            ph = S_.phi(L, t.a[1])
            if L.init.get(t.a[1]) is not EMPTY:
                return None
            for alt, s2, ss in S_.steps(L):
                if ss is None:
                    return None
                ps = parts(alt.get(t.a[1], ph))
                if not ps or ps[0] is not ph:
                    return False
                got = [S_.key(x) for x in ps[1:]]
                if got != [x for x in ss if not (x[0] == "ch" and self.dom(s2, x[1]) <= IS.of([10, 13]))]:
                    return False
        return True

    def lineends(self, L):
        return all(ss and all(k == "ch" and self.dom(st, x) <= IS.of([10, 13]) for k, x in ss) for alt, st, ss in self.S.steps(L))

    # ------------------------------------------------------------------ encoded words
    def word(self, st, dec, core, end):
        a, R, S_ = self.a, self.R, self.S
        # = ? charset ? encoding ? text ? =
        toks = []
        for k, x in core:
            if k == "ch":
                d = self.dom(st, x)
                toks.append("=" if d == IS.of([61]) else "?" if d == IS.of([63]) else "c" if not d & IS.of([63, -1]) else "!")
            elif k == "loop":
                toks.append("t" if self.text(x) else "!")
            else:
                toks.append("!")
        segs = [[]]
        for n, t in enumerate(toks):
            if t == "?":
                segs.append([])
            else:
                segs[-1].append((t, core[n]))
        ok = len(segs) == 5 and [t for t, _ in segs[0]] == ["="] and [t for t, _ in segs[4]] == ["="] and all(t in "ct=" for g in segs[1:4] for t, _ in g)
        R.test("complete", ok, self.w, "decoded text replaces %s" % " ".join(toks), notes=st.notes)
        R.test("complete", self.dom(st, end) <= IS.of([-1, 9, 10, 13, 32]), self.w, "decoded text replaces a word that may be followed by %s" % (self.dom(st, end) - IS.of([-1, 9, 10, 13, 32])), notes=st.notes)
        if not ok:
            return
        data = self.same_text(st, dec.a[0], segs[3])
        R.test("encoding", data, self.w, "the text decoded is %s" % shn(dec.a[0]), notes=st.notes)
        want = DECODERS[dec.op][1]
        enc = self.enc(st, segs[2], want)
        R.test("encoding", enc, self.w, "the decoder for %s is used although the encoding is not known to be that" % "/".join(want), notes=st.notes)

    def text(self, L):
        """Every turn takes characters other than the question mark."""
        for alt, st, ss in self.S.steps(L):
            if not ss or any(k != "ch" or self.dom(st, x) & IS.of([63, -1]) for k, x in ss):
                return False
        return True

    def same_text(self, st, t, seg):
        have = []
        for x in parts(t):
            if x is EMPTY:
                continue
            have.append(("loop", x.a[0]) if x.op in ("star", "phi") else self.S.key(x))
        want = [("loop", s[1].lid) if s[0] == "loop" else s for _, s in seg]
        if have != want:
            return False if clear([t]) or t.op in ("star", "phi") else None
        for x in parts(t):
            if x.op in ("star", "phi"):
                L = self.a.I.loops[x.a[0]]
                ph = self.S.phi(L, x.a[1])
                if L.init.get(x.a[1]) is not EMPTY:
                    return False
                for alt, s2, ss in self.S.steps(L):
                    ps = parts(alt.get(x.a[1], ph))
                    if ss is None:
                        return None
                    if not ps or ps[0] is not ph or [self.S.key(y) for y in ps[1:]] != ss:
                        return False
        return True

    def enc(self, st, seg, want):
        """Is the text of the encoding known to be one of the letters?"""
        a = self.a
        if len(seg) == 1 and seg[0][1][0] == "ch":
            return self.dom(st, seg[0][1][1]) <= IS.of([ord(c) for c in want])
        if len(seg) == 1 and seg[0][1][0] == "loop":
            lid = seg[0][1][1].lid
            for t in list(st.facts) + list(st.dom) + list(st.sdom):
                for x in subterms(t):
                    if x.op == "star" and x.a[0] == lid:
                        if any(same(a, st, x, T("str", c)) is True or holds(a, st, T("eq", x, T("str", c))) is True for c in want):
                            return True
                        d = a.I.dom(st, T("size", x))
                        if d == IS.of([1]) and a.I.dom(st, T("chat", x, I(0))) <= IS.of([ord(c) for c in want]):
                            return True
            return False
        return False


def clear(ts):
    return not any(mentions(t, lambda x: x.op in ("sym", "join", "ent")) for t in ts)
