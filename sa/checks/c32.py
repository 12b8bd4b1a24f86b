"""C32: the identity encoder and decoder agree on every octet.

The loops of the encoder and of the decoder are read as tables: for each of the 256 octets, what one turn adds to the result. The
tables are computed from the terms of the analysis and compared with the specification."""
from ..q import *
from ..span import Spans
from ..models import POS
from ..evalt import ev, evs, possible

ENC = "DKIM::Conversion::QuotedPrintable::Encode"
DEC = "DKIM::Conversion::QuotedPrintable::Decode"
LIT = set(range(0x21, 0x7F)) - {0x3B, 0x3D}
HEXU = IS([(48, 57), (65, 70)])


def check(prog, R):
    R.say("encode", "the encoder writes a literal octet as itself and every other octet as = and two upper-case hex digits, for each of the 256 octets")
    R.say("whole", "the encoder visits every octet of its input once, in order, and returns all of what it wrote and nothing else")
    R.say("literal", "the decoder takes exactly the octets the encoder passes through as themselves")
    R.say("hex", "after = the decoder accepts exactly two upper-case hex digits and adds the octet they name")
    R.say("skip", "the decoder skips folding white space and nothing else")
    R.say("reject", "the decoder refuses every other octet with a permanent error, and refuses nothing else")
    R.say("end", "the decoder stops only at the end of its input and returns all of what it decoded")
    for f in prog.fn(ENC):
        encode(prog, R, f)
    for f in prog.fn(DEC):
        Decoder(prog, R, f)


def spec_enc(c):
    return [c] if c in LIT else [ord(x) for x in "=%02X" % c]


def shn(t):
    return "nothing" if t is None else sh(t)[:160]


def encode(prog, R, f):
    a = An(prog, f, extra={"#notrack": True})
    R.an(a)
    src = T("init", a.ploc(0))
    for s, v in a.rets:
        if v.op == "init" and v is src:
            R.test("whole", False, a.where, "the input is returned as it is", notes=s.notes)
            continue
        if v is EMPTY:
            R.test("whole", a.I.dom(s, T("size", src)) == IS.of([0]), a.where, "nothing is returned for an input that is not empty", notes=s.notes)
            continue
        ps = parts(v)
        if len(ps) != 1 or ps[0].op not in ("star", "phi") or a.I.loops.get(ps[0].a[0]) is None:
            R.test("whole", None if opaque_in(v) else False, a.where, "the result is not what one loop wrote: %s" % shn(v), notes=s.notes)
            continue
        L = a.I.loops[ps[0].a[0]]
        out = ps[0].a[1]
        w = "%s (loop at line %s)" % (a.where, L.lid.split("#")[0].split(":")[-1])
        its = [i for i in walks(L) if i.cv is src]
        if not its:
            part = any(i.cv.op in ("sub", "cz") and i.cv.a[0] is src for i in walks(L))
            R.test("whole", False if part else None, w, "the loop is not seen to visit the input octet by octet", notes=s.notes)
            continue
        it = its[0]
        fw = full_walk(a, L, it)
        R.test("whole", (it.d == "f" if fw else fw) if ps[0].op == "star" else None, w, "the loop does not visit all of the input in order", notes=s.notes)
        leaf = T("chat", src, it.phi)
        todo = {c: [] for c in range(256)}
        for alt, st in zip(L.alts, L.altst):
            v1 = alt.get(out)
            ps1 = parts(v1) if v1 is not None else None
            added = None
            if v1 is None:
                added = EMPTY
            elif ps1 and ps1[0].op == "phi" and ps1[0].a[0] == L.lid and ps1[0].a[1] is out:
                added = cat(*ps1[1:]) if len(ps1) > 1 else EMPTY
            for c in range(256):
                env = {leaf: c - 256 if c > 127 else c}
                if possible(st, env):
                    todo[c].append((None if added is None else evs(added, env), added if added is not None else v1, st.notes))
        bad = {}
        for c in range(256):
            for got, term, notes in todo[c]:
                if got is None:
                    k = (False if term.op == "phi" else None, shn(term), notes)
                elif got != spec_enc(c):
                    k = (False, "%s is written for" % ("".join(map(chr, got)).encode("latin1")), notes)
                else:
                    continue
                bad.setdefault(k, []).append(c)
            if not todo[c]:
                bad.setdefault((False, "no turn handles", ()), []).append(c)
        R.test("encode", True, w, "", sample="256 octets")
        for (ok, what, notes), cs in bad.items():
            R.test("encode", ok, w, "%s octet 0x%02x%s" % (what, cs[0], " and %d more" % (len(cs) - 1) if len(cs) > 1 else ""), notes=notes)
    for s, e in a.throws:
        R.test("whole", False, a.where, "%s is raised" % e.ty, notes=s.notes)


class Decoder:
    def __init__(self, prog, R, f):
        self.R = R
        a = self.a = An(prog, f, extra={"#notrack": True, "#gone": True}, frame_min=200)
        R.an(a)
        self.inp = T("init", a.ploc(0))
        self.flag = a.ploc(1) if len(f["params"]) > 1 else None
        strm = None
        for L in a.I.loops.values():
            for k in L.changed:
                if k.op == "fld" and k.a[1] == POS:
                    strm = k.a[0]
        if strm is None:
            R.test("end", None, a.where, "the input is not read from a stream")
            return
        self.S = Spans(a, strm, self.inp)
        self.pos = self.S.pos
        Ls = {}
        for s, v in a.rets:
            ps = parts(v)
            L = a.I.loops.get(ps[0].a[0]) if len(ps) == 1 and ps[0].op in ("star", "phi") else None
            if L is None:
                R.test("end", None if opaque_in(v) else False, a.where, "the result is not what one loop decoded: %s" % shn(v), notes=s.notes)
                continue
            Ls[L.lid] = (L, ps[0].a[1])
        for L, out in Ls.values():
            self.loop(L, out)
            for s, e in a.throws:
                R.test("reject", e.ty == PERM, a.where, "%s is raised" % e.ty, notes=s.notes)
                self.refused(L, s, (e.fn or "").endswith("ReadWhiteSpace"))

    def flags(self, st):
        return [x for x in (0, 1) if self.flag is None or x in self.a.I.dom(st, self.flag)]

    def loop(self, L, out):
        a, R, S_ = self.a, self.R, self.S
        w = "%s (loop at line %s)" % (a.where, L.lid.split("#")[0].split(":")[-1])
        R.test("end", L.init.get(self.pos) is I(0) and L.init.get(out) is EMPTY, w, "decoding starts at %s with %s" % (shn(L.init.get(self.pos)), shn(L.init.get(out))))
        for k, st in L.exits:
            p = st.store.get(self.pos)
            d = a.I.dom(st, T("ch", self.inp, p)) if p is not None else None
            R.test("end", None if d is None else d == IS.of([-1]), w, "decoding stops before %s" % d, notes=st.notes)
        ph = S_.phi(L, out)
        for alt, st, ss in S_.steps(L):
            v = alt.get(out, ph)
            ps = parts(v)
            if not ps or ps[0] is not ph:
                R.test("literal", False, w, "what was decoded becomes %s" % shn(v), notes=st.notes)
                continue
            added = cat(*ps[1:]) if len(ps) > 1 else EMPTY
            if not ss:
                R.test("literal", None if ss is None and st.notes or ss is None else False, w, "cannot follow the position", notes=st.notes)
                continue
            chs_ = [T("ch", self.inp, x) for k, x in ss if k == "ch"]
            if any(k == "fws" for k, x in ss):
                R.test("skip", len(ss) == 1 and added is EMPTY, w, "%s is added for white space" % shn(added), notes=st.notes)
                continue
            if len(chs_) != len(ss):
                R.test("literal", None, w, "an inner loop reads the input", notes=st.notes)
                continue
            if len(chs_) == 1:
                for c in a.I.dom(st, chs_[0]).values():
                    env = {chs_[0]: c}
                    if not possible(st, env):
                        continue
                    got = evs(added, env)
                    for fl in self.flags(st):
                        want = [32] if fl and c == 95 else [c] if c in LIT else None
                        if want is None:
                            R.test("reject" if got != [] else "skip", False, w, "octet 0x%02x is %s" % (c & 255, "accepted" if got else "skipped"), notes=st.notes)
                        else:
                            R.test("literal", None if got is None else got == want, w, "octet 0x%02x is decoded to %s" % (c, got), notes=st.notes)
            elif len(chs_) == 3:
                R.test("hex", a.I.dom(st, chs_[0]) == IS.of([61]), w, "three octets starting with %s are decoded together" % a.I.dom(st, chs_[0]), notes=st.notes)
                d1, d2 = a.I.dom(st, chs_[1]), a.I.dom(st, chs_[2])
                R.test("hex", d1 <= HEXU and d2 <= HEXU, w, "%s is accepted as a hex digit" % ((d1 | d2) - HEXU), notes=st.notes)
                bad = {}
                for x in (d1 & HEXU).values():
                    for y in (d2 & HEXU).values():
                        env = {chs_[0]: 61, chs_[1]: x, chs_[2]: y}
                        if possible(st, env):
                            got = evs(added, env)
                            if got != [int(chr(x) + chr(y), 16)]:
                                bad.setdefault(None if got is None else False, []).append("=%c%c is decoded to %s" % (x, y, got))
                R.test("hex", True, w, "", sample="%d pairs of digits" % ((d1 & HEXU).size() * (d2 & HEXU).size()))
                for ok, xs in bad.items():
                    R.test("hex", ok, w, xs[0] + (" (and %d more)" % (len(xs) - 1)), notes=st.notes)
            else:
                R.test("hex", False, w, "%d octets are decoded together" % len(chs_), notes=st.notes)

    def refused(self, L, st, cr):
        a, R, S_ = self.a, self.R, self.S
        end = st.store.get(T("gone", self.pos), st.store.get(self.pos))
        ss = S_.chain(end, S_.phi(L, self.pos)) if end is not None else None
        if ss is None or any(k != "ch" for k, x in ss):
            R.test("reject", None, a.where, "cannot tell where decoding stopped", notes=st.notes)
            return
        d = a.I.dom(st, T("ch", self.inp, end))
        if not ss:
            ok = d & IS.of(LIT | {61, -1})
            R.test("reject", not ok and (S_.nows(st, end) or cr), a.where,
                   "%s is refused" % (ok or "folding white space"), notes=st.notes)
        else:
            first = a.I.dom(st, T("ch", self.inp, ss[0][1]))
            R.test("reject", first == IS.of([61]) and len(ss) <= 2 and not (d & HEXU), a.where, "%s is refused after =" % (d & HEXU), notes=st.notes)
