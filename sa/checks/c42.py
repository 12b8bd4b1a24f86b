"""C42: address lists reject malformed input and split at separators only.

The tokenizer is judged return by return: what was read since the call, step by step, has the form of the kind of token reported,
and the text handed out is what was read. The list parser is judged turn by turn of its loop over the tokens, for every kind of
token, with the tokenizer taken by what it returns."""
from ..q import *
from .. import ir
from .. import engine as E
from ..contracts import perm, pure
from ..linear import entails
from ..models import POS
from ..span import Spans

NX = "DKIM::Tokenizer::NextAddressListToken"
PA = "DKIM::Tokenizer::ParseAddressList"
KINDS = ("QUOTED", "ATOM", "COMMENT", "TAG_OPEN", "TAG_CLOSE", "SEPARATOR", "EOF")
SPECIAL = IS.of([34, 40, 44, 59, 60, 62])
EOFS = IS.of([-1])
DELIM = {"TAG_OPEN": IS.of([60]), "TAG_CLOSE": IS.of([62]), "SEPARATOR": IS.of([44, 59])}


def check(prog, R):
    R.say("token", "what is read for a token has the form of its kind: white space, then a quoted string, a comment, a bracket, a separator or a run of other characters")
    R.say("text", "the text of a quoted string or of a run of characters is every character of it, in order, once; in a string and a comment an escaped character stands for itself")
    R.say("end", "the end is reported only at the end of the input; no octet is taken for it")
    R.say("comment", "a comment ends with the parenthesis that closes the first one, escaped ones not counted")
    R.say("malformed", "a token is refused only at the end of the input inside a string or comment, or for malformed white space")
    R.say("turn", "a turn of the list parser reads exactly one token")
    R.say("address", "text and quoted text are put after what the current address has; comments change nothing; < starts the address over")
    R.say("unclosed", "a separator or the end of the input within < > ends in a permanent error")
    R.say("NUL", "text with a NUL character ends in a permanent error")
    R.say("split", "an address is complete at a separator, at > and at the end of the input, and nowhere else; text without @ before a separator belongs to no address")
    R.say("result", "an address is the text collected for it in order, or, if that is one quoted string, the addresses in that string; addresses are added at the end of the list")
    R.say("stop", "the list is complete only at the end of the input")
    for f in prog.fn(NX):
        Token(prog, R, f)
    for f in prog.fn(PA):
        List(prog, R, f)


def shn(t):
    return "nothing" if t is None else sh(t)[:160]


def clear(v, *locs):
    """Is the value made only of what was read and of the values of these locations at the start of the turn?"""
    return v is not None and not mentions(v, lambda x: x.op in ("sym", "star", "join", "ent") or x.op == "phi" and x.a[1] not in locs)


def kindof(prog, f):
    t = unref(f["ret"]) or {}
    return {v: n.split("::")[-1].replace("TOK_", "") for n, v in t.get("consts", [])}


def unref(t):
    while t and t.get("k") in ("ref", "lref", "rref"):
        t = t.get("to") or t.get("t")
    return t


class Token:
    def __init__(self, prog, R, f):
        self.R = R
        a = self.a = An(prog, f, extra={"#notrack": True, "#gone": True}, frame_min=200)
        R.an(a)
        kinds = kindof(prog, f)
        if set(kinds.values()) != set(KINDS):
            R.test("token", None, a.where, "the kinds of tokens are no longer known")
            return
        strm, self.out = a.ploc(0), a.ploc(1)
        self.src = T("init", fld(strm, "#src"))
        self.S = Spans(a, strm, self.src)
        self.pos = self.S.pos
        self.pos0 = T("init", self.pos)
        for s, v in a.rets:
            d = a.I.dom(s, v)
            ks = [kinds.get(x) for x in d.values()] if d.size() < 8 else [None]
            if len(ks) != 1 or ks[0] is None:
                R.test("token", None, a.where, "cannot tell which kind of token is returned: %s" % shn(v), notes=s.notes)
                continue
            self.ret(s, ks[0])
        for s, e in a.throws:
            ws = (e.fn or "").endswith("ReadWhiteSpace")
            end = [t for t in s.dom if t.op == "ch" and t.a[0] is self.src and a.I.dom(s, t) == EOFS]
            ok = ws or bool(end)
            R.test("malformed", e.ty == PERM and ok, a.where, "%s is raised although the input is not at its end" % e.ty, notes=s.notes)
            if ok and not ws:
                at = s.store.get(self.pos, self.pos0)
                ch = self.S.chain(at, self.pos0)
                core = None if ch is None else self.core(s, ch)
                R.test("malformed", None if core is None else bool(core) and core[0][0] == "ch" and self.dom(s, core[0][1]) <= IS.of([34, 40]), a.where,
                       "the input ends outside a string or comment and is refused", notes=s.notes)

    def dom(self, s, p):
        return self.a.I.dom(s, T("ch", self.src, p))

    def core(self, s, ch):
        """The steps without the white space before the token (and without loops that made no turn)."""
        i = 0
        while i < len(ch):
            k, x = ch[i]
            if k == "fws" or k == "ch" and self.dom(s, x) <= self.S.WS:
                i += 1
            elif k == "loop" and (self.S.skips(x) or self.unused(s, x)):
                i += 1
            else:
                break
        return ch[i:]

    def unused(self, s, L):
        """Every turn of the loop adds to the token, which is still empty."""
        ph = self.S.phi(L, self.out)
        cur = [x for x in (ph, T("star", L.lid, self.out)) if self.a.I.dom(s, T("size", x)) == IS.of([0])]
        if not cur:
            return False
        for alt in L.alts:
            ps = parts(alt.get(self.out, ph))
            if not ps or ps[0] is not ph or len(ps) < 2 or not any(x.op == "chs" for x in ps[1:]):
                return False
        return True

    def ret(self, s, kind):
        a, R, S_ = self.a, self.R, self.S
        w = "%s (%s)" % (a.where, kind)
        end = s.store.get(self.pos, self.pos0)
        tok = s.store.get(self.out, T("init", self.out))
        ch = S_.chain(end, self.pos0)
        if ch is None:
            R.test("token", None, w, "cannot follow the position to %s" % shn(end), notes=s.notes)
            return
        core = self.core(s, ch)
        form = [k for k, x in core]
        # trailing white space belongs to the token before it
        if kind == "ATOM":
            self.atom(s, w, core, tok, end)
            return
        if kind == "EOF":
            R.test("token", not core, w, "the end is reported after reading %s" % form, notes=s.notes)
            R.test("end", self.dom(s, end) == EOFS, w, "the end is reported where the next character may be %s" % self.dom(s, end), notes=s.notes)
        elif kind in DELIM:
            R.test("token", form == ["ch"] and self.dom(s, core[0][1]) <= DELIM[kind], w, "it is reported after reading %s" % self.show(s, core), notes=s.notes)
        else:
            q = kind == "QUOTED"
            okl = len(core) >= 2 and form[0] == "ch" and form[1] == "loop" and self.dom(s, core[0][1]) == IS.of([34 if q else 40])
            R.test("token", okl, w, "it is reported after reading %s" % self.show(s, core), notes=s.notes)
            if okl:
                (self.quoted if q else self.comment)(s, w, core, tok)
            return
        R.test("text", a.I.dom(s, T("size", tok)) == IS.of([0]) or tok is EMPTY, w, "text is returned: %s" % shn(tok), notes=s.notes)

    def show(self, s, core):
        return " ".join(str(self.dom(s, x)) if k == "ch" else k for k, x in core) or "nothing"

    def empties(self, s, ps):
        """The parts of a text that are not known to be empty."""
        return [x for x in ps if x is not EMPTY and self.a.I.dom(s, T("size", x)) != IS.of([0])]

    # ------------------------------------------------------------------ strings
    def quoted(self, s, w, core, tok):
        a, R = self.a, self.R
        L = core[1][1]
        stop = self.S.phi(L, self.pos)
        R.test("token", [k for k, x in core[2:]] == ["ch"] and self.dom(s, core[2][1]) == IS.of([34]), w, "the string ends after %s" % self.show(s, core[2:]), notes=s.notes)
        ps = self.empties(s, parts(tok))
        st = T("star", L.lid, self.out)
        loc = ps[0].a[1] if len(ps) == 1 and ps[0].op in ("star", "phi") and ps[0].a[0] == L.lid else None
        if not ps:
            return      # an empty string
        R.test("text", loc is not None, w, "the text of a string is %s" % shn(tok), notes=s.notes)
        if loc is not None:
            self.chars(L, loc, w, 34)

    def chars(self, L, loc, w, close):
        """Every turn takes one character other than the closing one and the backslash, or a backslash and any character; the character is kept."""
        a, R, S_ = self.a, self.R, self.S
        ph = S_.phi(L, loc)
        for alt, st, ss in S_.steps(L):
            if ss is None or any(k != "ch" for k, x in ss):
                R.test("text", None, w, "cannot follow the position in the string", notes=st.notes)
                continue
            ds = [self.dom(st, x) for k, x in ss]
            if len(ds) == 1:
                R.test("token", not (ds[0] & IS.of([close, 92, -1])), w, "%s is taken for a character of the string" % (ds[0] & IS.of([close, 92, -1])), notes=st.notes)
            else:
                R.test("token", len(ds) == 2 and ds[0] == IS.of([92]) and -1 not in ds[1], w, "a turn takes %s for one character of the string" % self.show(st, ss), notes=st.notes)
            if loc is None:
                continue
            if not ss:
                continue
            v = alt.get(loc, ph)
            ps = parts(v)
            ok = len(ps) == 2 and (ps[0] is ph) and S_.key(ps[1]) == ("ch", ss[-1][1])
            R.test("text", ok if ok or clear(v, loc, self.pos) else None, w, "the text becomes %s" % shn(v), notes=st.notes)

    # ------------------------------------------------------------------ comments
    def comment(self, s, w, core, tok):
        a, R, S_ = self.a, self.R, self.S
        L = core[1][1]
        tail = core[2:]
        best = None
        for v in L.changed:
            c0 = L.init.get(v)
            if c0 is None or c0.op != "int" or v is self.pos:
                continue
            r = self.depth(s, L, v, c0.a[0], tail)
            n = sum(1 for ok, _, _ in r if ok is not True)
            if best is None or n < best[0]:
                best = (n, r)
        if best is None:
            R.test("comment", None, w, "the depth is not counted by a variable", notes=s.notes)
            return
        for ok, what, notes in best[1]:
            R.test("comment", ok, w, what, notes=notes)

    def depth(self, s, L, v, c0, tail):
        a, S_ = self.a, self.S
        out = []
        ph = S_.phi(L, v)

        def true(st, t):        # the depth a counter value stands for
            return [x - c0 + 1 for x in (a.I.dom(st, t)).values()] if a.I.dom(st, t).size() < 4 else None
        for alt, st, ss in S_.steps(L):
            d = a.I.dom(st, ph)
            if d.size() and d <= IS.rng(-INF, c0 - 1):
                continue        # not reached: the depth starts at 1, changes by one and 0 ends the comment
            if ss is None or any(k != "ch" for k, x in ss) or not ss:
                out.append((None, "cannot follow the position in the comment", st.notes))
                continue
            ds = [self.dom(st, x) for k, x in ss]
            step = sub(alt.get(v, ph), ph)
            if len(ds) == 2:
                out.append((ds[0] == IS.of([92]) and -1 not in ds[1] and step is I(0), "a turn takes %s and counts %s" % (self.show(st, ss), shn(step)), st.notes))
            elif len(ds) == 1:
                want = I(1) if ds[0] == IS.of([40]) else I(-1) if ds[0] == IS.of([41]) else I(0) if not ds[0] & IS.of([40, 41, 92, -1]) else None
                out.append((want is not None and step is want, "a turn takes %s and counts %s" % (ds[0], shn(step)), st.notes))
            else:
                out.append((False, "a turn takes %s at once" % self.show(st, ss), st.notes))
            # the comment goes on only inside
            dv = a.I.dom(st, alt.get(v, ph))
            out.append((True, "", st.notes) if dv.size() else (False, "", st.notes))
        # at the end
        d = true(s, ph)
        if not tail:
            out.append((d == [0], "the comment ends at depth %s" % (d if d is not None else a.I.dom(s, ph)), s.notes))
        else:
            out.append((d == [1] and len(tail) == 1 and tail[0][0] == "ch" and self.dom(s, tail[0][1]) == IS.of([41]),
                        "the comment ends at depth %s with %s" % (d, self.show(s, tail)), s.notes))
        # and whenever the depth is 0
        for alt, st, ss in S_.steps(L):
            if 0 in [x - c0 + 1 for x in (a.I.dom(st, ph) & IS.rng(c0 - 1, c0 - 1)).values()]:
                out.append((False, "the comment goes on at depth 0", st.notes))
        return out

    # ------------------------------------------------------------------ other text
    def atom(self, s, w, core, tok, end):
        a, R, S_ = self.a, self.R, self.S
        R.test("text", a.I.dom(s, T("size", tok)).lo() >= 1 or any(p.op == "chs" for p in parts(tok)), w, "an empty text is returned", notes=s.notes)
        # the white space behind it
        n = len(core)
        while n and (core[n - 1][0] == "fws" or core[n - 1][0] == "ch" and self.dom(s, core[n - 1][1]) <= IS.of([9, 32])):
            n -= 1
        gap = n < len(core)
        body = core[:n]
        if not gap:
            R.test("token", self.dom(s, end) <= (SPECIAL | EOFS | self.S.WS), w, "the text ends before %s" % (self.dom(s, end) - (SPECIAL | EOFS)), notes=s.notes)
        have = self.empties(s, parts(tok))
        want = []
        for k, x in body:
            if k == "ch":
                want.append(("ch", x))
                d = self.dom(s, x)
                R.test("token", not (d & (SPECIAL | EOFS)), w, "%s is taken for a character of the text" % (d & (SPECIAL | EOFS)), notes=s.notes)
            elif k == "loop":
                want.append(("loop", x.lid))
            else:
                want.append((k, x))
        got = []
        for x in have:
            if x.op in ("star", "phi"):
                got.append(("loop", x.a[0]))
            else:
                got.append(S_.key(x) or ("?", x))
        ok = got == want
        R.test("text", ok if ok or not any(x[0] == "?" and opaque_in(x[1]) for x in got) else None, w, "the text is %s" % shn(tok), notes=s.notes)
        if not ok:
            return
        for (k, x), t in zip(body, have):
            if k == "loop":
                self.grow(x, t.a[1], w)

    def grow(self, L, loc, w):
        a, R, S_ = self.a, self.R, self.S
        ph = S_.phi(L, loc)
        if (L.lid, loc, "grow") in self.memo():
            return
        self.memo().add((L.lid, loc, "grow"))
        for alt, st, ss in S_.steps(L):
            if ss is None or any(k == "loop" for k, x in ss):
                R.test("text", None, w, "cannot follow the position in the text", notes=st.notes)
                continue
            v = alt.get(loc, ph)
            ps = parts(v)
            # white space before the first character
            i = 0
            if a.I.dom(st, T("size", ph)) == IS.of([0]):
                while i < len(ss) and (ss[i][0] == "fws" or self.dom(st, ss[i][1]) <= self.S.WS):
                    i += 1
            ss = ss[i:]
            if not ss and ps == [ph] or not ss and v is ph:
                continue
            for k, x in ss:
                if k == "ch":
                    d = self.dom(st, x) & (SPECIAL | EOFS)
                    R.test("token", not d, w, "%s is taken for a character of the text" % d, notes=st.notes)
            got = [S_.key(x) for x in ps[1:]]
            ok = bool(ps) and ps[0] is ph and got == ss and all(k == "ch" for k, x in ss)
            R.test("text", ok if ok or clear(v, loc, self.pos) else None, w, "the text becomes %s after reading %s" % (shn(v), self.show(st, ss)), notes=st.notes)

    def memo(self):
        if not hasattr(self, "_m"):
            self._m = set()
        return self._m


# ---------------------------------------------------------------------- the list
def next_token(I_, st, c):
    strm, out = c.args[0], c.args[1]
    src = st.store.get(fld(strm, "#src"), T("init", fld(strm, "#src")))
    pos = st.store.get(fld(strm, POS), T("init", fld(strm, POS)))
    res = []
    bad = T("badtok", src, pos)
    for s, b in I_.split_atom(st, bad):
        if b:
            perm(I_, s, c, bad)
            continue
        s = s.copy()
        ty = T("toktype", src, pos)
        E.TR.setdefault(ty, IS.rng(0, 6))
        s.store[out] = T("toktext", src, pos)
        s.store[fld(strm, POS)] = T("tokend", src, pos)
        res.append((s, ty))
    return res


def isnul(t):
    return t.op == "str" and t.a[0] in ("\0", b"\0")


class List:
    def __init__(self, prog, R, f):
        self.R = R
        a = self.a = An(prog, f, extra={"#notrack": True, "#gone": True, NX: next_token, PA: pure("alist")}, frame_min=200)
        R.an(a)
        ks = kindof(prog, prog.fn(NX)[0])
        self.num = {n: v for v, n in ks.items()}
        if set(self.num) != set(KINDS):
            R.test("turn", None, a.where, "the kinds of tokens are no longer known")
            return
        self.inp = T("init", a.ploc(0))
        main = None
        for L in a.I.loops.values():
            for k in L.changed:
                if k.op == "fld" and k.a[1] == POS and any(x.get(k) is not None and x.get(k).op == "tokend" for x in L.alts):
                    main, self.pos = L, k
        if main is None:
            R.test("turn", None, a.where, "the tokens are not read in a loop over a stream")
            return
        self.L = L = main
        self.S = Spans(a, self.pos.a[0], self.inp)
        w = self.w = "%s (loop at line %s)" % (a.where, L.lid.split("#")[0].split(":")[-1])
        lists = set()
        for s, v in a.rets:
            ps = parts(v)
            st = [x for x in ps if x.op in ("star", "phi") and x.a[0] == L.lid]
            if v.op != "nil" and not st:
                R.test("result", None, a.where, "the result is not collected by the loop: %s" % shn(v), notes=s.notes)
            lists.update(x.a[1] for x in st)
        if len(lists) != 1:
            R.test("result", None, a.where, "the list returned is not a list of the loop")
            return
        self.lst = lists.pop()
        self.pl, self.pp = self.S.phi(L, self.lst), self.S.phi(L, self.pos)
        self.tok = T("toktext", self.inp, self.pp)
        self.ty = T("toktype", self.inp, self.pp)
        self.roles()
        R.test("turn", L.init.get(self.pos) is I(0), w, "reading starts at %s" % shn(L.init.get(self.pos)))
        R.test("result", L.init.get(self.lst) is not None and L.init[self.lst].op == "nil", w, "the list starts as %s" % shn(L.init.get(self.lst)))
        if self.toks is None:
            R.test("address", None, w, "the text of the address is not collected in a list of the loop")
            return
        R.test("address", L.init[self.toks].op == "nil", w, "the first address starts as %s" % shn(L.init[self.toks]))
        self.final = {()}
        for alt, st in zip(L.alts, L.altst):
            self.turn(alt, st, False)
        for k, st in L.exits:
            self.stop(st)
        for s, e in a.throws:
            self.error(s, e)
        for s, v in a.rets:
            ps = parts(v)
            st = s
            if ps and ps[0].op == "phi" and ps[0] is self.pl:
                self.turn(dict(s.store), s, True, v)
            elif v.op != "nil":
                R.test("result", tuple(ps[1:]) in self.final, a.where, "after the loop the list becomes %s" % shn(v), notes=s.notes)

    def roles(self):
        """The variables of the loop: the text of the current address, the bracket flag, the kind of the last token."""
        L, a = self.L, self.a
        self.toks = self.flag = self.last = None
        for k in L.changed:
            vals = [x.get(k) for x in L.alts]
            if k is not self.lst and any(v is not None and any(y.op == "item" and y.a[0] is self.tok for y in parts(v)) for v in vals) and L.init.get(k) is not None:
                self.toks = k
        # kind of the last token: set to the kind on every turn, or a copy of such a variable made before
        for k in L.changed:
            if L.init.get(k) is not None and all(x.get(k) is self.ty or self.same_kind(st, x.get(k)) for x, st in zip(L.alts, L.altst)):
                self.last = k
                break
        O = self.num["TAG_OPEN"]
        best = None
        for k in L.changed:
            if k in (self.toks, self.lst, self.pos, self.last) or L.init.get(k) is None or L.init[k].op != "int":
                continue
            ph = self.S.phi(L, k)
            n = 0
            for x, st in zip(L.alts, L.altst):
                d = a.I.dom(st, x.get(k, ph))
                kd = a.I.dom(st, self.ty)
                if kd == IS.of([O]):
                    n += d.size() == 1 and L.init[k].a[0] not in d
                elif kd == IS.of([self.num["TAG_CLOSE"]]):
                    n += d == IS.of([L.init[k].a[0]])
            if n and (best is None or n > best[0]):
                best = (n, k)
        self.flag = best[1] if best else None
        self.out0 = L.init[self.flag].a[0] if self.flag is not None else None

    def same_kind(self, st, v):
        return v is not None and v.op == "int" and self.a.I.dom(st, self.ty) == IS.of([v.a[0]])

    def kinds(self, st):
        d = self.a.I.dom(st, self.ty)
        return [n for n in KINDS if self.num[n] in d]

    def read_one(self, st, end, w):
        """Exactly one token was read."""
        ok = end is T("tokend", self.inp, self.pp)
        self.R.test("turn", ok if ok or end is None or clear(end, self.pos) else None, w, "the position goes to %s" % shn(end), notes=st.notes)
        return ok

    def turn(self, alt, st, last, result=None):
        a, R, L = self.a, self.R, self.L
        end = st.store.get(T("gone", self.pos), alt.get(self.pos, self.pp)) if last else alt.get(self.pos, self.pp)
        if last and end is self.pp:
            R.test("stop", None, self.w, "the list is complete without reading the end", notes=st.notes)
            return
        if not self.read_one(st, end, self.w):
            return
        ks = self.kinds(st)
        v = result if last else alt.get(self.lst, self.pl)
        ph = self.S.phi(L, self.toks)
        tk = alt.get(self.toks, ph)
        if last:
            R.test("stop", ks == ["EOF"], self.w, "the list is complete at %s" % "/".join(ks), notes=st.notes)
        for k in ks:
            w = "%s (%s)" % (self.w, k)
            R.test("NUL", any(val is False and t.op == "has" and t.a[0] is self.tok and isnul(t.a[1]) for t, val in st.facts.items()) or k in ("TAG_OPEN", "TAG_CLOSE", "SEPARATOR", "EOF"),
                   w, "text that may have a NUL character is accepted", notes=st.notes)
            fl = self.S.phi(L, self.flag) if self.flag is not None else None
            if k in ("QUOTED", "ATOM", "COMMENT", "TAG_OPEN"):
                R.test("split", v is self.pl, w, "the list becomes %s" % shn(v), notes=st.notes)
                want = {"QUOTED": cat(ph, T("item", self.tok)), "ATOM": cat(ph, T("item", self.tok)), "COMMENT": ph}.get(k)
                ok = tk is want if want is not None else tk.op == "nil"
                R.test("address", ok if ok or clear(tk, self.toks, self.pos) else None, w, "the text of the address becomes %s" % shn(tk), notes=st.notes)
                if fl is not None:
                    nf = alt.get(self.flag, fl)
                    R.test("unclosed", nf is fl if k != "TAG_OPEN" else self.out0 not in a.I.dom(st, nf), w, "the note of an open bracket becomes %s" % shn(nf), notes=st.notes)
                elif k == "TAG_OPEN":
                    known = all(self.why(x) is not None for x, e in a.throws)
                    R.test("unclosed", False if known else None, w, "an open bracket is not noted in a variable", notes=st.notes)
                continue
            if fl is not None:
                nf = alt.get(self.flag, fl)
                if k == "TAG_CLOSE":
                    R.test("unclosed", a.I.dom(st, nf) == IS.of([self.out0]), w, "the note of an open bracket stays", notes=st.notes)
                else:
                    R.test("unclosed", a.I.dom(st, fl) == IS.of([self.out0]), w, "it is accepted although a bracket may be open", notes=st.notes)
                    if not last:
                        R.test("unclosed", a.I.dom(st, nf) == IS.of([self.out0]), w, "the note of an open bracket becomes %s" % shn(nf), notes=st.notes)
            self.flush(k, alt, st, v, tk, ph, w, last)

    def flush(self, k, alt, st, v, tk, ph, w, last):
        a, R = self.a, self.R
        n = a.I.dom(st, T("size", ph))
        if n == IS.of([0]):
            R.test("split", v is self.pl, w, "an address is added although there is no text: %s" % shn(v), notes=st.notes)
            R.test("address", last or tk is ph or tk.op == "nil", w, "the text becomes %s" % shn(tk), notes=st.notes)
            return
        R.test("address", last or tk.op == "nil", w, "the next address starts with the text of this one: %s" % shn(tk), notes=st.notes)
        pl = self.S.phi(self.L, self.last) if self.last is not None else None
        ld = a.I.dom(st, pl) if pl is not None else None
        lastel = T("elv", ph, sub(T("size", ph), I(1)), "f")
        at = None
        for t, val in st.facts.items():
            if t.op == "has" and t.a[1].op == "str" and t.a[1].a[0] in ("@", b"@") and t.a[0].op in ("elv", "item") and (t.a[0] is lastel or same(a, st, t.a[0], lastel) is True):
                at = val
        if v is self.pl:
            ok = k == "SEPARATOR" and at is False and ld is not None and self.num["TAG_CLOSE"] not in ld
            R.test("split", ok if ok or ld is not None or k != "SEPARATOR" else None, w, "the text of an address is dropped", notes=st.notes)
            return
        # an address is complete
        if k == "SEPARATOR":
            R.test("split", at is True or ld == IS.of([self.num["TAG_CLOSE"]]) if ld is not None else None, w, "text without @ before a separator becomes an address", notes=st.notes)
        ps = parts(v)
        if not ps or ps[0] is not self.pl or len(ps) != 2:
            inner = a.I.loops.get(v.a[0]) if v.op == "phi" else None
            sure = clear(v, self.lst, self.toks, self.pos) if inner is None else all(
                not mentions(x.get(v.a[1], v), lambda y: y.op in ("sym", "star", "join", "ent") or y.op == "phi" and y.a[0] not in (inner.lid, self.L.lid)) for x in inner.alts)
            R.test("result", False if sure else None, w, "the list becomes %s" % shn(v), notes=st.notes)
            return
        new = ps[1]
        one = n == IS.of([1])
        rec = self.recursive(st, new, ph)
        if rec is not None:
            ok = rec and one and ld == IS.of([self.num["QUOTED"]])
            R.test("result", ok if ok or ld is not None else None, w, "text other than a quoted string is parsed as a list: %s" % shn(new), notes=st.notes)
            return
        quoted1 = 1 in n and (ld is None or self.num["QUOTED"] in ld)
        R.test("result", not quoted1 if ld is not None else None, w, "an address that is one quoted string is not parsed as a list", notes=st.notes)
        ok = self.joined(st, new.a[0] if new.op == "item" else None, ph)
        R.test("result", ok, w, "the address added is %s" % shn(new), notes=st.notes)

    def recursive(self, st, new, ph):
        """The addresses in the text of the first token, all of them, in order? None if it is something else."""
        a = self.a

        def al(t):
            return t.op == "alist" and (t.a[0] is T("elv", ph, I(0), "f") or same(a, st, t.a[0], T("elv", ph, I(0), "f")) is True or
                                        same(a, st, t.a[0], T("elv", ph, sub(T("size", ph), I(1)), "f")) is True)
        if al(new):
            return True
        if new.op == "star":
            L = a.I.loops.get(new.a[0])
            if L is None:
                return None
            for it in walks(L):
                if it.cv.op == "alist":
                    p = self.S.phi(L, new.a[1])
                    for x in L.alts:
                        ps = parts(x.get(new.a[1], p))
                        if not (len(ps) == 2 and ps[0] is p and ps[1].op == "item" and it.elem(ps[1].a[0])):
                            return False
                    return al(it.cv) and full_walk(a, L, it) is True
            return None
        return None if not mentions(new, lambda t: t.op == "alist") else False

    def joined(self, st, t, ph):
        a = self.a
        if t is None:
            return False
        if a.I.dom(st, T("size", ph)) == IS.of([1]) and t.op == "elv" and t.a[0] is ph:
            return True
        if t.op == "star":
            L = a.I.loops.get(t.a[0])
            if L is None:
                return None
            p = self.S.phi(L, t.a[1])
            if L.init.get(t.a[1]) is not EMPTY:
                return False
            for it in walks(L):
                if it.cv is ph or a.I.dom(st, T("size", ph)).size() and same(a, st, it.cv, ph) is True:
                    for x in L.alts:
                        ps = parts(x.get(t.a[1], p))
                        if not (len(ps) == 2 and ps[0] is p and it.elem(ps[1])):
                            return False
                    fw = full_walk(a, L, it)
                    return False if fw is None and not L.other_exit and not any(x.notes for _, x in L.exits) else fw
            return None
        return None if opaque_in(t) else False

    def stop(self, st):
        """The loop ends after the end was read."""
        a, R = self.a, self.R
        if a.I.dom(st, self.ty) == IS.of([self.num["EOF"]]):
            v = self.unstar(st.store.get(self.lst, self.pl))
            self.final.add(tuple(parts(v)[1:]))
            self.turn(dict(st.store), st, True, v)
            return
        pl = self.S.phi(self.L, self.last) if self.last is not None else None
        for k in self.L.changed:
            ph = self.S.phi(self.L, k)
            if a.I.dom(st, ph) == IS.of([self.num["EOF"]]) and all(x.get(k) is self.ty or self.same_kind(s, x.get(k)) for x, s in zip(self.L.alts, self.L.altst)):
                init = self.L.init.get(k)
                R.test("stop", init is not None and init.op == "int" and init.a[0] != self.num["EOF"], self.w, "the loop may end before the first token", notes=st.notes)
                return
        R.test("stop", False if pl is not None else None, self.w, "the list is complete before the end of the input", notes=st.notes)

    def unstar(self, v):
        ps = parts(v)
        if ps and ps[0].op == "star" and ps[0].a[0] == self.L.lid and ps[0].a[1] is self.lst:
            return cat(self.pl, *ps[1:]) if len(ps) > 1 else self.pl
        return v

    def why(self, s):
        for t, val in s.facts.items():
            if val is True and (t.op in ("badtok", "badalist") or t.op == "has" and t.a[0].op == "toktext" and isnul(t.a[1])):
                return t
        return None

    def error(self, s, e):
        a, R = self.a, self.R
        why = self.why(s)
        ks = self.kinds(s)
        fl = self.S.phi(self.L, self.flag) if self.flag is not None else None
        br = set(ks) <= {"SEPARATOR", "EOF"} and fl is not None and self.out0 not in a.I.dom(s, fl)
        R.test("unclosed", e.ty == PERM and (why is not None or br or fl is None and None), a.where, "%s is raised at %s although nothing is malformed" % (e.ty, "/".join(ks)), notes=s.notes)
