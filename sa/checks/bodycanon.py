"""Body canonicalization as a transducer: what the loop over the octets does with each octet, and what happens to its output.

The function is analysed once for an arbitrary stream. The loop over the octets of a read buffer is summarised by one transition
per path (octets, mode and state it applies to, text it appends, state it leaves); the transitions are compared with the definition:

  state: n pending line ends, w pending white space; initially none
  CR: nothing.  LF: n+1, no w.  relaxed and SP or TAB: w.  other octet c: append n line ends, one SP if w, and c; n = 0, no w.

The loop over the read buffers must hand the state on unchanged and deliver the appended text, limited or not."""
from ..q import *
from .. import ir
from ..linear import entails
from ..models import bytes_at, POS, FAIL

FN = "DKIM::Conversion::CanonicalizationBody"
OUT = T("g", "#out")
GC = "#gcount"


def deliver(I_, st, f, vs, argn, K, node):
    st = st.copy()
    p, n = vs[0], vs[1]
    x = bytes_at(I_, st, p, n)
    if x is None:
        st.note("delivery from an unknown place")
        x = T("bytes?", p, n)
    st.store[OUT] = cat(st.store.get(OUT, EMPTY), x)
    return [(st, T("void"))]


class Body:
    """obs: (group, rule, cond, where, what, notes) with group "u" (every octet), "l" (limit)."""

    def __init__(self, prog):
        self.prog = prog
        f = prog.fn1(FN)
        self.f = f
        self.obs = []
        self.a = An(prog, f, extra={"#notrack": True, "#callback": deliver}, pre=lambda a, st: st.store.__setitem__(OUT, EMPTY))
        a = self.a
        ps = f["params"]
        ok = len(ps) == 6 and (unref(ps[1]["t"]) or {}).get("k") == "enum"
        if not ok:
            raise ir.AnalysisError("%s no longer takes (stream, mode, offset, limit flag, limit, function)" % FN)
        self.stream = a.ploc(0)
        self.mode, self.off, self.lim, self.size = (a.ploc(i) for i in (1, 2, 3, 4))
        self.relaxed, self.simple = 1, 0
        for k, v in unref(ps[1]["t"])["consts"]:
            if k.endswith("RELAXED"):
                self.relaxed = v
            if k.endswith("SIMPLE"):
                self.simple = v
        self.loops = {}
        self.outer = []
        for lid, L in a.I.loops.items():
            if "^" not in lid and (OUT in L.changed or fld(self.stream, POS) in L.changed):
                self.outer.append(L)
        self.kept = {}       # outer loop -> emptiness (loc, value while empty)
        for L in self.outer:
            self.over(L)
        self.ends()

    def put(self, g, rule, cond, where, what, notes=()):
        self.obs.append((g, rule, cond, "%s (%s)" % (self.a.where, where) if where else self.a.where, what, notes))

    def dom(self, st, t):
        return self.a.I.dom(st, t)

    def limited(self, st):
        d = self.dom(st, self.lim)
        return True if 0 not in d else False if d == IS.of([0]) else None

    # ------------------------------------------------------------------ the loop over the read buffers
    def over(self, L):
        a = self.a
        w = "loop at line %s" % line(L)
        pos, fail = fld(self.stream, POS), fld(self.stream, FAIL)
        pp = T("phi", L.lid, pos, ())
        self.put("u", "start", L.init.get(pos) is self.off, w, "reading starts at %s, not at the body offset" % shn(L.init.get(pos)))
        seeks = [(st, d) for k, st, d, c in a.I.log if k == "seekg" and d[0] is self.stream]
        for st, d in seeks:
            fv = st.store.get(fail)
            self.put("u", "start", fv is I(0), w, "the stream is positioned while it may still be in a failed state (%s)" % shn(fv))
        inner = {}
        for alt, st in zip(L.alts, L.altst):
            v = alt.get(OUT, T("phi", L.lid, OUT, ()))
            ps = parts(v)
            if not ps or ps[0] is not T("phi", L.lid, OUT, ()):
                self.put("u", "deliver", None, w, "what is delivered is not appended to what was delivered before: %s" % shn(v), st.notes)
                continue
            x = list(ps[1:])
            full, Ls = self.fulltext(st, x, L)
            if full is None:
                self.put("u", "deliver", None, w, "cannot relate what is delivered to the octets read: %s" % shn(cat(*x) if x else EMPTY), st.notes)
                continue
            Li, b = Ls
            inner[(Li.lid, b)] = (Li, b)
            self.through(L, Li, b, alt, st, w)
            self.amount(L, alt, st, x, full, w)
            # position: exactly the octets looked at
            np = alt.get(pos)
            n = self.counted(Li)
            self.put("u", "every", n is not None and np is not None and same(a, st, np, add(pp, n)) is True, w,
                     "a turn looks at %s octets but moves from %s to %s" % (shn(n), shn(pp), shn(np)), st.notes)
            self.emptiness(L, alt, st, full, w)
        for Li, b in inner.values():
            self.octets(L, Li, b)
        for kind, st in L.exits:
            lim = self.limited(st)
            rest = st.store.get(pos)
            unread = rest is pp or same(a, st, rest, pp) is True
            end = self.ended(st, L)
            if lim is not False:
                done = any(self.dom(st, T("phi", L.lid, k, ())) == IS.of([0]) for k in self.limlocs(L))
                if lim is True and done:
                    self.put("l", "stop", True, w, "")
                    continue
                if not (unread and end):
                    self.put("l", "stop", False if done or self.going(st, L) else None, w, "reading can stop although the limit is not used up" if lim else
                             "reading can stop early whether or not there is a limit", st.notes)
                if lim:
                    continue
            self.put("u", "every", True if unread and end else (False if not unread or self.going(st, L) else None), w,
                     "reading can stop before the end of the body" if unread else "octets that were read are dropped", st.notes)
        if L.other_exit:
            self.put("u", "every", None, w, "the loop can be left by return or throw")

    def going(self, st, L):
        """Leaving the loop depends on nothing but the octets and counters seen (nothing is known about the stream), or the stream is known to have more."""
        for t, d in st.dom.items():
            if t.op == "strst" and (t.a[0] == "good" and 0 not in d or t.a[0] == "eof" and d == IS.of([0])):
                return True
        return not any(mentions(t, lambda x: x.op in ("strst", "readfail", "ch") or x.op == "gcount") for t in list(st.facts) + list(st.dom))

    def ended(self, st, L):
        """Is the stream known to have no more octets?"""
        for t, d in st.dom.items():
            if t.op == "strst":
                if t.a[0] == "good" and d == IS.of([0]) or t.a[0] == "eof" and 0 not in d:
                    return True
            if t.op == "gcount" and d == IS.of([0]):
                return True
            if (t.op == "readfail" or t.op == "phi" and t.a[1] is fld(self.stream, FAIL)) and 0 not in d:
                return True
        f = st.store.get(fld(self.stream, FAIL))
        return f is not None and 0 not in self.dom(st, f)

    def limlocs(self, L):
        """Loop variables that count the octets still to be delivered."""
        return [k for k in L.changed if L.init.get(k) is self.size]

    def fulltext(self, st, x, L):
        """(text appended for this buffer, (octet loop, output variable)) behind the delivered pieces x."""
        a = self.a
        stars = []
        for t in x:
            for s in subterms(t):
                if s.op == "star" and s not in stars:
                    stars.append(s)
        if not stars:
            # nothing delivered: the text is known to be empty
            stars = [t.a[0] for t, d in st.dom.items() if t.op == "size" and t.a[0].op == "star" and d == IS.of([0])]
        stars = [s for s in stars if s.a[0].endswith("^" + L.lid) and s.a[0].count("^") == 1]
        if len(stars) != 1:
            return None, None
        s = stars[0]
        Li = a.I.loops.get(s.a[0])
        if Li is None or (Li.init.get(s.a[1]) is not EMPTY and s.a[1] is not OUT):
            return None, None
        return s, (Li, s.a[1])

    def amount(self, L, alt, st, x, full, w):
        """Everything is delivered, or the first bs octets with bs counted down."""
        a = self.a
        lim = self.limited(st)
        whole = len(x) == 1 and x[0] is full or not x and self.dom(st, a.I.size(full)) == IS.of([0])
        if lim is False:
            self.put("u", "deliver", whole, w, "without a limit %s is delivered, not all of %s" % (shn(cat(*x) if x else EMPTY), shn(full)), st.notes)
            return
        size = a.I.size(full)
        if whole:
            k = size
        elif not x:
            k = I(0)
        elif len(x) == 1 and x[0].op == "sub" and x[0].a[0] is full and x[0].a[1] is I(0):
            k = x[0].a[2]
        else:
            self.put("l", "deliver", None, w, "cannot tell how much of %s is delivered: %s" % (shn(full), shn(cat(*x))), st.notes)
            return
        if k is END_:
            k = size
        cand = self.limlocs(L)
        if lim is None:
            self.put("l", "deliver", whole and False, w, "the limit is ignored" if whole else "octets are held back whether or not there is a limit", st.notes)
            return
        if not cand:
            self.put("l", "deliver", None, w, "no variable holds what is left of the limit", st.notes)
            return
        res = []
        for b in cand:
            bs = T("phi", L.lid, b, ())
            nb = alt.get(b, bs)
            le = entails(a, st, sub(k, bs)) and entails(a, st, sub(k, size))
            mx = entails(a, st, sub(size, k)) or entails(a, st, sub(bs, k))
            cnt = same(a, st, nb, sub(bs, k)) is True or entails(a, st, sub(nb, sub(bs, k))) and entails(a, st, sub(sub(bs, k), nb))
            res.append((le, mx, cnt))
        best = max(res, key=lambda r: sum(bool(q) for q in r))
        what = [m for q, m in zip(best, ("more octets than the limit leaves may be delivered", "fewer octets than available and allowed may be delivered",
                                         "what is left of the limit is not reduced by what was delivered")) if not q]
        self.put("l", "deliver", all(best), w, "; ".join(what) + " (%s of %s delivered)" % (shn(k), shn(size)), st.notes)

    # ------------------------------------------------------------------ was anything delivered before?
    def emptiness(self, L, alt, st, full, w):
        self.kept.setdefault(L.lid, []).append((alt, st, full))

    def emptyflag(self, L):
        """[(loop variable, its values while nothing has been appended)] verified by induction."""
        out = []
        for k in L.changed:
            i = L.init.get(k)
            if i is None or i.op != "int" or k is OUT:
                continue
            ph = T("phi", L.lid, k, ())
            ok = bool(self.kept.get(L.lid))
            why = None
            for alt, st, full in self.kept.get(L.lid, ()):
                nv = alt.get(k, ph)
                z = self.dom(st, self.a.I.size(full))
                done = any(self.dom(st, alt.get(b, T("phi", L.lid, b, ()))) == IS.of([0]) for b in self.limlocs(L)) and self.limited(st) is True
                was, now = self.dom(st, ph), self.dom(st, nv)
                if i.a[0] not in was and i.a[0] not in now:
                    # something has been appended before, and the variable keeps saying so
                    good = True
                elif z == IS.of([0]):
                    good = nv is ph or done or was == IS.of([i.a[0]]) and now == was
                elif 0 not in z:
                    good = i.a[0] not in now or done or self.grows(st, nv, ph, i)
                else:
                    # not told apart: a count that grows by the length
                    good = nv is add(ph, self.a.I.size(full))
                if not good:
                    ok = False
                    break
            if ok:
                out.append((k, i.a[0]))
        return out

    def grows(self, st, nv, ph, i):
        return i is I(0) and entails(self.a, st, add(sub(ph, nv), I(1)))

    # ------------------------------------------------------------------ state across buffers
    def through(self, L, Li, b, alt, st, w):
        c, f = self.statevars(L, Li, b)
        for k, what in ((c, "pending line ends"), (f, "pending white space")):
            if k is None:
                continue
            ph = T("phi", L.lid, k, ())
            zero = L.init.get(k)
            if k not in L.changed:
                # unchanged by the loop over the buffers although changed by the loop over the octets: set anew for every buffer
                self.put("u", "chunk", False, w, "%s do not survive the end of a read buffer (%s starts at %s for each)" % (what, shn(k), shn(Li.init.get(k))), st.notes)
                continue
            self.put("u", "chunk", zero is not None and (zero is I(0) or zero is EMPTY), w, "%s are %s at the start" % (what, shn(zero)), st.notes)
            self.put("u", "chunk", Li.init.get(k) is ph, w, "%s start at %s for a read buffer, not where the one before left them" % (what, shn(Li.init.get(k))), st.notes)
            v = alt.get(k)
            self.put("u", "chunk", v is T("phi", Li.lid, k, (L.lid,)) or v is not None and v.op == "phi" and v.a[0] == Li.lid and v.a[1] is k, w,
                     "%s are changed to %s after a read buffer" % (what, shn(v)), st.notes)

    # ------------------------------------------------------------------ the loop over the octets
    def walk(self, Li):
        """(octet term, index variable) of an octet loop."""
        for st in Li.altst:
            for t in list(st.dom) + [y for x in st.facts for y in subterms(x)]:
                if (t.op == "atv" and t.a[0].op == "chunk" or t.op == "chat" and chunk_of(t) is not None) and any(p.op == "phi" and p.a[0] == Li.lid for p in subterms(t.a[1])):
                    return t
        return None

    def counted(self, Li):
        """Number of octets the loop looks at, starting with the first of the buffer; None if it does not look at each."""
        ch = self.walk(Li)
        if ch is None:
            return None
        a = self.a
        if ch.op == "chat":
            its = [it for it in walks(Li) if it.cv is ch.a[0]]
            if len(its) != 1 or ch.a[1] is not its[0].phi or full_walk(a, Li, its[0]) is not True:
                return None
            return T("gcount", *chunk_of(ch).a)
        i = ch.a[1]
        if i.op != "phi" or i.a[0] != Li.lid:
            return None
        loc = i.a[1].a[0] if i.a[1].op == "off" else i.a[1]

        def val(v):
            return v.a[1] if v is not None and v.op == "ptr" else v
        if val(Li.init.get(loc)) is not I(0) or any(val(x.get(loc)) is not add(i, I(1)) for x in Li.alts) or Li.other_exit:
            return None
        n = T("gcount", *ch.a[0].a)
        for kind, st in Li.exits:
            if kind != "cond" or not entails(a, st, sub(n, i)):
                return None
        for st in Li.altst:
            if not entails(a, st, add(sub(i, n), I(1))):
                return None
        return n

    def statevars(self, L, Li, b):
        """The variables that stand for pending line ends and pending white space: the pair that explains most transitions."""
        m = self.__dict__.setdefault("_sv", {})
        if (Li.lid, b) not in m:
            ch = self.walk(Li)
            if ch is None:
                return None, None
            idx = ch.a[1].a[1] if ch is not None and ch.a[1].op == "phi" else None
            if idx is not None and idx.op == "off":
                idx = idx.a[0]
            cand = [k for k in Li.changed if k is not b and k is not idx and k is not OUT and k.op != "el"]
            best = (None, None, None)
            for c in cand + [None]:
                for f in cand + [None]:
                    if c is f and c is not None:
                        continue
                    r = self.judge(Li, b, ch, c, f)
                    nbad = sum(1 for x in r if x[0] is False) * 100 + sum(1 for x in r if x[0] is None) + (c is None) + (f is None)
                    if best[0] is None or nbad < best[0]:
                        best = (nbad, c, f)
            m[(Li.lid, b)] = best[1:]
        return m[(Li.lid, b)]

    def octets(self, L, Li, b):
        w = "loop at line %s" % line(Li)
        ch = self.walk(Li)
        n = self.counted(Li)
        if ch is None:
            self.put("u", "octet", None, w, "no loop looks at the octets of the read buffer one by one")
            return
        chunkpos = chunk_of(ch).a[1]
        self.put("u", "every", n is not None and chunkpos is T("phi", L.lid, fld(self.stream, POS), ()), w, "the loop does not look at every octet that was read once, in order")
        c, f = self.statevars(L, Li, b)
        for cond, what, notes in self.judge(Li, b, ch, c, f):
            self.put("u", "octet", cond, w, what, notes)

    def judge(self, Li, b, ch, c, f):
        a = self.a
        out = []

        def pre(k):
            return T("phi", Li.lid, k, outer_of(Li))
        cv = pre(c) if c is not None else I(0)
        fv = pre(f) if f is not None else I(0)
        isstr = c is not None and not a.I.intlike(Li.init.get(c) or I(0)) if c is not None else False
        for alt, st in zip(Li.alts, Li.altst):
            v = alt.get(b)
            ps = parts(v) if v is not None else ()
            ph = T("phi", Li.lid, b, outer_of(Li))
            if v is None:
                toks = []
            elif not ps or ps[0] is not ph:
                out.append((None, "text is not appended to the text before: %s" % shn(v), st.notes))
                continue
            else:
                toks = self.tokens(st, Li, ps[1:], ch, c)
            cls = self.dom(st, ch)
            md = self.dom(st, self.mode)
            wd = self.dom(st, fv)
            for mode, relaxed in ((self.simple, False), (self.relaxed, True)):
                if mode not in md:
                    continue
                for name, cs in classes(relaxed):
                    if not (cls & IS.of(cs)):
                        continue
                    for w in (0, 1):
                        if (w == 0 and 0 not in wd) or (w == 1 and not (wd & IS.of([x for x in range(1, 256)]))) or (w and not relaxed):
                            continue
                        if w and f is None:
                            continue
                        out.append(self.step(st, alt, toks, name, relaxed, w, wd, cv, fv, c, f, isstr, ch))
        return out

    def step(self, st, alt, toks, name, relaxed, w, wd, cv, fv, c, f, isstr, ch):
        a = self.a
        who = "%s in %s mode%s" % (name, "relaxed" if relaxed else "simple", " after white space" if w else "")
        nc = alt.get(c, cv) if c is not None else I(0)
        nf = alt.get(f, fv) if f is not None else I(0)

        def flag(want):
            d = self.dom(st, nf)
            if want is None:
                return nf is fv or (d == IS.of([0]) if w == 0 else 0 not in d)
            return d == IS.of([0]) if want == 0 else 0 not in d

        def count(want):
            # want: "same", "zero", "more"
            if isstr:
                return {"same": nc is cv, "zero": nc is EMPTY, "more": nc is cat(cv, S("\r\n"))}[want]
            if c is None:
                return want == "same" or want == "zero"
            return {"same": nc is cv, "zero": self.dom(st, nc) == IS.of([0]), "more": nc is add(cv, I(1))}[want] or \
                want == "same" and same(a, st, nc, cv) is True
        if None in toks:
            return None, "%s: cannot follow the text that is appended: %s" % (who, shn(toks[toks.index(None) + 1]) if toks.index(None) + 1 < len(toks) else "?"), st.notes
        if name == "CR":
            ok = not toks and flag(None) and count("same")
            return ok, "%s is not skipped without effect (appends %s)" % (who, shk(toks)), st.notes
        if name == "LF":
            ok = not toks and flag(0) and count("more")
            return ok, "%s does not just add a pending line end and drop pending white space (appends %s; line ends %s, white space %s)" % (who, shk(toks), shn(nc), shn(nf)), st.notes
        if name == "white space":
            ok = not toks and flag(1) and count("same")
            return ok, "%s is not just remembered (appends %s)" % (who, shk(toks)), st.notes
        # any other octet
        want = [("crlf", None)] + ([("sp",)] if w else []) + [("ch",)]
        got = list(toks)
        n = I(0)
        while got and got[0][0] == "crlf":
            n = add(n, got[0][1])
            got.pop(0)
        pend = T("size", cv) if isstr else cv
        cnt = same(a, st, n, pend) is True or entails(a, st, sub(n, pend)) and entails(a, st, sub(pend, n))
        lit = [x for x in got] == want[1:]
        ok = bool(cnt) and lit and flag(0) and count("zero")
        if lit and not w and 1 in wd and relaxed and f is not None:
            # the text would be the same after white space
            pass
        return ok, "%s: appends %s and leaves %s line ends and white space %s, instead of the pending line ends%s and the octet, leaving none" % (
            who, shk(toks), shn(nc), shn(nf), ", one space" if w else ""), st.notes

    def tokens(self, st, Li, ps, ch, c):
        out = []
        for p in ps:
            if p.op == "str":
                s = p.a[0]
                while s:
                    if s.startswith("\r\n"):
                        out.append(("crlf", I(1)))
                        s = s[2:]
                    elif s[0] == " ":
                        out.append(("sp",))
                        s = s[1:]
                    else:
                        out.append(("lit", s[0]))
                        s = s[1:]
            elif p.op == "chs" and uncast(p.a[0]) is ch:
                out.append(("ch",))
            elif p.op == "sub" and p.a[0] is ch.a[0] and p.a[1] is ch.a[1] and p.a[2] is add(ch.a[1], I(1)):
                out.append(("ch",))
            elif p.op == "star":
                n = self.times(st, p)
                if n is None:
                    return [None, p]
                out.append(("crlf", n))
            elif c is not None and p is T("phi", Li.lid, c, outer_of(Li)):
                out.append(("crlf", T("size", p)))
            else:
                return [None, p]
        return out

    def times(self, st, star):
        """How many line ends an inner loop appends."""
        a = self.a
        L2 = a.I.loops.get(star.a[0])
        if L2 is None or L2.other_exit:
            return None
        ds = getattr(L2, "stars", {}).get(star.a[1])
        if not ds or any(d is not S("\r\n") for d in ds):
            return None
        for k in L2.changed:
            i = L2.init.get(k)
            ph = T("phi", L2.lid, k, outer_of(L2))
            if k is star.a[1] or i is None or not L2.alts:
                continue
            steps = {sub(x.get(k, ph), ph) for x in L2.alts}
            if len(steps) != 1:
                continue
            d = steps.pop()
            if d is I(-1):
                e = self.dom(st, ph)
                if e.size() == 1:
                    return sub(i, I(e.lo()))
            if d is I(1):
                # the bound the loop stops at: reached exactly
                for t, v in st.facts.items():
                    if t.op == "le0" and any(x is ph for x in subterms(t)):
                        for bnd in subterms(t):
                            if bnd.op == "phi" and bnd is not ph and entails(a, st, sub(bnd, ph)) and \
                                    all(entails(a, s, add(sub(ph, bnd), I(1))) for s in L2.altst):
                                return sub(bnd, i)
                e = self.dom(st, sub(ph, I(0)))
        return None

    # ------------------------------------------------------------------ the end
    def ends(self):
        a = self.a
        if not self.outer:
            self.put("u", "octet", None, "", "no loop reads the body")
            return
        for st, v in a.rets:
            out = st.store.get(OUT, EMPTY)
            ps = list(parts(out))
            L = None
            if ps and ps[0].op == "star" and ps[0].a[1] is OUT:
                L = next((x for x in self.outer if x.lid == ps[0].a[0]), None)
                ps.pop(0)
            if L is None:
                # which loop ran, if any
                L = next((x for x in self.outer if any(mentions(t, lambda y: y.op == "phi" and y.a[0] == x.lid) for t in list(st.store.values()) + list(st.dom))), None)
                if L is not None and not any(s.op == "star" for p in parts(out) for s in subterms(p)) and L.alts:
                    self.put("u", "end", None, "", "cannot relate what is delivered in all (%s) to the loop" % shn(out), st.notes)
                    continue
            nobody = L is None
            if nobody:
                od = self.dom(st, self.off)
                self.put("u", "start", od == IS.of([-1]), "", "the body of a message that has one is not read", st.notes)
            lim = self.limited(st)
            tail = cat(*ps) if ps else EMPTY
            emp = self.isempty(st, L)
            for mode, relaxed in ((self.simple, False), (self.relaxed, True)):
                if mode not in self.dom(st, self.mode):
                    continue
                if not relaxed or emp is False:
                    t = "\r\n"
                elif emp is True:
                    t = ""
                else:
                    t = None
                self.tail(st, v, L, tail, t, lim, relaxed, emp)

    def isempty(self, st, L):
        if L is None:
            return True
        for k, i in self.emptyflag(L):
            d = self.dom(st, T("phi", L.lid, k, ()))
            if d == IS.of([i]):
                return True
            if i not in d:
                return False
        return None

    def tail(self, st, v, L, tail, t, lim, relaxed, emp):
        a = self.a
        m = "relaxed" if relaxed else "simple"
        rv = holds(a, st, v)
        if lim is False:
            if t is None:
                if tail is EMPTY or tail is S("\r\n"):
                    self.put("u", "end", False, "", "in relaxed mode the body ends with %s whether or not it is empty" % shn(tail), st.notes)
                else:
                    self.put("u", "end", None, "", "unknown ending %s" % shn(tail), st.notes)
            else:
                self.put("u", "end", tail is S(t), "", "the body ends with %s in %s mode, %s" % (shn(tail), m, "being empty" if emp else "not being empty" if emp is False else ""), st.notes)
            self.put("l", "result", rv is True, "", "without a limit the result is %s" % shn(v), st.notes)
            return
        if lim is None:
            self.put("l", "end", None, "", "the ending does not depend on whether there is a limit", st.notes)
            return
        # with a limit
        k = {"": I(0), "\r\n": I(2), "\r": I(1)}.get(tail.a[0]) if tail.op == "str" else None
        if k is None and tail.op == "sub" and tail.a[0] is S("\r\n") and tail.a[1] is I(0):
            k = tail.a[2]
        locs = self.limlocs(L) if L is not None else []
        lefts = [T("phi", L.lid, b, ()) for b in locs] or [self.size]
        if k is None:
            self.put("l", "end", None, "", "cannot tell how much of the last line end is delivered: %s" % shn(tail), st.notes)
            return
        good = False
        for bs in lefts:
            z = self.dom(st, bs) == IS.of([0])
            if z:
                e = self.dom(st, k) == IS.of([0])
            elif t is None:
                e = False
            else:
                n = I(len(t))
                e = entails(a, st, sub(k, bs)) and entails(a, st, sub(k, n)) and (entails(a, st, sub(n, k)) or entails(a, st, sub(bs, k)))
            left = sub(bs, k)
            full = entails(a, st, left)
            more = entails(a, st, add(mulc(left, -1), I(1)))
            r = rv is not None and (full if rv else more)
            if rv is None and v is not None:
                r = None
            good = good or (bool(e), r)
            self.put("l", "end", bool(e), "", "with a limit %s octets of the last line end are delivered in %s mode with %s left" % (shn(k), m, shn(bs)), st.notes)
            self.put("l", "result", r, "", "the result is %s with %s octets left of the limit" % (shn(v), shn(left)), st.notes)
            break


def chunk_of(ch):
    """The octets read that an octet is taken from."""
    c = ch.a[0]
    if c.op == "chunk":
        return c
    if c.op == "bytes" and c.a[0].op == "chunk" and c.a[1] is I(0) and c.a[2] is T("gcount", *c.a[0].a):
        return c.a[0]
    return None


def outer_of(L):
    parts_ = L.lid.split("^")[1:]
    return tuple("^".join(parts_[i:]) for i in range(len(parts_)))[::-1]


def classes(relaxed):
    ws = [9, 32] if relaxed else []
    sp = set([13, 10] + ws)
    return [("CR", [13]), ("LF", [10])] + ([("white space", ws)] if relaxed else []) + \
        [("an octet of text", [x for x in range(-128, 128) if x not in sp])]


def shn(t):
    return "nothing" if t is None else sh(t)[:160]


def shk(toks):
    return " ".join(("%s line ends" % shn(x[1]) if x[0] == "crlf" else {"sp": "a space", "ch": "the octet"}.get(x[0], repr(x[-1]))) for x in toks if x is not None and isinstance(x, tuple)) or "nothing"


def line(L):
    return L.lid.split("@")[0].split("#")[0].split(":")[-1]
