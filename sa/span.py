"""Which part of the text of a stream a string built while reading it is: pieces of a value are matched with the positions they were read from."""
from .q import *
from .models import POS
from .linear import norm


class Piece:
    def __init__(self, kind, lo, hi, term, loop=None, alts=()):
        self.kind, self.lo, self.hi, self.term, self.loop, self.alts = kind, lo, hi, term, loop, alts

    def dom(self, a, st):
        """The octets of the piece: an IS, or None."""
        if self.kind == "ch":
            return a.I.dom(st, self.term)
        if self.kind == "run":
            d = IS.of([])
            for ps, s in self.alts:
                for p in ps:
                    x = p.dom(a, s)
                    if x is None:
                        return None
                    d = d | x
            return d
        return None


class Spans:
    """Spans of the text read from one stream of an analysis (stream location strm, text src)."""

    def __init__(self, a, strm, src):
        self.a, self.src = a, src
        self.pos = fld(strm, POS)
        self.memo = {}
        self.lost = []       # texts that replace, in a loop, what was collected before

    def outer(self, lid):
        ps = lid.split("^")[1:]
        return tuple("^".join(ps[i:]) for i in range(len(ps)))[::-1]

    def phi(self, L, loc):
        return T("phi", L.lid, loc, self.outer(L.lid))

    def pieces(self, v):
        """[Piece] of a value, or None if a part of it is not known to come from the stream. Constants are pieces of kind "str"."""
        out = []
        for t in parts(v):
            if t.op == "chs":
                c = uncast(t.a[0])
                if c.op == "ch" and c.a[0] is self.src:
                    out.append(Piece("ch", c.a[1], add(c.a[1], I(1)), c))
                    continue
                return None
            if t.op == "fws" and t.a[0] is self.src:
                out.append(Piece("fws", t.a[1], add(t.a[1], T("size", t)), t))
                continue
            if t.op == "str":
                if t.a[0]:
                    out.append(Piece("str", None, None, t))
                continue
            if t.op == "star" or t.op == "phi" and t.a[1] is not self.pos and t.a[0] in self.a.I.loops:
                p = self.run(T("star", t.a[0], t.a[1]))
                if p is None:
                    return None
                out.append(p)
                continue
            return None
        return out

    def run(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        L = self.a.I.loops.get(t.a[0])
        if L is None or self.pos not in L.changed and any(t.a[1] in x for x in L.alts):
            return None
        ph = self.phi(L, t.a[1])
        pp = self.phi(L, self.pos)
        alts = []
        for alt, st in zip(L.alts, L.altst):
            v = alt.get(t.a[1], ph)
            ps = parts(v)
            if not ps or ps[0] is not ph:
                if not mentions(v, lambda y: y is ph):
                    self.lost.append((L, t.a[1], v))
                return None
            pcs = self.pieces(cat(*ps[1:]) if ps[1:] else EMPTY)
            if pcs is None or not self.joined(pcs, pp, alt.get(self.pos, pp), st):
                return None
            alts.append((pcs, st))
        r = Piece("run", L.init.get(self.pos), pp, t, L, alts)
        self.memo[t] = r
        return r

    def joined(self, pcs, lo, hi, st=None):
        """Do the pieces cover exactly the text from lo to hi, in order?"""
        at = lo
        for p in pcs:
            if p.lo is None or p.lo is not at and not (st is not None and same(self.a, st, p.lo, at) is True):
                return False
            at = p.hi
        return at is hi or st is not None and same(self.a, st, at, hi) is True

    def lemma(self, x):
        """The length of the text a loop collected is the distance it moved."""
        if x.op == "size" and x.a[0].op == "star":
            r = self.run(x.a[0])
            if r is not None:
                c, d = norm(sub(sub(x, r.hi), mulc(r.lo, -1)))
                if d:
                    yield c, d
                    yield -c, {k: -v for k, v in d.items()}

    # ------------------------------------------------------------------ what a turn of a loop reads
    def chain(self, end, start, limit=60):
        """The text from start to end as a sequence of steps, first to last: [("ch", position) | ("fws", position) | ("loop", loop)], or None."""
        from .terms import lin_of
        out = []
        p = end
        while p is not start:
            limit -= 1
            if limit < 0:
                return None
            if p.op == "phi" and p.a[1] is self.pos:
                L = self.a.I.loops.get(p.a[0])
                if L is None or L.init.get(self.pos) is None:
                    return None
                out.append(("loop", L))
                p = L.init[self.pos]
                continue
            c, d = lin_of(p)
            if c >= 1:
                p = sub(p, I(1))
                out.append(("ch", p))
                continue
            nxt = None
            for x, k in d.items():
                if k == 1 and isinstance(x, T) and x.op == "size" and isinstance(x.a[0], T) and x.a[0].op == "fws" and x.a[0].a[0] is self.src and sub(p, x) is x.a[0].a[1]:
                    nxt = x.a[0]
            if nxt is None:
                return None
            out.append(("fws", nxt.a[1]))
            p = nxt.a[1]
        return out[::-1]

    def steps(self, L):
        """The steps of every turn of a loop: [(alternative, state, steps)], None where a turn does something else to the position."""
        out = []
        pp = self.phi(L, self.pos)
        for alt, st in zip(L.alts, L.altst):
            out.append((alt, st, self.chain(alt.get(self.pos, pp), pp)))
        return out

    WS = IS.of([9, 10, 13, 32])

    def skips(self, L, allowed=None):
        """Does every turn of the loop just read white space?"""
        allowed = allowed or self.WS
        for alt, st, ss in self.steps(L):
            if not ss:
                return False
            for k, x in ss:
                if k == "ch" and not self.a.I.dom(st, T("ch", self.src, x)) <= allowed or k == "loop":
                    return False
        return True

    def text(self, st, ss):
        """The text of steps as a term."""
        out = []
        for k, x in ss:
            if k == "ch":
                out.append(("ch", x))
            elif k == "fws":
                out.append(("fws", x))
            else:
                return None
        return out

    def key(self, t):
        """Text read from the stream, in the form of text()."""
        if t.op == "chs":
            c = uncast(t.a[0])
            if c.op == "ch" and c.a[0] is self.src:
                return ("ch", c.a[1])
        if t.op == "fws" and t.a[0] is self.src:
            return ("fws", t.a[1])
        return None

    def nows(self, st, p):
        """Is it known that no folding white space starts at p?"""
        return st.facts.get(T("nofws", self.src, p)) is True or not (self.a.I.dom(st, T("ch", self.src, p)) & IS.of([9, 13, 32]))

    def collects(self, L, v, wskind="fws"):
        """Does the loop collect in v the text it reads, without white space at the end?

        White space is held back in a second variable until a character follows. Returns [(ok, what, notes)]."""
        a = self.a
        best = None
        cands = [k for k in L.changed if k is not v and k is not self.pos and L.init.get(k) is EMPTY]
        for b in cands + [None]:
            r = self._collects(L, v, b)
            n = sum(100 if x[0] is False else 1 if x[0] is None else 0 for x in r)
            if best is None or n < best[0]:
                best = (n, r)
        return best[1]

    def _collects(self, L, v, b):
        a = self.a
        pv = self.phi(L, v)
        pb = self.phi(L, b) if b is not None else None
        out = []
        if L.init.get(v) is not EMPTY:
            out.append((False, "the text starts with %s" % sh(L.init.get(v))[:100], ()))
        for alt, st, ss in self.steps(L):
            nv, nb = alt.get(v, pv), (alt.get(b, pb) if b is not None else EMPTY)
            if ss is None or self.text(st, ss) is None:
                out.append((None, "cannot follow the position: %s" % sh(alt.get(self.pos))[:120] if alt.get(self.pos) is not None else "the position stays", st.notes))
                continue
            read = self.text(st, ss)
            bempty = pb is None or a.I.dom(st, T("size", pb)) == IS.of([0]) or st.facts.get(T("eq", pb, EMPTY)) is True

            def flat(x):
                r = []
                for t in parts(x):
                    if t is EMPTY:
                        continue
                    if t is pv:
                        r.append("v")
                    elif pb is not None and t is pb:
                        if not bempty:
                            r.append("b")
                    else:
                        r.append(self.key(t) or ("?", t))
                return r
            have = flat(nv) + flat(nb)
            want = ["v"] + ([] if bempty else ["b"]) + read
            if any(x[0] == "?" for x in have if isinstance(x, tuple)):
                out.append((False if not any(opaque_in(x[1]) for x in have if isinstance(x, tuple) and x[0] == "?") else None,
                            "%s is collected for %s" % (self.show(have), self.show(want)), st.notes))
                continue
            if have != want:
                out.append((False, "%s is kept of %s" % (self.show(have), self.show(want)), st.notes))
                continue
            # what was moved into the text ends with a character that is no white space
            fv = flat(nv)
            if fv != ["v"]:
                last = fv[-1]
                if not (isinstance(last, tuple) and last[0] == "ch" and self.nows(st, last[1])):
                    out.append((False, "white space can be put at the end of the text", st.notes))
                    continue
            # what is held back is white space only
            fb = [x for x in flat(nb) if x != "b"]
            if any(x[0] != "fws" and not (x[0] == "ch" and a.I.dom(st, T("ch", self.src, x[1])) <= self.WS) for x in fb if isinstance(x, tuple)) or "v" in flat(nb):
                out.append((False, "text other than white space is held back and may be lost", st.notes))
                continue
            out.append((True, "", st.notes))
        return out

    def show(self, xs):
        def one(x):
            if isinstance(x, tuple):
                return {"ch": "char@", "fws": "fws@"}.get(x[0], "") + sh(x[1])[-60:]
            return {"v": "text", "b": "held-back"}[x]
        return " ".join(one(x) for x in xs) or "nothing"
