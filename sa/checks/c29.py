"""C29: header canonicalization; simple is identity, relaxed normalizes.

The function is analysed once for an arbitrary header. The loop over the characters is read as a machine with one bit of state
(folding white space is pending) and compared with the definition: a turn skips folding white space (pending), or, where none
starts, puts one space if pending and then exactly the next character (not pending); it ends only at the end of the text. What is
read must be the input with the part before its first colon in lower case; of what is written only the spaces around the first
colon may be removed."""
from ..q import *
from ..linear import entails
from ..models import POS, ALLCH

FN = "DKIM::Conversion::CanonicalizationHeader::FilterHeader"
COLON = I(58)


def check(prog, R):
    R.say("simple", "every path in simple mode returns the input")
    R.say("colon", "relaxed mode returns a result only for an input with a colon; every other outcome is a permanent error")
    R.say("case", "the text that is processed is the input with exactly the part before the first colon in lower case")
    R.say("runs", "every turn of the loop over the text skips folding white space, or puts one space iff some was skipped since the last "
                  "character and then exactly the next character")
    R.say("every", "the loop starts at the first character, advances over exactly what it handled and ends only at the end of the text")
    R.say("trim", "of the text produced, exactly the spaces before (after a name that is not blank) and after the first colon are removed")
    for f in prog.fn(FN):
        Header(prog, R, f)


class Header:
    def __init__(self, prog, R, f):
        self.R = R
        a = self.a = An(prog, f, without=(FN,), extra={"#notrack": True})
        R.an(a)
        self.inp = T("init", a.ploc(0))
        self.mode = None
        names = {}
        for t in [x for s, v in a.rets for x in s.dom]:
            if t.op == "init" and t.a[0].op == "fld":
                ty = unref(next((m["t"] for m in prog.recs.get(f["cls"], {}).get("fields", ()) if m["n"] == t.a[0].a[1]), None)) or {}
                if ty.get("k") == "enum":
                    self.mode, names = t, {n.split("::")[-1]: v for n, v in ty.get("consts", [])}
        if self.mode is None:
            R.test("simple", False if a.rets else None, a.where, "no result depends on the mode of the object")
            return
        simple, relaxed = names.get("DKIM_C_SIMPLE"), names.get("DKIM_C_RELAXED")
        for s, v in a.rets:
            d = a.I.dom(s, self.mode)
            if simple in d:
                R.test("simple", v is self.inp or same(a, s, v, self.inp) is True, a.where, "simple mode returns %s" % shn(v), sample="returns the input", notes=s.notes)
            if relaxed in d:
                c = holds(a, s, T("has", self.inp, S(":")))
                R.test("colon", c is True, a.where, "relaxed mode returns %s for an input that may have no colon" % shn(v), notes=s.notes)
                self.result(s, v)
        for s, e in a.throws:
            R.test("colon", e.ty == PERM, a.where, "an input ends in %s" % e.ty, notes=s.notes)

    # ------------------------------------------------------------------ the text produced
    def result(self, s, v):
        a, R = self.a, self.R
        xs = []
        for t in subterms(v):
            if t.op == "star" and t not in xs and "^" not in t.a[0] and a.I.loops.get(t.a[0]) is not None:
                xs.append(t)
        if len(xs) != 1:
            R.test("runs", False if v is self.inp else None, a.where, "relaxed mode returns %s" % shn(v), notes=s.notes)
            return
        X = xs[0]
        self.loop(X)
        self.trim(s, v, X)

    def trim(self, s, v, X):
        a, R = self.a, self.R
        g = Geo(a, s, X)
        segs = g.segs(v)
        if segs is None:
            R.test("trim", None, a.where, "cannot tell which part of the text produced is returned: %s" % shn(v), notes=s.notes)
            return
        blank = any(t.op == "hasin" and spaces(t.a[1]) and val is False and g.part(t.a[0]) == ("0", "C") for t, val in s.facts.items())
        got = g.norm(segs)
        after = g.after
        tail = [("A", "E")] if after is True else [("C1", "E")] if after is False else None
        wants = []
        for tl in [tail] if tail is not None else [[("A", "E")]]:
            for nm in [[("0", "R")], [("0", "C")]] if blank else [[("0", "R")]]:
                wants.append(g.norm(nm + [("C", "C1")] + tl))
                if after is False:
                    wants.append(g.norm(nm + [("C", "C1")]))
        if blank and got and got[-1] == (wants[0] and wants[0][-1]):
            wants.append(got)
        R.test("trim", got in wants, a.where, "the result consists of %s of the text produced, not of %s (0 start, R after the name, C first colon, C1 after it, A first "
               "character after the white space, E end)" % (show(got), show(wants[0])), sample=show(got), notes=s.notes)

    # ------------------------------------------------------------------ the loop
    def loop(self, X):
        a, R = self.a, self.R
        if X in self.__dict__.setdefault("_done", []):
            return
        self._done.append(X)
        L = a.I.loops[X.a[0]]
        x = X.a[1]
        w = "%s (loop at line %s)" % (a.where, L.lid.split("#")[0].split(":")[-1])
        R.test("every", L.init.get(x) is EMPTY, w, "the text produced starts with %s" % shn(L.init.get(x)))
        ps = [k for k in L.changed if k.op == "fld" and k.a[1] == POS or k.op == "fld" and k.a[1] is POS]
        if len(ps) != 1:
            R.test("runs", None, w, "the text is not read from one stream: %s" % [sh(p) for p in ps])
            return
        pos = ps[0]
        R.test("every", L.init.get(pos) is I(0), w, "reading starts at %s" % shn(L.init.get(pos)))
        srcs = set()
        for st in L.altst:
            for t in list(st.dom):
                if t.op == "ch":
                    srcs.add(t.a[0])
        if len(srcs) != 1:
            R.test("case", None, w, "the loop looks at several texts")
            return
        src = srcs.pop()
        self.case(src, w)
        pphi, xphi = T("phi", L.lid, pos, ()), T("phi", L.lid, x, ())
        pend = [k for k in L.changed if k is not x and k is not pos]
        best = None
        for f in pend + [None]:
            r = self.judge(L, f, src, x, xphi, pos, pphi)
            n = sum(1 for q in r if q[1] is False) * 100 + sum(1 for q in r if q[1] is None) * 10
            if best is None or n < best[0]:
                best = (n, r)
        for rule, cond, what, notes in best[1]:
            R.test(rule, cond, w, what, notes=notes)

    def case(self, src, w):
        a, R = self.a, self.R
        ok = False
        p = parts(src)
        if len(p) == 2 and p[0].op == "lower" and p[1].op == "sub":
            n, v = p[0].a[0], p[1]
            ok = n.op == "sub" and n.a[0] is self.inp and n.a[1] is I(0) and v.a[0] is self.inp and v.a[2] is END_ and uncast(n.a[2]) is uncast(v.a[1]) and \
                first_colon(uncast(v.a[1]), self.inp)
        elif mentions(src, lambda t: t.op in ("phi", "star")):
            ok = None
        R.test("case", ok, w, "the text processed is %s" % shn(src), sample="lower(before first colon) . rest")

    def judge(self, L, f, src, x, xphi, pos, pphi):
        """[(rule, cond, what, notes)] with loop variable f as the memory of pending white space (None: nothing is remembered over turns)."""
        a = self.a
        out = []
        fphi = T("phi", L.lid, f, ()) if f is not None else None
        z0 = None
        if f is not None:
            z0 = zero(a, None, L.init.get(f))
            if z0 is not True and z0 is not False:
                return [("runs", None, "%s starts at %s" % (sh(f), shn(L.init.get(f))), ())]
        for alt, st in zip(L.alts, L.altst):
            v, q = alt.get(x, xphi), alt.get(pos, pphi)
            p = parts(v)
            # pending at the start of the turn: True, False or None (either)
            if f is None:
                was = False
            else:
                z = zero(a, st, fphi)
                was = None if z is None else (z != z0)
            def state_after(nv):
                if f is None:
                    return False
                z = zero(a, st, nv)
                return None if z is None else (z != z0)
            end = state_after(alt.get(f, fphi) if f is not None else None)
            if not p or p[0] is not xphi:
                out.append(("runs", None, "text is not appended to the text before: %s" % shn(v), st.notes))
                continue
            rest = p[1:]
            start, skipped = self.skips(L, st, q, src, pos, pphi, rest, f, fphi)
            if start is None:
                out.append(("runs", None, "cannot follow the position in the text: %s" % shn(q), st.notes))
                continue
            before = True if skipped is True else was if skipped is False else (True if was is True else None)
            if not rest:
                # nothing is put: only white space may have been passed
                adv = q is start
                if f is not None and end is None and was is not True and skipped is None:
                    out.append(("runs", None, "cannot tell whether white space is remembered", st.notes))
                    continue
                if not adv:
                    out.append(("runs", False, "characters from %s to %s are dropped" % (shn(start), shn(q)), st.notes))
                    continue
                if skipped is True or before is True:
                    out.append(("runs", end is True, "white space that was skipped is forgotten", st.notes))
                elif before is False:
                    out.append(("runs", end is False, "white space is assumed where there was none", st.notes))
                else:
                    out.append(("runs", None, "cannot tell whether white space was skipped in a turn that puts nothing", st.notes))
                continue
            c = T("ch", src, start)
            sp = rest[0].op == "str" and rest[0].a[0] == " " if rest else False
            body = rest[1:] if sp else rest
            good = len(body) == 1 and body[0].op == "chs" and uncast(body[0].a[0]) is c
            out.append(("runs", good, "a turn puts %s for the character at %s" % (shn(cat(*body) if body else EMPTY), shn(start)), st.notes))
            out.append(("every", same(a, st, q, add(start, I(1))) is True, "a turn that handles the character at %s continues at %s" % (shn(start), shn(q)), st.notes))
            d = a.I.dom(st, c)
            looked = st.facts.get(T("nofws", src, start)) is True or not (d & IS.of([9, 13, 32]))
            out.append(("runs", looked, "a character is copied that may be the start of folding white space", st.notes))
            out.append(("every", not (d & IS.of([-1])), "something is put at the end of the text", st.notes))
            if before is None:
                out.append(("runs", False, "%s although white space may %s have been skipped" % ("a space is put" if sp else "no space is put", "not" if sp else ""), st.notes))
            else:
                out.append(("runs", sp == before, "%s although %s" % ("a space is put" if sp else "no space is put", "white space was skipped" if before else "no white space was skipped"), st.notes))
            out.append(("runs", end is False, "white space may still count as pending after the next character", st.notes))
        for kind, st in L.exits:
            q = st.store.get(pos, pphi)
            d = a.I.dom(st, T("ch", src, q)) if q is not None else None
            out.append(("every", d is not None and d == IS.of([-1]), "the loop can end before the end of the text (%s)" % kind, st.notes))
            xv = st.store.get(x)
            if xv is not None and xv is not xphi and xv is not T("star", L.lid, x):
                out.append(("runs", xv.op == "phi" or None if xv.op == "phi" else False, "at the end of the text %s is put" % shn(xv), st.notes))
        if L.other_exit:
            out.append(("every", None, "the loop can be left by return", ()))
        return out

    def skips(self, L, st, q, src, pos, pphi, rest, f, fphi):
        """(position after the white space a turn skips, was any skipped). The start is found from the text put or the end position."""
        a = self.a
        cand = []
        for t in rest:
            for y in subterms(t):
                if y.op == "ch" and y.a[0] is src and y.a[1] not in cand:
                    cand.append(y.a[1])
        if not cand:
            cand = [q]
            b = sub(q, I(1))
            if b is pphi or b.op in ("phi", "star"):
                # one character is passed: white space or not
                if not (a.I.dom(st, T("ch", src, b)) <= IS.of([9, 32])):
                    cand = [b]
        if len(cand) != 1:
            return None, None
        p = cand[0]
        if p is pphi:
            return p, False
        if self.token(st, src, pphi, p):
            return p, True
        # behind an inner loop
        if p.op in ("phi", "star"):
            Li = a.I.loops.get(p.a[0])
            if Li is None or not Li.lid.endswith("^" + L.lid) or p.a[1] is not pos:
                return None, None
            first = Li.init.get(pos)
            pi = T("phi", Li.lid, pos, (L.lid,))
            pre = None
            if first is pphi:
                pre = False
            elif self.token(st, src, pphi, first):
                pre = True
            if pre is None:
                return None, None
            for alt, s2 in zip(Li.alts, Li.altst):
                if not self.token(s2, src, pi, alt.get(pos)):
                    return None, None
            if pre:
                return p, True
            # which inner variables tell whether the inner loop took a turn?
            for k in Li.changed:
                iv = Li.init.get(k)
                for ph in (T("phi", Li.lid, k, (L.lid,)), T("star", Li.lid, k)):
                    zi = zero(a, st, iv)
                    zt = set(zero(a, s2, alt.get(k)) for alt, s2 in zip(Li.alts, Li.altst))
                    zp = zero(a, st, ph)
                    if zi is None and f is not None and iv is fphi:
                        # keeps the value from before: whatever it was, a turn sets it
                        if len(zt) == 1 and zp is not None and None not in zt and zp != list(zt)[0]:
                            return p, False
                        continue
                    if zi is None or zt != {not zi} or zp is None:
                        continue
                    return p, zp != zi
            for t, val in st.facts.items():
                if val is not None and t.op in ("eq0", "eq") and any(y is p for y in subterms(t)) and any(y is first for y in subterms(t)):
                    if same(a, st, p, first) is True:
                        return p, False
                    if same(a, st, p, first) is False:
                        return p, True
            return p, None
        return None, None


    def token(self, st, src, p, q):
        """Does the text from p to q consist of folding white space or of one white-space character?"""
        if q is None:
            return False
        return q is add(p, T("size", T("fws", src, p))) or q is add(p, I(1)) and self.a.I.dom(st, T("ch", src, p)) <= IS.of([9, 32])


class Geo:
    """Positions in the text produced: 0 <= R (end of the name) <= C (first colon) < C1 <= A (first character behind) <= E.

    A text put together from ranges of it is a list of ranges; a position in such a text is mapped to the position it stands for."""

    ORDER = ["0", "R", "C", "C1", "A", "E"]

    def __init__(self, a, s, X):
        self.a, self.s, self.X = a, s, X
        self.after = None
        self.eq = {}
        self.terms = {"0": I(0), "E": a.I.size(X)}     # point -> position term
        self.alias = {}                                # position term -> point
        ts = []
        for t in list(s.dom) + list(s.facts):
            for y in subterms(t):
                if y not in ts:
                    ts.append(y)
        for t in ts:
            if t.op in ("find", "findpos") and first_colon(t, X):
                self.terms["C"], self.terms["C1"] = t, add(t, I(1))
        for k in range(3):
            for t in ts:
                if t.op == "rfindset" and spaces(t.a[1]) and self.sub_(t.a[0]) == [("0", "C")] and t.a[2] is I(E.NPOS):
                    self.terms.setdefault("R", add(t, I(1)))
                    self.alias[add(t, I(1))] = "R"
                if t.op == "findset" and spaces(t.a[1]):
                    self.first(t)
        for t, val in s.facts.items():
            if t.op == "hasin" and spaces(t.a[1]) and self.sub_(t.a[0]) == [("C1", "E")]:
                self.after = val
        names = [n for n in self.ORDER if n in self.terms]
        for i, n in enumerate(names):
            for m in names[i + 1:]:
                if same(a, s, self.terms[n], self.terms[m]) is True:
                    self.eq[m] = self.eq.get(n, n)

    def first(self, t):
        """t is the first character that is no space, from a position in some text on: does it stand for A?"""
        sg = self.segs(t.a[0])
        if sg is None:
            return
        sg = self.norm(sg, False)
        start = I(0)
        for i, (lo, hi) in enumerate(sg):
            q = add(sub(t.a[2], start), self.terms[lo])
            if hi == "E" and i == len(sg) - 1 and self.point(q) == "C1":
                A = add(sub(t, start), self.terms[lo])
                self.terms.setdefault("A", A)
                self.alias[A] = "A"
                d = self.a.I.dom(self.s, t)
                self.after = False if d == IS.of([E.NPOS]) else True if E.NPOS not in d else self.after
                return
            start = add(start, sub(self.terms[hi], self.terms[lo]))

    def point(self, t):
        t = uncast(t)
        if t in self.alias:
            return self.alias[t]
        for n, v in self.terms.items():
            if v is t:
                return n
        return None

    def order(self, n):
        return self.ORDER.index(n)

    def part(self, t):
        sg = self.sub_(t)
        return sg[0] if sg is not None and len(sg) == 1 else None

    def sub_(self, v):
        sg = self.segs(v)
        return None if sg is None else self.norm(sg, False)

    def segs(self, v):
        out = []
        for t in parts(v):
            if t is self.X:
                out.append(("0", "E"))
            elif t.op == "str":
                if t.a[0] == "":
                    continue
                if t.a[0] != ":":
                    return None
                out.append(("C", "C1"))
            elif t.op == "chs" and t.a[0] is COLON:
                out.append(("C", "C1"))
            elif t.op == "sub":
                base = self.segs(t.a[0])
                r = None if base is None else self.cut(base, t.a[1], t.a[2])
                if r is None:
                    return None
                out += r
            else:
                return None
        if "C" not in self.terms and any(x not in ("0", "E") for y in out for x in y):
            return None
        return out

    def cut(self, base, lo, hi):
        base = self.norm(base, False)
        l, h = self.place(base, lo), (len(base), None) if hi is END_ else self.place(base, hi)
        if l is None or h is None:
            return None
        out = []
        for i, (x, y) in enumerate(base):
            if i < l[0] or i > h[0]:
                continue
            if i == l[0]:
                x = l[1]
            if i == h[0]:
                y = h[1]
            if x != y:
                out.append((x, y))
        return out

    def place(self, base, p):
        """(range, position in the text produced) for a position in concatenated ranges."""
        p = uncast(p)
        starts = [I(0)]
        for x, y in base:
            starts.append(add(starts[-1], sub(self.terms[y], self.terms[x])))
        for i, (x, y) in enumerate(base):
            n = self.point(add(sub(p, starts[i]), self.terms[x]))
            if n is not None and self.order(x) <= self.order(n) <= self.order(y):
                return i, n
        for i, (x, y) in enumerate(base):
            # a place next to a known one
            q = add(sub(p, starts[i]), self.terms[x])
            for m, v in list(self.terms.items()):
                d = sub(q, v)
                if d.op == "int" and m in Geo.ORDER and self.order(x) <= self.order(m) <= self.order(y):
                    k = "%s%+d" % (m, d.a[0])
                    self.terms[k] = q
                    if k not in self.ORDER:
                        self.ORDER = list(self.ORDER)
                        self.ORDER.insert(self.order(m) + (1 if d.a[0] > 0 else 0), k)
                    return i, k
        return None

    def norm(self, segs, eqs=True):
        out = []
        for lo, hi in segs:
            if eqs:
                lo, hi = self.eq.get(lo, lo), self.eq.get(hi, hi)
            if lo == hi:
                continue
            if out and out[-1][1] == lo:
                out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        return out


def first_colon(t, s):
    if t.op == "find":
        return t.a[0] is s and t.a[1] is S(":") and t.a[2] is I(0)
    if t.op == "findpos":
        return any(x is s for x in t.a) and S(":") in t.a and t.a[-1] is I(0)
    return False


def spaces(cs):
    """Is this the set of all octets but the space (and perhaps other white space)?"""
    if not isinstance(cs, frozenset):
        return False
    missing = ALLCH - cs
    return 32 in missing and missing <= {9, 32}


def zero(a, st, v):
    """Is the value zero or empty: True, False, None (unknown)."""
    if v is None:
        return None
    if v is EMPTY:
        return True
    if st is None:
        if v.op == "int":
            return v.a[0] == 0
        return None
    if v.op == "int":
        return v.a[0] == 0
    d = a.I.dom(st, v if a.I.intlike(v) else a.I.size(v))
    if d == IS.of([0]):
        return True
    if 0 not in d:
        return False
    if a.I.intlike(v) and entails(a, st, add(mulc(v, -1), I(1))):
        return False
    return None


def shn(t):
    return "nothing" if t is None else sh(t)[:160]


def show(segs):
    return " ".join("%s..%s" % x for x in segs) or "nothing"
