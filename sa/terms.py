"""Hash-consed provenance terms (value numbering) and integer interval sets."""
import itertools

INF = 1 << 80


class T:
    """An interned term: two equal terms are the same object."""
    __slots__ = ("op", "a", "id", "_loops", "_subs", "__weakref__")
    _tab = {}
    _n = itertools.count(1)

    def __new__(cls, op, *a):
        k = (op, a)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.id = next(cls._n)
            t._loops = None
            t._subs = None
            cls._tab[k] = t
        return t

    def __reduce__(self):
        return (T, (self.op,) + self.a)

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def loops(self):
        """Loop ids this term depends on (values that change per iteration)."""
        if self._loops is None:
            s = frozenset()
            if self.op in ("phi", "sym", "heap", "join", "ent"):
                s = s | frozenset(self.a[0] if self.op != "phi" else (self.a[0],) + tuple(self.a[2]))
            for x in self.a:
                if isinstance(x, T):
                    s = s | x.loops()
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            s = s | y.loops()
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    s = s | z.loops()
            self._loops = s
        return self._loops

    def subs(self):
        """All sub-terms including itself."""
        if self._subs is None:
            s = {self}
            for x in self.a:
                if isinstance(x, T):
                    s |= x.subs()
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            s |= y.subs()
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    s |= z.subs()
            self._subs = frozenset(s)
        return self._subs


def subst(t, f, memo=None):
    """Rebuild t, replacing sub-terms for which f(x) is not None."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        na = []
        ch = False
        for x in t.a:
            y = _subst_any(x, f, memo)
            ch = ch or (y is not x and y != x)
            na.append(y)
        if not ch:
            r = t
        elif t.op == "cat":
            r = cat(*na)
        elif t.op == "lin":
            r = lin_build(na[0], na[1])
        else:
            r = T(t.op, *na)
    memo[t] = r
    return r


def _subst_any(x, f, memo):
    if isinstance(x, T):
        return subst(x, f, memo)
    if isinstance(x, tuple):
        y = tuple(_subst_any(z, f, memo) for z in x)
        return y if y != x else x
    return x


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return repr(t) if isinstance(t, (bytes, str)) else str(t)
    if t.op == "int":
        return str(t.a[0])
    if t.op == "str":
        return '"' + t.a[0].encode("unicode_escape").decode() + '"'
    if t.op == "null":
        return "null"
    if d > 7:
        return t.op + "(..)"
    if t.op == "lin":
        s = []
        for c, x in t.a[1]:
            s.append(("%d*" % c if c != 1 else "") + show(x, d + 1))
        if t.a[0]:
            s.append(str(t.a[0]))
        return "(" + " + ".join(s) + ")"
    if t.op == "v":
        return t.a[1]
    if t.op == "fld":
        return show(t.a[0], d + 1) + "." + str(t.a[1])
    if t.op == "init":
        return show(t.a[0], d + 1) + "'"
    if t.op == "cat":
        return " . ".join(show(x, d + 1) for x in t.a)
    return t.op + "(" + ", ".join(show(x, d + 1) for x in t.a) + ")"


def I(n):
    return T("int", int(n))


def S(s):
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    return T("str", s)


NULL = T("null")
TRUE = I(1)
FALSE = I(0)
EMPTY = S("")


def is_int(t):
    return t.op == "int"


def cat(*parts):
    """Concatenation (strings, lists and digest contents), flattened."""
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if q.op == "str":
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            elif q.op == "nil":
                continue
            out.append(q)
    # a dropped string may have put two literals side by side
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


def parts(t):
    if t.op == "cat":
        return list(t.a)
    if t.op == "nil" or (t.op == "str" and t.a[0] == ""):
        return []
    return [t]


NIL = T("nil")


def item(v):
    return T("item", v)


# ---------------------------------------------------------------- linear terms
def lin_of(t):
    """(const, {term: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], {x: c for c, x in t.a[1]}
    return 0, {t: 1}


def lin_build(c, ts):
    d = {}
    for k, x in ts:
        if isinstance(x, T) and x.op in ("int", "lin"):
            c0, d0 = lin_of(x)
            c += k * c0
            for y, kk in d0.items():
                d[y] = d.get(y, 0) + k * kk
        else:
            d[x] = d.get(x, 0) + k
    return lin_make(c, d)


def lin_make(c, d):
    d = {x: k for x, k in d.items() if k}
    if not d:
        return I(c)
    if len(d) == 1 and c == 0:
        (x, k), = d.items()
        if k == 1:
            return x
    return T("lin", c, tuple(sorted(((k, x) for x, k in d.items()), key=lambda p: p[1].id)))


def add(a, b, sb=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + sb * k
    return lin_make(ca + sb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin_of(a)
    return lin_make(c * k, {x: v * k for x, v in d.items()})


# ---------------------------------------------------------------- interval sets
class IS:
    """Finite union of integer intervals."""
    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = tuple(iv)

    @staticmethod
    def rng(lo, hi):
        return IS(((lo, hi),)) if lo <= hi else IS(())

    @staticmethod
    def of(vals):
        vs = sorted(set(vals))
        out = []
        for v in vs:
            if out and out[-1][1] == v - 1:
                out[-1][1] = v
            else:
                out.append([v, v])
        return IS(tuple(map(tuple, out)))

    def __eq__(self, o):
        return isinstance(o, IS) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __bool__(self):
        return bool(self.iv)

    def __and__(self, o):
        r = []
        for a, b in self.iv:
            for c, d in o.iv:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    r.append((lo, hi))
        r.sort()
        return IS(r)

    def __or__(self, o):
        vs = sorted(self.iv + o.iv)
        out = []
        for a, b in vs:
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        return IS(out)

    def compl(self):
        out = []
        lo = -INF
        for a, b in self.iv:
            if lo <= a - 1:
                out.append((lo, a - 1))
            lo = b + 1
        if lo <= INF:
            out.append((lo, INF))
        return IS(out)

    def __sub__(self, o):
        return self & o.compl()

    def __le__(self, o):
        return not (self - o)

    def __contains__(self, v):
        return any(a <= v <= b for a, b in self.iv)

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def values(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def lo(self):
        return self.iv[0][0]

    def hi(self):
        return self.iv[-1][1]

    def single(self):
        return self.iv[0][0] if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1] else None

    def affine(self, k, c):
        """{k*v+c}; exact only for |k|==1."""
        out = []
        for a, b in self.iv:
            x, y = k * a + c, k * b + c
            out.append((min(x, y), max(x, y)))
        out.sort()
        return IS(out)

    def __repr__(self):
        def f(v):
            return "-inf" if v <= -INF else "inf" if v >= INF else str(v)
        return "{" + ",".join(f(a) if a == b else f(a) + ".." + f(b) for a, b in self.iv) + "}"


FULL = IS.rng(-INF, INF)
