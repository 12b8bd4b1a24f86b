"""Linear entailment over the facts of a state: is an expression known to be <= 0?

The facts le0(e), eq0(e) and the ranges of the atoms form a polyhedron; the question is whether it lies within e <= 0.
Decided exactly over the rationals (phase 1 of the simplex method on the polyhedron cut by e >= 1)."""
from fractions import Fraction as F
from math import gcd

from . import engine as E
from .q import *
from .terms import lin_of

BIG = 1 << 62


def norm(t):
    """constant, {atom: coefficient} with value preserving conversions removed."""
    t = widecast(t)
    return lin_of(t)


def constraints(a, st, atoms, lemmas=None, limit=80):
    """Inequalities sum <= 0 over the atoms reachable from the given ones: [(const, {atom: coeff})]."""
    raw = []
    for t, v in st.facts.items():
        if t.op == "le0":
            c, d = norm(t.a[0])
            if v:
                raw.append((c, d))
            else:
                raw.append((1 - c, {x: -k for x, k in d.items()}))
        elif t.op == "eq0" and v and isinstance(t.a[0], T):
            c, d = norm(t.a[0])
            if d and all(isinstance(x, T) for x in d):
                raw.append((c, d))
                raw.append((-c, {x: -k for x, k in d.items()}))
    known = set(atoms)
    out = []
    used = [False] * len(raw)
    seen = set()
    while True:
        ch = False
        for i, (c, d) in enumerate(raw):
            if not used[i] and any(x in known for x in d) and len(out) < limit:
                used[i] = True
                out.append((c, d))
                known.update(d)
                ch = True
        for x in list(known):
            if x in seen:
                continue
            seen.add(x)
            ch = True
            for c, d in (list(builtin(a, st, x)) + list(lemmas(x) if lemmas else ())):
                out.append((c, d))
                known.update(d)
        if not ch:
            break
    for x in known:
        dm = a.I.dom(st, x)
        if not dm:
            return None
        lo, hi = dm.lo(), dm.hi()
        if lo > -BIG:
            out.append((lo, {x: -1}))
        if hi < BIG:
            out.append((-hi, {x: 1}))
    return out


def builtin(a, st, x):
    """What holds for an atom by its meaning."""
    if x.op in ("find", "findset", "rfindset", "rfind"):
        d = a.I.dom(st, x)
        if E.NPOS not in d and -1 not in d:
            yield 1, {x: 1, T("size", x.a[0]): -1}
            if x.op in ("find", "findset"):
                c, dd = norm(x.a[2])
                yield c, dict(list(dd.items()) + [(x, -1)]) if x not in dd else {}
    if isvar(x):
        for r in monotone(a, x):
            yield r
        for r in stops(a, st, x):
            yield r
    if x.op == "ent":
        for r in least(a, st, x):
            yield r
    if x.op == "nextline":
        # behind the line that starts at a position
        c, d = norm(x.a[1])
        yield c + 1, dict(list(d.items()) + [(x, -1)]) if x not in d else {}
    if x.op == "size" and isinstance(x.a[0], T) and x.a[0].op in ("star", "phi"):
        # what a loop put together: its text now without the text before
        L = a.I.loops.get(x.a[0].a[0])
        loc = x.a[0].a[1]
        p, ini = (L.start.get(loc), L.init.get(loc)) if L is not None else (None, None)
        if p is not None and ini is not None and p.op == "phi" and ini.op in ("str", "cat", "phi"):
            c, d = norm(SIZE(ini))
            z, y = T("size", p), T("size", T("star", x.a[0].a[0], loc))
            if z not in d and y not in d and x in (y, z):
                for sg in (1, -1):
                    e = {q: k * sg for q, k in d.items()}
                    e[y] = sg
                    e[z] = -sg
                    yield c * sg, e
    if x.op == "numend":
        # the number ends within the text
        yield 0, {x: 1, T("size", x.a[0]): -1}
    if x.op == "size":
        s = x.a[0]
        if isinstance(s, T) and s.op == "rsasig" and s.a[0].op == "rsasign":
            # RSA_sign writes at most RSA_size(key) bytes
            z = T("rsasize", s.a[0].a[2])
            E.TR.setdefault(z, IS.rng(0, 1 << 20))
            yield 0, {x: 1, z: -1}
        if isinstance(s, T) and s.op in ("sub", "popb", "popf", "strip"):
            yield 0, {x: 1, T("size", s.a[0]): -1}
        if isinstance(s, T) and s.op == "lower":
            yield 0, {x: 1, T("size", s.a[0]): -1}
            yield 0, {x: -1, T("size", s.a[0]): 1}


def least(a, st, x):
    """What joined states agree on: a quantity that the value is not below in any of them."""
    m = a.memo.setdefault("least", {})
    if x not in m:
        m[x] = ()
        common = None
        for v in a.I.entvals.get(x, ()):
            up = {}
            c, d = norm(v)
            while len(d) == 1 and list(d.values()) == [1]:
                y = next(iter(d))
                if y in up or y is x:
                    break
                up[y] = c
                if not isvar(y):
                    break
                nx = [(k, z) for k, z in monotone(a, y) if z.get(y) == -1 and all(w == 1 for q, w in z.items() if q is not y)]
                if not nx:
                    break
                k, z = nx[0]
                c, d = c + k, {q: w for q, w in z.items() if q is not y}
            common = up if common is None else {y: min(k, common[y]) for y, k in up.items() if y in common}
        m[x] = tuple((k, {y: 1, x: -1}) for y, k in (common or {}).items())
    for k, d in m[x]:
        yield k, dict(d)


_inphi = set()


def isvar(x):
    return x.op == "phi" or x.op == "size" and isinstance(x.a[0], T) and x.a[0].op == "phi"


def var(x):
    """(loop, location, outer) of a loop variable, or of the size of a string that is one."""
    if x.op == "size":
        return (x.a[0].a[0], T("szof", x.a[0].a[1])) + tuple(x.a[0].a[2:])
    return x.a


def SIZE(v):
    """Size of a string value as far as it is made of known pieces."""
    if v.op == "str":
        return I(len(v.a[0]))
    if v.op == "cat":
        r = I(0)
        for p in parts(v):
            r = add(r, SIZE(p))
        return r
    if v.op == "chs":
        return I(1)
    if v.op == "popb" or v.op == "popf":
        return sub(SIZE(v.a[0]), I(1))
    if v.op == "sub" and len(v.a) == 3 and isinstance(v.a[2], T) and v.a[1].op == "int":
        d = sub(v.a[2], T("size", v.a[0]))
        if d.op == "int" and d.a[0] <= 0:
            return sub(v.a[2], v.a[1])
        if v.a[2] is END_:
            return sub(T("size", v.a[0]), v.a[1])
    return T("size", v)


def lval(d, loc):
    """Value of a loop variable (or of the offset of a pointer variable) in a loop summary."""
    if loc.op == "szof":
        v = d.get(loc.a[0])
        return None if v is None or v.op in ("int", "ptr", "it") else SIZE(v)
    if loc.op == "off":
        v = d.get(loc.a[0])
        if v is None:
            return None
        if v.op in ("ptr",) and len(v.a) == 2:
            return v.a[1]
        if v.op == "it" and len(v.a) == 4:
            return v.a[2]
        return None
    return d.get(loc)


def changes(a, L, x):
    """[(state, new value)] of the loop variable behind atom x on every way round the loop that may change it; None if unknown."""
    out = []
    for alt, ast in zip(L.alts, L.altst):
        k = var(x)[1].a[0] if var(x)[1].op in ("off", "szof") else var(x)[1]
        if k not in alt:
            continue
        v = lval(alt, var(x)[1])
        if v is None:
            return None
        if v is not x:
            out.append((ast, v))
    return out


def unsigned(a, x):
    """Must a value of the variable behind atom x be shown not to wrap below zero?"""
    loc = var(x)[1]
    if loc.op in ("off", "szof") or loc.op == "fld" and str(loc.a[1]).startswith("#"):
        return False
    t = unref(a.I.loctype.get(loc) or {}) or {}
    return bool(t.get("uns")) or not t


def monotone(a, x):
    """A loop variable that only ever grows (shrinks) is at least (at most) its initial value; two variables of one loop
    whose sum or difference never grows keep it at most at its initial value."""
    L = a.I.loops.get(var(x)[0])
    if L is None or x in _inphi:
        return
    m = a.memo.setdefault("monotone", {})
    if x not in m:
        m[x] = ()
        _inphi.add(x)
        try:
            m[x] = tuple(_monotone(a, x, L))
        finally:
            _inphi.discard(x)
    for c, d in m[x]:
        yield c, dict(d)


def _monotone(a, x, L):
    ini = lval(L.init, var(x)[1])
    ch = changes(a, L, x)
    if ini is None or ch is None:
        return
    up = all(entails(a, s, mulc(sub(v, x), -1)) for s, v in ch)
    down = all(entails(a, s, sub(v, x)) and (not unsigned(a, x) or entails(a, s, mulc(v, -1))) for s, v in ch)
    c, d = norm(ini)
    if x in d:
        return
    if ini.op == "int" and all(v.op == "int" for _, v in ch) and not (up or down):
        # one of a few numbers
        ns = [ini.a[0]] + [v.a[0] for _, v in ch]
        yield min(ns), {x: -1}
        yield -max(ns), {x: 1}
        return
    if ini.op != "int" or not (up or down):
        # within what it is set to before the loop and on every way back
        ds = [a.I.dom(L.entry, ini) if L.entry is not None else None] + [a.I.dom(s, v) for s, v in ch]
        if all(ds):
            lo, hi = min(d.lo() for d in ds), max(d.hi() for d in ds)
            wraps = lo < 0 and unsigned(a, x)
            if lo > -BIG and not wraps:
                yield lo, {x: -1}
            if hi < BIG and not wraps:
                yield -hi, {x: 1}
    if up:
        yield c, dict(list(d.items()) + [(x, -1)])
    if down:
        yield -c, dict([(y, -k) for y, k in d.items()] + [(x, 1)])
    if up and down:
        return
    # pairs
    for loc in L.init:
        for y in twins(a, L, loc, x):
            ini2 = lval(L.init, var(y)[1])
            ch2 = changes(a, L, y)
            if ini2 is None or ch2 is None:
                continue
            sts = {id(s): s for s, _ in ch + ch2}
            n1, n2 = {id(s): v for s, v in ch}, {id(s): v for s, v in ch2}
            for sg in (1, -1):
                fall = rise = True
                for k, s in sts.items():
                    v1, v2 = n1.get(k, x), n2.get(k, y)
                    g = add(sub(v1, x), mulc(sub(v2, y), sg))
                    fall = fall and entails(a, s, g)
                    rise = rise and entails(a, s, mulc(g, -1))
                    # neither may wrap
                    if (v1 is not x and unsigned(a, x) and not entails(a, s, mulc(v1, -1))) or \
                            (v2 is not y and unsigned(a, y) and not entails(a, s, mulc(v2, -1))):
                        fall = rise = False
                    if not (fall or rise):
                        break
                i2c, i2d = norm(ini2)
                tot = {}
                for q, k in [(x, 1), (y, sg)]:
                    tot[q] = tot.get(q, 0) + k
                cc = -c - sg * i2c
                for q, k in list(d.items()):
                    tot[q] = tot.get(q, 0) - k
                for q, k in i2d.items():
                    tot[q] = tot.get(q, 0) - sg * k
                tot = {q: k for q, k in tot.items() if k}
                if fall:
                    yield cc, dict(tot)
                if rise:
                    yield -cc, {q: -k for q, k in tot.items()}


def twins(a, L, loc, x):
    v = L.init.get(loc)
    if v is None:
        return []
    vx = var(x)
    if v.op in ("str", "cat", "chs", "star") or isstring(a, loc):
        y = T("size", T("phi", vx[0], loc, *vx[2:]))
        return [y] if y is not x else []
    l2 = T("off", loc) if v.op in ("ptr", "it") else loc
    y = T("phi", vx[0], l2, *vx[2:])
    return [y] if y is not x and lval(L.init, l2) is not None else []


def isstring(a, loc):
    t = unref(a.I.loctype.get(loc) or {}) or {}
    return t.get("k") == "rec" and t.get("n") == "std::basic_string"


def stops(a, st, x):
    """A loop variable stepped by one until it equals a bound it starts below (above) never passes the bound."""
    L = a.I.loops.get(var(x)[0])
    if L is None or ("stop", x) in _inphi:
        return
    ini = lval(L.init, var(x)[1])
    ch = changes(a, L, x)
    if ini is None or ch is None:
        return
    _inphi.add(("stop", x))
    try:
        for t, v in st.facts.items():
            # the guard of the loop no longer holds: it was not passed by more than it had to be
            if v is False and t.op == "le0":
                e = sub(t.a[0], I(1))
                c, d = norm(e)
                if abs(d.get(x, 0)) != 1 or any(mentions(y, lambda z: z.op in ("phi", "star") and z.a[0] == var(x)[0]) for y in d if y is not x):
                    continue
                if entails(a, st, subst(e, x, ini)) and all(entails(a, s, subst(e, x, nv)) for s, nv in ch):
                    yield c, dict(d)
        for t, v in st.facts.items():
            if v or t.op not in ("eq0", "eq"):
                continue
            e = t.a[0] if t.op == "eq0" else sub(t.a[0], t.a[1])
            c, d = norm(e)
            if abs(d.get(x, 0)) != 1 or any(mentions(y, lambda z: z.op in ("phi", "star") and z.a[0] == var(x)[0]) for y in d if y is not x):
                continue
            # diff = x - bound
            diff = mulc(e, d[x])
            for sg in (1, -1):
                # sg = 1: x <= bound
                g = mulc(diff, sg)
                if not entails(a, st, subst(g, x, ini)):
                    continue
                gc, gd = norm(g)
                hyp = lambda y: [(gc + 1, dict(gd))] if y is x else ()
                if all(s.facts.get(t) is False and entails(a, s, subst(g, x, nv), hyp) for s, nv in ch):
                    yield gc + 1, dict(gd)
    finally:
        _inphi.discard(("stop", x))


def subst(g, x, v):
    c, d = norm(g)
    r = I(c)
    for y, k in d.items():
        r = add(r, mulc(v if y is x else y, k))
    return r


def entails(a, st, goal, lemmas=None):
    """goal <= 0 in every state described by st?"""
    c, d = norm(goal)
    if not d:
        return c <= 0
    cs = constraints(a, st, list(d), lemmas)
    if cs is None:
        return True
    # cut: goal >= 1, i.e. 1 - goal <= 0
    cs = [(k, {x: v for x, v in e.items() if v}) for k, e in cs] + [(1 - c, {x: -k for x, k in d.items()})]
    return not feasible(cs)


def known_le(a, st, x, y, lemmas=None):
    return entails(a, st, sub(x, y), lemmas)


_feas = {}


def feasible(cs):
    """Is there a rational point with all const + sum <= 0?"""
    for c, d in cs:
        if not d and c > 0:
            return False
    idx = {}
    rows = set()
    for c, d in cs:
        if d:
            for x in sorted(d, key=lambda t: t.id):
                idx.setdefault(x, len(idx))
    for c, d in cs:
        if d:
            rows.add((c,) + tuple(sorted((idx[x], k) for x, k in d.items())))
    if not rows:
        return True
    key = tuple(sorted(rows))
    r = _feas.get(key)
    if r is None:
        r = _feas[key] = _feasible(key, len(idx))
    return r


def _feasible(rows, n):
    """Phase 1 of the simplex method.  Each row is an equation and kept in whole numbers up to a positive factor."""
    # x = p - n with p, n >= 0; sum + slack = -const; artificials where the right side is negative
    m = len(rows)
    w = 2 * n + m
    den = 1
    for r in rows:
        for v in (r[0],) + tuple(k for _, k in r[1:]):
            if isinstance(v, F):
                den = den * v.denominator // gcd(den, v.denominator)
    tab, basis = [], []
    for i, r in enumerate(rows):
        t = {}
        for x, k in r[1:]:
            k = int(k * den)
            t[x] = k
            t[n + x] = -k
        t[2 * n + i] = 1
        b = int(-r[0] * den)
        if b < 0:
            t = {x: -k for x, k in t.items()}
            b = -b
            basis.append(w + i)
        else:
            basis.append(2 * n + i)
        if b:
            t[-1] = b
        tab.append(t)
    # minimise the sum of the artificials
    z = {}
    for i, bi in enumerate(basis):
        if bi >= w:
            for x, k in tab[i].items():
                z[x] = z.get(x, 0) + k
    if not z:
        return True
    # coefficient of the basic variable in its row
    for i, bi in enumerate(basis):
        if bi >= w:
            tab[i][bi] = 1
    for _ in range(2000):
        col = min((x for x, k in z.items() if k > 0 and 0 <= x < w), default=None)
        if col is None:
            break
        best, row = None, None
        for i in range(m):
            k = tab[i].get(col, 0)
            if k > 0:
                b = tab[i].get(-1, 0)
                # b / k < best
                c = None if best is None else b * best[1] - best[0] * k
                if best is None or c < 0 or (c == 0 and basis[i] < basis[row]):
                    best, row = (b, k), i
        if row is None:
            break
        pr = tab[row]
        p = pr[col]
        for i in range(m):
            if i != row and tab[i].get(col):
                tab[i] = combine(tab[i], p, tab[i][col], pr)
        z = combine(z, p, z[col], {x: k for x, k in pr.items() if x < w})
        basis[row] = col
    return z.get(-1, 0) <= 0


def combine(r, p, k, pr):
    out = {x: v * p for x, v in r.items()}
    for x, v in pr.items():
        y = out.get(x, 0) - k * v
        if y:
            out[x] = y
        else:
            out.pop(x, None)
    g = 0
    for v in out.values():
        g = gcd(g, v)
        if g == 1:
            return out
    if g > 1:
        out = {x: v // g for x, v in out.items()}
    return out
