"""Is a string position within the string?  Library calls such as substr() throw std::out_of_range for pos > size."""
from .q import *
from .linear import entails
from .terms import lin_of

FINDS = ("find", "findset", "rfindset", "rfind", "findany", "findpos")


def whole(t):
    return t.a[3] if t.op == "findany" else t.a[0]


def size_le(a, st, s, t, extra=0):
    """Is size(s) <= size(t)?"""
    x = s
    while True:
        if x is t:
            return True
        if x.op in ("sub", "popb", "popf", "strip"):
            # a part of a string is no longer than the string
            x = x.a[0]
        elif x.op == "lower" and t.op == "lower":
            x, t = x.a[0], t.a[0]
        else:
            break
    if same(a, st, a.I.size(s), a.I.size(t), "<=") is True:
        return True
    return False


def inrange(a, st, s, pos, depth=0):
    """pos <= size(s): True shown, False clearly not, None not known."""
    pos = widecast(pos)
    n = a.I.size(s)
    if pos is I(0) or pos is n:
        return True
    # class invariant of a header: the value offset lies within its text
    if offset_of(a, s, pos):
        return True
    if pos.op == "phi" and depth < 4:
        return by_induction(a, st, s, pos, depth)
    if pos.op == "min" or pos.op == "ite":
        return None
    d = a.I.dom(st, sub(pos, n))
    lo = a.I.dom(st, pos).lo()
    if d.hi() <= 0 and lo >= 0:
        return True
    if lo >= 0 and same(a, st, pos, n, "<=") is True:
        return True
    if entails(a, st, sub(pos, n)) and entails(a, st, mulc(pos, -1)):
        return True
    c, ts = lin_of(pos)
    fs = [x for x, k in ts.items() if k == 1 and x.op in FINDS]
    if len(ts) == 1 and fs:
        f = fs[0]
        w = whole(f)
        within = w is s or size_le(a, st, w, s)
        fd = a.I.dom(st, f)
        miss = E.NPOS in fd or -1 in fd
        if c == 1:
            # not found: npos + 1 == 0; found: one past a character
            return True if within else None
        if c > 1:
            # c characters past a match: only if that many are known to follow
            ln = 1
            if f.op == "find" and f.a[1].op == "str":
                ln = len(f.a[1].a[0])
            if within and c <= ln:
                return True if not miss else None
            return False if f.op != "findany" else None
        if c == 0:
            if miss:
                return False if within else None
            return True if within else None
        if c < 0:
            return True if within and not miss and fd.lo() + c >= 0 else None
    if len(ts) == 1:
        # size(w) - k
        x = next(iter(ts))
        if ts[x] == 1 and x.op == "size" and (x.a[0] is s or size_le(a, st, x.a[0], s)):
            if c > 0:
                return False
            return True if a.I.dom(st, x).lo() + c >= 0 else False
    if pos.op == "int":
        return False if not opaque_in(s) else None
    if ts and all(x.op == "size" or x.op in FINDS for x in ts) and not opaque_in(pos) and not opaque_in(s):
        # all that is known about sizes and positions has been used
        return False
    return None


def offset_of(a, s, pos):
    h, o = header_fields(a)
    if h is None:
        return False
    def fldval(t):
        if t.op == "init" and t.a[0].op == "fld":
            return t.a[0].a[0], t.a[0].a[1]
        if t.op == "get":
            return t.a[0], t.a[1]
        return None, None
    xs, fs = fldval(s)
    xp, fp = fldval(pos)
    return xs is not None and xs is xp and fs == h and fp == o


def header_fields(a):
    m = a.memo.get("hdrfields")
    if m is None:
        m = a.memo["hdrfields"] = fields_of(a.prog)
    return m


def fields_of(prog):
    """The private fields behind Header::GetHeader and Header::GetValueOffset."""
    out = []
    for q in ("DKIM::Header::GetHeader", "DKIM::Header::GetValueOffset"):
        fs = prog.fn(q)
        if len(fs) != 1:
            return (None, None)
        b = An(prog, fs[0])
        if len(b.rets) != 1:
            return (None, None)
        v = b.rets[0][1]
        if v is not None and v.op == "init":
            v = v.a[0]
        v = uncast(v) if isinstance(v, T) else v
        if v is not None and v.op == "init":
            v = v.a[0]
        if v is None or v.op != "fld" or v.a[0] is not b.this:
            return (None, None)
        out.append(v.a[1])
    return tuple(out)


def by_induction(a, st, s, pos, depth):
    L = a.I.loops.get(pos.a[0])
    if L is None or mentions(s, lambda x: x.op == "phi" and x.a[0] == L.lid):
        return None
    loc = pos.a[1]
    ini = L.init.get(loc)
    if ini is None:
        return None
    r = inrange(a, st, s, ini, depth + 1)
    if r is not True:
        return r
    for alt, ast in zip(L.alts, L.altst):
        v = alt.get(loc)
        if v is None or v is pos:
            continue
        r = inrange(a, ast, s, v, depth + 1)
        if r is not True:
            return r
    return True
