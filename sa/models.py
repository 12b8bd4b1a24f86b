"""Meaning of the library functions the code base uses, as transfer functions on the abstract state.

Every model has the signature  handler(I, st, c) -> [(state, value)]  and is registered under the callee's
qualified name with template arguments removed.  A function without a model gives an unknown result and
forgets whatever it could write (see fallback)."""
from .terms import *
from .ir import AnalysisError
from . import engine as E
from .engine import NPOS, TR, typed, unref, cls, is_str, is_rec, SEQCLS, MAPCLS, fld, neg, eqatom, mput, HOLE, rng

MODELS = {}
END = I(NPOS)


def norm(q):
    """Qualified name without template arguments."""
    out = []
    d = 0
    i = 0
    n = len(q)
    while i < n:
        if q.startswith("operator", i) and d == 0:
            # keep operator symbols that contain angle brackets
            j = i + 8
            k = j
            while k < n and q[k] in "<>-=!+*/%&|^~[](),":
                k += 1
            out.append(q[i:k])
            if k == j:
                # conversion operator: keep the rest
                out.append(q[k:])
                return "".join(out)
            i = k
            continue
        ch = q[i]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out)


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ small helpers
def one(st, v):
    return [(st, v)]


def setl(st, loc, v):
    st = st.copy()
    st.store[loc] = v
    return st


def put(I_, st, loc, v, ty=None):
    st = st.copy()
    I_.write(st, loc, v, ty)
    return st


def getv(c, st, i):
    return c.v(st, i)


CHS = {}


def chs(v):
    """One-character string of character value v."""
    if v.op == "int":
        return S(chr(v.a[0] & 0xff))
    return T("chs", v)


BINARY = ("b64dec", "digest", "rsasig", "edsig", "filedata", "skval")


def binaryish(t):
    return any(x.op in BINARY for x in t.subs())


def cstr(I_, st, p):
    """String value of a NUL terminated character pointer."""
    if p.op == "str":
        return p
    if p.op == "ptr":
        reg, off = p.a
        if reg.op == "data":
            s = reg.a[0]
            if s.op == "str" and off.op == "int":
                x = s.a[0][off.a[0]:]
                return S(x.split("\0")[0])
            s2 = s if off is I(0) else substr(I_, s, off, END)
            return T("cz", s2) if binaryish(s2) else s2
        v = I_.read(st, reg)
        if v.op == "cstr" and off is I(0):
            return v.a[0]
        if v.op == "str":
            return S(v.a[0].split("\0")[0])
        if v.op == "arr" and off is I(0) and all(x.op == "int" for x in v.a[0]):
            s = "".join(chr(x.a[0] & 255) for x in v.a[0])
            return S(s.split("\0")[0])
        return T("cz", T("bytes", v, off, END))
    return T("cstrof", p)


def zstr(I_, st, v):
    """A string made of a NUL terminated character pointer: the characters up to the first NUL."""
    r = cstr(I_, st, v)
    return T("cz", r) if v.op == "ptr" and v.a[0].op == "data" and r.op not in ("str", "cz", "dec") else r


def bytes_at(I_, st, p, n):
    """Contents of n bytes at pointer p."""
    if p.op == "ptr":
        reg, off = p.a
        if reg.op == "data":
            s = reg.a[0]
            if off is I(0) and n is I_.size(s):
                return s
            if s.op == "str" and off.op == "int" and n.op == "int":
                return S(s.a[0][off.a[0]:off.a[0] + n.a[0]])
            return substr(I_, s, off, add(off, n))
        v = I_.read(st, reg)
        if v.op == "buf" and off is I(0):
            z = I_.size(v.a[0])
            if z is n:
                return v.a[0]
            a, b = I_.const(st, z), I_.const(st, n)
            if a is not None and a == b:
                return v.a[0]
            if n is T("size", v.a[0]):
                return v.a[0]
        if v.op == "cstr" and off is I(0) and n is I_.size(v.a[0]):
            return v.a[0]
        if v.op == "arr" and off is I(0) and n.op == "int" and all(x.op == "int" for x in v.a[0][:n.a[0]]):
            return S("".join(chr(x.a[0] & 255) for x in v.a[0][:n.a[0]]))
        return T("bytes", v, off, n)
    if p.op == "addr":
        l = p.a[0]
        if l.op in ("chr",) and n is I(1):
            return chs(I_.read(st, l))
        if l.op in ("chr",):
            return bytes_at(I_, st, T("ptr", T("data", I_.read(st, l.a[0])), l.a[1]), n)
        return T("bytes", I_.read(st, l), I(0), n)
    return T("bytes", p, I(0), n)


def tostr(I_, st, v, ty):
    """String value of an argument that may be a string, a C string or a character."""
    ty = unref(ty)
    if ty:
        if is_str(ty):
            return v
        if ty.get("k") == "ptr":
            return zstr(I_, st, v)
        if ty.get("k") == "arr":
            if v.op == "strlit":
                return S(v.a[0])
            return cstr(I_, st, T("ptr", v, I(0))) if v.op in ("v", "g") else cstr(I_, st, v)
        if ty.get("k") == "bi" and ty.get("int"):
            return chs(v)
        if cls(ty) == "std::initializer_list":
            ps = parts(v)
            if all(p.op == "item" for p in ps):
                return cat(*[chs(p.a[0]) for p in ps])
    if v.op == "strlit":
        return S(v.a[0])
    if v.op == "ptr":
        return cstr(I_, st, v)
    return v


def sarg(c, st, i):
    """Argument i as a string value."""
    ty = c.ty(i)
    if c.isloc(i):
        a = c.args[i]
        if a.op == "strlit":
            return S(a.a[0])
        u = unref(ty)
        if u and u.get("k") == "arr":
            return cstr(c.I, st, T("ptr", a, I(0)))
        return tostr(c.I, st, c.v(st, i), ty)
    return tostr(c.I, st, c.args[i], ty)


def lower(s):
    if s.op == "str":
        return S("".join(chr(ord(x) + 32) if "A" <= x <= "Z" else x for x in s.a[0]))
    if s.op == "cat":
        return cat(*[lower(p) for p in s.a])
    if s.op == "lower":
        return s
    if s.op == "chs":
        return T("chs", tolow(s.a[0]))
    if s.op in ("dec",):
        return s
    return T("lower", s)


def tolow(c):
    if c.op == "int":
        x = c.a[0]
        return I(x + 32 if 65 <= x <= 90 else x)
    if c.op == "tolower":
        return c
    return T("tolower", c)


def substr(I_, s, a, b):
    """Characters of s from position a up to position b (clipped to the size)."""
    n = I_.size(s)
    if b is n:
        b = END
    if a is I(0) and b is END:
        return s
    if s.op == "str" and a.op == "int" and b.op == "int":
        return S(s.a[0][a.a[0]:min(len(s.a[0]), b.a[0])])
    if s.op == "sub" and s.a[2] is END:
        # suffix of a suffix
        return substr(I_, s.a[0], add(s.a[1], a), END if b is END else add(s.a[1], b))
    if a is b:
        return EMPTY
    if s.op == "cat":
        ps = parts(s)
        # drop leading parts of constant length
        if a.op == "int":
            k = a.a[0]
            i = 0
            while i < len(ps) and k > 0:
                z = I_.size(ps[i])
                if z.op != "int" or z.a[0] > k:
                    break
                k -= z.a[0]
                i += 1
            if i and (k == 0 or ps[i:]):
                if b is END:
                    return substr(I_, cat(*ps[i:]), I(k), END)
                if b.op == "int":
                    return substr(I_, cat(*ps[i:]), I(k), I(b.a[0] - (a.a[0] - k)))
        # positions that fall on part borders
        if a is not I(0) or b is not END:
            pos = I(0)
            ia = ib = None
            for j, p in enumerate(ps + [None]):
                if pos is a:
                    ia = j
                if pos is b:
                    ib = j
                if p is not None:
                    pos = add(pos, I_.size(p))
            if b is END:
                ib = len(ps)
            if ia is not None and ib is not None and ia <= ib:
                return cat(*ps[ia:ib])
            if ia:
                off = I(0)
                for p in ps[:ia]:
                    off = add(off, I_.size(p))
                return substr(I_, cat(*ps[ia:]), I(0), END if b is END else sub(b, off))
    return T("sub", s, a, b)


def erase_range(I_, s, a, b):
    """s without positions a..b-1."""
    if s.op == "rmtail" and b is I_.size(s) and a is T("rmend", s.a[0], s.a[1]):
        return strip(s.a[0], s.a[1])
    if b is I_.size(s):
        b = END
    if a.op == "alias":
        raise AnalysisError("alias as position")
    return cat(substr(I_, s, I(0), a), substr(I_, s, b, END) if b is not END else EMPTY)


def strip(s, cset):
    """s without the characters in cset."""
    if s.op == "str":
        return S("".join(x for x in s.a[0] if sgn(ord(x)) not in cset))
    if s.op == "strip" and s.a[1] == cset:
        return s
    return T("strip", s, cset)


def sgn(x):
    x &= 255
    return x if x < 128 else x - 256


def charset(s):
    """Signed character codes in a constant string."""
    if s.op != "str":
        return None
    return frozenset(sgn(ord(x)) for x in s.a[0])


ALLCH = frozenset(range(-128, 128))


def posplus(I_, p, n):
    return add(p, n)


def size_of(I_, st, loc, ty=None):
    return I_.size(I_.read(st, loc, ty))


# ------------------------------------------------------------------ strings: construction and assignment
CNT = "#cnt"     # element count of a byte buffer object

@model("std::basic_string::basic_string")
def s_ctor(I_, st, c):
    n = len(c.args)
    f = c.fn
    if n == 0:
        return one(st, EMPTY)
    t0 = unref(c.ty(0))
    if cls(t0) == "std::allocator":
        return one(st, EMPTY)
    if is_str(t0):
        v = c.v(st, 0)
        if n >= 2:
            t1 = unref(c.ty(1))
            if cls(t1) == "std::allocator":
                return one(st, v)
            a = c.v(st, 1)
            b = c.v(st, 2) if n >= 3 and unref(c.ty(2)).get("k") == "bi" else END
            pos_check(I_, st, c, v, a)
            return one(st, substr(I_, v, a, END if b is END else add(a, b)))
        return one(st, v)
    if t0 and t0.get("k") in ("ptr", "arr"):
        p = c.v(st, 0) if not c.isloc(0) or t0.get("k") == "ptr" else T("ptr", c.args[0], I(0))
        if c.isloc(0) and c.args[0].op == "strlit":
            p = T("ptr", T("data", S(c.args[0].a[0])), I(0))
        if n >= 2:
            t1 = unref(c.ty(1))
            if t1.get("k") == "bi" and t1.get("int"):
                I_.emit(st, "read", (c.nq, p, c.v(st, 1)), c)
                return one(st, bytes_at(I_, st, p, c.v(st, 1)))
            if t1.get("k") == "ptr":
                q = c.v(st, 1)
                if p.op == "ptr" and q.op == "ptr" and p.a[0] is q.a[0]:
                    I_.emit(st, "read", (c.nq, p, sub(q.a[1], p.a[1])), c)
                    return one(st, bytes_at(I_, st, p, sub(q.a[1], p.a[1])))
        return one(st, zstr(I_, st, p))
    if t0 and t0.get("k") == "bi" and n >= 2:
        k, ch = c.v(st, 0), c.v(st, 1)
        if k.op == "int" and k.a[0] <= 256:
            return one(st, cat(*[chs(ch)] * k.a[0]) if k.a[0] else EMPTY)
        return one(st, T("rep", chs(ch), k))
    a = c.v(st, 0)
    if a.op == "it" and n >= 2:
        b = c.v(st, 1)
        if b.op == "it" and a.a[1] is b.a[1] and a.a[3] == "f":
            return one(st, substr(I_, a.a[1], a.a[2], b.a[2]))
    if a.op == "fileit":
        return one(st, T("filedata", a.a[0]))
    if cls(t0) == "std::initializer_list":
        return one(st, tostr(I_, st, a, t0))
    return unknown(I_, st, c)


@model("std::basic_string::operator=", "std::basic_string::assign")
def s_assign(I_, st, c):
    if len(c.args) == 1:
        v = sarg(c, st, 0)
        return one(put(I_, st, c.obj, v), c.obj)
    rs = s_ctor(I_, st, c)
    return [(put(I_, s, c.obj, v), c.obj) for s, v in rs]


@model("std::basic_string::operator+=", "std::basic_string::append")
def s_append(I_, st, c):
    old = c.o(st)
    if len(c.args) == 1:
        v = sarg(c, st, 0)
        return one(put(I_, st, c.obj, cat(old, v)), c.obj)
    return [(put(I_, s, c.obj, cat(old, v)), c.obj) for s, v in s_ctor(I_, st, c)]


@model("std::basic_string::push_back")
def s_push(I_, st, c):
    return one(put(I_, st, c.obj, cat(c.o(st), chs(c.v(st, 0)))), T("void"))


@model("std::basic_string::clear")
def s_clear(I_, st, c):
    return one(put(I_, st, c.obj, EMPTY), T("void"))


@model("std::basic_string::reserve", "std::basic_string::shrink_to_fit", "std::vector::reserve")
def s_reserve(I_, st, c):
    return one(st, T("void"))


@model("std::basic_string::resize")
def s_resize(I_, st, c):
    n = c.v(st, 0)
    s = c.o(st)
    if n is I(0):
        return one(put(I_, st, c.obj, EMPTY), T("void"))
    z = I_.size(s)
    d = I_.dom(st, sub(z, n))
    if d.lo() >= 0 or knownle(I_, st, n, z):
        return one(put(I_, st, c.obj, substr(I_, s, I(0), n)), T("void"))
    return one(put(I_, st, c.obj, T("resize", s, n)), T("void"))


def knownle(I_, st, a, b):
    """Is a <= b an immediate consequence of the facts?"""
    d = sub(a, b)
    if d.op == "int":
        return d.a[0] <= 0
    if I_.dom(st, d).hi() <= 0:
        return True
    f = T("le0", d)
    if st.facts.get(f):
        return True
    # a < b recorded
    if st.facts.get(T("le0", add(d, I(1)))):
        return True
    if a.op == "lin":
        # find() < size
        cst, dd = lin_of(d)
        pos = [x for x, k in dd.items() if k == 1]
        ng = [x for x, k in dd.items() if k == -1]
        if len(dd) == 2 and len(pos) == 1 and len(ng) == 1 and cst <= 1 and pos[0].op in ("find", "findset", "rfindset") and \
                ng[0] is T("size", pos[0].a[0]):
            return True
    return False


@model("std::basic_string::pop_back")
def s_pop(I_, st, c):
    s = c.o(st)
    ps = parts(s)
    if ps and ps[-1].op == "chs":
        v = cat(*ps[:-1])
    elif ps and ps[-1].op == "str":
        v = cat(*ps[:-1], S(ps[-1].a[0][:-1]))
    else:
        v = substr(I_, s, I(0), sub(I_.size(s), I(1)))
    return one(put(I_, st, c.obj, v), T("void"))


# ------------------------------------------------------------------ strings: observation
@model("std::basic_string::size", "std::basic_string::length", "std::list::size", "std::vector::size", "std::deque::size",
       "std::set::size", "std::map::size", "std::unordered_map::size", "std::initializer_list::size", "std::array::size",
       "std::multiset::size", "std::unordered_set::size")
def m_size(I_, st, c):
    n = bufcount(st, c)
    if n is not None:
        return one(st, n)
    return one(st, I_.size(c.o(st)))


@model("std::basic_string::empty", "std::list::empty", "std::vector::empty", "std::deque::empty", "std::set::empty", "std::map::empty",
       "std::unordered_set::empty", "std::unordered_map::empty")
def m_empty(I_, st, c):
    return one(st, I_.compare(st, "==", I_.size(c.o(st)), I(0)))


def bufcount(st, c):
    """Number of elements of a byte buffer held in a vector or array object."""
    if isinstance(c.obj, T):
        n = st.store.get(fld(c.obj, CNT))
        if n is None and c.fn.get("cls") == "std::array":
            t = unref((c.node.get("obj") or {}).get("t") or {})
            if t.get("size") and ((t.get("targs") or [{}])[0] or {}).get("bits") == 8:
                n = I(t["size"])
        return n
    return None


@model("std::vector::data", "std::array::data")
def v_data(I_, st, c):
    if bufcount(st, c) is None:
        return unknown(I_, st, c)
    return one(st, T("ptr", c.obj, I(0)))


@model("std::vector::resize")
def v_resize(I_, st, c):
    n = bufcount(st, c)
    if n is None:
        return unknown(I_, st, c)
    st = setl(st, fld(c.obj, CNT), c.v(st, 0))
    if st.store[c.obj].op not in ("newarr", "buf"):
        st.note("resize of a buffer with unknown contents")
    return one(st, T("void"))


@model("std::basic_string::c_str", "std::basic_string::data")
def s_cstr(I_, st, c):
    return one(st, T("ptr", T("data", c.o(st)), I(0)))


@model("std::basic_string::substr")
def s_substr(I_, st, c):
    s = c.o(st)
    a = c.v(st, 0) if len(c.args) > 0 else I(0)
    n = c.v(st, 1) if len(c.args) > 1 else END
    pos_check(I_, st, c, s, a)
    if n is END or n is I(-1):
        return one(st, substr(I_, s, a, END))
    # substr(a, size - a) etc.
    return one(st, substr(I_, s, a, add(a, n)))


def pos_check(I_, st, c, s, a):
    """Library call that throws std::out_of_range when a > size(s)."""
    if a is I(0):
        return
    I_.emit(st, "pos", (c.q, s, a), c)


@model("std::basic_string::erase")
def s_erase(I_, st, c):
    s = c.o(st)
    if not c.args:
        return one(put(I_, st, c.obj, EMPTY), c.obj)
    a = c.v(st, 0)
    if a.op == "it":
        a0 = a.a[2]
        if len(c.args) > 1:
            b0 = c.v(st, 1).a[2] if c.v(st, 1).op == "it" else None
        else:
            b0 = add(a0, I(1))
        if b0 is None or a.a[3] != "f":
            return unknown(I_, st, c)
        v = erase_range(I_, s, a0, b0)
        return one(put(I_, st, c.obj, v), T("it", c.obj, v, a0, "f"))
    if not I_.intlike(a) and a.op not in ("int",):
        return unknown(I_, st, c)
    n = c.v(st, 1) if len(c.args) > 1 else END
    pos_check(I_, st, c, s, a)
    v = erase_range(I_, s, a, END if n is END or n is I(-1) else add(a, n))
    return one(put(I_, st, c.obj, v), c.obj)


@model("std::basic_string::insert")
def s_insert(I_, st, c):
    s = c.o(st)
    a = c.v(st, 0)
    if a.op == "it":
        a0 = a.a[2]
    else:
        a0 = a
        pos_check(I_, st, c, s, a)
    if len(c.args) == 2:
        x = sarg(c, st, 1)
    elif len(c.args) == 3 and unref(c.ty(1)).get("k") == "bi":
        x = T("rep", chs(c.v(st, 2)), c.v(st, 1))
        if c.v(st, 1) is I(1):
            x = chs(c.v(st, 2))
    else:
        return unknown(I_, st, c)
    v = cat(substr(I_, s, I(0), a0), x, substr(I_, s, a0, END))
    return one(put(I_, st, c.obj, v), c.obj if a.op != "it" else T("it", c.obj, v, a0, "f"))


@model("std::basic_string::operator[]", "std::basic_string::at")
def s_idx(I_, st, c):
    i = c.v(st, 0)
    if c.q.endswith("::at"):
        I_.emit(st, "pos", (c.q, c.o(st), add(i, I(1))), c)
    else:
        I_.emit(st, "idx", (c.q, c.o(st), i), c)
    return one(st, T("chr", c.obj, i))


@model("std::basic_string::back")
def s_back(I_, st, c):
    return one(st, T("chr", c.obj, sub(I_.size(c.o(st)), I(1))))


@model("std::basic_string::front")
def s_front(I_, st, c):
    return one(st, T("chr", c.obj, I(0)))


def find_term(s, needle, frm):
    if s.op == "str" and needle.op == "str" and frm.op == "int":
        r = s.a[0].find(needle.a[0], min(frm.a[0], len(s.a[0])))
        return I(r if r >= 0 else NPOS)
    return T("find", s, needle, frm)


@model("std::basic_string::find")
def s_find(I_, st, c):
    frm = c.v(st, 1) if len(c.args) > 1 else I(0)
    return one(st, find_term(c.o(st), sarg(c, st, 0), frm))


@model("std::basic_string::rfind")
def s_rfind(I_, st, c):
    frm = c.v(st, 1) if len(c.args) > 1 else END
    nd = sarg(c, st, 0)
    if nd.op == "str" and len(nd.a[0]) == 1:
        return one(st, T("rfindset", c.o(st), charset(nd), frm))
    t = T("rfind", c.o(st), nd, frm)
    TR.setdefault(t, IS.of([NPOS]) | IS.rng(0, 1 << 62))
    return one(st, t)


def set_find(rev, negate):
    def h(I_, st, c):
        s = c.o(st)
        cs = charset(sarg(c, st, 0))
        frm = c.v(st, 1) if len(c.args) > 1 else (END if rev else I(0))
        if cs is None:
            t = T("findany", rev, negate, s, sarg(c, st, 0), frm)
            TR.setdefault(t, IS.of([NPOS]) | IS.rng(0, 1 << 62))
            return one(st, t)
        if negate:
            cs = ALLCH - cs
        if s.op == "str" and frm.op == "int":
            idx = [i for i, x in enumerate(s.a[0]) if sgn(ord(x)) in cs and (i <= frm.a[0] if rev else i >= frm.a[0])]
            return one(st, I((max(idx) if rev else min(idx)) if idx else NPOS))
        return one(st, T("rfindset" if rev else "findset", s, cs, frm))
    return h


MODELS["std::basic_string::find_first_of"] = set_find(False, False)
MODELS["std::basic_string::find_first_not_of"] = set_find(False, True)
MODELS["std::basic_string::find_last_of"] = set_find(True, False)
MODELS["std::basic_string::find_last_not_of"] = set_find(True, True)


@model("std::basic_string::compare")
def s_compare(I_, st, c):
    s = c.o(st)
    if len(c.args) == 1:
        return one(st, cmpz(s, sarg(c, st, 0)))
    if len(c.args) == 3:
        a, n = c.v(st, 0), c.v(st, 1)
        pos_check(I_, st, c, s, a)
        return one(st, cmpz(substr(I_, s, a, END if n is END else add(a, n)), sarg(c, st, 2)))
    return unknown(I_, st, c)


def cmpz(a, b):
    """Three-way comparison; zero exactly when equal."""
    if a is b:
        return I(0)
    if a.op == "str" and b.op == "str":
        return I(-1 if a.a[0] < b.a[0] else 1)
    t = T("cmpz", a, b)
    TR.setdefault(t, IS.rng(-(1 << 31), (1 << 31) - 1))
    return t


@model("std::basic_string::swap", "std::list::swap", "std::vector::swap", "std::map::swap", "std::set::swap")
def m_swap(I_, st, c):
    a, b = c.o(st), c.v(st, 0)
    st = put(I_, st, c.obj, b)
    return one(put(I_, st, c.args[0], a), T("void"))


@model("std::swap")
def f_swap(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    ty = unref(c.ty(0))
    st = put(I_, st, c.args[0], b, ty)
    return one(put(I_, st, c.args[1], a, ty), T("void"))


@model("std::operator+")
def op_plus(I_, st, c):
    t0, t1 = unref(c.ty(0)), unref(c.ty(1))
    if is_str(t0) or is_str(t1):
        return one(st, cat(sarg(c, st, 0), sarg(c, st, 1)))
    a, b = c.v(st, 0), c.v(st, 1)
    if a.op == "it" or b.op == "it":
        if b.op == "it":
            a, b = b, a
        return one(st, I_.arith(st, "+", a, b, None))
    return unknown(I_, st, c)


def eqval(I_, st, c, i):
    ty = unref(c.ty(i))
    if ty and (ty.get("k") in ("ptr", "arr")) and any(is_str(unref(c.ty(j))) for j in range(len(c.args))):
        return sarg(c, st, i)
    if ty and ty.get("k") == "arr":
        return sarg(c, st, i)
    v = c.v(st, i)
    return v


def two(c, st):
    """The two operands of an operator given as member or free function."""
    if c.obj is not None:
        return c.o(st), eqval(c.I, st, c, 0)
    return eqval(c.I, st, c, 0), eqval(c.I, st, c, 1)


def cmp_model(op):
    def h(I_, st, c):
        a, b = two(c, st)
        return one(st, cmp_vals(I_, st, op, a, b))
    return h


def cmp_vals(I_, st, op, a, b):
    return I_.compare(st, op, a, b)


for _o in ("==", "!=", "<", ">", "<=", ">="):
    for _n in ("std::operator", "__gnu_cxx::operator", "__gnu_cxx::__normal_iterator::operator", "std::_List_iterator::operator",
               "std::_List_const_iterator::operator", "std::reverse_iterator::operator", "std::_Rb_tree_iterator::operator",
               "std::_Rb_tree_const_iterator::operator", "std::__shared_ptr::operator", "std::shared_ptr::operator",
               "std::rel_ops::operator", "std::_Deque_iterator::operator", "std::fpos::operator", "std::istreambuf_iterator::operator"):
        MODELS[_n + _o] = cmp_model(_o)


# ------------------------------------------------------------------ iterators
ITC = ["__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::reverse_iterator",
       "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::_Deque_iterator"]


def it_ctor(I_, st, c):
    if not c.args:
        return one(st, T("undefit"))
    v = c.v(st, 0)
    if c.q.endswith("::reverse_iterator") and v.op == "it" and v.a[3] == "f":
        # reverse_iterator(it): position counted from the end
        return one(st, T("it", v.a[0], v.a[1], sub(I_.size(v.a[1]), v.a[2]), "r"))
    return one(st, v)


def it_assign(I_, st, c):
    v = c.v(st, 0)
    return one(put(I_, st, c.obj, v), c.obj)


def it_loc(I_, it, node=None):
    """Location an iterator refers to."""
    if it.op == "it":
        loc, cv, pos, d = it.a
        if isinstance(loc, T) and is_strval(I_, loc, cv):
            if d == "r":
                pos = sub(sub(I_.size(cv), I(1)), pos)
            return T("chr", loc, pos)
        return T("el", loc, cv, pos, d)
    if it.op == "mit":
        return T("mel", it.a[0], it.a[2])
    return T("deref", it)


_STRIT = set()


def is_strval(I_, loc, cv):
    return (loc, cv) in _STRIT


def it_deref(I_, st, c):
    it = c.o(st)
    if it.op == "it":
        rt = unref(c.node.get("t")) or {}
        if "basic_string" in c.q and rt.get("k") == "bi":
            loc, cv, pos, d = it.a
            if d == "r":
                pos = sub(sub(I_.size(cv), I(1)), pos)
            return one(st, T("chr", loc, pos))
        return one(st, I_.elof(it))
    if it.op == "mit":
        return one(st, it_loc(I_, it))
    return one(st, T("deref", it))


def it_arrow(I_, st, c):
    it = c.o(st)
    if it.op == "it":
        return one(st, T("addr", I_.elof(it)))
    if it.op == "mit":
        return one(st, T("addr", it_loc(I_, it)))
    return one(st, it)


def it_step(k):
    def h(I_, st, c):
        it = c.o(st)
        if it.op != "it":
            return unknown(I_, st, c)
        new = T("it", it.a[0], it.a[1], add(it.a[2], I(k)), it.a[3])
        st = put(I_, st, c.obj, new)
        if c.args:          # postfix
            return one(st, it)
        return one(st, c.obj)
    return h


def it_jump(sign, inplace):
    def h(I_, st, c):
        it = c.o(st)
        n = c.v(st, 0)
        if n.op == "it":
            return one(st, I_.arith(st, "-", it, n, None))
        if it.op != "it":
            return unknown(I_, st, c)
        new = T("it", it.a[0], it.a[1], add(it.a[2], n, sign), it.a[3])
        if inplace:
            return one(put(I_, st, c.obj, new), c.obj)
        return one(st, new)
    return h


def it_base(I_, st, c):
    it = c.o(st)
    if it.op == "it" and it.a[3] == "r":
        return one(st, T("it", it.a[0], it.a[1], sub(I_.size(it.a[1]), it.a[2]), "f"))
    return one(st, it)


for _n in ITC:
    MODELS[_n + "::" + _n.split("::")[-1]] = it_ctor
    MODELS[_n + "::operator="] = it_assign
    MODELS[_n + "::operator*"] = it_deref
    MODELS[_n + "::operator->"] = it_arrow
    MODELS[_n + "::operator++"] = it_step(1)
    MODELS[_n + "::operator--"] = it_step(-1)
    MODELS[_n + "::operator+"] = it_jump(1, False)
    MODELS[_n + "::operator-"] = it_jump(-1, False)
    MODELS[_n + "::operator+="] = it_jump(1, True)
    MODELS[_n + "::operator-="] = it_jump(-1, True)
    MODELS[_n + "::base"] = it_base


@model("__gnu_cxx::operator-", "std::operator-")
def op_minus(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    return one(st, I_.arith(st, "-", a, b, None))


@model("std::next", "std::prev")
def f_next(I_, st, c):
    it = c.v(st, 0)
    n = c.v(st, 1) if len(c.args) > 1 else I(1)
    if it.op != "it":
        return unknown(I_, st, c)
    return one(st, T("it", it.a[0], it.a[1], add(it.a[2], n, 1 if c.nq == "std::next" else -1), it.a[3]))


@model("std::advance")
def f_advance(I_, st, c):
    it = c.v(st, 0)
    if it.op != "it":
        return unknown(I_, st, c)
    return one(put(I_, st, c.args[0], T("it", it.a[0], it.a[1], add(it.a[2], c.v(st, 1)), it.a[3])), T("void"))


@model("std::distance")
def f_distance(I_, st, c):
    return one(st, I_.arith(st, "-", c.v(st, 1), c.v(st, 0), None))


def begin_of(d, end):
    def h(I_, st, c):
        loc = c.obj
        n = bufcount(st, c)
        if n is not None and d == "f":
            return one(st, T("ptr", loc, n if end else I(0)))
        cv = c.o(st)
        return one(st, mkit(I_, loc, cv, d, end, cls_of_obj(c)))
    return h


def cls_of_obj(c):
    return c.fn.get("cls")


def mkit(I_, loc, cv, d, end, k):
    if k in MAPCLS or k in ("std::set", "std::multiset", "std::unordered_set"):
        if end and d == "f":
            return T("mend", loc, cv)
        return T("it", loc, T("entries", cv), I_.size(T("entries", cv)) if end else I(0), d)
    return T("it", loc, cv, I_.size(cv) if end else I(0), d)


for _k in ("std::basic_string", "std::list", "std::vector", "std::deque", "std::map", "std::set", "std::initializer_list", "std::array",
           "std::multiset", "std::unordered_map", "std::unordered_set"):
    for _n, _d, _e in (("begin", "f", 0), ("end", "f", 1), ("cbegin", "f", 0), ("cend", "f", 1),
                       ("rbegin", "r", 0), ("rend", "r", 1), ("crbegin", "r", 0), ("crend", "r", 1)):
        MODELS[_k + "::" + _n] = begin_of(_d, _e)


def free_begin(d, end):
    def h(I_, st, c):
        a = c.args[0]
        ty = unref(c.ty(0))
        if ty and ty.get("k") == "arr":
            return one(st, T("ptr", a, I(ty["len"]) if end else I(0)))
        cv = c.v(st, 0)
        return one(st, mkit(I_, a if c.isloc(0) else None, cv, d, end, cls(ty)))
    return h


for _n, _d, _e in (("begin", "f", 0), ("end", "f", 1), ("cbegin", "f", 0), ("cend", "f", 1), ("rbegin", "r", 0), ("rend", "r", 1)):
    MODELS["std::" + _n] = free_begin(_d, _e)


# ------------------------------------------------------------------ sequences
SEQ = ["std::list", "std::vector", "std::deque"]


def seqm(*names):
    def deco(f):
        for k in SEQ:
            for n in names:
                MODELS[k + "::" + n] = f
        return f
    return deco


def seq_ctor(I_, st, c):
    if not c.args:
        return one(st, NIL)
    t0 = unref(c.ty(0))
    v = c.v(st, 0)
    if cls(t0) == c.fn.get("cls") or cls(t0) == "std::initializer_list":
        return one(st, v if v.op != "str" or v.a[0] else NIL)
    if cls(t0) == "std::allocator":
        return one(st, NIL)
    if v.op == "it" and len(c.args) >= 2:
        b = c.v(st, 1)
        r = it_range(I_, v, b)
        if r is not None:
            return one(st, r)
    el = ((c.node.get("t") or {}).get("targs") or [None])[0]
    if el and unref(el).get("int") and unref(el).get("bits") == 8 and t0.get("int") and c.fn.get("cls") == "std::vector" and \
            (len(c.args) == 1 or v.op != "int" or unref(c.ty(1) or {}).get("k") == "rec"):
        return one(st, T("bytevec", v))
    if v.op == "int" and len(c.args) <= 2 and v.a[0] <= 64 and len(c.args) == 2 and unref(c.ty(1)).get("k") != "rec":
        return one(st, cat(*[item(c.v(st, 1))] * v.a[0]) if v.a[0] else NIL)
    return unknown(I_, st, c)


def it_range(I_, a, b):
    """List value of an iterator range."""
    if b.op == "mend" and a.op == "it" and a.a[1].op == "entries" and a.a[2] is I(0):
        return T("sorted", a.a[1].a[0])
    if a.op != "it" or b.op != "it" or a.a[3] != b.a[3]:
        return None
    if a.a[1] is not b.a[1]:
        return None
    cv = a.a[1]
    z = I_.size(cv)
    if a.a[2] is I(0) and b.a[2] is z:
        return cv if a.a[3] == "f" else T("rev", cv)
    if a.a[3] == "f":
        return T("seg", cv, a.a[2], b.a[2])
    return T("seg", T("rev", cv), a.a[2], b.a[2])


for _k in SEQ + ["std::set", "std::multiset", "std::unordered_set"]:
    MODELS[_k + "::" + _k.split("::")[-1]] = seq_ctor
for _k in MAPCLS:
    def _mc(I_, st, c):
        if not c.args:
            return one(st, NIL)
        v = c.v(st, 0)
        if cls(c.ty(0)) == c.fn.get("cls"):
            return one(st, v)
        return unknown(I_, st, c)
    MODELS[_k + "::" + _k.split("::")[-1]] = _mc


def seq_assign(I_, st, c):
    if len(c.args) == 1:
        v = c.v(st, 0)
        return one(put(I_, st, c.obj, v if not (v.op == "str" and v.a[0] == "") else NIL), c.obj)
    rs = seq_ctor(I_, st, c)
    return [(put(I_, s, c.obj, v), c.obj) for s, v in rs]


for _k in SEQ + ["std::set", "std::multiset"] + list(MAPCLS):
    MODELS[_k + "::operator="] = seq_assign
    MODELS[_k + "::assign"] = seq_assign


@seqm("push_back")
def l_push(I_, st, c):
    v = c.v(st, 0)
    return one(put(I_, st, c.obj, cat_seq(c.o(st), item(v))), T("void"))


def cat_seq(*ps):
    r = cat(*ps)
    return NIL if r is EMPTY else r


@seqm("push_front")
def l_pushf(I_, st, c):
    return one(put(I_, st, c.obj, cat_seq(item(c.v(st, 0)), c.o(st))), T("void"))


def emplace(front):
    def h(I_, st, c):
        ety = elem_type(c)
        outs = [(st, None)]
        if is_rec(ety) and not c.args:
            loc = T("heap", I_.loopstack, c.node["sid"], I_.frame.ctx)
            st = st.copy()
            I_.kill(st, loc)
            q = ety["n"]
            cf = I_.prog.fn(q + "::" + q.split("::")[-1], 0)
            outs = []
            if cf:
                for s, _ in I_.inline(cf[0], st, loc, [], [], c.K, c.node):
                    outs.append((s, T("objref", loc)))
            else:
                outs = [(st, T("objref", loc))]
        elif len(c.args) == 1:
            v = c.v(st, 0)
            outs = [(st, v)]
        elif is_str(ety):
            outs = s_ctor(I_, st, c)
        else:
            return unknown(I_, st, c)
        r = []
        for s, v in outs:
            old = I_.read(s, c.obj)
            r.append((put(I_, s, c.obj, cat_seq(item(v), old) if front else cat_seq(old, item(v))), T("void")))
        return r
    return h


def elem_type(c):
    """Element type of the container a method is called on."""
    ob = c.node.get("obj")
    t = unref(ob.get("t")) if ob else None
    if t and t.get("k") == "ptr":
        t = unref(t["to"])
    if t and t.get("targs"):
        return t["targs"][0]
    return None


for _k in SEQ:
    MODELS[_k + "::emplace_back"] = emplace(False)
    MODELS[_k + "::emplace_front"] = emplace(True)


@seqm("back")
def l_back(I_, st, c):
    cv = c.o(st)
    return one(st, elref(I_, c.obj, cv, sub(I_.size(cv), I(1)), st))


@seqm("front")
def l_front(I_, st, c):
    return one(st, elref(I_, c.obj, c.o(st), I(0), st))


def elref(I_, loc, cv, pos, st):
    v = I_.elem(st, cv, pos, "f")
    if v.op == "objref":
        return v.a[0]
    return T("el", loc, cv, pos, "f")


@model("std::vector::operator[]", "std::deque::operator[]", "std::vector::at", "std::deque::at", "std::array::operator[]", "std::array::at")
def v_idx(I_, st, c):
    n = bufcount(st, c)
    if n is not None:
        p = T("ptr", c.obj, c.v(st, 0))
        I_.log.append(("aidx", st, (T("ptr", c.obj, I(0)), c.v(st, 0), p, c.node), None))
        return one(st, I_.deref(p))
    return one(st, T("el", c.obj, c.o(st), c.v(st, 0), "f"))


@seqm("pop_back")
def l_popb(I_, st, c):
    cv = c.o(st)
    ps = parts(cv)
    if ps and ps[-1].op == "item":
        v = cat_seq(*ps[:-1])
    else:
        v = T("popb", cv)
    return one(put(I_, st, c.obj, v), T("void"))


@seqm("pop_front")
def l_popf(I_, st, c):
    cv = c.o(st)
    ps = parts(cv)
    if ps and ps[0].op == "item":
        v = cat_seq(*ps[1:])
    else:
        v = T("popf", cv)
    return one(put(I_, st, c.obj, v), T("void"))


def m_clear(I_, st, c):
    return one(put(I_, st, c.obj, NIL), T("void"))


for _k in SEQ + ["std::set", "std::multiset"] + list(MAPCLS):
    MODELS[_k + "::clear"] = m_clear


@seqm("insert")
def l_insert(I_, st, c):
    cv = c.o(st)
    it = c.v(st, 0)
    if it.op != "it" or it.a[3] != "f":
        return unknown(I_, st, c)
    if len(c.args) == 2:
        t1 = unref(c.ty(1))
        v = c.v(st, 1)
        ins = v if cls(t1) == "std::initializer_list" else item(v)
    elif len(c.args) == 3:
        a, b = c.v(st, 1), c.v(st, 2)
        ins = it_range(I_, a, b)
        if ins is None:
            return unknown(I_, st, c)
    else:
        return unknown(I_, st, c)
    pos = it.a[2]
    if pos is I_.size(cv) or pos is I_.size(it.a[1]):
        v = cat_seq(cv, ins)
    elif pos is I(0):
        v = cat_seq(ins, cv)
    else:
        v = cat_seq(T("seg", cv, I(0), pos), ins, T("seg", cv, pos, I_.size(cv)))
    return one(put(I_, st, c.obj, v), T("it", c.obj, v, pos, "f"))


@seqm("erase")
def l_erase(I_, st, c):
    cv = c.o(st)
    it = c.v(st, 0)
    if it.op == "it":
        if len(c.args) == 2:
            b = c.v(st, 1)
            if cv.op == "rmtail" and b.op == "it" and b.a[2] is I_.size(cv) and it.a[2] is T("rmend", cv.a[0], cv.a[1]):
                v = T("filter", cv.a[0], cv.a[1])
                return one(put(I_, st, c.obj, v), T("it", c.obj, v, I_.size(v), "f"))
            if b.op == "it" and it.a[2] is I(0) and b.a[2] is I_.size(cv):
                return one(put(I_, st, c.obj, NIL), T("it", c.obj, NIL, I(0), "f"))
        elif len(c.args) == 1 and it.a[3] == "f":
            back = sub(I_.size(cv), it.a[2])
            ps = parts(cv)
            if back is I(1):
                v = cat_seq(*ps[:-1]) if ps and ps[-1].op == "item" else T("popb", cv)
            elif it.a[2] is I(0):
                v = cat_seq(*ps[1:]) if ps and ps[0].op == "item" else T("popf", cv)
            else:
                v = T("erased", cv, it.a[2])
            return one(put(I_, st, c.obj, v), T("it", c.obj, v, it.a[2], "f"))
    return unknown(I_, st, c)


def pred_of(I_, st, c, i, argty=None):
    """Predicate argument as (kind, meaning): a set of characters or a boolean term over HOLE."""
    f = fval(I_, st, c, i)
    return pred_term(I_, st, f, c)


def fval(I_, st, c, i):
    if c.isloc(i):
        a = c.args[i]
        if a.op in ("fnref", "lam", "bind"):
            return a
        return I_.read(st, a, c.ty(i))
    return c.args[i]


class _K:
    """Throw-away collector."""
    def __init__(self):
        self.throws = []
        self.rets = []
        self.brks = []
        self.conts = []
        self.gotos = []


def apply_fn(I_, st, f, args, c, tys=None):
    """Apply a callable to abstract values without side effects on st; returns [(state, value)] or None."""
    K = _K()
    node = dict(c.node)
    argn = [{"vc": "p", "t": (tys[i] if tys else None), "sid": c.node.get("sid"), "l": c.node.get("l")} for i in range(len(args))]
    r = I_.call_value(st, f, args, argn, K, node)
    if K.throws:
        return None
    out = []
    for s, v in r:
        if isinstance(v, T) and v.op in ("v", "fld", "el", "chr", "tmp", "mel", "deref", "at") and v in s.store:
            v = s.store[v]
        elif isinstance(v, T) and v.op in ("fld", "el", "chr", "deref", "at", "mel", "refd"):
            v = I_.read(s, v)
        out.append((s, v))
    return out


def char_pred(I_, st, f, c):
    """The set of (signed) characters a predicate is true for, or None."""
    x = T("pc", "char")
    TR[x] = IS.rng(-128, 127)
    r = apply_fn(I_, st, f, [x], c)
    if r is None:
        return None
    yes = IS(())
    no = IS(())
    base = {k: v for k, v in st.facts.items()}
    for s, v in r:
        for s2, b in I_.truth(s, v):
            if any(k not in base for k in s2.facts):
                return None
            d = I_.dom(s2, x)
            if b:
                yes = yes | d
            else:
                no = no | d
    if yes & no:
        return None
    return frozenset(yes.values())


def hole_at(I_):
    """The element a predicate is about: HOLE, or another one inside of a predicate that is about HOLE itself."""
    n = getattr(I_, "holes", 0)
    return T("hole", n) if n else HOLE


def pred_term(I_, st, f, c):
    """Boolean term over hole_at(I_) equivalent to predicate f, or None."""
    h = hole_at(I_)
    I_.holes = getattr(I_, "holes", 0) + 1
    try:
        r = apply_fn(I_, st, f, [h], c)
    finally:
        I_.holes -= 1
    if r is None:
        return None
    if len(r) == 1 and r[0][0].sig()[1:4] == st.sig()[1:4]:
        return r[0][1]
    # several ways: build from the facts that were added
    ors = []
    for s, v in r:
        for s2, b in I_.truth(s, v):
            if not b:
                continue
            conj = []
            for k, val in s2.facts.items():
                if k not in st.facts:
                    conj.append(k if val else neg(k))
            for k, d in s2.sdom.items():
                if st.sdom.get(k) != d:
                    if d[0] == "eq":
                        conj.append(eqatom(k, S(d[1])))
                    else:
                        conj += [neg(eqatom(k, S(x))) for x in sorted(d[1])]
            for k, d in s2.dom.items():
                if st.dom.get(k) != d and not (k.op == "size"):
                    return None
            t = None
            for x in conj:
                t = x if t is None else T("and", t, x)
            ors.append(t if t is not None else TRUE)
    if not ors:
        return FALSE
    t = ors[0]
    for x in ors[1:]:
        t = T("or", t, x)
    return t


@seqm("remove_if")
def l_remove_if(I_, st, c):
    p = pred_of(I_, st, c, 0)
    if p is None:
        return unknown(I_, st, c)
    cv = c.o(st)
    return one(put(I_, st, c.obj, T("filter", cv, p)), T("void"))


@seqm("remove")
def l_remove(I_, st, c):
    v = sarg_or_v(c, st, 0)
    return one(put(I_, st, c.obj, T("filter", c.o(st), eqatom(HOLE, v))), T("void"))


def sarg_or_v(c, st, i):
    u = unref(c.ty(i))
    if u and (u.get("k") == "arr" or (u.get("k") == "ptr" and unref(u["to"]).get("s", "").replace("const ", "") == "char")):
        return sarg(c, st, i)
    return c.v(st, i)


@seqm("reverse")
def l_reverse(I_, st, c):
    return one(put(I_, st, c.obj, T("rev", c.o(st))), T("void"))


@seqm("splice")
def l_splice(I_, st, c):
    it = c.v(st, 0)
    if len(c.args) == 2 and it.op == "it":
        cv, ov = c.o(st), c.v(st, 1)
        v = cat_seq(cv, ov) if it.a[2] is I_.size(cv) else cat_seq(ov, cv) if it.a[2] is I(0) else None
        if v is not None:
            st = put(I_, st, c.obj, v)
            return one(put(I_, st, c.args[1], NIL), T("void"))
    return unknown(I_, st, c)


# ------------------------------------------------------------------ sets and maps
SETS = ["std::set", "std::multiset", "std::unordered_set"]
for _k in SETS:
    def _ins(I_, st, c):
        if len(c.args) == 1:
            v = c.v(st, 0)
            if cls(c.ty(0)) == "std::initializer_list":
                return one(put(I_, st, c.obj, cat_seq(c.o(st), v)), T("void"))
            had = T("has", c.o(st), v)
            return one(put(I_, st, c.obj, cat_seq(c.o(st), item(v))), T("pair", T("mit", c.obj, c.o(st), v), neg(had)))
        if len(c.args) == 2:
            a, b = c.v(st, 0), c.v(st, 1)
            r = it_range(I_, a, b)
            if r is not None:
                return one(put(I_, st, c.obj, cat_seq(c.o(st), r)), T("void"))
        return unknown(I_, st, c)
    MODELS[_k + "::insert"] = _ins
    MODELS[_k + "::emplace"] = _ins

for _k in SETS + list(MAPCLS):
    def _find(I_, st, c):
        k = sarg_or_v(c, st, 0)
        return one(st, T("mit", c.obj, c.o(st), k))

    def _count(I_, st, c):
        return [(s, I(int(b))) for s, b in I_.truth(st, T("has", c.o(st), sarg_or_v(c, st, 0)))]
    MODELS[_k + "::find"] = _find
    MODELS[_k + "::count"] = _count
    MODELS[_k + "::contains"] = _count

    def _erase(I_, st, c):
        k = c.v(st, 0)
        if k.op == "mit":
            k = k.a[2]
        elif k.op == "it":
            return unknown(I_, st, c)
        return one(put(I_, st, c.obj, T("mdel", c.o(st), k)), T("has", c.o(st), k))
    MODELS[_k + "::erase"] = _erase

for _k in MAPCLS:
    def _midx(I_, st, c):
        k = sarg_or_v(c, st, 0)
        m = c.o(st)
        # operator[] inserts a default value
        return one(st, T("mel", c.obj, k))

    def _mat(I_, st, c):
        k = sarg_or_v(c, st, 0)
        I_.emit(st, "mapat", (c.q, c.o(st), k), c)
        return one(st, T("mel", c.obj, k))
    MODELS[_k + "::operator[]"] = _midx
    MODELS[_k + "::at"] = _mat

    def _minsert(I_, st, c):
        v = c.v(st, 0)
        m = c.o(st)
        if len(c.args) == 1 and v.op == "pair":
            k, x = v.a
        elif len(c.args) == 2 and c.nq.endswith("emplace"):
            k, x = sarg_or_v(c, st, 0), c.v(st, 1)
        else:
            return unknown(I_, st, c)
        out = []
        for s, b in I_.truth(st, T("has", m, k)):
            if b:
                out.append((s, T("pair", T("mit", c.obj, m, k), FALSE)))
            else:
                m2 = mput(m, k, x)
                out.append((put(I_, s, c.obj, m2), T("pair", T("mit", c.obj, m2, k), TRUE)))
        return out
    MODELS[_k + "::insert"] = _minsert
    MODELS[_k + "::emplace"] = _minsert


@model("std::make_pair", "std::pair::pair")
def f_pair(I_, st, c):
    if len(c.args) == 2:
        return one(st, T("pair", sarg_or_v(c, st, 0), sarg_or_v(c, st, 1)))
    if len(c.args) == 1:
        return one(st, c.v(st, 0))
    return unknown(I_, st, c)


# ------------------------------------------------------------------ algorithms
def whole(I_, a, b):
    return a.op == "it" and b.op == "it" and a.a[3] == "f" and b.a[3] == "f" and a.a[2] is I(0) and b.a[2] is I_.size(b.a[1]) and \
        a.a[1] is b.a[1]


@model("std::transform")
def f_transform(I_, st, c):
    a, b, o = c.v(st, 0), c.v(st, 1), c.v(st, 2)
    if len(c.args) != 4 or a.op != "it" or b.op != "it" or a.a[1] is not b.a[1]:
        return unknown(I_, st, c)
    f = fval(I_, st, c, 3)
    loc, cv = a.a[0], a.a[1]
    strsrc = "char" in (c.ty(0).get("s") or "") and "basic_string" in (c.ty(0).get("s") or "") and "normal_iterator" in (c.ty(0).get("s") or "")
    if strsrc:
        fn = char_map(I_, st, f, c)
        if fn is None:
            return unknown(I_, st, c)
        seg = substr(I_, cv, a.a[2], b.a[2] if b.a[2] is not I_.size(cv) else END)
        img = lower(seg) if fn == "lower" else T("map1", seg, fn)
        if o.op == "it" and o.a[0] is loc and o.a[2] is a.a[2] and o.a[3] == "f":
            new = cat(substr(I_, cv, I(0), a.a[2]), img,
                      substr(I_, cv, b.a[2], END) if b.a[2] is not I_.size(cv) else EMPTY)
            return one(put(I_, st, loc, new), o)
        if o.op == "inserter":
            old = I_.read(st, o.a[0])
            return one(put(I_, st, o.a[0], cat(old, img)), o)
        return unknown(I_, st, c)
    if whole(I_, a, b) or it_range(I_, a, b) is not None:
        src = it_range(I_, a, b)
        p = apply_fn(I_, st, f, [HOLE], c)
        if p is None or len(p) != 1:
            return unknown(I_, st, c)
        img = map1(src, p[0][1])
        if o.op == "it" and o.a[0] is loc and whole(I_, a, b) and o.a[2] is I(0):
            return one(put(I_, st, loc, img), o)
        if o.op == "inserter":
            old = I_.read(st, o.a[0])
            return one(put(I_, st, o.a[0], cat_seq(old, img)), o)
    return unknown(I_, st, c)


def literal(t):
    """The string a pointer into a literal stands for."""
    if t.op == "cstrof" and t.a[0].op == "ptr":
        reg, off = t.a[0].a
        if reg.op == "data" and reg.a[0].op == "str" and off.op == "int":
            return S(reg.a[0].a[0][off.a[0]:].split("\0")[0])
    return None


def map1(src, body, hole=HOLE):
    """Element-wise image of a list."""
    if body is hole:
        return src
    out = []
    for p in parts(src):
        if p.op == "item":
            e = p.a[0]
            out.append(item(subst(subst(body, lambda x: e if x is hole else None), literal)))
        elif p.op == "map1" and body.op == "lower" and p.a[1].op == "lower" and body.a[0] is hole and p.a[1].a[0].op == "hole":
            out.append(p)
        else:
            out.append(T("map1", p, body))
    return cat_seq(*out)


def char_map(I_, st, f, c):
    """'lower' when f lower-cases ASCII letters and keeps every other character, else an opaque name."""
    x = T("pc", "cm")
    TR[x] = IS.rng(-128, 127)
    r = apply_fn(I_, st, f, [x], c)
    if r is None:
        return None
    m = {}
    for s, v in r:
        if any(k not in st.facts for k in s.facts):
            return None
        d = I_.dom(s, x)
        for k in d.values():
            if v.op == "int":
                y = v.a[0]
            else:
                lf = I_.leaf(v)
                if lf is not x:
                    return None
                y = I_.evalf(v, x, k)
            if y is None:
                return None
            m[k] = sgn(y)
    if all(m.get(k) == (k + 32 if 65 <= k <= 90 else k) for k in range(-128, 128)):
        return "lower"
    return T("chmap", tuple(m.get(k, 0) for k in range(-128, 128)))


@model("std::back_inserter", "std::inserter", "std::front_inserter")
def f_inserter(I_, st, c):
    if c.nq == "std::front_inserter":
        return unknown(I_, st, c)
    return one(st, T("inserter", c.args[0]))


@model("std::copy")
def f_copy(I_, st, c):
    a, b, o = c.v(st, 0), c.v(st, 1), c.v(st, 2)
    r = it_range(I_, a, b)
    if r is None or o.op != "inserter":
        return unknown(I_, st, c)
    if "basic_string" in (c.ty(0).get("s") or "") and "normal_iterator" in (c.ty(0).get("s") or ""):
        r = substr(I_, a.a[1], a.a[2], b.a[2])
    return one(put(I_, st, o.a[0], cat(I_.read(st, o.a[0]), r)), o)


def str_it(c, i=0):
    s = c.ty(i).get("s") or ""
    return "normal_iterator" in s and "basic_string<char>" in s and "*" in s and "vector" not in s and "basic_string<char> *" not in s


@model("std::find")
def f_find(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    if a.op != "it" or b.op != "it" or a.a[3] != b.a[3]:
        return unknown(I_, st, c)
    if a.a[1] is not b.a[1]:
        return unknown(I_, st, c)
    loc, cv, pos, d = a.a
    if str_it(c):
        if d != "f":
            return unknown(I_, st, c)
        v = c.v(st, 2)
        p = find_term(cv, chs(v), pos)
        # npos corresponds to end()
        if b.a[2] is I_.size(cv):
            t = T("findpos", "v", cv, chs(v), pos)
            TR.setdefault(t, IS.rng(0, 1 << 62))
            return one(st, T("it", loc, cv, t, d))
        return unknown(I_, st, c)
    v = sarg_or_v(c, st, 2)
    if b.a[2] is not I_.size(cv):
        return unknown(I_, st, c)
    t = T("findpos", "v", cv if d == "f" else T("rev", cv), v, pos)
    TR.setdefault(t, IS.rng(0, 1 << 62))
    return one(st, T("it", loc, cv, t, d))


def f_find_if(negate):
    def h(I_, st, c):
        a, b = c.v(st, 0), c.v(st, 1)
        if a.op != "it" or b.op != "it" or a.a[1] is not b.a[1] or b.a[2] is not I_.size(b.a[1]):
            return unknown(I_, st, c)
        loc, cv, pos, d = a.a
        f = fval(I_, st, c, 2)
        if str_it(c):
            cs = char_pred(I_, st, f, c)
            if cs is None:
                return unknown(I_, st, c)
            if negate:
                cs = ALLCH - cs
            t = T("findpos", "p", cv, cs, pos)
            TR.setdefault(t, IS.rng(0, 1 << 62))
            return one(st, T("it", loc, cv, t, d))
        p = pred_term(I_, st, f, c)
        if p is None:
            return unknown(I_, st, c)
        if negate:
            p = neg(p)
        t = T("findpos", "q", cv if d == "f" else T("rev", cv), p, pos)
        TR.setdefault(t, IS.rng(0, 1 << 62))
        return one(st, T("it", loc, cv, t, d))
    return h


MODELS["std::find_if"] = f_find_if(False)
MODELS["std::find_if_not"] = f_find_if(True)


def anyof(I_, cv, p):
    """Some element of list cv satisfies p (a boolean term over hole_at(I_))."""
    h = hole_at(I_)
    e = p if p.op == "eq" else p.a[0] if p.op == "eq0" and p.a[0].op == "cmpz" else None
    if e is not None:
        for x, k in (e.a, e.a[::-1]):
            if h in x.subs() and h not in k.subs():
                return T("has", map1(cv, x, h), k)
    return T("any", cv, p)


def f_anyof(kind):
    def h(I_, st, c):
        a, b = c.v(st, 0), c.v(st, 1)
        f = fval(I_, st, c, 2)
        r = it_range(I_, a, b)
        if r is None:
            return unknown(I_, st, c)
        if str_it(c):
            cs = char_pred(I_, st, f, c)
            if cs is None:
                return unknown(I_, st, c)
            s = substr(I_, a.a[1], a.a[2], b.a[2])
            if kind == "all":
                return one(st, neg(T("hasin", s, ALLCH - cs)))
            t = T("hasin", s, cs)
            return one(st, t if kind == "any" else neg(t))
        p = pred_term(I_, st, f, c)
        if p is None:
            return unknown(I_, st, c)
        if kind == "all":
            return one(st, neg(anyof(I_, r, neg(p))))
        t = anyof(I_, r, p)
        return one(st, t if kind == "any" else neg(t))
    return h


MODELS["std::any_of"] = f_anyof("any")
MODELS["std::all_of"] = f_anyof("all")
MODELS["std::none_of"] = f_anyof("none")


@model("std::count_if", "std::count")
def f_count(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    r = it_range(I_, a, b)
    if r is None:
        return unknown(I_, st, c)
    if c.nq == "std::count":
        k = c.v(st, 2) if str_it(c) else sarg_or_v(c, st, 2)
        t = T("count", r, k)
    else:
        f = fval(I_, st, c, 2)
        p = char_pred(I_, st, f, c) if str_it(c) else pred_term(I_, st, f, c)
        if p is None:
            return unknown(I_, st, c)
        t = T("countp", r, p)
    TR.setdefault(t, IS.rng(0, 1 << 62))
    # none at all is the same as: no element has the property
    x = t.a[1]
    if str_it(c):
        some = T("hasin", r, frozenset(x) if isinstance(x, (set, frozenset)) else None) if isinstance(x, (set, frozenset)) else \
            T("hasin", r, frozenset([sgn(x.a[0])])) if isinstance(x, T) and x.op == "int" else None
    else:
        some = T("has", r, x) if t.op == "count" else anyof(I_, r, x)
    if some is None:
        return one(st, t)
    out = []
    for s, b in I_.truth(st, some):
        if b:
            s = I_.assume(s, T("eq0", t), False)
            if s is not None:
                s.dom[t] = IS.rng(1, 1 << 62) & s.dom.get(t, IS.rng(1, 1 << 62))
        if s is not None:
            out.append((s, t if b else I(0)))
    return out


@model("std::remove_if", "std::remove")
def f_remove_if(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    if not whole(I_, a, b):
        return unknown(I_, st, c)
    loc, cv = a.a[0], a.a[1]
    if str_it(c):
        if c.nq == "std::remove":
            v = c.v(st, 2)
            cs = frozenset([sgn(v.a[0])]) if v.op == "int" else None
        else:
            cs = char_pred(I_, st, fval(I_, st, c, 2), c)
    else:
        if c.nq == "std::remove":
            cs = eqatom(hole_at(I_), sarg_or_v(c, st, 2))
        else:
            cs = pred_term(I_, st, fval(I_, st, c, 2), c)
    if cs is None:
        return unknown(I_, st, c)
    nv = T("rmtail", cv, cs)
    # the size of the container is unchanged
    st = put(I_, st, loc, nv)
    t = T("rmend", cv, cs)
    TR.setdefault(t, IS.rng(0, 1 << 62))
    return one(st, T("it", loc, nv, t, "f"))


@model("std::for_each")
def f_for_each(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    f = fval(I_, st, c, 2)
    if a.op != "it" or b.op != "it" or a.a[0] is None:
        return unknown(I_, st, c)
    # desugar into a loop over a fresh iterator variable
    sid = c.node.get("sid")
    vloc = T("v", I_.frame.ctx, "#it", sid)
    st = setl(st, vloc, a)
    strs = str_it(c)
    I_cond = {"e": "#native", "f": lambda s: [(s, I_.compare(s, "!=", I_.read(s, vloc), b))], "vc": "p", "t": None, "sid": sid + "c"}

    def step(s, K):
        it = I_.read(s, vloc)
        if strs:
            el = T("chr", it.a[0], it.a[2])
        else:
            el = T("el", *it.a)
        return [s2 for s2, _ in I_.call_value(s, f, [el], [{"vc": "l", "t": None, "sid": sid, "l": c.node.get("l")}], K, c.node)]

    def inc(s):
        it = I_.read(s, vloc)
        return [(setl(s, vloc, T("it", it.a[0], it.a[1], add(it.a[2], I(1)), it.a[3])), T("void"))]
    node = {"sid": sid + "L", "l": c.node.get("l"), "s": "for"}
    outs = I_.loop(node, st, c.K, cond=I_cond, body={"s": "#native", "f": step, "sid": sid + "B"},
                   inc={"e": "#native", "f": inc, "vc": "p", "t": None, "sid": sid + "i"})
    r = []
    for s in outs:
        s = s.copy()
        s.store.pop(vloc, None)
        r.append((s, f))
    return r


@model("std::min", "std::max")
def f_min(I_, st, c):
    if len(c.args) != 2:
        return unknown(I_, st, c)
    a, b = c.v(st, 0), c.v(st, 1)
    if not (I_.intlike(a) or a.op == "int") or not (I_.intlike(b) or b.op == "int"):
        return unknown(I_, st, c)
    out = []
    cond = I_.compare(st, "<", b, a) if c.nq == "std::min" else I_.compare(st, "<", a, b)
    for s, t in I_.truth(st, cond):
        out.append((s, c.args[1] if t else c.args[0]))
    # c.args are locations (reference parameters)
    return out


@model("std::equal")
def f_equal(I_, st, c):
    a, b, o = c.v(st, 0), c.v(st, 1), c.v(st, 2)
    r = it_range(I_, a, b)
    if r is None or o.op != "it" or len(c.args) != 3:
        if a.op == "ptr" and b.op == "ptr":
            x = bytes_at(I_, st, a, sub(b.a[1], a.a[1]))
            I_.emit(st, "read", (c.nq, o, sub(b.a[1], a.a[1])), c)
            if o.op == "ptr":
                return one(st, I_.compare(st, "==", x, bytes_at(I_, st, o, sub(b.a[1], a.a[1]))))
        return unknown(I_, st, c)
    if str_it(c):
        x = substr(I_, a.a[1], a.a[2], b.a[2])
        y = substr(I_, o.a[1], o.a[2], add(o.a[2], sub(b.a[2], a.a[2])))
        return one(st, I_.compare(st, "==", x, y))
    return unknown(I_, st, c)


@model("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref")
def f_move(I_, st, c):
    if len(c.args) != 1:
        return unknown(I_, st, c)
    if c.nq in ("std::ref", "std::cref"):
        return one(st, T("alias", c.args[0]))
    if c.nq == "std::addressof":
        return one(st, T("addr", c.args[0]))
    return one(st, c.args[0])


@model("std::to_string")
def f_tostring(I_, st, c):
    return one(st, T("dec", c.v(st, 0)) if c.v(st, 0).op != "int" else S(str(c.v(st, 0).a[0])))


@model("std::allocator::allocator", "std::allocator::~allocator")
def f_alloc(I_, st, c):
    return one(st, T("alloc"))


@model("std::bad_alloc::bad_alloc", "std::runtime_error::runtime_error", "std::logic_error::logic_error", "std::exception::exception",
       "std::out_of_range::out_of_range", "std::invalid_argument::invalid_argument")
def f_exc(I_, st, c):
    return one(st, T("excbase", *[sarg_or_v(c, st, i) for i in range(len(c.args))]))


@model("std::runtime_error::what", "std::exception::what", "std::logic_error::what")
def f_what(I_, st, c):
    return one(st, T("what", c.obj))


# ------------------------------------------------------------------ smart pointers, functions
@model("std::shared_ptr::shared_ptr", "std::__shared_ptr::__shared_ptr")
def sp_ctor(I_, st, c):
    if not c.args:
        return one(st, NULL)
    st = shared(I_, st, c)
    v = c.v(st, 0)
    return one(st, v.a[0] if v.op == "up" else v)


def shared(I_, st, c):
    """A plain (or unique) pointer is handed to shared ownership."""
    h = I_.opaque.get("#own")
    t = unref(c.ty(0)) or {}
    if h and (t.get("k") == "ptr" or cls(t) == "std::unique_ptr"):
        v = c.v(st, 0)
        p, d = (v.a[0], v.a[1]) if v.op == "up" else (v, fval(I_, st, c, 1) if len(c.args) > 1 else NULL)
        if p is not NULL and d.op in ("lam", "bind", "fnref"):
            # what the last owner will do: the releases of the deleter count, its effects on the object come later
            r = I_.call_value(st.copy(), d, [p], [{"vc": "p", "t": None, "sid": c.node.get("sid"), "l": c.node.get("l")}], c.K, c.node)
            if len(r) == 1:
                st = st.copy()
                st.ghost = r[0][0].ghost
                return st
        return h(I_, st, p, c.node)
    return st


@model("std::make_shared")
def f_make_shared(I_, st, c):
    ty = c.fn.get("ret") or c.node.get("t")
    ta = (ty or {}).get("targs") or (unref(c.node.get("t")) or {}).get("targs")
    if not ta:
        return unknown(I_, st, c)
    loc = T("heap", I_.loopstack, c.node["sid"], I_.frame.ctx)
    ety = ta[0]
    st = st.copy()
    I_.kill(st, loc)
    if is_rec(ety):
        q = ety["n"]
        cf = I_.prog.fn(q + "::" + q.split("::")[-1], len(c.args))
        if cf:
            return [(s, T("addr", loc)) for s, _ in I_.inline(cf[0], st, loc, c.args, c.argn, c.K, c.node)]
        return one(st, T("addr", loc))
    return unknown(I_, st, c)


for _k in ("std::__shared_ptr", "std::shared_ptr"):
    def _get(I_, st, c):
        return one(st, c.o(st))

    def _reset(I_, st, c):
        if c.args:
            st = shared(I_, st, c)
        return one(put(I_, st, c.obj, c.v(st, 0) if c.args else NULL), T("void"))

    def _spasg(I_, st, c):
        return one(put(I_, st, c.obj, c.v(st, 0)), c.obj)

    def _bool(I_, st, c):
        return one(st, neg(I_.compare(st, "==", c.o(st), NULL)))
    MODELS[_k + "::get"] = _get
    MODELS[_k + "::reset"] = _reset
    MODELS[_k + "::operator="] = _spasg
    MODELS[_k + "::operator bool"] = _bool


def _sparrow(I_, st, c):
    return one(st, c.o(st))


def _spstar(I_, st, c):
    return one(st, I_.deref(c.o(st)))


for _k in ("std::__shared_ptr_access", "std::__shared_ptr", "std::shared_ptr"):
    MODELS[_k + "::operator->"] = _sparrow
    MODELS[_k + "::operator*"] = _spstar


def deleter(ty):
    """How a unique_ptr without a deleter object releases: delete, delete[] or the call operator of a type of the library."""
    ta = (ty or {}).get("targs") or [{}]
    if len(ta) > 1 and isinstance(ta[1], dict) and ta[1].get("repo"):
        return ta[1].get("n")
    return "delete[]" if (ta[0] or {}).get("k") == "arr" or str((ta[0] or {}).get("s", "")).endswith("[]") else "delete"


@model("std::unique_ptr::unique_ptr")
def up_ctor(I_, st, c):
    if not c.args:
        return one(st, T("up", NULL, NULL))
    v = c.v(st, 0)
    if v.op == "up":
        # move: ownership leaves the source
        if c.isloc(0):
            st = setl(st, c.args[0], T("up", NULL, v.a[1]))
        return one(st, v)
    d = fval(I_, st, c, 1) if len(c.args) > 1 else T("defdel", deleter(c.node["t"]))
    return one(st, T("up", v, d))


@model("std::unique_ptr::get", "std::unique_ptr::operator->")
def up_get(I_, st, c):
    v = c.o(st)
    return one(st, v.a[0] if v.op == "up" else T("get", v, "ptr"))


@model("std::unique_ptr::operator*")
def up_star(I_, st, c):
    v = c.o(st)
    return one(st, I_.deref(v.a[0]) if v.op == "up" else T("deref", v))


@model("std::unique_ptr::operator[]")
def up_idx(I_, st, c):
    v = c.o(st)
    p = v.a[0] if v.op == "up" else T("get", v, "ptr")
    return one(st, I_.deref(I_.arith(st, "+", p, c.v(st, 0), {"k": "ptr"})))


@model("std::unique_ptr::operator bool")
def up_bool(I_, st, c):
    v = c.o(st)
    return one(st, neg(I_.compare(st, "==", v.a[0] if v.op == "up" else T("get", v, "ptr"), NULL)))


@model("std::unique_ptr::release")
def up_release(I_, st, c):
    v = c.o(st)
    if v.op != "up":
        return unknown(I_, st, c)
    return one(setl(st, c.obj, T("up", NULL, v.a[1])), v.a[0])


@model("std::unique_ptr::reset")
def up_reset(I_, st, c):
    v = c.v(st, 0) if c.args else NULL
    return [(s, T("void")) for s in I_.up_reset(st, c.obj, v, c.K, c.node)]


@model("std::unique_ptr::operator=")
def up_asg(I_, st, c):
    v = c.v(st, 0)
    p = v.a[0] if v.op == "up" else NULL if v is NULL else None
    if p is None:
        return unknown(I_, st, c)
    out = []
    for s in I_.up_reset(st, c.obj, p, c.K, c.node):
        if v.op == "up" and c.isloc(0):
            s = setl(s, c.args[0], T("up", NULL, v.a[1]))
        out.append((s, c.obj))
    return out


@model("std::function::function", "std::function::operator=")
def fn_ctor(I_, st, c):
    if not c.args:
        return one(st, NULL)
    v = fval(I_, st, c, 0)
    if c.obj is not None:
        return one(put(I_, st, c.obj, v), c.obj)
    return one(st, v)


@model("std::function::operator()")
def fn_call(I_, st, c):
    f = c.o(st)
    return I_.call_value(st, f, c.args, c.argn, c.K, c.node)


@model("std::function::operator bool")
def fn_bool(I_, st, c):
    return one(st, neg(I_.compare(st, "==", c.o(st), NULL)))


@model("std::bind")
def f_bind(I_, st, c):
    f = fval(I_, st, c, 0)
    args = []
    for i in range(1, len(c.args)):
        t = unref(c.ty(i))
        s = (t or {}).get("s", "")
        if "_Placeholder" in s:
            n = c.argn[i]
            k = placeholder(n)
            if k is None:
                return unknown(I_, st, c)
            args.append(T("ph", k))
        else:
            args.append(c.v(st, i))
    return one(st, T("bind", f, tuple(args)))


def placeholder(n):
    while n.get("e") in ("cast", "tmp", "ctor"):
        n = n.get("x") or (n.get("args") or [None])[0]
        if n is None:
            return None
    if n.get("e") == "ref":
        nm = n["d"]["n"]
        if nm.startswith("_") and nm[1:].isdigit():
            return int(nm[1:])
    t = unref(n.get("t")) or {}
    import re
    m = re.search(r"_Placeholder<(\d+)>", t.get("s", ""))
    return int(m.group(1)) if m else None


# ------------------------------------------------------------------ streams
SRC, POS, FAIL = "#src", "#pos", "#fail"


def s_src(I_, st, loc):
    return I_.read(st, fld(loc, SRC))


def s_pos(I_, st, loc):
    p = I_.read(st, fld(loc, POS))
    if p.op != "int":
        TR.setdefault(p, IS.rng(0, 1 << 62)) if p.op != "lin" else None
    return p


def s_fail(I_, st, loc):
    f = I_.read(st, fld(loc, FAIL))
    if f.op == "init":
        TR.setdefault(f, IS.rng(0, 1))
    return f


def ch_at(src, pos):
    if src.op == "str" and pos.op == "int":
        k = pos.a[0]
        return I(ord(src.a[0][k]) & 255 if 0 <= k < len(src.a[0]) else -1)
    return T("ch", src, pos)


def new_stream(I_, st, loc, src):
    st = st.copy()
    st.store[fld(loc, SRC)] = src
    st.store[fld(loc, POS)] = I(0)
    st.store[fld(loc, FAIL)] = I(0)
    return st


@model("std::basic_stringstream::basic_stringstream", "std::basic_istringstream::basic_istringstream")
def ss_ctor(I_, st, c):
    src = EMPTY
    if c.args and is_str(unref(c.ty(0))):
        src = c.v(st, 0)
    return one(st, T("newstream", src))


@model("std::basic_ifstream::basic_ifstream")
def ifs_ctor(I_, st, c):
    src = T("file", sarg_or_v(c, st, 0)) if c.args else EMPTY
    return one(st, T("newfile", src))


@model("std::basic_istream::peek")
def st_peek(I_, st, c):
    f = s_fail(I_, st, c.obj)
    if f is I(1):
        return one(st, I(-1))
    return one(st, ch_at(s_src(I_, st, c.obj), s_pos(I_, st, c.obj)))


@model("std::basic_istream::get")
def st_get(I_, st, c):
    f = s_fail(I_, st, c.obj)
    if len(c.args) == 0:
        if f is I(1):
            return one(st, I(-1))
        out = []
        pos = s_pos(I_, st, c.obj)
        ch = ch_at(s_src(I_, st, c.obj), pos)
        for s, eof in I_.truth(st, I_.compare(st, "==", ch, I(-1))):
            if eof:
                out.append((setl(s, fld(c.obj, FAIL), I(1)), I(-1)))
            else:
                out.append((setl(s, fld(c.obj, POS), add(pos, I(1))), ch))
        return out
    if len(c.args) == 1 and (unref(c.ty(0)) or {}).get("int"):
        if f is I(1):
            return one(st, c.obj)
        out = []
        pos = s_pos(I_, st, c.obj)
        ch = ch_at(s_src(I_, st, c.obj), pos)
        for s, eof in I_.truth(st, I_.compare(st, "==", ch, I(-1))):
            if eof:
                out.append((setl(s, fld(c.obj, FAIL), I(1)), c.obj))
            else:
                s = setl(s, fld(c.obj, POS), add(pos, I(1)))
                out.append((put(I_, s, c.args[0], I_.intcast(s, ch, unref(c.ty(0)))), c.obj))
        return out
    return unknown(I_, st, c)


@model("std::basic_istream::ignore")
def st_ignore(I_, st, c):
    if c.args and not (c.v(st, 0) is I(1)):
        return unknown(I_, st, c)
    out = []
    pos = s_pos(I_, st, c.obj)
    ch = ch_at(s_src(I_, st, c.obj), pos)
    for s, eof in I_.truth(st, I_.compare(st, "==", ch, I(-1))):
        out.append((s if eof else setl(s, fld(c.obj, POS), add(pos, I(1))), c.obj))
    return out


@model("std::basic_istream::putback", "std::basic_istream::unget")
def st_putback(I_, st, c):
    pos = s_pos(I_, st, c.obj)
    I_.emit(st, "putback", (c.obj, pos, c.v(st, 0) if c.args else None), c)
    return one(setl(st, fld(c.obj, POS), sub(pos, I(1))), c.obj)


@model("std::basic_istream::tellg")
def st_tellg(I_, st, c):
    if s_fail(I_, st, c.obj) is I(1):
        return one(st, I(-1))
    pos = s_pos(I_, st, c.obj)
    d = I_.dom(st, ch_at(s_src(I_, st, c.obj), pos))
    if d.single() == -1:
        return one(setl(st, fld(c.obj, FAIL), I(1)), I(-1))
    return one(st, pos)


@model("std::fpos::operator+", "std::fpos::operator-")
def fpos_arith(I_, st, c):
    v = c.o(st)
    if v is None:
        return unknown(I_, st, c)
    w = c.v(st, 0)
    return one(st, add(v, w) if c.nq.endswith("+") else sub(v, w))


@model("std::fpos::operator long", "std::fpos::operator std::streamoff", "std::fpos::fpos")
def fpos_cast(I_, st, c):
    if c.obj is None:
        return one(st, c.v(st, 0) if c.args else I(0))
    return one(st, c.o(st))


EOFBIT, FAILBITS = 2, 5            # libstdc++: badbit 1, eofbit 2, failbit 4


@model("std::basic_ios::clear", "std::basic_istream::clear")
def st_clear(I_, st, c):
    v = c.v(st, 0) if c.args else I(0)
    if v.op == "int":
        return one(setl(st, fld(c.obj, FAIL), I(1 if v.a[0] & FAILBITS else 0)), T("void"))
    if v.op == "band":                          # the state now without some bits
        for x, m in (v.a, v.a[::-1]):
            if x.op == "rdstate" and x.a[0] is s_fail(I_, st, c.obj) and m.op == "int":
                if not m.a[0] & FAILBITS:
                    return one(setl(st, fld(c.obj, FAIL), I(0)), T("void"))
                if m.a[0] & FAILBITS == FAILBITS:
                    return one(st, T("void"))
    st = setl(st, fld(c.obj, FAIL), T("sym", "clear", v))
    st.note("stream state set to something not understood")
    return one(st, T("void"))


@model("std::basic_ios::rdstate")
def st_rdstate(I_, st, c):
    f = s_fail(I_, st, c.obj)
    t = T("rdstate", f)
    TR.setdefault(t, IS.rng(0, 7))
    return one(st, t)


@model("std::operator~")
def iostate_not(I_, st, c):
    v = c.v(st, 0)
    return one(st, I(~v.a[0]) if v.op == "int" else T("bnot", v))


@model("std::basic_ios::good", "std::basic_ios::eof", "std::basic_ios::fail", "std::basic_ios::operator!", "std::basic_ios::operator bool",
       "std::basic_ios::bad", "std::basic_ifstream::is_open")
def st_state(I_, st, c):
    f = s_fail(I_, st, c.obj)
    m = c.nq.split("::")[-1]
    if m in ("fail", "operator!"):
        return one(st, I_.compare(st, "!=", f, I(0)) if f.op != "int" else f)
    if m in ("operator bool", "is_open"):
        return one(st, I_.compare(st, "==", f, I(0)) if f.op != "int" else I(f.a[0] == 0))
    src, pos = s_src(I_, st, c.obj), s_pos(I_, st, c.obj)
    t = T("strst", m, src, pos, f)
    TR.setdefault(t, IS.rng(0, 1))
    return one(st, t)


@model("std::getline")
def f_getline(I_, st, c):
    loc = c.args[0]
    src, pos = s_src(I_, st, loc), s_pos(I_, st, loc)
    dl = c.v(st, 2) if len(c.args) > 2 else I(10)
    ch = ch_at(src, pos)
    out = []
    f = s_fail(I_, st, loc)
    for s, eof in I_.truth(st, I_.compare(st, "==", ch, I(-1))):
        if eof:
            s = setl(s, fld(loc, FAIL), I(1))
            out.append((put(I_, s, c.args[1], EMPTY), loc))
        else:
            s = setl(s, fld(loc, FAIL), I(0))
            ln = T("line", src, pos, dl)
            np = T("nextline", src, pos, dl)
            TR.setdefault(np, IS.rng(1, 1 << 62))
            s = setl(s, fld(loc, POS), np)
            out.append((put(I_, s, c.args[1], ln), loc))
    return out


@model("std::basic_istream::seekg")
def st_seekg(I_, st, c):
    st = st.copy()
    off = c.v(st, 0)
    way = c.v(st, 1) if len(c.args) > 1 else I(0)
    if way is I(0):
        st.store[fld(c.obj, POS)] = off
    else:
        st.store[fld(c.obj, POS)] = T("seek", s_src(I_, st, c.obj), off, way)
    I_.emit(st, "seekg", (c.obj, off, way), c)
    return one(st, c.obj)


@model("std::basic_istream::read")
def st_read(I_, st, c):
    p, n = c.v(st, 0), c.v(st, 1)
    src, pos = s_src(I_, st, c.obj), s_pos(I_, st, c.obj)
    cnt = T("gcount", src, pos, n)
    TR.setdefault(cnt, IS.rng(0, n.a[0] if n.op == "int" else 1 << 62))
    st = st.copy()
    st.store[fld(c.obj, "#gcount")] = cnt
    st.store[fld(c.obj, POS)] = add(pos, cnt)
    fl = T("readfail", src, pos, n)
    TR.setdefault(fl, IS.rng(0, 1))
    st.store[fld(c.obj, FAIL)] = fl
    I_.emit(st, "fill", (c.q, p, n), c)
    if p.op == "ptr" and p.a[0].op in ("v", "fld", "heap", "tmp", "at"):
        st.store[p.a[0]] = T("chunk", src, pos, n)
    else:
        st.note("read into an unknown buffer")
    return one(st, c.obj)


@model("std::basic_istream::gcount")
def st_gcount(I_, st, c):
    v = st.store.get(fld(c.obj, "#gcount"))
    if v is None:
        v = T("gcount", s_src(I_, st, c.obj), s_pos(I_, st, c.obj), I(0))
        TR.setdefault(v, IS.rng(0, 1 << 62))
    return one(st, v)


@model("std::istreambuf_iterator::istreambuf_iterator")
def sbuf_it(I_, st, c):
    if not c.args:
        return one(st, T("fileend"))
    loc = c.args[0]
    if loc.op in ("fileit", "fileend"):
        return one(st, loc)
    v = st.store.get(loc)
    if v is not None and v.op in ("fileit", "fileend"):
        return one(st, v)
    return one(st, T("fileit", s_src(I_, st, loc)))


@model("std::operator|", "std::operator&", "std::operator^")
def op_or(I_, st, c):
    """Bit sets of the stream library (open modes, states)."""
    a, b = c.v(st, 0), c.v(st, 1)
    o = c.nq[-1]
    if a.op == "int" and b.op == "int":
        return one(st, I(a.a[0] & b.a[0] if o == "&" else a.a[0] | b.a[0] if o == "|" else a.a[0] ^ b.a[0]))
    if o == "&" and "rdstate" in (a.op, b.op):
        return one(st, T("band", a, b))
    return one(st, T("flags"))


@model("std::basic_stringstream::str", "std::basic_istringstream::str")
def ss_str(I_, st, c):
    if not c.args:
        return one(st, s_src(I_, st, c.obj))
    st = new_stream(I_, st, c.obj, c.v(st, 0))
    return one(st, T("void"))


@model("std::basic_ostringstream::basic_ostringstream")
def oss_ctor(I_, st, c):
    src = EMPTY
    if c.args and is_str(unref(c.ty(0))):
        src = c.v(st, 0)
        if len(c.args) == 1 or not (c.v(st, 1).op == "flags" or c.v(st, 1).op == "int"):
            src = src if src is EMPTY else None
    if src is None:
        return None
    return one(st, T("newstream", src))


@model("std::basic_ostringstream::str")
def oss_str(I_, st, c):
    if not c.args:
        return one(st, s_src(I_, st, c.obj))
    if c.v(st, 0) is not EMPTY:
        return None
    return one(new_stream(I_, st, c.obj, EMPTY), T("void"))


def oss_put(I_, st, loc, v):
    st = st.copy()
    st.store[fld(loc, SRC)] = cat(s_src(I_, st, loc), v)
    return one(st, loc)


def is_oss(I_, st, loc, ty):
    return (unref(ty) or {}).get("n") in ("std::basic_ostringstream",) or st.store.get(fld(loc, SRC)) is not None and (unref(ty) or {}).get("n", "").startswith("std::basic_ostr")


@model("std::operator<<")
def oss_out(I_, st, c):
    if len(c.args) != 2 or st.store.get(fld(c.args[0], SRC)) is None:
        return None
    ty = unref(c.ty(1)) or {}
    v = c.v(st, 1)
    if is_str(ty) or ty.get("k") in ("ptr", "arr"):
        return oss_put(I_, st, c.args[0], tostr(I_, st, v, ty))
    if ty.get("k") == "bi" and ty.get("int") and (ty.get("bits") == 8 or ty.get("size") == 1 or "char" in str(ty.get("n"))):
        return oss_put(I_, st, c.args[0], chs(v))
    return None


@model("std::basic_ostream::operator<<")
def oss_num(I_, st, c):
    if c.obj is None or len(c.args) != 1 or st.store.get(fld(c.obj, SRC)) is None:
        return None
    ty = unref(c.ty(0)) or {}
    if ty.get("k") == "bi" and ty.get("int"):
        v = c.v(st, 0)
        return oss_put(I_, st, c.obj, S(str(v.a[0])) if v.op == "int" else T("dec", v))
    return None


@model("std::basic_ostream::put")
def oss_putc(I_, st, c):
    if st.store.get(fld(c.obj, SRC)) is None:
        return None
    return oss_put(I_, st, c.obj, chs(c.v(st, 0)))


@model("std::basic_ostream::write")
def oss_write(I_, st, c):
    if st.store.get(fld(c.obj, SRC)) is None:
        return None
    x = bytes_at(I_, st, c.v(st, 0), c.v(st, 1))
    return None if x is None else oss_put(I_, st, c.obj, x)


# ------------------------------------------------------------------ C library
@model("tolower", "std::tolower")
def c_tolower(I_, st, c):
    return one(st, tolow(c.v(st, 0)))


@model("toupper", "std::toupper")
def c_toupper(I_, st, c):
    v = c.v(st, 0)
    if v.op == "int":
        x = v.a[0]
        return one(st, I(x - 32 if 97 <= x <= 122 else x))
    return one(st, T("toupper", v))


for _n in ("isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isxdigit", "isprint", "isgraph", "isblank", "iscntrl", "ispunct"):
    def _ct(I_, st, c, _n=_n):
        v = c.v(st, 0)
        if v.op == "int":
            return one(st, I(1 if E.ctype(_n, v.a[0]) else 0))
        t = T("ctype", _n, v)
        TR.setdefault(t, IS.rng(0, 1))
        return one(st, t)
    MODELS[_n] = _ct
    MODELS["std::" + _n] = _ct


@model("strcasecmp", "strcoll", "strcmp", "std::strcmp")
def c_strcasecmp(I_, st, c):
    a, b = cstr(I_, st, c.v(st, 0)), cstr(I_, st, c.v(st, 1))
    if c.nq == "strcasecmp":
        a, b = lower(a), lower(b)
    return one(st, cmpz(a, b))


@model("strncasecmp", "strncmp", "std::strncmp")
def c_strncmp(I_, st, c):
    a, b, n = cstr(I_, st, c.v(st, 0)), cstr(I_, st, c.v(st, 1)), c.v(st, 2)
    if c.nq == "strncasecmp":
        a, b = lower(a), lower(b)

    if n.op == "int" and any(x.op == "str" and len(x.a[0]) < n.a[0] for x in (a, b)):
        # the terminating NUL of the shorter one takes part: whole strings are compared
        return one(st, cmpz(a, b))

    def pre(x):
        if x.op == "str" and n.op == "int":
            return S(x.a[0][:n.a[0]])
        return T("cpre", x, n)
    return one(st, cmpz(pre(a), pre(b)))


@model("memcmp", "std::memcmp", "CRYPTO_memcmp", "sodium_memcmp", "bcmp")
def c_memcmp(I_, st, c):
    n = c.v(st, 2)
    if n is I(0):
        return one(st, I(0))
    a, b = bytes_at(I_, st, c.v(st, 0), n), bytes_at(I_, st, c.v(st, 1), n)
    I_.emit(st, "memcmp", (c.v(st, 0), c.v(st, 1), n), c)
    return one(st, cmpz(a, b))


@model("strlen", "std::strlen")
def c_strlen(I_, st, c):
    return one(st, I_.size(cstr(I_, st, c.v(st, 0))))


@model("strchr", "std::strchr")
def c_strchr(I_, st, c):
    s, ch = cstr(I_, st, c.v(st, 0)), c.v(st, 1)
    p = c.v(st, 0)
    if s.op == "str" and ch.op != "int":
        # membership test of a character in a constant set (NUL included)
        cs = frozenset(sgn(ord(x)) for x in s.a[0]) | {0}
        out = []
        for x in (True, False):
            n = I_.refine(st, ch, IS.of([v for v in range(-128, 256) if (sgn(v) in cs) == x]))
            if n is not None:
                out.append((n, c.fresh("strchr") if x else NULL))
        res = []
        for s2, v in out:
            if v is not NULL:
                s2 = s2.copy()
                s2.facts[eqatom(v, NULL)] = False
            res.append((s2, v))
        return res
    return unknown(I_, st, c)


@model("memset", "std::memset")
def c_memset(I_, st, c):
    p = c.v(st, 0)
    I_.emit(st, "fill", (c.q, p, c.v(st, 2)), c)
    st = st.copy()
    if p.op == "ptr" and p.a[1] is I(0):
        v = c.v(st, 1)
        st.store[p.a[0]] = T("filled", v)
    elif p.op == "addr":
        I_.kill(st, p.a[0])
        st.store[p.a[0]] = T("filled", c.v(st, 1))
    else:
        st.note("memset of an unknown region")
    return one(st, p)


@model("memcpy", "memmove", "std::memcpy", "std::memmove")
def c_memcpy(I_, st, c):
    p, n = c.v(st, 0), c.v(st, 2)
    b = bytes_at(I_, st, c.v(st, 1), n)
    I_.emit(st, "read", (c.nq, c.v(st, 1), n), c)
    I_.emit(st, "fill", (c.q, p, n), c)
    st = st.copy()
    if p.op == "ptr" and p.a[1] is I(0):
        st.store[p.a[0]] = T("buf", b)
    else:
        st.note("memcpy to an unknown region")
    return one(st, p)


@model("strtoul", "strtol", "strtoull", "strtoll", "std::strtoul", "std::strtol", "std::strtoull", "std::strtoll")
def c_strtoul(I_, st, c):
    p = c.v(st, 0)
    s = cstr(I_, st, p)
    base = c.v(st, 2)
    nm = c.nq.split("::")[-1]
    unsigned = "u" in nm[4:]
    if s.op == "str" and base.op == "int":
        import re
        m = re.match(r"\s*([+-]?)(\d+)", s.a[0]) if base.a[0] == 10 else None
        if m:
            v = I(int(m.group(2)) * (-1 if m.group(1) == "-" else 1))
            return one(st, v)
    val = T(nm, s, base)
    TR.setdefault(val, IS.rng(0, (1 << 64) - 1) if unsigned else IS.rng(-(1 << 63), (1 << 63) - 1))
    ovf = T("ovf", nm, s, base)
    out = []
    for s2, b in I_.split_atom(st, ovf):
        s2 = s2.copy()
        if b:
            s2.store[T("errno")] = I(34)
            v = I((1 << 64) - 1) if unsigned else T("ovfval", nm, s, base)
            if not unsigned:
                TR.setdefault(v, IS.of([(1 << 63) - 1, -(1 << 63)]))
        else:
            v = val
        e = c.v(s2, 1)
        if e is not NULL:
            l = I_.deref(e)
            if p.op == "ptr":
                en = T("numend", s, base)
                TR.setdefault(en, IS.rng(0, 1 << 62))
                I_.write(s2, l, T("ptr", p.a[0], add(p.a[1], en)))
            else:
                I_.havoc(s2, l, None, "strtoul", c.node)
        out.append((s2, v))
    return out


@model("std::stoul", "std::stol", "std::stoull", "std::stoll", "std::stoi")
def c_stoul(I_, st, c):
    s = c.v(st, 0)
    nm = c.nq.split("::")[-1]
    val = T(nm, s)
    typed(val, c.fn.get("ret") or c.node.get("t"))
    st2 = st.copy()
    c.K.throws.append((st.copy(), E.Exc("std::invalid_argument", None, c.node, I_.frame.fn["q"])))
    c.K.throws.append((st.copy(), E.Exc("std::out_of_range", None, c.node, I_.frame.fn["q"])))
    return one(st2, val)


@model("atoi", "atol", "atoll", "std::atoi", "std::atol", "std::atoll")
def c_atoi(I_, st, c):
    """atol(s) is strtol(s, 0, 10); atoi(s) is that number converted to int."""
    s = cstr(I_, st, c.v(st, 0))
    val, over = T("strtol", s, I(10)), T("ovfval", "strtol", s, I(10))
    TR.setdefault(val, IS.rng(-(1 << 63), (1 << 63) - 1))
    TR.setdefault(over, IS.of([(1 << 63) - 1, -(1 << 63)]))
    return [(s2, I_.intcast(s2, over if b else val, c.node.get("t"))) for s2, b in I_.split_atom(st, T("ovf", "strtol", s, I(10)))]


@model("__errno_location")
def c_errno(I_, st, c):
    if T("errno") not in st.store:
        t = T("init", T("errno"))
        TR.setdefault(t, IS.rng(0, 4095))
        st = setl(st, T("errno"), t)
    return one(st, T("addr", T("errno")))


@model("time", "std::time")
def c_time(I_, st, c):
    t = T("now")
    TR.setdefault(t, IS.rng(0, (1 << 62)))
    if c.args and c.v(st, 0) is not NULL:
        st = put(I_, st, I_.deref(c.v(st, 0)), t)
    return one(st, t)


@model("free", "std::free")
def c_free(I_, st, c):
    return release(I_, st, c, c.v(st, 0), "free")


def release(I_, st, c, p, how):
    h = I_.opaque.get("#free")
    if h:
        return [(s, T("void")) for s in h(I_, st, p, how, c.node)]
    return one(st, T("void"))


def acquire(I_, st, c, p, how):
    h = I_.opaque.get("#new")
    if h:
        st = h(I_, st, p, how, c.node)
    return st


@model("__builtin_va_start", "va_start")
def c_va_start(I_, st, c):
    p = c.args[0]
    ctx = I_.frame.ctx
    va = st.store.get(T("va", ctx), T("vargs", ()))
    loc = p.a[0] if p.op == "ptr" else p
    return one(setl(st, loc, va), T("void"))


@model("__builtin_va_end", "va_end", "__builtin_va_copy")
def c_va_end(I_, st, c):
    return one(st, T("void"))


def c_format(fmt, args, I_, st):
    """Text produced by a printf format."""
    import re
    out = []
    k = 0
    pos = 0
    for m in re.finditer(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", fmt):
        out.append(S(fmt[pos:m.start()]))
        pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == "%":
            out.append(S("%"))
            continue
        if k >= len(args):
            return None
        a = args[k]
        k += 1
        if cv == "s" and not w and pr is None:
            out.append(cstr(I_, st, a))
        elif cv in "di" and not w and pr is None and not fl:
            out.append(T("dec", a) if a.op != "int" else S(str(a.a[0])))
        elif cv == "u" and not w and pr is None and not fl:
            out.append(T("dec", a) if a.op != "int" or a.a[0] < 0 else S(str(a.a[0])))
        elif cv == "c" and not w:
            out.append(chs(a))
        else:
            out.append(T("fmt", m.group(0), a))
    out.append(S(fmt[pos:]))
    return cat(*out)


def fmt_of(I_, st, pf, va):
    f = cstr(I_, st, pf)
    if f.op == "str" and va.op == "vargs":
        r = c_format(f.a[0], va.a[0], I_, st)
        if r is not None:
            return r
    return T("format", f, va)


@model("vasprintf", "asprintf")
def c_vasprintf(I_, st, c):
    dst = I_.deref(c.v(st, 0))
    if c.nq == "vasprintf":
        p = c.v(st, 2)
        va = st.store.get(p.a[0] if p.op == "ptr" else p, T("vargs?"))
    else:
        va = T("vargs", tuple(c.v(st, i) for i in range(2, len(c.args))))
    s = fmt_of(I_, st, c.v(st, 1), va)
    r = c.fresh("vasprintf")
    TR[r] = IS.rng(-1, (1 << 31) - 1)
    out = []
    for s2, bad in I_.truth(st, I_.compare(st, "==", r, I(-1))):
        if bad:
            out.append((s2, I(-1)))
        else:
            loc = T("heap", I_.loopstack, c.node["sid"], I_.frame.ctx)
            s2 = put(I_, s2, dst, T("ptr", loc, I(0)))
            s2 = setl(s2, loc, T("cstr", s))
            s2 = acquire(I_, s2, c, T("ptr", loc, I(0)), "malloc")
            s2 = s2.copy()
            s2.facts.pop(r, None)
            out.append((s2, r))
    return out


@model("vsnprintf", "snprintf", "std::vsnprintf", "std::snprintf")
def c_vsnprintf(I_, st, c):
    p, n = c.v(st, 0), c.v(st, 1)
    if c.nq.endswith("vsnprintf"):
        q = c.v(st, 3)
        va = st.store.get(q.a[0] if q.op == "ptr" else q, T("vargs?"))
    else:
        va = T("vargs", tuple(c.v(st, i) for i in range(3, len(c.args))))
    s = fmt_of(I_, st, c.v(st, 2), va)
    I_.emit(st, "fill", (c.q, p, n), c)
    z = I_.size(s)
    st = st.copy()
    if p.op == "ptr" and n is not I(0):
        full = add(z, I(1))
        if n is full or knownle(I_, st, full, n):
            st.store[p.a[0]] = T("cstr", s)
        else:
            st.store[p.a[0]] = T("cstr", T("trunc", s, sub(n, I(1))))
    return one(st, z)


@model("printf", "fprintf", "puts", "fputs", "putchar", "fputc", "fflush", "std::printf", "std::puts", "fwrite")
def c_printf(I_, st, c):
    args = tuple(c.v(st, i) for i in range(len(c.args)))
    I_.emit(st, "io", (c.nq, args), c)
    if not c.nq.startswith("f") or c.nq in ("fprintf", "fputs"):
        st = st.copy()
        k = 1 if c.nq == "fprintf" else 0
        txt = fmt_of(I_, st, args[k], T("vargs", args[k + 1:])) if c.nq in ("printf", "fprintf") else \
            cstr(I_, st, args[0]) if c.nq in ("puts", "fputs") else T("chs", args[0])
        dest = args[0] if c.nq in ("fprintf",) else args[1] if c.nq == "fputs" else T("stdout")
        st.trace = st.trace + (("print", dest, txt, c.node.get("l")),)
    t = c.fresh("io")
    typed(t, c.node.get("t"))
    return one(st, t)


@model("ferror", "feof", "fclose", "setvbuf", "setbuf", "perror", "setlocale", "std::setlocale", "isatty", "fileno", "clearerr", "srand", "getpid",
       "usleep", "sleep", "signal", "syslog", "openlog", "closelog", "ERR_clear_error", "ERR_print_errors_fp", "ERR_get_error", "ERR_peek_error",
       "ERR_peek_last_error", "std::perror", "std::fclose", "std::ferror", "std::srand", "std::signal")
def c_aside(I_, st, c):
    """A call that changes nothing this library looks at; its result can be anything."""
    t = c.fresh("aside")
    typed(t, c.node.get("t"))
    return one(st, t)


@model("exit", "abort", "_exit", "std::exit", "std::abort", "quick_exit", "__assert_fail", "std::terminate")
def c_exit(I_, st, c):
    I_.emit(st, "exit", (c.nq, tuple(c.v(st, i) for i in range(len(c.args)))), c)
    ex = getattr(I_, "exits", None)
    if ex is not None:
        ex.append((st, c.v(st, 0) if c.args else NULL, c))
    return []


@model("__bswap_16", "ntohs", "htons", "__builtin_bswap16")
def c_ntohs(I_, st, c):
    v = c.v(st, 0)
    if v.op == "int":
        x = v.a[0] & 0xffff
        return one(st, I((x >> 8) | ((x & 255) << 8)))
    t = T("bswap16", v)
    TR.setdefault(t, IS.rng(0, 65535))
    return one(st, t)


# ------------------------------------------------------------------ OpenSSL, sodium, resolver
def md_loc(I_, p):
    return I_.deref(p)


@model("EVP_MD_CTX_new", "EVP_MD_CTX_create")
def ossl_ctxnew(I_, st, c):
    loc = T("heap", I_.loopstack, c.node["sid"], I_.frame.ctx)
    st = st.copy()
    I_.kill(st, loc)
    st.store[fld(loc, "alg")] = T("noalg")
    st.store[fld(loc, "buf")] = T("uninit")
    p = T("addr", loc)
    return one(acquire(I_, st, c, p, "EVP_MD_CTX"), p)


@model("EVP_MD_CTX_free", "EVP_MD_CTX_destroy")
def ossl_ctxfree(I_, st, c):
    return release(I_, st, c, c.v(st, 0), "EVP_MD_CTX")


@model("EVP_MD_CTX_reset", "EVP_MD_CTX_init")
def ossl_ctxreset(I_, st, c):
    loc = md_loc(I_, c.v(st, 0))
    st = setl(st, fld(loc, "alg"), T("noalg"))
    return one(setl(st, fld(loc, "buf"), T("uninit")), I(1))


for _n, _a in (("EVP_sha1", "sha1"), ("EVP_sha256", "sha256"), ("EVP_sha512", "sha512"), ("EVP_sha224", "sha224"), ("EVP_sha384", "sha384"),
               ("EVP_md5", "md5")):
    def _alg(I_, st, c, _a=_a):
        return one(st, T("mdalg", _a))
    MODELS[_n] = _alg

MDSIZE = {"sha1": 20, "sha256": 32, "sha512": 64, "sha224": 28, "sha384": 48, "md5": 16}


@model("EVP_DigestInit_ex", "EVP_DigestInit")
def ossl_init(I_, st, c):
    loc = md_loc(I_, c.v(st, 0))
    st = setl(st, fld(loc, "alg"), c.v(st, 1))
    st = setl(st, fld(loc, "buf"), EMPTY)
    return one(st, okint(c, "init"))


def okint(c, what):
    # the digest primitives are taken to succeed (they fail only when memory is exhausted)
    return I(1)


@model("EVP_DigestUpdate")
def ossl_update(I_, st, c):
    loc = md_loc(I_, c.v(st, 0))
    p, n = c.v(st, 1), c.v(st, 2)
    b = bytes_at(I_, st, p, n)
    old = I_.read(st, fld(loc, "buf"))
    I_.emit(st, "update", (loc, p, n, b), c)
    return one(setl(st, fld(loc, "buf"), cat(old, b)), okint(c, "update"))


@model("EVP_DigestFinal_ex", "EVP_DigestFinal")
def ossl_final(I_, st, c):
    loc = md_loc(I_, c.v(st, 0))
    alg = I_.read(st, fld(loc, "alg"))
    d = T("digest", alg, I_.read(st, fld(loc, "buf")))
    z = T("size", d)
    if alg.op == "mdalg" and alg.a[0] in MDSIZE:
        TR[z] = IS.rng(MDSIZE[alg.a[0]], MDSIZE[alg.a[0]])
    else:
        TR.setdefault(z, IS.rng(0, 64))
    p = c.v(st, 1)
    I_.emit(st, "final", (loc, p, d), c)
    st = st.copy()
    if p.op == "ptr" and p.a[1] is I(0):
        st.store[p.a[0]] = T("buf", d)
    else:
        st.note("digest written to an unknown buffer")
    if c.v(st, 2) is not NULL:
        I_.write(st, I_.deref(c.v(st, 2)), z)
    st.store[fld(loc, "buf")] = T("finished")
    return one(st, okint(c, "final"))


@model("EVP_MD_CTX_copy", "EVP_MD_CTX_copy_ex")
def ossl_copy(I_, st, c):
    a, b = md_loc(I_, c.v(st, 0)), md_loc(I_, c.v(st, 1))
    st = setl(st, fld(a, "alg"), I_.read(st, fld(b, "alg")))
    return one(setl(st, fld(a, "buf"), I_.read(st, fld(b, "buf"))), I(1))


@model("EVP_MD_size", "EVP_MD_get_size")
def ossl_mdsize(I_, st, c):
    a = c.v(st, 0)
    if a.op == "mdalg":
        return one(st, I(MDSIZE[a.a[0]]))
    return unknown(I_, st, c)


@model("RSA_verify")
def ossl_rsaverify(I_, st, c):
    nid, m, ml, s, sl, rsa = [c.v(st, i) for i in range(6)]
    t = T("rsaverify", nid, bytes_at(I_, st, m, ml), bytes_at(I_, st, s, uncast(sl)), rsa)
    TR.setdefault(t, IS.rng(-(1 << 31), (1 << 31) - 1))
    I_.emit(st, "crypto", (c.nq, nid, m, ml, s, sl, rsa), c)
    return one(st, t)


def uncast(t):
    """Length without a narrowing conversion (lengths fit)."""
    while t.op == "cast":
        t = t.a[2]
    return t


@model("RSA_sign")
def ossl_rsasign(I_, st, c):
    nid, m, ml, s, sl, rsa = [c.v(st, i) for i in range(6)]
    t = T("rsasign", nid, bytes_at(I_, st, m, ml), rsa)
    TR.setdefault(t, IS.rng(-(1 << 31), (1 << 31) - 1))
    I_.emit(st, "crypto", (c.nq, nid, m, ml, s, sl, rsa), c)
    st = st.copy()
    sv = T("rsasig", t)
    if s.op == "ptr" and s.a[1] is I(0):
        st.store[s.a[0]] = T("buf", sv)
    else:
        st.note("signature written to an unknown buffer")
    z = T("size", sv)
    TR.setdefault(z, IS.rng(0, (1 << 32) - 1))
    if sl is not NULL:
        I_.write(st, I_.deref(sl), z)
    return one(st, t)


@model("RSA_size")
def ossl_rsasize(I_, st, c):
    t = T("rsasize", c.v(st, 0))
    TR.setdefault(t, IS.rng(0, 1 << 20))
    I_.emit(st, "crypto", (c.nq, c.v(st, 0)), c)
    return one(st, t)


@model("crypto_sign_verify_detached", "crypto_sign_ed25519_verify_detached")
def na_verify(I_, st, c):
    s, m, ml, pk = [c.v(st, i) for i in range(4)]
    t = T("edverify", bytes64(I_, st, s, 64), bytes_at(I_, st, m, ml), bytes64(I_, st, pk, 32))
    TR.setdefault(t, IS.rng(-(1 << 31), (1 << 31) - 1))
    I_.emit(st, "crypto", (c.nq, s, m, ml, pk), c)
    return one(st, t)


def bytes64(I_, st, p, n):
    """Fixed number of bytes read by a primitive; the whole string when its length is known to be that number."""
    if p.op == "ptr" and p.a[0].op == "data" and p.a[1] is I(0):
        s = p.a[0].a[0]
        if I_.const(st, I_.size(s)) == n:
            return s
    return bytes_at(I_, st, p, I(n))


@model("crypto_sign_detached", "crypto_sign_ed25519_detached")
def na_sign(I_, st, c):
    s, sl, m, ml, sk = [c.v(st, i) for i in range(5)]
    t = T("edsign", bytes_at(I_, st, m, ml), bytes64(I_, st, sk, 64))
    TR.setdefault(t, IS.rng(-(1 << 31), (1 << 31) - 1))
    I_.emit(st, "crypto", (c.nq, s, sl, m, ml, sk), c)
    st = st.copy()
    sv = T("edsig", t)
    TR[T("size", sv)] = IS.rng(64, 64)
    if s.op == "ptr" and s.a[1] is I(0):
        st.store[s.a[0]] = T("buf", sv)
    else:
        st.note("signature written to an unknown buffer")
    if sl is not NULL:
        I_.write(st, I_.deref(sl), I(64))
    return one(st, t)


@model("crypto_sign_seed_keypair", "crypto_sign_ed25519_seed_keypair")
def na_seed(I_, st, c):
    pk, sk, seed = [c.v(st, i) for i in range(3)]
    I_.emit(st, "crypto", (c.nq, pk, sk, seed), c)
    b = bytes64(I_, st, seed, 32)
    st = st.copy()
    for p, nm, n in ((pk, "pkval", 32), (sk, "skval", 64)):
        v = T(nm, b)
        TR[T("size", v)] = IS.rng(n, n)
        if p.op == "ptr" and p.a[1] is I(0):
            st.store[p.a[0]] = T("buf", v)
        else:
            st.note("key pair written to an unknown buffer")
    return one(st, I(0))


# heap objects of OpenSSL: acquired handles may be null
def newobj(kind, nullable, args=True):
    def h(I_, st, c):
        vals = []
        for i in range(len(c.args)):
            vals.append(c.v(st, i))
        t = T("obj:" + kind, I_.loopstack, c.node["sid"], I_.frame.ctx)
        st0 = st
        out = []
        I_.emit(st, "crypto", (c.nq,) + tuple(vals), c)
        if nullable:
            n = I_.assume(st, eqatom(t, NULL), True)
            if n is not None:
                out.append((n, NULL))
        n = st.copy()
        n.facts[eqatom(t, NULL)] = False
        n = acquire(I_, n, c, t, kind)
        out.append((n, t))
        return out
    return h


MODELS["BIO_new"] = newobj("BIO", True)
MODELS["BIO_new_mem_buf"] = newobj("BIO", True)
MODELS["PEM_read_bio_PrivateKey"] = newobj("EVP_PKEY", True)
MODELS["EVP_PKEY_get1_RSA"] = newobj("RSA", True)
MODELS["RSA_new"] = newobj("RSA", True)
MODELS["EVP_PKEY_new"] = newobj("EVP_PKEY", True)


def d2i(kind):
    base = newobj(kind, True)

    def h(I_, st, c):
        pp = c.v(st, 1)
        l = I_.deref(pp)
        p = I_.read(st, l)
        n = uncast(c.v(st, 2))
        data = bytes_at(I_, st, p, n)
        I_.emit(st, "read", (c.nq, p, n), c)
        out = []
        for s, v in base(I_, st, c):
            s = s.copy()
            if v is not NULL:
                s.store[fld(T("deref", v), "from")] = data
            I_.write(s, l, c.fresh("d2iptr"))
            out.append((s, v))
        return out
    return h


MODELS["d2i_PUBKEY"] = d2i("EVP_PKEY")
MODELS["d2i_RSAPrivateKey"] = d2i("RSA")
MODELS["d2i_RSAPublicKey"] = d2i("RSA")
MODELS["d2i_RSA_PUBKEY"] = d2i("RSA")
MODELS["d2i_AutoPrivateKey"] = None
del MODELS["d2i_AutoPrivateKey"]


@model("EVP_PKEY_get1_RSA")
def ossl_get1(I_, st, c):
    k = c.v(st, 0)
    out = []
    for s, v in newobj("RSA", True)(I_, st, c):
        if v is not NULL:
            s = s.copy()
            s.store[fld(T("deref", v), "from")] = T("rsaof", s.store.get(fld(T("deref", k), "from"), T("init", fld(T("deref", k), "from"))))
        out.append((s, v))
    return out


for _n, _k in (("BIO_free", "BIO"), ("BIO_vfree", "BIO"), ("BIO_free_all", "BIO*"), ("EVP_PKEY_free", "EVP_PKEY"), ("RSA_free", "RSA")):
    def _fr(I_, st, c, _k=_k):
        return release(I_, st, c, c.v(st, 0), _k)
    MODELS[_n] = _fr


for _n, _k in (("RSA_up_ref", "RSA"), ("EVP_PKEY_up_ref", "EVP_PKEY")):
    def _up(I_, st, c, _k=_k):
        return one(acquire(I_, st, c, c.v(st, 0), _k), I(1))
    MODELS[_n] = _up


@model("EVP_PKEY_get0_RSA")
def ossl_get0(I_, st, c):
    k = c.v(st, 0)
    t = T("obj:borrowed", k)
    st = st.copy()
    st.store[fld(T("deref", t), "from")] = T("rsaof", st.store.get(fld(T("deref", k), "from"), T("init", fld(T("deref", k), "from"))))
    return one(st, t)


@model("BIO_push")
def ossl_push(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    h = I_.opaque.get("#chain")
    if h:
        st = h(I_, st, a, b, c.node)
    return one(st, a)


@model("EVP_PKEY_get_base_id", "EVP_PKEY_base_id", "EVP_PKEY_get_id", "EVP_PKEY_id")
def ossl_baseid(I_, st, c):
    t = T("keytype", c.v(st, 0), st.store.get(fld(T("deref", c.v(st, 0)), "from"), NULL))
    TR.setdefault(t, IS.rng(-(1 << 31), (1 << 31) - 1))
    return one(st, t)


def plain_int(what, lo=-(1 << 31), hi=(1 << 31) - 1):
    def h(I_, st, c):
        t = c.fresh(what)
        TR.setdefault(t, IS.rng(lo, hi))
        I_.emit(st, "crypto", (c.nq,) + tuple(c.v(st, i) for i in range(len(c.args))), c)
        return one(st, t)
    return h


@model("BIO_write")
def ossl_biowrite(I_, st, c):
    I_.emit(st, "read", (c.nq, c.v(st, 1), c.v(st, 2)), c)
    return plain_int("BIO_write")(I_, st, c)


for _n in ("BIO_ctrl", "BIO_set_flags", "ERR_clear_error"):
    MODELS[_n] = plain_int(_n)
for _n in ("BIO_f_base64", "BIO_s_mem"):
    def _meth(I_, st, c, _n=_n):
        return one(st, T("biometh", _n))
    MODELS[_n] = _meth


@model("BIO_read")
def ossl_bioread(I_, st, c):
    p, n = c.v(st, 1), c.v(st, 2)
    t = c.fresh("bioread")
    TR.setdefault(t, IS.rng(-2, n.a[0] if n.op == "int" else (1 << 31) - 1))
    I_.emit(st, "fill", (c.nq, p, n), c)
    st = st.copy()
    if p.op == "ptr" and p.a[0].op in ("v", "heap", "tmp"):
        st.store[p.a[0]] = T("bioread", t)
    else:
        st.note("BIO_read into an unknown buffer")
    return one(st, t)


@model("res_nquery", "res_query", "__res_nquery", "__res_query", "res_nsearch", "res_search")
def res_query(I_, st, c):
    k = 1 if "n" in c.nq.split("_")[-1][:1] else 0
    ans, ln = c.v(st, len(c.args) - 2), c.v(st, len(c.args) - 1)
    t = c.fresh("resq")
    TR.setdefault(t, IS.rng(-1, (1 << 31) - 1))
    I_.emit(st, "fill", (c.nq, ans, ln), c)
    I_.emit(st, "dns", (c.nq, tuple(c.v(st, i) for i in range(len(c.args)))), c)
    I_.emit(st, "answer", (ans, ln, t), c)
    st = st.copy()
    if ans.op == "ptr":
        st.store[ans.a[0]] = T("dnsanswer", c.node["sid"])
    if k:
        rs = I_.deref(c.v(st, 0))
        e = T("herr", c.node["sid"])
        TR.setdefault(e, IS.rng(-1, 4))
        st.store[fld(rs, "res_h_errno")] = e
    return one(st, t)


@model("dn_skipname", "__dn_skipname")
def res_skip(I_, st, c):
    a, b = c.v(st, 0), c.v(st, 1)
    t = c.fresh("skip")
    TR.setdefault(t, IS.rng(-1, 255))
    I_.emit(st, "skip", (a, b, t), c)
    return one(st, t)


@model("__res_nclose", "res_nclose", "res_ndestroy", "__res_ndestroy")
def res_nclose(I_, st, c):
    return release(I_, st, c, c.v(st, 0), "res")


@model("__res_ninit", "res_ninit", "__res_init", "__res_close", "res_init", "res_close")
def res_init(I_, st, c):
    if c.nq.endswith("ninit"):
        st = acquire(I_, st, c, c.v(st, 0), "res")
    t = c.fresh("resinit")
    TR.setdefault(t, IS.rng(-1, 0))
    return one(st, t)


@model("__res_state::__res_state", "__res_state::~__res_state")
def res_ctor(I_, st, c):
    # a C structure: nothing is set or released
    return one(st, T("void"))


@model("getopt_long", "getopt")
def c_getopt(I_, st, c):
    t = c.fresh("getopt")
    TR.setdefault(t, IS.rng(-1, 255))
    I_.emit(st, "getopt", tuple(c.v(st, i) for i in range(len(c.args))), c)
    st = st.copy()
    for g in list(I_.prog.globs):
        pass
    st.store[T("g", "optarg")] = T("optarg", t)
    oi = T("optind", t)
    TR.setdefault(oi, IS.rng(0, 1 << 30))
    st.store[T("g", "optind")] = oi
    return one(st, t)


# ------------------------------------------------------------------ fallback
PURE_OK = ("std::basic_string::", "std::list::", "std::vector::", "std::map::", "std::set::")


def unknown(I_, st, c):
    """A call without a model: everything it could write is forgotten and the imprecision is noted."""
    nq = c.nq
    I_.opaque_seen[nq] = I_.opaque_seen.get(nq, 0) + 1
    st = st.copy()
    fn = c.fn
    vals = []
    ps = fn.get("ps") or []
    for i in range(len(c.args)):
        pt = ps[i] if i < len(ps) else None
        vals.append(c.v(st, i) if c.argn[i].get("t") is not None else c.args[i])
    pure = True
    # the receiver
    if c.obj is not None and not fn.get("cm") and not fn.get("static") and not fn.get("ctor"):
        ob = c.node.get("obj") or {}
        I_.havoc(st, c.obj, None, nq, c.node)
        pure = False
    for i in range(len(c.args)):
        pt = ps[i] if i < len(ps) else None
        if pt is None:
            continue
        if pt.get("k") in ("ref", "rref") and not (pt["to"] or {}).get("const") and c.isloc(i) and pt.get("k") == "ref":
            I_.havoc(st, c.args[i], c.ty(i), nq, c.node)
            pure = False
        elif pt.get("k") == "ptr" and not (pt["to"] or {}).get("const"):
            p = vals[i]
            if p.op == "addr":
                I_.havoc(st, p.a[0], None, nq, c.node)
                pure = False
            elif p.op == "ptr" and p.a[0].op in ("v", "fld", "heap", "tmp"):
                st.store[p.a[0]] = I_.fresh("havoc:" + nq, c.node, p.a[0])
                pure = False
        elif vals[i].op == "it" and c.isloc(i) is False and isinstance(vals[i].a[0], T) and nq.startswith("std::") and \
                pt.get("k") == "rec":
            # an algorithm given a mutable iterator may change the container
            if "const" not in (pt.get("s") or ""):
                I_.havoc(st, vals[i].a[0], None, nq, c.node)
                pure = False
    st.note("no model of %s (%s)" % (nq, c.where()))
    rt = fn.get("ret") or c.node.get("t")
    if pure and (fn.get("cm") or c.obj is None) and not fn.get("ctor"):
        t = T("call", nq, (c.o(st),) + tuple(vals) if c.obj is not None else tuple(vals))
    else:
        t = c.fresh(nq)
    typed(t, c.node.get("t"))
    if c.node.get("vc") in ("l", "x"):
        return one(st, T("deref", t))
    return one(st, t)


def fallback(I_, st, c):
    return unknown(I_, st, c)


def lookup(q):
    m = MODELS.get(q)
    if m is None:
        m = MODELS.get(norm(q))
    return m
