"""Questions asked of an analysed function: which states it returns or throws in, what its objects hold there."""
import time

from . import engine as E
from . import ir
from .contracts import contracts
from .terms import *
from .engine import fld, unref

PERM = "DKIM::PermanentError"
END_ = I(E.NPOS)
TEMP = "DKIM::TemporaryError"
GETRES = {PERM: PERM + "::getAuthenticationResult", TEMP: TEMP + "::getAuthenticationResult"}


class An:
    """One function analysed from an unknown caller."""

    def __init__(self, prog, fn, without=(), extra=None, this=None, args=None, st=None, join=False, keep=False, pre=None, frame_min=None, exits=None):
        if isinstance(fn, str):
            fn = prog.fn1(fn)
        self.prog = prog
        self.fn = fn
        op = {} if without == "all" else contracts(fn["q"], *without)
        if extra:
            op.update(extra)
        self.I = E.Interp(prog, opaque=op, join_entry=join)
        if exits is not None:
            self.I.exits = exits
        if frame_min:
            self.I.frame_min = frame_min
        self.this = this
        if this is None and fn.get("cls") and not fn.get("static"):
            self.this = T("obj", "this")
        t = time.time()
        if pre:
            st = st or E.State()
            pre(self, st)
        self.rets, self.throws = self.I.run(fn, self.this, args, st)
        self.wall = time.time() - t
        self.memo = {}

    @property
    def where(self):
        return "%s:%s %s" % (self.fn["file"], self.fn["line"], self.fn["q"])

    # ---- parameters
    def ploc(self, i):
        """Where parameter i (index or name) designates: location for references, storage otherwise."""
        ps = self.fn["params"]
        p = ps[i] if isinstance(i, int) else [x for x in ps if x["d"]["n"] == i][0]
        if unref(p["t"]) is not p["t"]:
            return T("obj", self.fn["q"], p["d"]["n"])
        return T("param", self.fn["q"], p["d"]["n"])

    def pidx(self, pred):
        """Indices of the parameters whose type satisfies pred."""
        return [i for i, p in enumerate(self.fn["params"]) if pred(unref(p["t"]) or {})]

    # ---- evaluating accessors in a state
    def call(self, st, q, obj, args=None, nparams=None):
        """Evaluate method q on obj in st (states are copied): [(state, value)]; throwing paths are dropped."""
        fs = [f for f in self.prog.fn(q) if nparams is None or len(f["params"]) == nparams]
        if len(fs) > 1:
            cs = [f for f in fs if f.get("cm")]
            fs = cs or fs
        if not fs:
            raise ir.AnalysisError("anchor %s is not defined" % q)
        f = fs[0]
        I_ = self.I
        log = len(I_.log)
        op = I_.opaque
        I_.opaque = {k: v for k, v in op.items() if k != q}
        try:
            rets, th = I_.run(f, obj, dict(zip([p["d"]["n"] for p in f["params"]], args or [])), st.copy())
        finally:
            I_.opaque = op
            del I_.log[log:]
        out = []
        for s, v in rets:
            if v is not None and f.get("ret") is not None and f["ret"].get("k") in ("ref", "rref"):
                v = self.rd(s, v, unref(f["ret"]))
            out.append((s, v))
        return out

    def rd(self, st, loc, ty):
        loc2 = loc
        if loc.op == "alias":
            loc2 = loc.a[0]
        return self.I.read(st, loc2, ty)

    def get(self, st, q, obj):
        """Value of accessor q in st; None if it is not one value."""
        k = (st, q, obj)
        r = self.call(st, q, obj)
        vs = set(v for _, v in r)
        return vs.pop() if len(vs) == 1 else None

    def entry(self):
        """A state holding nothing but what the caller passed."""
        return E.State()

    def err(self, st, ex):
        """('permanent'|'temporary'|type, result word or None) of a thrown exception."""
        kind = {PERM: "permanent", TEMP: "temporary"}.get(ex.ty, ex.ty)
        if ex.ty not in GETRES:
            return kind, None
        if ex.val is None:
            return kind, "permerror" if ex.ty == PERM else "temperror"
        v = self.get(st, GETRES[ex.ty], ex.val)
        if v is not None and v.op == "ptr" and v.a[0].op in ("data", "cdata", "strlit"):
            v = v.a[0].a[0]
        return kind, v.a[0] if v is not None and v.op == "str" else (repr(v) if v is not None else None)


def facts(st, op, val=True):
    """Facts of st whose operator is op and which hold with the given truth value."""
    return [t for t, v in st.facts.items() if t.op == op and v == val]


def mentions(t, pred, memo=None):
    """Does a term contain a subterm satisfying pred?"""
    if memo is None:
        memo = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                return True
            stack.extend(x.a)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
    return False


def subterms(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)


def holds(a, st, v):
    """Truth of the boolean value v in st: True, False, or None when both are possible."""
    r = set(b for _, b in a.I.truth(st, v))
    return r.pop() if len(r) == 1 else None


def same(a, st, x, y, op="=="):
    """Is x == y (or another comparison) known in st?"""
    return holds(a, st, a.I.compare(st, op, x, y))


def bytes_equal(a, st, x, y):
    """Are two octet strings known to be equal in st (length and every octet)?"""
    if x is y or st.facts.get(T("eq", x, y)) is True or st.facts.get(T("eq", y, x)) is True:
        return True
    if same(a, st, x, y) is True:
        return True
    for t, d in st.dom.items():
        if t.op == "cmpz" and d == IS.of([0]):
            u, v = t.a
            for p, q in ((u, v), (v, u)):
                px = p is x or (p.op == "sub" and p.a[0] is x and p.a[1] is I(0) and
                                (p.a[2] == E.NPOS or not isinstance(p.a[2], T) or
                                 same(a, st, p.a[2], a.I.size(x)) or same(a, st, p.a[2], a.I.size(y))))
                qy = q is y or (q.op == "sub" and q.a[0] is y and q.a[1] is I(0) and isinstance(q.a[2], T) and
                                (same(a, st, q.a[2], a.I.size(y)) or same(a, st, q.a[2], a.I.size(x))))
                if px and qy:
                    if p is x and q is y:
                        return True if a.I.size(x) is a.I.size(y) else same(a, st, a.I.size(x), a.I.size(y)) is True or \
                            (p.op != "sub" and q.op != "sub")
                    return same(a, st, a.I.size(x), a.I.size(y)) is True
    return False


def is_elem_of(t, lst):
    """Is t an element of the list value lst (an element read at some position)?"""
    return t.op in ("elv", "chat") and t.a[0] is lst


def member(a, st, lst, x):
    """Is x known to be in the list (True), known not to be (False), or neither (None)?"""
    v = st.facts.get(T("has", lst, x))
    if v is not None:
        return v
    if same(a, st, a.I.size(lst), I(0)) is True:
        return False
    for t, v in st.facts.items():
        if v and t.op == "eq" and any(is_elem_of(p, lst) and (q is x or same(a, st, q, x) is True) for p, q in (t.a, t.a[::-1])):
            return True
        if v and t.op == "eq0":
            for e in subterms(t):
                if is_elem_of(e, lst) and same(a, st, e, x) is True:
                    return True
    for t, v in st.sdom.items():
        if v[0] == "eq" and is_elem_of(t, lst) and S(v[1]) is x:
            return True
    for t, v in st.dom.items():
        if is_elem_of(t, lst) and same(a, st, t, x) is True:
            return True
    for t, v in st.facts.items():
        if t.op in ("any", "findpos") and t.a[0] is lst:
            return None
    return None


def since(a, s, pred):
    """Is it known that a turn of some loop was taken whose state satisfies pred?  A flag or counter that no longer has the constant it
    entered the loop with was changed by one of the turns that change it: all of those must satisfy pred."""
    r = False
    for L in a.I.loops.values():
        for loc, i in L.init.items():
            p = L.start.get(loc)
            if p is None or i.op != "int":
                continue
            for q in list(s.dom) + [x.a[0] for x in s.facts if x.op == "eq0"]:
                if q.op != "phi" or q.a[1:2] != p.a[1:2] or not same_loop(q, p) or i.a[0] in a.I.dom(s, q):
                    continue
                by = [st for st, alt in zip(L.altst, L.alts) if alt.get(loc, p) is not p]
                if by and all(pred(st) for st in by):
                    return True
                r = None
    return r


def same_loop(q, p):
    """Do two loop values belong to the same loop (whatever the turn)?"""
    return q.a[0].split("~")[0].split("!")[0] == p.a[0].split("~")[0].split("!")[0]


def loops_over(a, lst):
    """Loops whose paths look at elements of the list value lst."""
    for L in a.I.loops.values():
        for st in L.altst:
            for t in list(st.facts) + list(st.dom) + list(st.sdom):
                if mentions(t, lambda x: is_elem_of(x, lst)):
                    return True
    return False


class Iter:
    """A loop that walks a sequence element by element."""

    def __init__(self, loc, cv, start, d, phi):
        self.loc, self.cv, self.start, self.d, self.phi = loc, cv, start, d, phi

    def elem(self, t):
        """Is t the element of this turn?"""
        return t.op in ("elv", "chat") and t.a[0] is self.cv and t.a[1] is self.phi and (t.op == "chat" or t.a[2] == self.d)


def walks(L):
    """The sequences loop L walks by exactly one element on every turn: [Iter]."""
    out = []
    for loc in L.changed:
        ini = L.init.get(loc)
        if ini is None or not L.alts:
            continue
        if ini.op == "it":
            vals = [x.get(loc) for x in L.alts]
            if not all(v is not None and v.op == "it" and v.a[1] is ini.a[1] and v.a[3] == ini.a[3] for v in vals):
                continue
            ph = [x for x in subterms(vals[0].a[2]) if x.op == "phi" and x.a[0] == L.lid]
            if ph and all(v.a[2] is add(ph[0], I(1)) for v in vals):
                out.append(Iter(loc, ini.a[1], ini.a[2], ini.a[3], ph[0]))
        elif ini.op in ("int", "lin") or ini in E.TR:
            vals = [x.get(loc) for x in L.alts]
            ph = [x for x in subterms(vals[0]) if x.op == "phi" and x.a[0] == L.lid] if vals[0] is not None else []
            if ph and all(v is add(ph[0], I(1)) for v in vals):
                # an index: the sequence it subscripts is found from the elements read
                for st in L.altst:
                    for t in list(st.facts) + list(st.dom) + list(st.sdom) + list(st.store.values()):
                        for x in subterms(t):
                            if x.op in ("elv", "chat") and x.a[1] is ph[0] and not any(i.cv is x.a[0] for i in out):
                                out.append(Iter(loc, x.a[0], ini, "f", ph[0]))
    return out


def full_walk(a, L, it):
    """True if L visits every element of the sequence: starts at the beginning and is left only at the end.
    False if it can be left earlier, None if that is not clear."""
    if it.start is not I(0):
        return False if it.start.op == "int" and it.start.a[0] > 0 else None
    if L.other_exit:
        return None
    res = True
    for kind, st in L.exits:
        sz = a.I.size(it.cv)
        e = same(a, st, it.phi, sz)
        if e is not True:
            if kind == "break":
                return False
            res = None
    return res


def sh(t):
    """Short text of a term, for messages."""
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return "{%d octets}" % len(t) if len(t) > 12 else str(sorted(t))
        if isinstance(t, tuple):
            return "(" + ",".join(sh(x) for x in t) + ")"
        return "END" if isinstance(t, int) and t > 1 << 40 else str(t)
    o = t.op
    if o == "int":
        return "END" if t.a[0] == E.NPOS else str(t.a[0])
    if o == "str":
        return repr(t.a[0])
    if o == "lin":
        return "(" + " + ".join(("%d*" % c if c != 1 else "") + sh(x) for c, x in t.a[1]) + (" + %d" % t.a[0] if t.a[0] else "") + ")"
    if o == "v":
        return t.a[1]
    if o == "fld":
        return sh(t.a[0]) + "." + str(t.a[1])
    if o == "init":
        return sh(t.a[0]) + "'"
    if o in ("param", "obj"):
        return str(t.a[-1])
    if o == "cat":
        return " . ".join(sh(x) for x in t.a)
    if o == "phi":
        return "phi<%s:%s>" % (t.a[0].split(":")[-1][:12], sh(t.a[1]))
    return o + "(" + ", ".join(sh(x) for x in t.a) + ")"


def opaque_in(t):
    """Does the term contain something the analysis could not follow exactly (loop values, unknown results)?"""
    return mentions(t, lambda x: x.op in ("phi", "sym", "star", "join", "ent"))


def uncast(t):
    """The term without integer conversions."""
    if t.op == "cast":
        return uncast(t.a[2])
    if t.op == "lin":
        r = I(t.a[0])
        for c, x in t.a[1]:
            r = add(r, mulc(uncast(x), c))
        return r
    return t


def widecast(t, bits=64):
    """The term without integer conversions that keep at least that many bits; narrowing ones stay."""
    if t.op == "cast" and t.a[0] >= bits:
        return widecast(t.a[2], bits)
    if t.op == "lin":
        r = I(t.a[0])
        for c, x in t.a[1]:
            r = add(r, mulc(widecast(x, bits), c))
        return r
    return t


def pieces(t, whole):
    """t as a list of (from, to) slices of the string whole; None if it is anything else."""
    out = []
    for p in parts(t):
        if p is whole:
            x = (I(0), END_)
        elif p.op == "sub" and p.a[0] is whole:
            x = (uncast(p.a[1]), END_ if p.a[2] is END_ else uncast(p.a[2]))
        else:
            return None
        if out and out[-1][1] is x[0]:
            out[-1] = (out[-1][0], x[1])
        else:
            out.append(x)
    return out
