"""Path-sensitive dataflow over the resolved syntax tree.

Abstract domain: a store from locations to provenance terms (value numbering), branch
facts about those terms, interval-set domains for integers (characters, enumerators,
booleans, sizes) and constant sets for strings.  Loops are solved by fixpoint: a location
that changes becomes a loop value phi(loop, location) whose per-iteration update is
recorded for every way through the body.  Nothing is executed and no solver is used.
"""
from .terms import *
from .terms import _subst_any
from .ir import AnalysisError

NPOS = (1 << 64) - 1
DEBUG = False
CAP = 40000
TR = {}            # term -> IS: range implied by the static type


def rng(ty):
    """Range of values of a type, None when unknown."""
    if not ty:
        return None
    k = ty.get("k")
    if k == "enum":
        c = [v for _, v in ty.get("consts", [])]
        return IS.of(c) if c else None
    if k == "bi" and ty.get("int"):
        if ty.get("bool"):
            return IS.rng(0, 1)
        b = ty["bits"]
        return IS.rng(0, (1 << b) - 1) if ty["uns"] else IS.rng(-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return None


def typed(t, ty):
    if t.op not in ("int", "str", "lin") and t not in TR:
        r = rng(ty)
        if r is not None:
            TR[t] = r
    return t


def is_rec(ty):
    return bool(ty) and ty.get("k") == "rec" and ty.get("repo") and not ty.get("lambda")


def unref(ty):
    while ty and ty.get("k") in ("ref", "rref"):
        ty = ty["to"]
    return ty


STRCLS = "std::basic_string"


def is_str(ty):
    ty = unref(ty)
    return bool(ty) and ty.get("k") == "rec" and ty.get("n") == STRCLS


SEQCLS = ("std::list", "std::vector", "std::deque", "std::set", "std::multiset", "std::unordered_set",
          "std::initializer_list", "std::array", "std::queue", "std::stack")
MAPCLS = ("std::map", "std::unordered_map", "std::multimap")
SPTR = ("std::shared_ptr", "std::unique_ptr")


def cls(ty):
    ty = unref(ty)
    return ty.get("n") if ty and ty.get("k") == "rec" else None


# ------------------------------------------------------------------ locations
def fld(base, f):
    return T("fld", base, f)


_roots = {}


def root(loc):
    r = _roots.get(loc)
    if r is None:
        r = loc
        while r.op in ("fld", "at", "el", "mel", "chr") and isinstance(r.a[0], T) and \
                r.a[0].op in ("fld", "at", "el", "mel", "chr", "v", "tmp", "g", "heap", "deref", "obj"):
            r = r.a[0]
        _roots[loc] = r
    return r


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "facts", "dom", "sdom", "trace", "notes", "ghost", "_sig")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.dom = {}
        self.sdom = {}
        self.trace = ()
        self.notes = frozenset()
        self.ghost = ()
        self._sig = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.dom = dict(self.dom)
        s.sdom = dict(self.sdom)
        s.trace = self.trace
        s.notes = self.notes
        s.ghost = self.ghost
        s._sig = None
        return s

    def sig(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.dom.items()),
                frozenset(self.sdom.items()), self.trace, self.notes, self.ghost)

    def note(self, what):
        if what not in self.notes:
            self.notes = self.notes | {what}


class SplitOn(Exception):
    def __init__(self, loc, lid):
        self.loc = loc
        self.lid = lid


class Exc:
    """A thrown exception."""
    def __init__(self, ty, val, node, fn, extra=None):
        self.ty = ty
        self.val = val
        self.node = node
        self.fn = fn
        self.extra = extra

    def key(self):
        return (self.ty, self.val, self.node.get("sid") if self.node else None)

    def where(self):
        return "%s:%s" % (self.fn, self.node.get("l") if self.node else "?")


class Coll:
    """Collector of abrupt outcomes."""
    def __init__(self, parent=None, **kw):
        self.throws = kw.get("throws", parent.throws if parent else [])
        self.rets = kw.get("rets", parent.rets if parent else [])
        self.brks = kw.get("brks", parent.brks if parent else [])
        self.conts = kw.get("conts", parent.conts if parent else [])
        self.gotos = kw.get("gotos", parent.gotos if parent else [])


class Frame:
    def __init__(self, fn, ctx, this=None, caps=None, tu=None):
        self.fn = fn
        self.ctx = ctx
        self.this = this
        self.caps = caps or {}
        self.tu = tu


class Loop:
    def __init__(self, lid, node, fn):
        self.lid = lid
        self.node = node
        self.fn = fn
        self.entry = None   # state before the loop
        self.init = {}      # loc -> value on entry
        self.alts = []      # dicts: {loc: value at the back edge}
        self.altst = []     # states at the back edge
        self.edges = []     # (header of the turn, header it leads to), headers by the values of the flags followed
        self.start = {}     # loc -> value at the start of a turn
        self.exits = []     # (kind, state): 'cond' or 'break'
        self.cond_exit = False
        self.brk_exit = False
        self.other_exit = False
        self.iters = []     # iteration variables [(loc, contloc, contval, dir)]


_nq = {}


def nq(q):
    r = _nq.get(q)
    if r is None:
        from .models import norm
        r = _nq[q] = norm(q) if q else q
    return r


class Call:
    """An evaluated call handed to a model."""
    __slots__ = ("I", "node", "fn", "obj", "args", "argn", "K", "q", "nq", "caller", "ctx")

    def __init__(self, I, node, fn, obj, args, argn, K):
        self.I = I
        self.node = node
        self.fn = fn
        self.obj = obj
        self.args = args
        self.argn = argn
        self.K = K
        self.q = fn["q"] if fn else None
        self.nq = nq(self.q)
        self.caller = I.frame.fn["q"]
        self.ctx = I.frame.ctx

    def isloc(self, i):
        return self.argn[i].get("vc") in ("l", "x")

    def v(self, st, i):
        a = self.args[i]
        if self.isloc(i):
            return self.I.read(st, a, self.argn[i].get("t"))
        return a

    def loc(self, st, i):
        """Location of argument i (reference argument)."""
        if self.isloc(i):
            return self.args[i]
        return None

    def ty(self, i):
        return self.argn[i].get("t")

    def o(self, st, ty=None):
        return self.I.read(st, self.obj, ty)

    def line(self):
        return self.node.get("l")

    def fresh(self, what=""):
        return self.I.fresh(what or self.q, self.node)

    def where(self):
        return "%s:%s" % (self.caller, self.node.get("l"))


def clone_with(st, **kw):
    s = st.copy()
    for k, v in kw.items():
        setattr(s, k, v)
    return s


class Interp:
    def __init__(self, prog, opaque=None, max_depth=24, keep_fact=None, join_entry=False):
        from . import models
        self.join_entry = join_entry
        self.frame_min = 8
        self.prog = prog
        self.opaque = dict(opaque or {})
        self.models = models.MODELS
        self.model_fallback = models.fallback
        self.frames = []
        self.loopstack = ()
        self.loops = {}
        self.entvals = {}      # joined entry symbol -> values it stands for
        self.heapsize = {}     # array allocations: element count, element type
        self.noahead = set()
        self.loop_idx = {}
        self.log = []          # (kind, state, data...) of the final passes
        self.max_depth = max_depth
        self.keep_fact = keep_fact
        self.fn_seen = set()   # functions analysed
        self.opaque_seen = {}  # unmodelled calls
        self.nstates = 0
        self.ncalls = 0
        self.glob_written = None
        self.cap = CAP
        self.loctype = {}

    # -------------------------------------------------------------- helpers
    @property
    def frame(self):
        return self.frames[-1]

    def fresh(self, what, node, extra=None):
        return T("sym", self.loopstack, what, (node.get("sid") or "") if node else "", self.frame.ctx if self.frames else "",
                 extra)

    def emit(self, st, kind, data, c=None):
        """Append an event to the trace of the state and to the log."""
        self.log.append((kind, st, data, c))

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        seen = set()
        out = []
        for s in sts:
            k = s.sig()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.cap:
            out = self.merge(out)
        return out

    def merge(self, sts):
        """Too many states: keep those with equal stores apart from facts together."""
        groups = {}
        for s in sts:
            k = (frozenset(s.store.items()), s.trace, s.ghost)
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            r = g[0]
            for s in g[1:]:
                r = self.meet_facts(r, s)
            out.append(r)
        if len(out) > self.cap:
            raise AnalysisError("state explosion (%d states)" % len(out))
        return out

    def meet_facts(self, a, b):
        r = a.copy()
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        r.dom = {k: v | b.dom[k] for k, v in a.dom.items() if k in b.dom}
        sd = {}
        for k, v in a.sdom.items():
            w = b.sdom.get(k)
            if w is None:
                continue
            if v == w:
                sd[k] = v
            else:
                ne = None
                if v[0] == "ne" and w[0] == "ne":
                    ne = v[1] & w[1]
                elif v[0] == "ne" and w[0] == "eq":
                    ne = v[1] - {w[1]}
                elif v[0] == "eq" and w[0] == "ne":
                    ne = w[1] - {v[1]}
                if ne:
                    sd[k] = ("ne", ne)
        r.sdom = sd
        r.notes = a.notes | b.notes
        return r

    # -------------------------------------------------------------- domains
    def base_range(self, t):
        if t.op == "int":
            return IS.rng(t.a[0], t.a[0])
        r = TR.get(t)
        if r is not None:
            return r
        if t.op == "size":
            return IS.rng(0, (1 << 62))
        if t.op in ("eq", "le0", "eq0", "has", "hasin", "any", "not", "and", "or"):
            return IS.rng(0, 1)
        if t.op == "ch":
            return IS.rng(-1, 255)
        if t.op in ("chat",):
            return IS.rng(-128, 127)
        if t.op == "cast":
            b, u = t.a[0], t.a[1]
            return IS.rng(0, (1 << b) - 1) if u else IS.rng(-(1 << (b - 1)), (1 << (b - 1)) - 1)
        if t.op in ("find", "findset", "rfindset"):
            return IS.of([NPOS]) | IS.rng(0, 1 << 62)
        return FULL

    def dom(self, st, t):
        if t.op == "int":
            return IS.rng(t.a[0], t.a[0])
        if t.op == "lin":
            c, d = lin_of(t)
            if len(d) == 1:
                (x, k), = d.items()
                if k in (1, -1):
                    return self.dom(st, x).affine(k, c)
            lo = hi = c
            for x, k in d.items():
                dx = self.dom(st, x)
                if not dx:
                    return dx
                a, b = k * dx.lo(), k * dx.hi()
                lo += min(a, b)
                hi += max(a, b)
            return IS.rng(max(lo, -INF), min(hi, INF))
        d = st.dom.get(t)
        b = self.base_range(t)
        d = b if d is None else d & b
        lf = self.leaf(t)
        if lf is not None and lf is not t:
            dl = self.dom(st, lf)
            if dl.size() <= 1024:
                vals = set()
                for v in dl.values():
                    x = self.evalf(t, lf, v)
                    if x is None:
                        return d
                    vals.add(x)
                d = d & IS.of(vals)
        return d

    def const(self, st, t):
        if t.op == "int":
            return t.a[0]
        return self.dom(st, t).single()

    _leafs = {}

    def leaf(self, t):
        """The single variable an integer term depends on, or None."""
        r = self._leafs.get(t, 0)
        if r != 0:
            return r
        r = self._leaf(t)
        self._leafs[t] = r
        return r

    def _leaf(self, t):
        if t.op == "int":
            return None
        if t.op in ("cast", "tolower", "toupper", "ctype", "tab", "bnot"):
            x = t.a[-1]
            return self.leaf(x)
        if t.op in ("band", "bor", "bxor", "shl", "shr", "mod", "div", "mul"):
            x, y = t.a
            if y.op == "int":
                return self.leaf(x)
            if x.op == "int":
                return self.leaf(y)
            lx, ly = self.leaf(x), self.leaf(y)
            return lx if lx is ly else None
        if t.op == "lin":
            r = None
            for _, x in t.a[1]:
                lx = self.leaf(x)
                if lx is None or (r is not None and lx is not r):
                    return None
                r = lx
            return r
        return t

    def evalf(self, t, lf, v):
        if t is lf:
            return v
        op = t.op
        if op == "int":
            return t.a[0]
        if op == "cast":
            x = self.evalf(t.a[2], lf, v)
            if x is None:
                return None
            b, u = t.a[0], t.a[1]
            if b == 1:
                return 1 if x else 0
            x &= (1 << b) - 1
            if not u and x >> (b - 1):
                x -= 1 << b
            return x
        if op == "lin":
            s = t.a[0]
            for k, x in t.a[1]:
                y = self.evalf(x, lf, v)
                if y is None:
                    return None
                s += k * y
            return s
        if op in ("tolower", "toupper"):
            x = self.evalf(t.a[0], lf, v)
            if x is None:
                return None
            if op == "tolower" and 65 <= x <= 90:
                return x + 32
            if op == "toupper" and 97 <= x <= 122:
                return x - 32
            return x
        if op == "ctype":
            x = self.evalf(t.a[1], lf, v)
            if x is None:
                return None
            return 1 if ctype(t.a[0], x) else 0
        if op == "bnot":
            x = self.evalf(t.a[0], lf, v)
            return None if x is None else ~x
        if op == "tab":
            x = self.evalf(t.a[1], lf, v)
            arr = t.a[0].a[0]
            if x is None or not (0 <= x < len(arr)):
                return None
            return arr[x].a[0] if arr[x].op == "int" else None
        if op in ("band", "bor", "bxor", "shl", "shr", "mod", "div", "mul"):
            x, y = self.evalf(t.a[0], lf, v), self.evalf(t.a[1], lf, v)
            if x is None or y is None:
                return None
            return intop(op, x, y)
        return None

    def refine(self, st, t, s):
        """st with t restricted to set s, or None."""
        d = self.dom(st, t)
        n = d & s
        if not n:
            return None
        if n == d:
            return st
        if t.op == "int":
            return st
        if t.op == "lin":
            c, dd = lin_of(t)
            if len(dd) == 1:
                (x, k), = dd.items()
                if k in (1, -1):
                    return self.refine(st, x, n.affine(k, -c * k))
        lf = self.leaf(t)
        if lf is not None and lf is not t:
            dl = self.dom(st, lf)
            if dl.size() <= 1024:
                ok = []
                for v in dl.values():
                    x = self.evalf(t, lf, v)
                    if x is None:
                        ok = None
                        break
                    if x in n:
                        ok.append(v)
                if ok is not None:
                    return self.refine(st, lf, IS.of(ok))
        st = st.copy()
        st.dom[t] = n
        # has(container) facts: size 0
        return st

    def kf(self, atom):
        return self.keep_fact is None or self.keep_fact(atom)

    def assume(self, st, atom, val):
        """Assume an opaque boolean atom."""
        old = st.facts.get(atom)
        if old is not None:
            return st if old == val else None
        if not self.kf(atom):
            return st
        st = st.copy()
        st.facts[atom] = val
        return st

    def assume_streq(self, st, t, s, val):
        """t == s (string constant)"""
        d = st.sdom.get(t)
        if d:
            if d[0] == "eq":
                return st if (d[1] == s) == val else None
            if s in d[1]:
                return st if not val else None
        if val:
            n = self.refine(st, T("size", t), IS.rng(len(s), len(s)))
            if n is None:
                return None
            if not self.kf(T("eq", t, S(s))):
                return n
            n = n.copy()
            n.sdom[t] = ("eq", s)
            return n
        if s == "":
            n = self.refine(st, T("size", t), IS.rng(1, INF))
            return n
        if not self.kf(T("eq", t, S(s))):
            return st
        n = st.copy()
        ne = d[1] if d else frozenset()
        n.sdom[t] = ("ne", ne | {s})
        return n

    # -------------------------------------------------------------- truth
    def truth(self, st, v):
        """Split st on the boolean meaning of value v: [(state, bool)]."""
        op = v.op
        if op == "int":
            return [(st, v.a[0] != 0)]
        if op == "null":
            return [(st, False)]
        if op == "not":
            return [(s, not b) for s, b in self.truth(st, v.a[0])]
        if op == "and":
            out = []
            for s, b in self.truth(st, v.a[0]):
                out += self.truth(s, v.a[1]) if b else [(s, False)]
            return out
        if op == "or":
            out = []
            for s, b in self.truth(st, v.a[0]):
                out += [(s, True)] if b else self.truth(s, v.a[1])
            return out
        if op in ("eq0", "le0"):
            return self.truth_lin(st, v)
        if op == "eq":
            a, b = v.a
            if b.op == "str" or a.op == "str":
                if a.op == "str":
                    a, b = b, a
                if a.op == "str":
                    return [(st, a.a[0] == b.a[0])]
                out = []
                for val in (True, False):
                    n = self.assume_streq(st, a, b.a[0], val)
                    if n is not None:
                        out.append((n, val))
                return out
            # both known string constants
            da, db = st.sdom.get(a), st.sdom.get(b)
            if da and db and da[0] == "eq" and db[0] == "eq":
                return [(st, da[1] == db[1])]
            return self.split_atom(st, v)
        if op == "cast" and v.a[0] == 1:
            return self.truth(st, v.a[2]) if v.a[2].op in ("eq", "eq0", "le0", "not", "and", "or", "has", "hasin", "any") else \
                self.truth_lin(st, T("not", T("eq0", v.a[2])))
        if op == "has":
            c, k = v.a
            if c.op == "mput":
                m, kk, _ = c.a
                if kk is k:
                    return [(st, True)]
                if kk.op == "str" and k.op == "str":
                    return self.truth(st, T("has", m, k))
            if c.op == "mdel" and c.a[1] is k:
                return [(st, False)]
            if c.op == "str" and k.op == "str":
                return [(st, k.a[0] in c.a[0])]
            if c.op in ("nil",) or (c.op == "str" and c.a[0] == ""):
                return [(st, False)]
            if c.op == "str" and k.op == "chs" and isinstance(k.a[0], T):
                cs = IS.of([(ord(x) & 255) - (256 if ord(x) & 128 else 0) for x in c.a[0]])
                out = []
                for val, z in ((True, cs), (False, cs.compl())):
                    n = self.refine(st, k.a[0], z)
                    if n is not None:
                        out.append((n, val))
                return out
            if c.op == "cat":
                for p in c.a:
                    if p.op == "item" and p.a[0] is k:
                        return [(st, True)]
            elif c.op == "item" and c.a[0] is k:
                return [(st, True)]
            if c.op == "item" and c.a[0].op in ("int", "str") and k.op in ("int", "str"):
                return [(st, c.a[0] is k)]
            return self.split_atom(st, v)
        if op == "any":
            if v.a[0].op == "nil":
                return [(st, False)]
            return self.split_atom(st, v)
        if op == "hasin":
            if v.a[0].op == "str":
                return [(st, any(ord(ch) in v.a[1] or (ord(ch) - 256) in v.a[1] for ch in v.a[0].a[0]))]
            return self.split_atom(st, v)
        if op in ("ptr", "addr", "lam", "bind", "fnref", "it"):
            return [(st, True)]
        # integers and pointers
        r = TR.get(v)
        if r is not None or op in ("lin", "cast", "band", "bor", "shl", "shr", "ch", "chat", "size", "tolower", "ctype", "tab",
                                   "mod", "div", "mul"):
            return [(s, not b) for s, b in self.truth_lin(st, T("eq0", v))]
        return [(s, not b) for s, b in self.split_atom(st, eqatom(v, NULL))]

    def split_atom(self, st, atom):
        out = []
        for val in (True, False):
            n = self.assume(st, atom, val)
            if n is not None:
                out.append((n, val))
        return out

    def truth_lin(self, st, v):
        if v.op == "not":
            return [(s, not b) for s, b in self.truth_lin(st, v.a[0])]
        x = v.a[0]          # x == 0 or x <= 0
        if x.op == "cmpz" and v.op == "eq0":
            # the same question as equality of the two strings
            out = []
            for s, b in self.truth(st, self.compare(st, "==", x.a[0], x.a[1])):
                s = self.refine(s, x, IS.rng(0, 0) if b else IS.rng(0, 0).compl())
                if s is not None:
                    out.append((s, b))
            return out
        zero = IS.rng(0, 0) if v.op == "eq0" else IS.rng(-INF, 0)
        d = self.dom(st, x)
        if d <= zero:
            return [(st, True)]
        if not (d & zero):
            return [(st, False)]
        c, dd = lin_of(x)
        single = len(dd) == 1
        if single and abs(list(dd.values())[0]) != 1:
            (y, k), = dd.items()
            # c + k*y ? 0 with |k| > 1
            dy = self.dom(st, y)
            if v.op == "le0":
                # y <= floor(-c/k) or >= ceil
                s = IS.rng(-INF, (-c) // k) if k > 0 else IS.rng(-((-c) // -k) if False else -(-c // k) if False else _ceil(-c, k), INF)
            else:
                s = IS.of([(-c) // k]) if (-c) % k == 0 else IS(())
            out = []
            for val, ss in ((True, s), (False, s.compl())):
                n = self.refine(st, y, ss) if (dy & ss) else None
                if n is not None:
                    out.append((n, val))
            return out
        lf = self.leaf(x)
        if single or (lf is not None and self.dom(st, lf).size() <= 1024):
            out = []
            for val, ss in ((True, zero), (False, zero.compl())):
                n = self.refine(st, x, ss)
                if n is not None:
                    out.append((n, val))
            return out
        # found below the size: found at all
        if len(dd) == 2:
            fs = [y for y in dd if y.op in ("find", "findset") and y.a[2] is I(0)]
            if fs and abs(dd[fs[0]]) == 1 and dd.get(T("size", fs[0].a[0])) == -dd[fs[0]] and (fs[0].op == "findset" or fs[0].a[1].op == "str" and fs[0].a[1].a[0]):
                h = T("has" if fs[0].op == "find" else "hasin", fs[0].a[0], fs[0].a[1])
                if v.op == "le0" and c in (0, 1):
                    return self.truth(st, h if dd[fs[0]] == 1 else neg(h))
                if v.op == "eq0" and c == 0:
                    return [(st, False)]
        # relational atom, normalised in sign for equality
        if v.op == "eq0":
            lead = x.a[1][0][0]
            if lead < 0:
                x = mulc(x, -1)
            atom = T("eq0", x)
            return self.split_atom(st, atom)
        atom = T("le0", x)
        if atom in st.facts:
            return [(st, st.facts[atom])]
        # x <= 0  <=>  not (1-x <= 0)
        opp = T("le0", sub(I(1), x))
        if opp in st.facts:
            return [(st, not st.facts[opp])]
        return self.split_atom(st, atom)

    # -------------------------------------------------------------- comparisons
    def compare(self, st, op, a, b):
        """Boolean value of 'a op b'."""
        if op == "!=":
            return neg(self.compare(st, "==", a, b))
        if op == ">":
            return self.compare(st, "<", b, a)
        if op == "<=":
            return neg(self.compare(st, "<", b, a))
        if op == ">=":
            return neg(self.compare(st, "<", a, b))
        if a.op == "alias" or b.op == "alias":
            raise AnalysisError("alias compared")
        if op == "==" and a is b:
            return TRUE
        # iterators
        if a.op == "it" and b.op == "it":
            return self.cmp_it(st, op, a, b)
        if a.op in ("mit", "mend") and b.op in ("mit", "mend"):
            if a.op == "mend":
                a, b = b, a
            if a.op == "mend":
                return TRUE
            if b.op == "mend":
                return neg(T("has", a.a[1], a.a[2]))
            return eqatom(a, b)
        if a.op == "ptr" and b.op == "ptr":
            if a.a[0] is b.a[0]:
                return self.compare(st, op, a.a[1], b.a[1])
            return eqatom(a, b) if op == "==" else T("ltp", a, b)
        if op == "==":
            if a.op == "null" or b.op == "null":
                x = b if a.op == "null" else a
                if x.op in ("ptr", "addr", "lam", "bind", "fnref"):
                    return FALSE
                if x.op == "null":
                    return TRUE
                if x.op == "int":
                    return I(x.a[0] == 0)
                return eqatom(x, NULL)
            if a.op in ("addr", "fnref") and b.op in ("addr", "fnref"):
                if a.a[0].op in ("v", "g", "heap", "tmp") and b.a[0].op in ("v", "g", "heap", "tmp"):
                    return I(a is b)
                return eqatom(a, b)
            # an object acquired since is none the function was called with
            for x, y in ((a, b), (b, a)):
                if y.op in ("init", "param") and (x.op in ("obj:BIO", "obj:EVP_PKEY", "obj:RSA", "obj:EVP_MD_CTX") or x.op == "addr" and x.a[0].op == "heap"):
                    return FALSE
        if self.intlike(a) and self.intlike(b):
            d = sub(a, b)
            if op == "==":
                if d.op == "int":
                    return I(d.a[0] == 0)
                # boolean atoms compared with constants
                for x, y in ((a, b), (b, a)):
                    if x.op in ("eq", "eq0", "le0", "has", "hasin", "any", "not", "and", "or") and y.op == "int":
                        return x if y.a[0] == 1 else neg(x) if y.a[0] == 0 else FALSE
                r = self.npos_rule(a, b)
                if r is not None:
                    return r
                return T("eq0", d)
            # a < b  <=>  a - b + 1 <= 0
            d = add(d, I(1))
            if d.op == "int":
                return I(d.a[0] <= 0)
            return T("le0", d)
        if op == "==":
            if a.op == "str" and b.op == "str":
                return I(a.a[0] == b.a[0])
            r = self.strip_eq(a, b)
            return r
        return T("lts", a, b)

    def npos_rule(self, a, b):
        """find(...) == npos  <=>  not has(...)"""
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and y.a[0] in (NPOS, -1) and x.op in ("find", "findset", "rfindset"):
                if x.op == "find" and x.a[2].op == "int" and x.a[2].a[0] == 0:
                    return neg(T("has", x.a[0], x.a[1]))
                if x.op == "findset" and x.a[2].op == "int" and x.a[2].a[0] == 0:
                    return neg(T("hasin", x.a[0], x.a[1]))
                if x.op == "rfindset" and x.a[2].op == "int":
                    return neg(T("hasin", x.a[0], x.a[1]))
        return None

    def strip_eq(self, a, b):
        """Equality of strings and other opaque values, common ends removed."""
        pa, pb = parts(a), parts(b)
        if a.op in ("cat", "str") or b.op in ("cat", "str"):
            while pa and pb and pa[0] is pb[0]:
                pa, pb = pa[1:], pb[1:]
            while pa and pb and pa[-1] is pb[-1]:
                pa, pb = pa[:-1], pb[:-1]
            if pa and pb and pa[0].op == "str" and pb[0].op == "str":
                x, y = pa[0].a[0], pb[0].a[0]
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return FALSE
                pa = ([S(x[n:])] if x[n:] else []) + pa[1:]
                pb = ([S(y[n:])] if y[n:] else []) + pb[1:]
            if not pa and not pb:
                return TRUE
            a, b = cat(*pa), cat(*pb)
            for x, y in ((a, b), (b, a)):
                if x.op == "str" and x.a[0] == "":
                    if any(p.op == "str" for p in parts(y)):
                        return FALSE
                    if len(parts(y)) == 1:
                        return T("eq0", self.size(y))
        return eqatom(a, b)

    def intlike(self, t):
        if t.op in ("int", "lin", "cast", "band", "bor", "bxor", "shl", "shr", "size", "ch", "chat", "tolower", "toupper", "ctype",
                    "tab", "mod", "div", "mul", "find", "findset", "rfindset", "eq", "eq0", "le0", "has", "hasin", "any", "not", "and",
                    "or", "findpos", "bnot", "cmpz"):
            return True
        return t in TR

    def cmp_it(self, st, op, a, b):
        if a.a[3] != b.a[3]:
            return eqatom(a, b)
        if a.a[1] is not b.a[1] and not (a.a[0] is b.a[0] and a.a[0] is not None and a.a[0] is not NULL):
            return eqatom(a, b)
        pa, pb = a.a[2], b.a[2]
        if op == "==":
            for x, y, cv in ((pa, pb, a.a[1]), (pb, pa, b.a[1])):
                if x.op == "findpos" and y.op == "size":
                    kind, c, k, frm = x.a
                    if frm.op == "int" and frm.a[0] == 0:
                        if kind == "q":
                            from .models import anyof
                            return neg(anyof(self, c, k))
                        return neg(T("has" if kind == "v" else "hasin", c, k))
        return self.compare(st, op, pa, pb)

    def size(self, t):
        ps = parts(t)
        if t.op == "str":
            return I(len(t.a[0]))
        if t.op == "nil":
            return I(0)
        if t.op == "item":
            return I(1)
        if t.op == "cat":
            r = I(0)
            for p in ps:
                r = add(r, self.size(p))
            return r
        if t.op == "map1":          # element-wise image
            return self.size(t.a[0])
        if t.op == "chs":           # one character
            return I(1)
        if t.op == "sub" and t.a[1].op == "int" and t.a[1].a[0] == 0 and t.a[2].op != "int" and False:
            return t.a[2]
        if t.op == "digest":
            return T("size", t)
        return T("size", t)

    # -------------------------------------------------------------- store
    def read(self, st, loc, ty=None):
        ty = unref(ty)
        v = st.store.get(loc)
        if v is not None:
            return v
        if is_rec(ty):
            return self.read_rec(st, loc, ty)
        return typed(self._read(st, loc, ty), ty)

    def _read(self, st, loc, ty):
        op = loc.op
        if op == "fld":
            base, f = loc.a
            bv = st.store.get(base)
            if bv is None and base.op in ("el", "mel", "at"):
                bv = self._read(st, base, None)
            if bv is not None:
                return self.getf(bv, f)
            if base.op == "fld":
                # a whole record stored at an outer level
                b2 = base
                path = [f]
                while b2.op == "fld":
                    path.append(b2.a[1])
                    b2 = b2.a[0]
                    if b2 in st.store:
                        v = st.store[b2]
                        for p in reversed(path):
                            v = self.getf(v, p)
                        return v
        elif op == "el":
            cl, cv, pos, d = loc.a
            cur = st.store.get(cl) if isinstance(cl, T) else None
            while cur is not None and cur.op == "setel":
                if cur.a[1] is pos and cur.a[2] == d:
                    return cur.a[3]
                if cur.a[2] == d and cur.a[1].op == "int" and pos.op == "int":
                    cur = cur.a[0]
                    continue
                return T("elv", cur, pos, d)
            return self.elem(st, cv, pos, d)
        elif op == "mel":
            cl, key = loc.a
            m = self.read(st, cl)
            return self.mget(m, key)
        elif op == "chr":
            sl, idx = loc.a
            return self.chat(st, self.read(st, sl), idx)
        elif op == "at":
            reg, off = loc.a
            return self.at(st, reg, off)
        elif op == "g":
            v = self.global_init(st, loc)
            if v is not None:
                return v
        elif op == "valloc":
            return loc.a[0]
        return T("init", loc)

    def getf(self, v, f):
        if v.op == "rec":
            for n, x in v.a[1]:
                if n == f:
                    return x
        return T("get", v, f)

    def read_rec(self, st, loc, ty):
        if loc.op in ("el", "mel"):
            return self._read(st, loc, ty)
        r = self.prog.recs.get(ty["n"])
        if not r:
            return T("init", loc)
        fs = []
        for f in r["fields"]:
            fl = fld(loc, f["n"])
            if f["t"].get("k") in ("ref", "rref"):
                fs.append((f["n"], st.store.get(fl) or T("alias", T("refd", fl))))
            else:
                fs.append((f["n"], self.read(st, fl, f["t"])))
        # untouched object: keep it as one symbol
        if all(x.op == "init" and x.a[0] is fld(loc, n) for n, x in fs):
            return T("recinit", loc)
        return T("rec", ty["n"], tuple(fs))

    def write(self, st, loc, v, ty=None):
        """In place (the caller owns st)."""
        ty = unref(ty)
        if loc.op == "mel" and v.op in ("rec", "recinit"):
            st.store[loc.a[0]] = mput(self.read(st, loc.a[0]), loc.a[1], v)
            return
        if loc.op == "el" and isinstance(loc.a[0], T):
            cl, cv, pos, d = loc.a
            cur = st.store.get(cl)
            st.store[cl] = T("setel", cv if cur is None else cur, pos, d, v)
            return
        if v.op == "recinit" and is_rec(ty):
            r = self.prog.recs.get(ty["n"])
            self.kill(st, loc)
            for f in r["fields"]:
                st.store[fld(loc, f["n"])] = typed(T("init", fld(v.a[0], f["n"])), f["t"])
            return
        if v.op == "rec":
            self.kill(st, loc)
            for n, x in v.a[1]:
                if x.op in ("rec", "recinit"):
                    self.write(st, fld(loc, n), x, {"k": "rec", "repo": True, "n": x.a[0]} if x.op == "rec" else
                               self.field_type(v.a[0], n))
                else:
                    st.store[fld(loc, n)] = x
            return
        if is_rec(ty) and loc.op not in ("el", "mel"):
            # opaque record value: explode
            r = self.prog.recs.get(ty["n"])
            if r:
                self.kill(st, loc)
                for f in r["fields"]:
                    x = typed(self.getf(v, f["n"]), f["t"])
                    st.store[fld(loc, f["n"])] = x
                return
        op = loc.op
        if op == "chr":
            sl, idx = loc.a
            s = self.read(st, sl)
            st.store[sl] = T("setch", s, idx, v)
            return
        if op == "mel":
            cl, key = loc.a
            m = self.read(st, cl)
            st.store[cl] = mput(m, key, v)
            return
        if op == "fld" and loc.a[0].op in ("mel", "el") and loc.a[0] not in st.store:
            base = loc.a[0]
            old = self._read(st, base, None)
            if old.op == "objref":
                self.write(st, fld(old.a[0], loc.a[1]), v, ty)
                return
            self.write(st, base, T("setf", old, loc.a[1], v))
            return
        if op == "at":
            reg, off = loc.a
            if reg.op in ("v", "fld", "g", "tmp", "heap"):
                old = self.read(st, reg)
                st.store[reg] = T("setat", old, off, v)
                return
        st.store[loc] = v

    def field_type(self, rec, f):
        r = self.prog.recs.get(rec)
        for x in (r or {}).get("fields", []):
            if x["n"] == f:
                return x["t"]
        return None

    def kill(self, st, loc):
        """Forget everything stored below loc."""
        if loc in st.store:
            del st.store[loc]
        pref = [k for k in st.store if k is not loc and below(k, loc)]
        for k in pref:
            del st.store[k]

    def havoc(self, st, loc, ty, what, node):
        ty = unref(ty)
        if is_rec(ty):
            r = self.prog.recs.get(ty["n"])
            if r:
                for f in r["fields"]:
                    if f["t"].get("k") not in ("ref", "rref"):
                        self.havoc(st, fld(loc, f["n"]), f["t"], what, node)
                return
        self.kill(st, loc)
        v = typed(self.fresh("havoc:" + what, node, loc), ty)
        self.write(st, loc, v)

    # -------------------------------------------------------------- containers
    def elem(self, st, cv, pos, d):
        ps = parts(cv)
        if d == "f":
            if pos.op == "int":
                k = pos.a[0]
                i = 0
                while i < len(ps) and ps[i].op == "item":
                    if k == 0:
                        return ps[i].a[0]
                    k -= 1
                    i += 1
            # counted from the end
            back = sub(self.size(cv), pos)
            if back.op == "int" and back.a[0] >= 1:
                k = back.a[0]
                i = len(ps) - 1
                while i >= 0 and ps[i].op == "item":
                    k -= 1
                    if k == 0:
                        return ps[i].a[0]
                    i -= 1
        elif d == "r":
            if pos.op == "int":
                k = pos.a[0]
                i = len(ps) - 1
                while i >= 0 and ps[i].op == "item":
                    if k == 0:
                        return ps[i].a[0]
                    k -= 1
                    i -= 1
        if cv.op == "map1":
            e = self.elem(st, cv.a[0], pos, d)
            return subst(cv.a[1], lambda x: e if x is HOLE else None)
        return T("elv", cv, pos, d)

    def chat(self, st, s, idx):
        if s.op == "str" and idx.op == "int":
            k = idx.a[0]
            if 0 <= k < len(s.a[0]):
                c = ord(s.a[0][k])
                return I(c if c < 128 else c - 256)
            return I(0)
        if s.op == "str" and idx.op != "int":
            return T("tab", T("arr", tuple(I(ord(c) if ord(c) < 128 else ord(c) - 256) for c in s.a[0]) + (I(0),)), idx)
        return self.elem_ch(s, idx)

    def elem_ch(self, s, idx):
        return T("chat", s, idx)

    def at(self, st, reg, off):
        if reg.op == "data":
            return self.chat(st, reg.a[0], off)
        if reg.op in ("v", "fld", "g", "tmp", "heap", "deref", "init"):
            v = self.read(st, reg)
            return self.arr_at(v, off)
        if reg.op == "str":
            return self.chat(st, reg, off)
        return T("init", T("at", reg, off))

    def arr_at(self, v, off):
        if v.op == "arr":
            if off.op == "int" and 0 <= off.a[0] < len(v.a[0]):
                return v.a[0][off.a[0]]
            if all(x.op == "int" for x in v.a[0]):
                return T("tab", v, off)
        if v.op == "str" and off.op == "int":
            k = off.a[0]
            s = v.a[0]
            return I(ord(s[k])) if 0 <= k < len(s) else I(0)
        if v.op == "str":
            return T("tab", T("arr", tuple(I(ord(c) if ord(c) < 128 else ord(c) - 256) for c in v.a[0]) + (I(0),)), off)
        if v.op == "setat" and v.a[1] is off:
            return v.a[2]
        return T("atv", v, off)

    def mget(self, m, key):
        while m.op == "mput":
            if m.a[1] is key:
                return m.a[2]
            if m.a[1].op == "str" and key.op == "str":
                m = m.a[0]
                continue
            break
        return T("mget", m, key)

    def global_init(self, st, loc):
        g = self.prog.globs.get(loc.a[0])
        if not g or "init" not in g:
            return None
        if not g.get("const"):
            if self.glob_written is None:
                from . import effects
                self.glob_written = effects.written_globals(self.prog)
            if g["m"] in self.glob_written:
                return None
        key = ("ginit", g["m"])
        c = getattr(self, "_gcache", None)
        if c is None:
            c = self._gcache = {}
        if key not in c:
            c[key] = None
            self.frames.append(Frame({"q": g["q"], "m": g["m"]}, "g:" + g["m"]))
            try:
                K = Coll()
                r = self.ev(g["init"], State(), K)
                if len(r) == 1:
                    v = r[0][1]
                    if g["init"].get("vc") in ("l", "x"):
                        v = self.read(r[0][0], v, g["t"])
                    c[key] = v
            except AnalysisError:
                pass
            finally:
                self.frames.pop()
        return c[key]

    # -------------------------------------------------------------- running
    def run(self, fn, this=None, args=None, st=None):
        """Analyse function fn from an unknown caller; returns (returns, throws)."""
        self.frames = []
        st = st or State()
        ctx = "0"
        fr = Frame(fn, ctx, this=this)
        self.frames.append(fr)
        K = Coll(rets=[], throws=[], brks=[], conts=[], gotos=[])
        try:
            args = args or {}
            for p in fn["params"]:
                loc = self.varloc(p["d"])
                t = p["t"]
                a = args.get(p["d"]["n"])
                if t.get("k") in ("ref", "rref"):
                    st.store[loc] = T("alias", a if a is not None else T("obj", fn["q"], p["d"]["n"]))
                elif a is not None:
                    self.write(st, loc, a, t)
                elif is_rec(t):
                    pass
                else:
                    st.store[loc] = typed(T("param", fn["q"], p["d"]["n"]), t)
            self.enter(fn, fr, [st], K, None)
        finally:
            self.frames.pop()
        return K.rets, K.throws

    def enter(self, fn, fr, sts, K, node):
        """Run ctor initialisers and the body in the current frame."""
        self.fn_seen.add(fn["m"])
        if fn.get("inits") is not None:
            for i in fn["inits"]:
                nxt = []
                for s in sts:
                    nxt += self.run_init(i, s, K, fr)
                sts = self.dedupe(nxt)
            # members without initialiser and default member initialisers are covered by clang's inits list
        out = self.ex(fn["body"], sts, K) if fn.get("body") else sts
        for s in out:
            K.rets.append((s, T("void")))
        return

    def run_init(self, i, st, K, fr):
        this = fr.this
        x = i.get("x")
        if i.get("f"):
            loc = fld(this, i["f"])
            ft = self.field_type(fr.fn.get("cls"), i["f"])
            if ft and ft.get("k") in ("ref", "rref"):
                return [(lambda s2: s2)(self.set1(s, loc, T("alias", v))) for s, v in self.ev(x, st, K)]
            return self.init_loc(loc, ft, x, st, K)
        if i.get("base"):
            if x and x.get("e") == "ctor" and x["fn"].get("repo"):
                r = self.do_ctor(x, st, K, this)
                return [s for s, _ in r]
            return [s for s, _ in (self.ev(x, st, K) if x else [(st, None)])]
        if i.get("deleg"):
            r = self.do_ctor(x, st, K, this)
            return [s for s, _ in r]
        return [st]

    def set1(self, st, loc, v, ty=None):
        st = st.copy()
        self.write(st, loc, v, ty)
        return st

    def init_loc(self, loc, ty, x, st, K):
        """Initialise loc from expression x."""
        if x is None:
            return [st]
        if ty and ty.get("k") in ("ref", "rref"):
            out = []
            for s, l in self.ev(x, st, K):
                if x.get("vc") == "p":
                    s = s.copy()
                    self.write(s, fld(loc, "#tmp"), l, ty)
                    l = fld(loc, "#tmp")
                s = s.copy()
                s.store[loc] = T("alias", l)
                out.append(s)
            return out
        if x.get("e") == "ctor":
            r = self.do_ctor(x, st, K, loc, ty)
            return [s for s, _ in r]
        out = []
        for s, v in self.ev(x, st, K):
            if x.get("vc") in ("l", "x"):
                v = self.read(s, v, x.get("t"))
            s = s.copy()
            if is_rec(ty) or v.op in ("rec", "recinit"):
                self.write(s, loc, v, ty)
            else:
                s.store[loc] = v
            out.append(s)
        return out

    # -------------------------------------------------------------- variables
    def varloc(self, d):
        if d.get("glob"):
            return T("g", d["glob"])
        return T("v", self.frame.ctx, d["n"], d["id"])

    def lookup(self, n):
        """Location of a variable reference node (aliases followed by the caller)."""
        d = n["d"]
        if d.get("glob"):
            return T("g", d["glob"])
        caps = self.frame.caps
        if d["id"] in caps:
            return caps[d["id"]]
        return T("v", self.frame.ctx, d["n"], d["id"])

    def deref_alias(self, st, loc, ty):
        v = st.store.get(loc)
        if v is not None and v.op == "alias":
            return v.a[0]
        if v is None and loc.op == "fld" and ty and ty.get("k") in ("ref", "rref"):
            return T("refd", loc)
        return loc

    # -------------------------------------------------------------- statements
    def ex(self, n, sts, K):
        out = []
        if n["s"] == "#native":
            out = []
            for s in sts:
                out += n["f"](s, K)
            return self.dedupe(out)
        m = getattr(self, "x_" + n["s"], None)
        if len(sts) > 1 and n["s"] in ("while", "do", "for", "range"):
            if self.join_entry:
                sts = self.join_states(n, sts)
            elif len(sts) >= self.frame_min:
                return self.framed(n, sts, K, m)
        if m is None:
            for s in sts:
                s.note("unmodelled statement %s" % n.get("kind", n["s"]))
            return sts
        for s in sts:
            self.nstates += 1
            out += m(n, s, K)
        return self.dedupe(out)

    def framed(self, n, sts, K, m):
        """Solve the loop once for states that differ only in values the loop carries along:
        differing values become entry symbols that are replaced again afterwards."""
        groups = {}
        for s in sts:
            fix = []
            for l, v in s.store.items():
                ty = self.loctype.get(l)
                if v.op in ("alias", "addr", "lam", "bind", "up", "objref", "it", "ptr", "mit", "mend", "fnref", "null") or \
                        (v.op == "int" and (ty is None or ty.get("bool") or ty.get("k") == "enum")):
                    fix.append((l.id, v.id))
            groups.setdefault((tuple(sorted(fix)), s.trace, s.ghost, frozenset(s.store)), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                self.nstates += 1
                out += m(n, g[0], K)
                continue
            r = g[0]
            for s in g[1:]:
                r = self.meet_facts(r, s)
            r = r.copy()
            r.notes = frozenset()
            ents = {}
            for l in g[0].store:
                if any(s.store[l] is not g[0].store[l] for s in g[1:]):
                    e = T("ent", self.loopstack, n["sid"], self.frame.ctx, l)
                    ty = self.loctype.get(l)
                    vals = [s.store[l] for s in g]
                    if all(self.intlike(v) for v in vals):
                        self.entvals[e] = vals
                        TR.setdefault(e, rng(ty) or FULL)
                        d = self.dom(g[0], vals[0])
                        for s, v in zip(g[1:], vals[1:]):
                            d = d | self.dom(s, v)
                        if d != FULL:
                            r.dom[e] = d
                    else:
                        lo = min(self.dom(s, self.size(v)).lo() for s, v in zip(g, vals))
                        if lo > 0:
                            r.dom[T("size", e)] = IS.rng(lo, 1 << 62)
                    ents[e] = l
                    r.store[l] = e
            K2 = Coll(K, throws=[], rets=[], gotos=[])
            self.nstates += 1
            res = m(n, r, K2)
            for s in g:
                mp = {e: s.store[l] for e, l in ents.items()}
                memo = {}

                def f(x):
                    return mp.get(x)
                for x in res:
                    y = self.unframe(x, s, r, f, memo)
                    if y is not None:
                        out.append(y)
                for x, e in K2.throws:
                    y = self.unframe(x, s, r, f, memo)
                    if y is not None:
                        K.throws.append((y, e))
                for x, v in K2.rets:
                    y = self.unframe(x, s, r, f, memo)
                    if y is not None:
                        K.rets.append((y, subst(v, f, memo)))
                for x, lab in K2.gotos:
                    y = self.unframe(x, s, r, f, memo)
                    if y is not None:
                        K.gotos.append((y, lab))
        return out

    def unframe(self, x, s, r, f, memo):
        """State x reached from the framed entry r, for the actual entry state s."""
        y = x.copy()
        y.store = {subst(l, f, memo) if l.op in ("el", "mel", "at", "chr", "fld") else l: subst(v, f, memo)
                   for l, v in x.store.items()}
        y.trace = s.trace + tuple(_subst_any(t, f, memo) for t in x.trace[len(r.trace):])
        y.notes = s.notes | x.notes
        y.facts = dict(s.facts)
        y.dom = dict(s.dom)
        y.sdom = dict(s.sdom)
        for t, v in x.facts.items():
            t = subst(t, f, memo)
            if y.facts.get(t, v) != v:
                return None
            y.facts[t] = v
        for t, d in x.dom.items():
            t = subst(t, f, memo)
            if t.op == "int":
                if t.a[0] not in d:
                    return None
                continue
            d0 = self.dom(y, t)
            d = d & d0
            if not d:
                return None
            if d != self.base_range(t) and t.op != "lin":
                y.dom[t] = d
        for t, v in x.sdom.items():
            t = subst(t, f, memo)
            if t.op == "str":
                if (t.a[0] == v[1]) != (v[0] == "eq") if v[0] == "eq" else t.a[0] in v[1]:
                    return None
                continue
            old = y.sdom.get(t)
            if old is None:
                y.sdom[t] = v
            elif old[0] == "eq":
                if (v[0] == "eq" and v[1] != old[1]) or (v[0] == "ne" and old[1] in v[1]):
                    return None
            elif v[0] == "eq":
                if v[1] in old[1]:
                    return None
                y.sdom[t] = v
            else:
                y.sdom[t] = ("ne", old[1] | v[1])
        return y

    def join_states(self, n, sts):
        """Join states that agree on flags and history; values that differ become join terms."""
        groups = {}
        for s in sts:
            fl = tuple(sorted(((l.id, v.id) for l, v in s.store.items() if self.flagish(l, v, None))))
            rf = tuple(sorted(((l.id, v.id) for l, v in s.store.items()
                               if v.op in ("alias", "addr", "lam", "bind", "up", "objref"))))
            groups.setdefault((fl, rf, s.trace, s.ghost, frozenset(s.store)), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            r = g[0]
            for s in g[1:]:
                r = self.meet_facts(r, s)
            if r is g[0]:
                r = r.copy()
            for l in g[0].store:
                vs = []
                for s in g:
                    v = s.store[l]
                    if v not in vs:
                        vs.append(v)
                if len(vs) == 1:
                    continue
                d = self.join_val(n, l, vs)
                if d is None:
                    d = T("join", self.loopstack, n["sid"], l, ("?",))
                    r.note("incompatible values joined")
                r.store[l] = d
                if d.op == "join" and all(self.intlike(v) for v in vs):
                    TR.setdefault(d, FULL)
                    x = self.dom(g[0], g[0].store[l])
                    for s in g[1:]:
                        x = x | self.dom(s, s.store[l])
                    if x != FULL:
                        r.dom[d] = x
                elif d.op == "join":
                    lo = min(self.dom(s, self.size(s.store[l])).lo() for s in g) if not any(
                        v.op in ("null", "undef") for v in vs) else 0
                    if lo > 0:
                        r.dom[T("size", d)] = IS.rng(lo, INF)
            out.append(r)
        return out

    def join_val(self, n, l, vs):
        ops = {v.op for v in vs}
        if ops == {"it"}:
            if len({(v.a[0], v.a[1], v.a[3]) for v in vs}) == 1:
                return T("it", vs[0].a[0], vs[0].a[1], self.join_val(n, l, [v.a[2] for v in vs]), vs[0].a[3])
            return None
        if ops == {"ptr"}:
            if len({v.a[0] for v in vs}) == 1:
                return T("ptr", vs[0].a[0], self.join_val(n, l, [v.a[1] for v in vs]))
            return None
        flat = []
        for v in vs:
            for x in (v.a[3] if v.op == "join" and v.a[2] is l and v.a[3] != ("?",) else (v,)):
                if x not in flat:
                    flat.append(x)
        flat.sort(key=lambda x: x.id)
        return T("join", self.loopstack, n["sid"], l, tuple(flat))

    def x_null(self, n, st, K):
        return [st]

    def x_opaque(self, n, st, K):
        st = st.copy()
        st.note("unmodelled statement " + str(n.get("kind")))
        return [st]

    def x_expr(self, n, st, K):
        return [s for s, _ in self.ev(n["x"], st, K)]

    def x_decl(self, n, st, K):
        sts = [st]
        for v in n["vars"]:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s, K)
            sts = nxt
        return sts

    def declare(self, v, st, K):
        if v["d"].get("glob"):
            # function-level static: initialised once, handled as a global
            return [st]
        loc = self.varloc(v["d"])
        ty = v["t"]
        self.loctype[loc] = ty
        x = v.get("init")
        st = st.copy()
        self.kill(st, loc)
        if ty.get("k") == "arr":
            if x is None or (x.get("e") == "ctor"):
                st.store[loc] = T("undef", loc)
                return [st]
            out = []
            for s, val in self.ev(x, st, K):
                s = s.copy()
                s.store[loc] = val
                out.append(s)
            return out
        if x is None:
            if is_rec(ty):
                return [st]
            st.store[loc] = typed(T("undef", loc), ty)
            return [st]
        return self.init_loc(loc, ty, x, st, K)

    def x_block(self, n, st, K):
        body = n["b"]
        K2 = Coll(K, throws=[], rets=[], brks=[], conts=[], gotos=[])
        labels = {b["n"]: i for i, b in enumerate(body) if b.get("s") == "label"}
        out = self.run_seq(body, 0, [st], K2)
        if labels:
            n_iter = 0
            while K2.gotos:
                todo, rest = [], []
                for g in K2.gotos:
                    (todo if g[1] in labels else rest).append(g)
                K2.gotos[:] = rest
                if not todo:
                    break
                n_iter += 1
                if n_iter > 8:
                    for s, _ in todo:
                        s.note("backward goto")
                    break
                for lab in sorted({g[1] for g in todo}):
                    ss = self.dedupe([s for s, l in todo if l == lab])
                    out = out + self.run_seq(body, labels[lab], ss, K2)
                out = self.dedupe(out)
                if not rest and not K2.gotos:
                    break
        # scope exit
        locs = [v for b in body for v in self.block_vars(b)]
        if locs:
            out = [s2 for s in out for s2 in self.scope_exit(s, locs, K2)]
            K.throws += [(s2, e) for s, e in K2.throws for s2 in self.scope_exit(s, locs, K)]
            K.rets += [(s2, v) for s, v in K2.rets for s2 in self.scope_exit(s, locs, K)]
            K.brks += [s2 for s in K2.brks for s2 in self.scope_exit(s, locs, K)]
            K.conts += [s2 for s in K2.conts for s2 in self.scope_exit(s, locs, K)]
            K.gotos += [(s2, l) for s, l in K2.gotos for s2 in self.scope_exit(s, locs, K)]
        else:
            K.throws += K2.throws
            K.rets += K2.rets
            K.brks += K2.brks
            K.conts += K2.conts
            K.gotos += K2.gotos
        return out

    def block_vars(self, b):
        if b.get("s") == "decl":
            return [v for v in b["vars"] if not v["d"].get("glob")]
        if b.get("s") in ("label", "case", "default") and b.get("b"):
            return self.block_vars(b["b"])
        return []

    def run_seq(self, body, i, sts, K):
        for b in body[i:]:
            if not sts:
                break
            if b.get("s") == "label":
                b = b["b"]
            sts = self.ex(b, sts, K)
        return sts

    def scope_exit(self, st, vars_, K):
        sts = [st]
        for v in reversed(vars_):
            loc = self.varloc(v["d"])
            nxt = []
            for s in sts:
                if any(root(k) is loc for k in s.store):
                    nxt += self.destroy(s, loc, v["t"], K, v)
                else:
                    nxt.append(s)
            sts = []
            for s in nxt:
                s = s.copy()
                for k in [k for k in s.store if root(k) is loc]:
                    x = s.store.pop(k)
                    if k.op == "fld" and k.a[1] == "#pos" and self.opaque.get("#gone"):
                        s.store[T("gone", k)] = x
                sts.append(s)
        return sts

    def destroy(self, st, loc, ty, K, node):
        """Run the destructor of the object at loc."""
        if not ty or ty.get("k") != "rec":
            return [st]
        n = ty.get("n")
        if n == "std::unique_ptr":
            return self.up_reset(st, loc, NULL, K, node)
        if ty.get("repo") and not ty.get("trivdtor", True):
            f = self.prog.fns.get(ty.get("dtor"))
            sts = [st]
            if f and f.get("body"):
                sts = [s for s, _ in self.inline(f, st, loc, [], [], K, node)]
            for m in reversed((self.prog.recs.get(n) or {}).get("fields", [])):
                if m["t"].get("k") == "rec" and (m["t"].get("n") == "std::unique_ptr" or m["t"].get("repo")):
                    sts = [x for s in sts for x in self.destroy(s, fld(loc, m["n"]), m["t"], K, node)]
            return sts
        return [st]

    def up_reset(self, st, loc, new, K, node):
        v = self.read(st, loc)
        st = st.copy()
        if v.op == "up":
            p, d = v.a
            st.store[loc] = T("up", new, d)
            if p is NULL:
                return [st]
            h = self.opaque.get("#free") or self.models.get("#free")
            if d is not NULL and d.op in ("lam", "bind", "fnref"):
                r = []
                for s, b in self.truth(st, neg(self.compare(st, "==", p, NULL))):
                    if b:
                        r += [x for x, _ in self.call_value(s, d, [p], [{"vc": "p", "t": None, "sid": node.get("sid"), "l": node.get("l")}], K, node)]
                    else:
                        r.append(s)
                return r
            how = d.a[0] if d.op == "defdel" else "delete"
            if how not in ("delete", "delete[]"):
                f = self.prog.fn(how + "::operator()")
                if not f:
                    return [st]
                r = []
                for s, b in self.truth(st, neg(self.compare(st, "==", p, NULL))):
                    r += [x for x, _ in self.inline(f[0], s, T("deldel", loc), [p], [{"vc": "p", "t": None, "sid": node.get("sid"), "l": node.get("l")}], K, node)] if b else [s]
                return r
            if h:
                return h(self, st, p, how, node)
        return [st]

    def x_if(self, n, st, K):
        sts = [st]
        decls = []
        if n.get("init"):
            sts = self.ex(n["init"], sts, K)
            decls += self.block_vars(n["init"])
        if n.get("var"):
            sts = [s2 for s in sts for s2 in self.declare(n["var"], s, K)]
            decls.append(n["var"])
        out = []
        for s in sts:
            for s2, b in self.cond(n["c"], s, K):
                if b:
                    out += self.ex(n["th"], [s2], K)
                elif n.get("el"):
                    out += self.ex(n["el"], [s2], K)
                else:
                    out.append(s2)
        if decls:
            out = [s2 for s in out for s2 in self.scope_exit(s, decls, K)]
        return out

    def cond(self, c, st, K):
        """Evaluate a condition expression: [(state, bool)] with short circuit."""
        if c.get("e") == "bin" and c["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(c["x"], st, K):
                if b == (c["op"] == "&&"):
                    out += self.cond(c["y"], s, K)
                else:
                    out.append((s, b))
            return out
        if c.get("e") == "un" and c["op"] == "!":
            return [(s, not b) for s, b in self.cond(c["x"], st, K)]
        if c.get("e") == "cast" and c["ck"] in ("IntegralToBoolean", "PointerToBoolean"):
            return self.cond_val(c["x"], st, K)
        if c.get("e") == "cond":
            out = []
            for s, b in self.cond(c["c"], st, K):
                out += self.cond(c["x"] if b else c["y"], s, K)
            return out
        return self.cond_val(c, st, K)

    def cond_val(self, c, st, K):
        out = []
        for s, v in self.ev(c, st, K):
            if c.get("vc") in ("l", "x"):
                v = self.read(s, v, c.get("t"))
            out += self.truth(s, v)
        return out

    def x_return(self, n, st, K):
        x = n.get("x")
        if x is None:
            K.rets.append((st, T("void")))
            return []
        rt = self.frame.fn.get("ret")
        byref = rt and rt.get("k") in ("ref", "rref")
        for s, v in self.ev(x, st, K):
            if not byref and x.get("vc") in ("l", "x"):
                v = self.read(s, v, x.get("t"))
            if byref and x.get("vc") in ("l", "x") and v.op == "tmp":
                pass
            K.rets.append((s, v))
        return []

    def x_break(self, n, st, K):
        K.brks.append(st)
        return []

    def x_continue(self, n, st, K):
        K.conts.append(st)
        return []

    def x_goto(self, n, st, K):
        K.gotos.append((st, n["n"]))
        return []

    def x_label(self, n, st, K):
        return self.ex(n["b"], [st], K)

    def x_case(self, n, st, K):
        return self.ex(n["b"], [st], K)

    x_default = x_case

    def x_try(self, n, st, K):
        K2 = Coll(K, throws=[])
        out = self.ex(n["b"], [st], K2)
        for s, e in K2.throws:
            done = False
            for h in n["h"]:
                if h.get("all") or self.catches(h.get("ct"), e):
                    s2 = s.copy()
                    if h.get("var"):
                        loc = self.varloc(h["var"]["d"])
                        el = T("exc", str(e.ty), e.node.get("sid", "") if e.node else "")
                        if h["var"]["t"].get("k") in ("ref", "rref"):
                            s2.store[loc] = T("alias", el)
                        if e.val is not None:
                            s2.store[el] = e.val
                    self._cur_exc = getattr(self, "_cur_exc", []) + [e]
                    out += self.ex(h["b"], [s2], K)
                    self._cur_exc = self._cur_exc[:-1]
                    done = True
                    break
            if not done:
                K.throws.append((s, e))
        return out

    def catches(self, ct, e):
        if ct is None:
            return True
        name = ct.get("n") or ct.get("s")
        return e.ty == name or name in self.bases(e.ty)

    def bases(self, q):
        out = set()
        todo = [q]
        std = {"std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
               "std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"],
               "std::bad_alloc": ["std::exception"], "std::length_error": ["std::logic_error"],
               "std::system_error": ["std::runtime_error"], "std::ios_base::failure": ["std::system_error"]}
        while todo:
            x = todo.pop()
            r = self.prog.recs.get(x)
            bs = []
            if r:
                bs = [b.get("n") for b in r.get("bases", []) if isinstance(b, dict)]
            bs += std.get(x, [])
            for b in bs:
                if b and b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def x_switch(self, n, st, K):
        sts = [st]
        decls = []
        if n.get("init"):
            sts = self.ex(n["init"], sts, K)
            decls += self.block_vars(n["init"])
        if n.get("var"):
            sts = [s2 for s in sts for s2 in self.declare(n["var"], s, K)]
            decls.append(n["var"])
        body = n["b"]["b"] if n["b"].get("s") == "block" else [n["b"]]
        # flatten labels: positions of cases
        flat = []
        pos = []     # (values | None, index)
        for b in body:
            while b.get("s") in ("case", "default"):
                pos.append((b if b["s"] == "case" else None, len(flat)))
                b = b["b"]
            flat.append(b)
        brks = []
        K2 = Coll(K, brks=brks)
        out = []
        for s0 in sts:
            for s, v in self.ev(n["c"], s0, K):
                rem = [s]
                dflt = None
                entries = []
                for c, i in pos:
                    if c is None:
                        dflt = i
                        continue
                    cv = self.cval(c["v"])
                    nxt = []
                    for r in rem:
                        if c.get("v2"):
                            hi = self.cval(c["v2"])
                            test = T("and", neg(self.compare(r, "<", v, cv)), neg(self.compare(r, "<", hi, v)))
                        else:
                            test = self.compare(r, "==", v, cv)
                        for r2, b in self.truth(r, test):
                            if b:
                                entries.append((r2, i))
                            else:
                                nxt.append(r2)
                    rem = nxt
                for r in rem:
                    if dflt is not None:
                        entries.append((r, dflt))
                    else:
                        out.append(r)
                # run each entry from its label
                byi = {}
                for r, i in entries:
                    byi.setdefault(i, []).append(r)
                for i, rs in byi.items():
                    out += self.run_seq(flat, i, self.dedupe(rs), K2)
        out += brks
        allv = decls + [v for b in flat for v in self.block_vars(b)]
        if allv:
            out = [s2 for s in out for s2 in self.scope_exit(s, allv, K)]
        return self.dedupe(out)

    def cval(self, n):
        if n.get("e") == "int":
            return I(int(n["v"]))
        if "cv" in n:
            return I(int(n["cv"]))
        raise AnalysisError("case label is not constant")

    # -------------------------------------------------------------- loops
    def x_while(self, n, st, K):
        return self.loop(n, st, K, cond=n["c"], body=n["b"], var=n.get("var"))

    def x_do(self, n, st, K):
        return self.loop(n, st, K, cond=n["c"], body=n["b"], post=True)

    def x_for(self, n, st, K):
        sts = [st]
        decls = []
        if n.get("init"):
            sts = self.ex(n["init"], sts, K)
            decls = self.block_vars(n["init"])
        K2 = Coll(K, throws=[], rets=[])
        out = []
        for s in sts:
            out += self.loop(n, s, K2, cond=n.get("c"), body=n["b"], inc=n.get("inc"), var=n.get("var"))
        if decls:
            out = [s2 for s in out for s2 in self.scope_exit(s, decls, K)]
            K.throws += [(s2, e) for s, e in K2.throws for s2 in self.scope_exit(s, decls, K)]
            K.rets += [(s2, e) for s, e in K2.rets for s2 in self.scope_exit(s, decls, K)]
        else:
            K.throws += K2.throws
            K.rets += K2.rets
        return out

    def x_range(self, n, st, K):
        sts = [st]
        decls = []
        for k in ("range", "begin", "end"):
            sts = self.ex(n[k], sts, K)
            decls += self.block_vars(n[k])
        K2 = Coll(K, throws=[], rets=[])
        out = []
        body = {"s": "block", "b": [n["lv"], n["b"]], "l": n["l"], "sid": n["sid"] + "b"}
        for s in sts:
            out += self.loop(n, s, K2, cond=n["c"], body=body, inc=n["inc"])
        out = [s2 for s in out for s2 in self.scope_exit(s, decls, K)]
        K.throws += [(s2, e) for s, e in K2.throws for s2 in self.scope_exit(s, decls, K)]
        K.rets += [(s2, e) for s, e in K2.rets for s2 in self.scope_exit(s, decls, K)]
        return out

    def loop(self, n, st, K, cond, body, inc=None, post=False, var=None):
        log = len(self.log)
        sizes = [len(x) for x in (K.throws, K.rets, K.gotos)]
        try:
            return self.loop1(n, st, K, cond, body, inc, post, var)
        except SplitOn as e:
            if e.lid != n["sid"]:
                raise
            # a flag that starts as a condition: once for each value of it
            del self.log[log:]
            for x, k in zip((K.throws, K.rets, K.gotos), sizes):
                del x[k:]
            out = []
            for s, b in self.truth(st, st.store[e.loc]):
                s = s.copy()
                s.store[e.loc] = I(b)
                out += self.loop(n, s, K, cond, body, inc, post, var)
            return out

    def loop1(self, n, st, K, cond, body, inc=None, post=False, var=None):
        # identity of this loop instance
        key = (n["sid"], self.frame.ctx, self.loopstack)
        base = "%s@%s" % (n["sid"], self.frame.ctx)
        idx = self.loop_idx.setdefault(key, {})
        sg = (frozenset(st.store.items()), frozenset(st.facts.items()), frozenset(st.dom.items()), frozenset(st.sdom.items()))
        i = idx.setdefault(sg, len(idx))
        lid = base + ("~%d" % i if i else "")
        if self.loopstack:
            lid += "^" + self.loopstack[-1]
        entry = st
        changed = {}       # loc -> kind
        self.loopstack = self.loopstack + (lid,)
        logpos = len(self.log)
        try:
            npass = 0
            keyed_off = set()
            while True:
                npass += 1
                if npass > 60:
                    raise AnalysisError("loop %s does not stabilise" % lid)
                del self.log[logpos:]
                L = Loop(lid, n, self.frame.fn["q"])
                res = self.loop_pass(n, entry, cond, body, inc, post, var, changed, keyed_off, L, K)
                if res is None:
                    continue
                exits, throws, rets, gotos = res
                break
        finally:
            self.loopstack = self.loopstack[:-1]
        self.loops[lid] = L
        L.entry = entry
        for loc in changed:
            L.init[loc] = entry.store.get(loc) if loc in entry.store else T("init", loc)
        K.throws += throws
        K.rets += rets
        K.gotos += gotos
        out = [self.summarise(L, s, changed, kind) for kind, s in exits]
        L.exits = [(k, s) for (k, _), s in zip(exits, out) if self.sizes_ok(s)]
        return self.dedupe([s for _, s in L.exits])

    def sizes_ok(self, st):
        """Could the sizes assumed of concatenations be what their parts add up to?"""
        for k, d in st.dom.items():
            if k.op == "size" and k.a[0].op == "cat":
                z = self.size(k.a[0])
                if z is not k and not (self.dom(st, z) & d):
                    return False
        return True

    def phi(self, lid, loc, old):
        """Loop value of a location, keeping the shape of iterators and pointers."""
        outer = tuple(l for l in self.loopstack if l != lid)
        if old is not None and old.op == "it":
            return T("it", old.a[0], old.a[1], self.mkphi(lid, loc, outer, FULL), old.a[3])
        if old is not None and old.op == "ptr":
            return T("ptr", old.a[0], self.mkphi(lid, loc, outer, FULL))
        if old is not None and old.op == "alias":
            return old
        t = T("phi", lid, loc, outer)
        ty = self.loctype.get(loc)
        if ty is not None:
            typed(t, ty)
        elif old is not None and (old in TR or old.op in ("int", "lin")):
            if old in TR:
                TR.setdefault(t, TR[old])
            elif old.op == "int":
                TR.setdefault(t, FULL)
            else:
                TR.setdefault(t, FULL)
        return t

    def mkphi(self, lid, loc, outer, r):
        t = T("phi", lid, T("off", loc), outer)
        TR.setdefault(t, IS.rng(0, 1 << 62) if r is FULL else r)
        return t

    def flagish(self, loc, v, lid):
        """May this location be tracked by value instead of becoming a loop value?"""
        if v.op != "int":
            return False
        ty = self.loctype.get(loc)
        if ty and (ty.get("bool") or ty.get("k") == "enum"):
            return True
        if ty is None and v.a[0] in (0, 1) and loc.op == "fld":
            # fields: consult the record
            return False
        return bool(ty) and ty.get("int") and v.a[0] in (0, 1)

    def loop_pass(self, n, entry, cond, body, inc, post, var, changed, keyed_off, L, K):
        lid = L.lid
        h0 = entry.copy()
        for loc in changed:
            old = entry.store.get(loc)
            if old is None:
                old = self.read(entry, loc) if loc.op != "el" else None
            h0.store[loc] = self.phi(lid, loc, old)
        ahead = self.ahead(entry, h0, changed, lid)
        headers = {}
        order = []

        def hkey(s):
            return tuple(sorted(((l.id, v.id) for l, v in s.store.items()
                                 if v.op == "int" and l not in keyed_off and self.loctype.get(l) is not None and
                                 l in tracked), key=lambda p: p))
        tracked = set() if self.opaque.get("#notrack") else \
            set(l for l, v in entry.store.items() if self.flagish(l, v, lid) and l not in changed and l not in keyed_off)
        fixed = {}
        work = []

        def push(s):
            k = hkey(s)
            if k in headers:
                old = headers[k]
                m = self.meet_facts(old, s)
                m.trace = old.trace
                if m.facts == old.facts and m.dom == old.dom and m.sdom == old.sdom and m.notes == old.notes:
                    return
                # widen domains that keep growing
                cnt = fixed[k] = fixed.get(k, 0) + 1
                if cnt > 4:
                    m.dom = {t: d for t, d in m.dom.items() if old.dom.get(t) == d}
                headers[k] = m
                if k not in work:
                    work.append(k)
            else:
                headers[k] = s
                order.append(k)
                work.append(k)
                if len(headers) > 40:
                    raise TooMany()

        try:
            push(h0)
            results = {}
            steps = 0
            while work:
                k = work.pop(0)
                steps += 1
                if steps > 400:
                    raise AnalysisError("loop %s: too many header visits" % lid)
                h = headers[k]
                logpos = len(self.log)
                r = self.loop_body(n, h, cond, body, inc, post, var, L, first=(post and h is h0))
                exits, backs, throws, rets, gotos = r
                newlog = self.log[logpos:]
                del self.log[logpos:]
                # which locations changed?
                grow = False
                for b in backs:
                    for loc in set(b.store) | set(h.store):
                        nv = b.store.get(loc)
                        ov = h.store.get(loc)
                        if ov is None and loc not in entry.store:
                            if root(loc).op in ("v", "tmp") and root(loc) not in entry.store and \
                                    not any(root(x) is root(loc) for x in entry.store):
                                continue       # local of the body
                            ov = self.read(entry, loc)
                            if ov is nv:
                                continue
                        if nv is None:
                            nv = self.read(b, loc) if loc not in h.store else None
                            if nv is None:
                                continue
                        if nv is ov or loc in changed:
                            continue
                        if loc in tracked and self.flagish(loc, nv, lid):
                            continue
                        if ov is not None and ov.op == "alias":
                            continue
                        ety = self.loctype.get(loc)
                        if ety and ety.get("bool") and nv.op == "int" and entry.store.get(loc) is not None and \
                                entry.store[loc].op in ("eq", "eq0", "le0", "not", "and", "or", "has", "hasin", "any"):
                            raise SplitOn(loc, n["sid"])
                        changed[loc] = True
                        grow = True
                        if DEBUG:
                            print("loop", lid, "changed", loc, "|", ov, "|", nv)
                if grow:
                    return None
                for loc, (pl, src, k_) in ahead.items():
                    for b in backs:
                        v, x = b.store.get(loc), T("ch", src, add(b.store.get(pl, T("init", pl)), I(k_)))
                        if v is not x and not (v is not None and v.op == "int" and self.dom(b, x) == IS.of([v.a[0]])):
                            self.noahead.add((lid, loc))
                            return None
                results[k] = (exits, backs, throws, rets, gotos, newlog)
                for b in backs:
                    push(self.next_iter(lid, h0, h, b, changed, entry, tracked))
        except TooMany:
            for l in tracked:
                keyed_off.add(l)
            for l in tracked:
                changed[l] = True
            return None
        exits, throws, rets, gotos = [], [], [], []
        if not post and order and all(loc in entry.store for loc in changed):
            self.search_summary(L, entry, changed, order, results, hkey)
        for k in order:
            e, b, t, r, g, lg = results[k]
            exits += e
            throws += t
            rets += r
            gotos += g
            self.log += lg
            for s in b:
                L.alts.append({loc: s.store.get(loc) for loc in changed})
                L.altst.append(s)
                L.edges.append((k, hkey(s)))
        L.start = h0.store
        L.tracked = tracked
        L.cond_exit = any(k == "cond" for k, _ in exits)
        L.brk_exit = any(k == "break" for k, _ in exits)
        L.other_exit = bool(rets or gotos)
        L.changed = list(changed)
        return exits, throws, rets, gotos

    def ahead(self, entry, h0, changed, lid):
        """Variables that hold the character at the position of a stream on every turn (assumed here, checked on every way back)."""
        out = {}
        for loc in changed:
            v = entry.store.get(loc)
            if v is None or v.op != "ch" or (lid, loc) in self.noahead:
                continue
            for pl in changed:
                if pl.op == "fld" and pl.a[1] == "#pos" and pl in entry.store and entry.store.get(fld(pl.a[0], "#src")) is v.a[0]:
                    k = sub(v.a[1], entry.store[pl])
                    if k.op == "int" and fld(pl.a[0], "#src") not in changed:
                        out[loc] = (pl, v.a[0], k.a[0])
                        h0.store[loc] = T("ch", v.a[0], add(h0.store[pl], k))
        return out

    def search_summary(self, L, entry, changed, order, results, hkey):
        """A loop that looks at the elements of a sequence one by one and stops, or raises a flag, at one with some
        quality: say in the states after it whether the sequence has such an element."""
        k0 = order[0]
        backs = {k: [(hkey(s), s) for s in results[k][1]] for k in order}
        if any(d == k0 for k in order[1:] for d, _ in backs[k]):
            return
        allb = [s for k in order for _, s in backs[k]]
        if not allb:
            return
        for loc in changed:
            ini = entry.store[loc]
            p = self.phi(L.lid, loc, ini)
            pos, d = (p.a[2], p.a[3]) if p.op == "it" else (p, "f")
            start = ini.a[2] if ini.op == "it" else ini
            if start is not I(0) or p.op == "ptr":
                continue
            nx = I(1) if pos is None else add(pos, I(1))
            if not all((v.a[2] if v is not None and v.op == "it" else v) is nx for v in (s.store.get(loc) for s in allb)):
                continue
            seqs = set()
            for s in allb:
                for src in (s.facts, s.dom, s.sdom):
                    for t in src:
                        for x in t.subs():
                            if x.op == "chat" and x.a[1] is pos or x.op == "elv" and x.a[1] is pos and x.a[2] == d:
                                if L.lid not in x.a[0].loops():
                                    seqs.add(x)
            for e in seqs:
                if e.op == "chat":
                    self.char_search(e, pos, k0, order, results, backs)
                else:
                    self.elem_search(e, pos, k0, order, results, backs)

    def char_search(self, e, pos, k0, order, results, backs):
        from . import models
        full = self.base_range(e)
        stay, leave = IS.of([]), IS.of([])
        for k, s in backs[k0]:
            if k == k0:
                stay = stay | self.dom(s, e)
            else:
                leave = leave | self.dom(s, e)
        B = models.ALLCH - frozenset(stay.values()) if stay.size() <= 256 else frozenset()

        def put(s, cs, val):
            cs = frozenset(cs)
            if cs and cs != models.ALLCH:
                s.facts.setdefault(T("hasin", e.a[0], cs), val)
        for k in order:
            ex, _, th, rt, _, _ = results[k]
            for kind, s in ex:
                if k != k0:
                    if leave.size() < 256:
                        put(s, leave.values(), True)
                elif kind == "cond" and self.at_end(s, pos, e.a[0]):
                    put(s, B, False)
            if k == k0:
                for s in [s for kind, s in ex if kind == "break"] + [r[0] for r in rt]:
                    dd = self.dom(s, e)
                    if dd.size() < 256:
                        put(s, dd.values(), True)
            elif leave.size() < 256:
                for s in [r[0] for r in rt]:
                    put(s, leave.values(), True)

    def elem_search(self, e, pos, k0, order, results, backs):
        from . import models

        def quals(s):
            """Atoms about the element that hold or not: {atom over the hole: truth}."""
            q = {}
            for t, v in s.facts.items():
                if e in t.subs():
                    q[t] = v
            for t, v in s.sdom.items():
                if t is e:
                    for x in ([v[1]] if v[0] == "eq" else v[1]):
                        q[eqatom(e, S(x))] = v[0] == "eq"
            for t, d in s.dom.items():
                if e in t.subs():
                    z = d & IS.of([0])
                    if d == IS.of([0]) or not z:
                        q[T("eq0", t)] = bool(z)
            out = {}
            for t, v in q.items():
                h = subst(t, lambda x: HOLE if x is e else None)
                if not any(l == pos.a[0] for l in h.loops()):
                    out[h] = v
            return out
        inside = [quals(s) for k, s in backs[k0] if k == k0]
        flags = [quals(s) for k, s in backs[k0] if k != k0]
        outs = [(s, quals(s)) for kind, s in results[k0][0] if kind == "break"] + [(r[0], quals(r[0])) for r in results[k0][3]]
        if not inside:
            return
        for q, v in inside[0].items():
            if not all(x.get(q) == v for x in inside) or not all(x.get(q) == (not v) for x in flags):
                continue
            if not flags and not any(x.get(q) == (not v) for _, x in outs):
                continue
            p = q if not v else neg(q)
            t = models.anyof(self, e.a[0], p)

            def put(s, val):
                x, vv = t, val
                while x.op == "not":
                    x, vv = x.a[0], not vv
                s.facts.setdefault(x, vv)
            for s, x in outs:
                if x.get(q) == (not v):
                    put(s, True)
            for k in order:
                ex, _, th, rt, _, _ = results[k]
                for kind, s in ex:
                    if k != k0:
                        put(s, True)
                    elif kind == "cond" and self.at_end(s, pos, e.a[0]):
                        put(s, False)
                if k != k0:
                    for r in rt:
                        put(r[0], True)

    def at_end(self, s, pos, seq):
        return self.knows(s, self.compare(s, "==", pos, self.size(seq))) or self.knows(s, self.compare(s, ">=", pos, self.size(seq)))

    def knows(self, st, v):
        r = set(b for _, b in self.truth(st, v))
        return r == {True}

    def next_iter(self, lid, h0, h, b, changed, entry, tracked):
        """State at the loop header after the back-edge state b."""
        s = h0.copy()
        for l in tracked:
            if l in b.store:
                s.store[l] = b.store[l]
        s.trace = h0.trace
        s.notes = b.notes
        keychg = any(b.store.get(l) is not h.store.get(l) for l in tracked)

        def keep(t):
            return lid not in t.loops()
        s.facts = {}
        s.dom = {}
        s.sdom = {}
        if keychg:
            # the iteration that raised a flag becomes the witness iteration
            w = lid + "!w"

            def ren(t):
                return subst(t, lambda x: T("phi", w, *x.a[1:]) if x.op == "phi" and x.a[0] == lid else
                             T("sym", tuple(w if q == lid else q for q in x.a[0]), *x.a[1:]) if x.op == "sym" and lid in x.a[0] else None)
            for src, dst in ((b.facts, s.facts), (b.dom, s.dom), (b.sdom, s.sdom)):
                for t, v in src.items():
                    if keep(t):
                        if w not in t.loops():
                            dst[t] = v
                    else:
                        t2 = ren(t)
                        if t in TR:
                            TR.setdefault(t2, TR[t])
                        dst[t2] = v
        else:
            for src, dst in ((b.facts, s.facts), (b.dom, s.dom), (b.sdom, s.sdom)):
                for t, v in src.items():
                    if keep(t):
                        dst[t] = v
        # domain of changed integers: join over iterations of what the body leaves
        for loc in changed:
            pv = s.store.get(loc)
            nv = b.store.get(loc)
            if pv is None or nv is None:
                continue
            for p, q in self.phi_pairs(pv, nv):
                if p.op == "phi" and self.intlike(q):
                    d = self.dom(b, q)
                    if d != FULL and d != self.base_range(p):
                        s.dom[p] = d
                elif p.op == "phi" and q.op != "phi":
                    # sizes of sequences
                    dz = self.dom(b, self.size(q))
                    if dz.lo() > 0:
                        s.dom[T("size", p)] = dz
        return s

    def phi_pairs(self, pv, nv):
        if pv.op == "it" and nv.op == "it":
            return [(pv.a[2], nv.a[2])]
        if pv.op == "ptr" and nv.op == "ptr":
            return [(pv.a[1], nv.a[1])]
        return [(pv, nv)]

    def entry_dom(self, h0, entry, changed):
        pass

    def loop_body(self, n, h, cond, body, inc, post, var, L, first):
        throws, rets, gotos = [], [], []
        K2 = Coll(None, throws=throws, rets=rets, gotos=gotos, brks=[], conts=[])
        exits = []
        h = h.copy()
        # domains of loop values on entry to the first iteration are joined by push()
        if post:
            starts = [h]
        else:
            starts = []
            sts = [h]
            if var:
                sts = [s2 for s in sts for s2 in self.declare(var, s, K2)]
            for s in sts:
                if cond is None:
                    starts.append(s)
                    continue
                for s2, b in self.cond(cond, s, K2):
                    if b:
                        starts.append(s2)
                    else:
                        exits.append(("cond", s2))
        starts = self.dedupe(starts)
        ends = self.ex(body, starts, K2) if starts else []
        ends = self.dedupe(ends + K2.conts)
        backs = []
        if post:
            for s in ends:
                for s2, b in self.cond(cond, s, K2):
                    if b:
                        backs.append(s2)
                    else:
                        exits.append(("cond", s2))
        else:
            if inc is not None:
                nb = []
                for s in ends:
                    nb += [s2 for s2, _ in self.ev(inc, s, K2)]
                ends = nb
            backs = ends
        exits += [("break", s) for s in K2.brks]
        if var:
            exits = [(k, s2) for k, s in exits for s2 in self.scope_exit(s, [var], K2)]
            backs = [s2 for s in backs for s2 in self.scope_exit(s, [var], K2)]
        return exits, self.dedupe(backs), throws, rets, gotos

    def summarise(self, L, st, changed, kind):
        """Replace append-only loop values in an exit state by  entry value . star(loop)."""
        st = st.copy()
        sub_ = {}
        for loc in changed:
            ini = L.init.get(loc)
            if ini is None:
                continue
            p = T("phi", L.lid, loc, tuple(self.loopstack))
            if ini.op in ("it", "ptr", "alias") or (self.intlike(ini) and ini.op != "str"):
                continue
            m = self.map_summary(L, loc, ini, p, st, kind)
            if m is not None:
                sub_[p] = m
                continue
            ok = bool(L.alts)
            deltas = []
            for a in L.alts:
                v = a.get(loc)
                ps = parts(v) if v is not None else None
                if not ps or ps[0] is not p or any(p in q.subs() for q in ps[1:]):
                    ok = False
                    break
                deltas.append(cat(*ps[1:]) if len(ps) > 1 else EMPTY)
            if not ok:
                continue
            m = self.copy_summary(L, deltas, st, kind)
            if m is not None:
                sub_[p] = cat(ini, m)
                continue
            sub_[p] = cat(ini, T("star", L.lid, loc))
            L.stars = getattr(L, "stars", {})
            L.stars[loc] = deltas
        if sub_:
            # bodies of other loops keep the loop value; only the store is rewritten
            memo = {}
            for k, v in list(st.store.items()):
                nv = subst(v, lambda x: sub_.get(x), memo)
                if nv is not v:
                    st.store[k] = nv
            for attr in ("facts", "dom", "sdom"):
                src = getattr(st, attr)
                new = {}
                for t, v in src.items():
                    new[subst(t, lambda x: sub_.get(x), memo)] = v
                setattr(st, attr, new)
        return st

    def copy_summary(self, L, deltas, st, kind):
        """What a loop over a whole sequence appends, when each turn appends the image of the element it looks at
        (or, for characters, leaves out those of a set): the image of the sequence."""
        from . import models
        if kind != "cond":
            return None
        e = bodies = None
        skip, keep = IS.of([]), IS.of([])
        for d, s, a in zip(deltas, L.altst, L.alts):
            if d is EMPTY:
                continue
            x = d.a[0] if d.op in ("chs", "item") and len(d.a) == 1 else None
            if x is None:
                return None
            es = [t for t in x.subs() if t.op in ("chat", "elv") and t.a[1].op == "phi" and t.a[1].a[0] == L.lid]
            if not es or any(t is not es[0] for t in es) or e is not None and es[0] is not e:
                return None
            e = es[0]
            if (e.op == "elv") != (d.op == "item") or e.op == "elv" and e.a[2] != "f":
                return None
            b = subst(x, lambda y: HOLE if y is e else None)
            if bodies is not None and b is not bodies or L.lid in b.loops():
                return None
            bodies = b
        if e is None or L.lid in e.a[0].loops():
            return None
        pos = e.a[1]
        il = pos.a[1].a[0] if pos.a[1].op == "off" else pos.a[1]
        start = L.init.get(il)
        if start is None:
            return None
        for d, s, a in zip(deltas, L.altst, L.alts):
            nxt = a.get(il)
            if nxt is None:
                return None
            if (nxt.a[2] if nxt.op == "it" else nxt) is not add(pos, I(1)):
                return None
            if e.op == "chat":
                if d is EMPTY:
                    skip = skip | self.dom(s, e)
                else:
                    keep = keep | self.dom(s, e)
            elif d is EMPTY:
                return None
        if (start.a[2] if start.op == "it" else start) is not I(0) or not self.at_end(st, pos, e.a[0]):
            return None
        src = e.a[0]
        if e.op == "elv":
            return models.map1(src, bodies)
        if skip & keep:
            return None
        if skip:
            src = T("strip", src, frozenset(skip.values()))
        if bodies is HOLE:
            return src
        if bodies is T("tolower", HOLE):
            return models.lower(src)
        return None

    def map_summary(self, L, loc, ini, p, st, kind):
        """A loop that rewrites every element of a container in place from its old value."""
        if kind != "cond" or not L.alts:
            return None
        body = None
        isstr = False
        for a in L.alts:
            v = a.get(loc)
            if v is None or v.op not in ("setel", "setch") or v.a[0] is not p:
                return None
            pos = v.a[1]
            if v.op == "setel":
                if v.a[2] != "f":
                    return None
                elts = (T("elv", ini, pos, "f"), T("elv", p, pos, "f"))
                nv = v.a[3]
            else:
                elts = (T("chat", ini, pos), T("chat", p, pos))
                nv = v.a[2]
                isstr = True
            if pos.op != "phi" or pos.a[0] != L.lid:
                return None
            il = pos.a[1].a[0] if pos.a[1].op == "off" else pos.a[1]
            nxt, start = a.get(il), L.init.get(il)
            if nxt is None or start is None:
                return None
            if nxt.op == "it":
                nxt = nxt.a[2]
            if start.op == "it":
                start = start.a[2]
            if nxt is not add(pos, I(1)) or start is not I(0):
                return None
            b = subst(nv, lambda x: HOLE if x in elts else None)
            if L.lid in b.loops() or (body is not None and b is not body):
                return None
            body = b
        # the loop ends only at the end of the container
        end = False
        for z in (self.size(ini), self.size(p)):
            rs = self.truth(st, self.compare(st, "==", pos, z))
            end = end or (len(rs) == 1 and rs[0][1])
        if not end:
            return None
        from . import models
        if isstr:
            if body is T("tolower", HOLE):
                return models.lower(ini)
            return T("map1", ini, body)
        return models.map1(ini, body)

    # -------------------------------------------------------------- expressions
    def ev(self, n, st, K):
        if n["e"] == "#native":
            return n["f"](st)
        m = getattr(self, "e_" + n["e"], None)
        if "cv" in n and n["e"] not in ("call", "ref", "int"):
            return [(st, I(int(n["cv"])))]
        if m is None:
            return self.e_opaque(n, st, K)
        return m(n, st, K)

    def evs(self, ns, st, K):
        """Evaluate a list of expressions left to right."""
        outs = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(n, s, K):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def rval(self, n, st, K):
        """Evaluate to a value whatever the value category."""
        out = []
        for s, v in self.ev(n, st, K):
            if n.get("vc") in ("l", "x"):
                v = self.read(s, v, n.get("t"))
            out.append((s, v))
        return out

    def e_opaque(self, n, st, K):
        outs = self.evs(n.get("args", []), st, K)
        r = []
        for s, vs in outs:
            s = s.copy()
            s.note("unmodelled expression %s at %s:%s" % (n.get("kind", n["e"]), self.frame.fn["q"], n.get("l")))
            r.append((s, self.fresh("opaque", n)))
        return r

    def e_int(self, n, st, K):
        return [(st, I(int(n["v"])))]

    def e_float(self, n, st, K):
        return [(st, T("flt", n["v"]))]

    def e_str(self, n, st, K):
        loc = T("strlit", n.get("v", ""))
        return [(st, loc)]

    def e_null(self, n, st, K):
        return [(st, NULL)]

    def e_zero(self, n, st, K):
        ty = n["t"]
        if ty.get("k") == "ptr":
            return [(st, NULL)]
        if ty.get("k") in ("bi", "enum"):
            return [(st, I(0))]
        if is_str(ty):
            return [(st, EMPTY)]
        return [(st, T("zeroed", ty.get("s", "")))]

    def e_sizeof(self, n, st, K):
        return [(st, I(int(n.get("cv", 0))))]

    def e_this(self, n, st, K):
        t = self.frame.this
        return [(st, T("addr", t) if t is not None else NULL)]

    def e_fn(self, n, st, K):
        return [(st, T("fnref", n["fn"]["m"], n["fn"]["q"]))]

    def e_ref(self, n, st, K):
        loc = self.lookup(n)
        v = st.store.get(loc)
        if v is not None and v.op == "alias":
            return [(st, v.a[0])]
        if loc.op == "valloc":
            return [(st, loc)]
        return [(st, loc)]

    def e_mem(self, n, st, K):
        out = []
        for s, b in self.ev(n["b"], st, K):
            if n["arrow"]:
                b = self.deref(b)
            elif n["b"].get("vc") == "p":
                # member of a prvalue
                s = s.copy()
                tl = T("tmp", self.frame.ctx, n["sid"])
                self.write(s, tl, b, n["b"].get("t"))
                b = tl
            out.append((s, self.member(s, b, n["f"])))
        return out

    def member(self, st, b, f):
        if b.op == "mel":
            if f == "second":
                return b
            if f == "first":
                return T("valloc", b.a[1])
        if b.op == "pairloc":
            return b.a[0] if f == "first" else b.a[1]
        if b.op == "valloc" and b.a[0].op == "rec":
            return T("valloc", self.getf(b.a[0], f))
        if f in ("first", "second"):
            pv = b.a[0] if b.op == "valloc" else st.store.get(b)
            if pv is not None and pv.op == "pair":
                return T("valloc", pv.a[0 if f == "first" else 1])
        loc = fld(b, f)
        v = st.store.get(loc)
        if v is not None and v.op == "alias":
            return v.a[0]
        if v is None:
            # reference members of unknown objects
            ft = self.ref_fields().get(f)
            if ft:
                bv = st.store.get(b)
                return T("refd", loc)
        return loc

    def ref_fields(self):
        r = getattr(self, "_reff", None)
        if r is None:
            r = self._reff = {}
            for rec in self.prog.recs.values():
                for f in rec["fields"]:
                    if f["t"].get("k") in ("ref", "rref"):
                        r[f["n"]] = rec["q"]
        return r

    def deref(self, p):
        if p.op == "addr":
            return p.a[0]
        if p.op == "ptr":
            reg, off = p.a
            return T("at", reg, off)
        if p.op == "mit":
            return T("mel", p.a[0], p.a[2])
        if p.op == "it":
            return self.elof(p)
        return T("deref", p)

    def elof(self, it):
        """Where the element an iterator is at lives."""
        loc, cv, pos, d = it.a
        if parts(cv)[-1:] and parts(cv)[-1].op == "item" and isinstance(pos, T):
            v = self.elem(None, cv, pos, d)
            if v.op == "objref":
                return v.a[0]
        return T("el", loc, cv, pos, d)

    def e_tmp(self, n, st, K):
        loc = T("tmp", self.frame.ctx, n["sid"])
        out = []
        x = n["x"]
        if x.get("e") == "ctor":
            s0 = st.copy()
            self.kill(s0, loc)
            return self.do_ctor(x, s0, K, loc, n.get("t"), want_loc=True)
        for s, v in self.ev(x, st, K):
            s = s.copy()
            self.kill(s, loc)
            self.write(s, loc, v, n.get("t"))
            out.append((s, loc))
        return out

    def e_stdinit(self, n, st, K):
        out = []
        for s, v in self.ev(n["x"], st, K):
            if n["x"].get("vc") in ("l", "x"):
                v = self.read(s, v, n["x"].get("t"))
            if v.op == "arr":
                v = cat(*[item(x) for x in v.a[0]]) if v.a[0] else NIL
            out.append((s, v))
        return out

    def e_cast(self, n, st, K):
        ck = n["ck"]
        x = n["x"]
        if ck == "LValueToRValue":
            out = []
            for s, l in self.ev(x, st, K):
                out.append((s, self.read(s, l, n.get("t"))))
            return out
        if ck == "ArrayToPointerDecay":
            out = []
            for s, l in self.ev(x, st, K):
                if l.op == "strlit":
                    out.append((s, T("ptr", T("data", S(l.a[0])), I(0))))
                else:
                    out.append((s, T("ptr", l, I(0))))
            return out
        out = []
        for s, v in self.ev(x, st, K):
            out.append((s, self.cast(s, v, ck, n["t"], x.get("t"), n)))
        return out

    def cast(self, st, v, ck, ty, fty, n):
        if ck in ("IntegralCast",):
            return self.intcast(st, v, ty)
        if ck in ("IntegralToBoolean",):
            if v.op == "int":
                return I(v.a[0] != 0)
            if self.base_range(v) <= IS.rng(0, 1):
                return v
            return neg(T("eq0", v))
        if ck == "PointerToBoolean":
            return neg(self.compare(st, "==", v, NULL))
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            return T("void")
        return v

    def intcast(self, st, v, ty):
        r = rng(ty)
        if r is None:
            return v
        if v.op == "int":
            x = v.a[0]
            if ty.get("bool"):
                return I(x != 0)
            b = ty.get("bits")
            if b:
                x &= (1 << b) - 1
                if not ty.get("uns") and x >> (b - 1):
                    x -= 1 << b
            return I(x)
        if self.dom(st, v) <= r:
            return v
        b = ty.get("bits")
        if not b:
            return v
        # widening to a larger type of other signedness keeps small non-negative values; sizes are assumed to fit
        if v.op == "size" and b >= 32 or (v.op == "lin" and b >= 64):
            return v
        return T("cast", b, bool(ty.get("uns")), v)

    def e_un(self, n, st, K):
        op = n["op"]
        x = n["x"]
        if op == "*":
            out = []
            for s, p in self.rval(x, st, K):
                if p.op == "ptr":
                    self.log.append(("aidx", s, (p, I(0), p, n), None))
                out.append((s, self.deref(p)))
            return out
        if op == "&":
            out = []
            for s, l in self.ev(x, st, K):
                if l.op == "fnref":
                    out.append((s, l))
                elif l.op == "at":
                    out.append((s, T("ptr", l.a[0], l.a[1])))
                else:
                    out.append((s, T("addr", l) if self.arrayloc(x) is False else T("ptr", l, I(0))))
            return out
        if op == "!":
            out = []
            for s, v in self.rval(x, st, K):
                out.append((s, neg(self.asbool(s, v))))
            return out
        if op in ("++", "--"):
            out = []
            for s, l in self.ev(x, st, K):
                old = self.read(s, l, x.get("t"))
                new = self.arith(s, "+" if op == "++" else "-", old, I(1), n["t"])
                s = s.copy()
                self.write(s, l, new)
                if n.get("post"):
                    out.append((s, old))
                else:
                    out.append((s, l if n.get("vc") == "l" else new))
            return out
        if op == "-":
            return [(s, mulc(v, -1) if v.op != "flt" else v) for s, v in self.rval(x, st, K)]
        if op == "+":
            return self.rval(x, st, K)
        if op == "~":
            return [(s, I(~v.a[0]) if v.op == "int" else T("bnot", v)) for s, v in self.rval(x, st, K)]
        return self.e_opaque({"e": "opaque", "kind": "unary " + op, "args": [x], "sid": n["sid"], "l": n.get("l")}, st, K)

    def arrayloc(self, x):
        t = x.get("t")
        return bool(t and t.get("k") == "arr")

    def asbool(self, st, v):
        if v.op in ("eq", "eq0", "le0", "has", "hasin", "any", "not", "and", "or"):
            return v
        if v.op == "int":
            return I(v.a[0] != 0)
        if self.intlike(v):
            if self.base_range(v) <= IS.rng(0, 1):
                return v
            return neg(T("eq0", v))
        if v.op in ("ptr", "addr"):
            return TRUE
        if v is NULL:
            return FALSE
        return neg(eqatom(v, NULL))

    def e_bin(self, n, st, K):
        op = n["op"]
        if op == ",":
            out = []
            for s, _ in self.ev(n["x"], st, K):
                out += self.ev(n["y"], s, K)
            return out
        if op in ("&&", "||"):
            return [(s, TRUE if b else FALSE) for s, b in self.cond(n, st, K)]
        out = []
        for s, a in self.rval(n["x"], st, K):
            for s2, b in self.rval(n["y"], s, K):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    for s3, a3 in self.wrapped(n["x"], s2, a) if op not in ("==", "!=") else [(s2, a)]:
                        for s4, b3 in self.wrapped(n["y"], s3, b) if op not in ("==", "!=") else [(s3, b)]:
                            out.append((s4, self.compare(s4, op, a3, b3)))
                else:
                    out.append((s2, self.arith(s2, op, a, b, n["t"])))
        return out

    def wrapped(self, x, st, v):
        """An unsigned 'number - constant' about to be ordered: below zero it wraps around."""
        while x.get("e") in ("paren", "cast") and "x" in x and x.get("ck") in (None, "LValueToRValue", "NoOp"):
            x = x["x"]
        t = x.get("t") or {}
        if x.get("e") != "bin" or x.get("op") != "-" or not t.get("uns") or t.get("bits", 0) < 32 or v.op != "lin":
            return [(st, v)]
        y = x["y"]
        while y.get("e") == "cast" and "x" in y and "cv" not in y:
            y = y["x"]
        if "cv" not in y and y.get("e") != "int" or any(u.op in ("find", "findset", "rfindset", "rfind") for u in v.subs()):
            return [(st, v)]
        return [(s, add(v, I(1 << t["bits"])) if neg_ else v) for s, neg_ in self.truth(st, self.compare(st, "<", v, I(0)))]

    def arith(self, st, op, a, b, ty):
        if a.op == "it" and op in ("+", "-"):
            if b.op == "it":
                if a.a[1] is b.a[1]:
                    return sub(a.a[2], b.a[2])
                return self.fresh("itdiff", None)
            return T("it", a.a[0], a.a[1], add(a.a[2], b, 1 if op == "+" else -1), a.a[3])
        if a.op == "ptr" and op in ("+", "-"):
            if b.op == "ptr":
                if a.a[0] is b.a[0]:
                    return sub(a.a[1], b.a[1])
                return T("pdiff", a, b)
            return T("ptr", a.a[0], add(a.a[1], b, 1 if op == "+" else -1))
        if b.op == "ptr" and op == "+":
            return T("ptr", b.a[0], add(b.a[1], a))
        if op in ("+", "-") and not self.intlike(a) and a.op not in ("int", "flt") and ty and ty.get("k") == "ptr":
            return T("ptr", a, mulc(b, 1 if op == "+" else -1))
        if a.op == "flt" or b.op == "flt":
            return T("fop", op, a, b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if a.op == "int" and b.op == "int":
            r = intop({"*": "mul", "/": "div", "%": "mod", "&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr"}[op],
                      a.a[0], b.a[0])
            if r is not None:
                return I(r)
        if op == "*":
            if b.op == "int":
                return mulc(a, b.a[0])
            if a.op == "int":
                return mulc(b, a.a[0])
            return T("mul", a, b)
        nm = {"/": "div", "%": "mod", "&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr"}[op]
        t = T(nm, a, b)
        if nm == "band":
            for x in (a, b):
                if x.op == "int" and x.a[0] >= 0:
                    TR.setdefault(t, IS.rng(0, x.a[0]))
        r = rng(ty)
        if r is not None:
            TR.setdefault(t, r)
        return t

    def e_asg(self, n, st, K):
        out = []
        # right operand first (C++17 order; no interference in practice)
        for s, v in self.rval(n["y"], st, K):
            for s2, l in self.ev(n["x"], s, K):
                s2 = s2.copy()
                self.write(s2, l, v, n["x"].get("t"))
                out.append((s2, l))
        return out

    def e_casg(self, n, st, K):
        out = []
        for s, v in self.rval(n["y"], st, K):
            for s2, l in self.ev(n["x"], s, K):
                old = self.read(s2, l, n["x"].get("t"))
                new = self.arith(s2, n["op"], old, v, n["t"])
                if self.intlike(new) and new.op != "int":
                    pass
                s2 = s2.copy()
                self.write(s2, l, new)
                out.append((s2, l))
        return out

    def e_cond(self, n, st, K):
        out = []
        for s, b in self.cond(n["c"], st, K):
            br = n["x"] if b else n["y"]
            for s2, v in self.ev(br, s, K):
                if n.get("vc") == "p" and br.get("vc") in ("l", "x"):
                    v = self.read(s2, v, br.get("t"))
                elif n.get("vc") in ("l", "x") and br.get("vc") == "p":
                    pass
                out.append((s2, v))
        return out

    def e_idx(self, n, st, K):
        out = []
        for s, b in self.rval(n["b"], st, K):
            for s2, i in self.rval(n["i"], s, K):
                p = self.arith(s2, "+", b, i, {"k": "ptr"})
                self.log.append(("aidx", s2, (b, i, p, n), None))
                out.append((s2, self.deref(p)))
        return out

    def e_ilist(self, n, st, K):
        ty = n["t"]
        if ty.get("k") == "arr":
            out = []
            for s, vs in self.evs(n["args"], st, K):
                vals = []
                for v, a in zip(vs, n["args"]):
                    if a.get("vc") in ("l", "x"):
                        v = self.read(s, v, a.get("t"))
                    vals.append(v)
                if len(vals) < ty["len"] and ty["len"] <= 4096:
                    zero = I(0)
                    vals += [zero] * (ty["len"] - len(vals))
                out.append((s, T("arr", tuple(vals))))
            return out
        if is_rec(ty):
            r = self.prog.recs.get(ty["n"])
            out = []
            for s, vs in self.evs(n["args"], st, K):
                fs = []
                for f, v, a in zip(r["fields"], vs, n["args"]):
                    if a.get("vc") in ("l", "x"):
                        v = self.read(s, v, a.get("t"))
                    fs.append((f["n"], v))
                out.append((s, T("rec", ty["n"], tuple(fs))))
            return out
        if len(n["args"]) == 1:
            return self.rval(n["args"][0], st, K)
        if not n["args"]:
            return self.e_zero(n, st, K)
        return self.e_opaque(n, st, K)

    def e_lambda(self, n, st, K):
        outs = [(st, [])]
        for c in n["caps"]:
            nxt = []
            for s, cs in outs:
                if c.get("this"):
                    nxt.append((s, cs + [("this", T("addr", self.frame.this))]))
                elif c.get("ref"):
                    for s2, l in self.ev(c["init"], s, K):
                        nxt.append((s2, cs + [(c["d"]["id"], T("alias", l))]))
                else:
                    for s2, v in self.rval(c["init"], s, K):
                        nxt.append((s2, cs + [(c["d"]["id"], v)]))
            outs = nxt
        return [(s, T("lam", n["tu"], n["cls"], tuple(cs))) for s, cs in outs]

    def e_throw(self, n, st, K):
        x = n.get("x")
        if x is None:
            cur = getattr(self, "_cur_exc", [])
            if cur:
                K.throws.append((st, cur[-1]))
            else:
                K.throws.append((st, Exc("?", None, n, self.frame.fn["q"])))
            return []
        ty = n.get("xt") or x.get("t")
        loc = T("exc", self.frame.ctx, n["sid"])
        if x.get("e") == "ctor":
            r = self.do_ctor(x, st, K, loc, ty)
            for s, _ in r:
                K.throws.append((s, Exc(ty.get("n"), loc, n, self.frame.fn["q"])))
        else:
            for s, v in self.rval(x, st, K):
                s = s.copy()
                self.write(s, loc, v, ty)
                K.throws.append((s, Exc(ty.get("n") or ty.get("s"), loc, n, self.frame.fn["q"])))
        return []

    def e_new(self, n, st, K):
        loc = T("heap", self.loopstack, n["sid"], self.frame.ctx)
        ty = n["at"]
        outs = [(st, None)]
        if n.get("arr"):
            outs = self.rval(n["n"], st, K) if n.get("n") else [(st, None)]
        res = []
        for s, cnt in outs:
            s = s.copy()
            self.kill(s, loc)
            if n.get("arr"):
                s.store[loc] = T("newarr", cnt if cnt is not None else I(0), loc)
                self.heapsize[loc] = (cnt, unref(ty))
                p = T("ptr", loc, I(0))
                h = self.opaque.get("#new")
                if h:
                    s = h(self, s, p, "new[]", n)
                res.append((s, p))
                continue
            ss = [s]
            if n.get("init"):
                ss = self.init_loc(loc, ty, n["init"], s, K)
            for s2 in ss:
                p = T("addr", loc)
                h = self.opaque.get("#new")
                if h:
                    s2 = h(self, s2, p, "new", n)
                res.append((s2, p))
        return res

    def e_delete(self, n, st, K):
        out = []
        for s, p in self.rval(n["x"], st, K):
            h = self.opaque.get("#free")
            if h:
                for s2 in h(self, s, p, "delete[]" if n.get("arr") else "delete", n):
                    out.append((s2, T("void")))
            else:
                out.append((s, T("void")))
        return out

    def e_stmtexpr(self, n, st, K):
        return [(s, T("void")) for s in self.ex(n["s"], [st], K)]

    def e_memfn(self, n, st, K):
        out = []
        for s, b in self.ev(n["b"], st, K):
            out.append((s, T("fnref", n["fn"]["m"], n["fn"]["q"]) if n.get("fn") else self.fresh("memfn", n)))
        return out

    # -------------------------------------------------------------- constructors
    def e_ctor(self, n, st, K):
        """Prvalue of class type: evaluate into a value."""
        ty = n["t"]
        if is_rec(ty):
            loc = T("tmp", self.frame.ctx, n["sid"])
            s0 = st.copy()
            self.kill(s0, loc)
            out = []
            for s, _ in self.do_ctor(n, s0, K, loc, ty):
                v = self.read(s, loc, ty)
                if v.op == "recinit":
                    v = T("rec", ty["n"], tuple((f["n"], self.read(s, fld(loc, f["n"]), f["t"]))
                                                for f in self.prog.recs[ty["n"]]["fields"]))
                s = s.copy()
                self.kill(s, loc)
                out.append((s, v))
            return out
        out = []
        for s, v in self.ctor_value(n, st, K):
            out.append((s, v))
        return out

    def do_ctor(self, n, st, K, loc, ty=None, want_loc=False):
        """Construct into loc; returns [(state, loc)]."""
        fn = n["fn"]
        ty = n["t"] or ty
        args = n["args"]
        if (fn.get("lambda") or (ty or {}).get("lambda")) and len(args) == 1:
            return [(self.set1(s, loc, v), loc) for s, v in self.rval(args[0], st, K)]
        if is_rec(ty) or fn.get("repo"):
            # copy / move of a whole record
            if (fn.get("copy") or fn.get("move")) and len(args) >= 1:
                f = self.prog.fns.get(fn["m"])
                if not f or not f.get("body") or f.get("dflt"):
                    out = []
                    for s, v in self.rval(args[0], st, K):
                        s = s.copy()
                        self.write(s, loc, v, ty)
                        out.append((s, loc))
                    return out
            f = self.prog.fns.get(fn["m"])
            if f is not None and fn["q"] not in self.opaque:
                out = []
                for s, vs in self.evs(args, st, K):
                    out += [(s2, loc) for s2, _ in self.inline(f, s, loc, vs, args, K, n)]
                return out
            if fn["q"] in self.opaque:
                out = []
                for s, vs in self.evs(args, st, K):
                    c = Call(self, n, fn, loc, vs, args, K)
                    out += [(s2, loc) for s2, _ in self.opaque[fn["q"]](self, s, c)]
                return out
            # implicit default constructor: members
            out = []
            for s, vs in self.evs(args, st, K):
                sts = [s]
                r = self.prog.recs.get(fn.get("cls"))
                if r:
                    for fdef in r["fields"]:
                        sts = [s3 for s2 in sts for s3 in self.default_init(fdef, fld(loc, fdef["n"]), s2, K, n.get("zero"))]
                out += [(s2, loc) for s2 in sts]
            return out
        out = []
        for s, v in self.ctor_value(n, st, K):
            s = s.copy()
            if v.op in ("newstream", "newfile"):
                s.store[loc] = T("stream")
                s.store[fld(loc, "#src")] = v.a[0]
                s.store[fld(loc, "#pos")] = I(0)
                fl = I(0)
                if v.op == "newfile":
                    fl = T("openfail", v.a[0])
                    TR.setdefault(fl, IS.rng(0, 1))
                s.store[fld(loc, "#fail")] = fl
            elif v.op == "bytevec":
                s.store[loc] = T("newarr", v.a[0], loc)
                s.store[fld(loc, "#cnt")] = v.a[0]
            else:
                s.store[loc] = v
            out.append((s, loc))
        return out

    def default_init(self, fdef, loc, st, K, zero):
        ty = fdef["t"]
        if fdef.get("init"):
            return self.init_loc(loc, ty, fdef["init"], st, K)
        if is_str(ty):
            return [self.set1(st, loc, EMPTY)]
        c = cls(ty)
        if c in SEQCLS or c in MAPCLS:
            return [self.set1(st, loc, NIL)]
        if c == "std::shared_ptr":
            return [self.set1(st, loc, NULL)]
        if c == "std::function":
            return [self.set1(st, loc, NULL)]
        if zero and ty.get("k") in ("bi", "enum"):
            return [self.set1(st, loc, I(0))]
        if zero and ty.get("k") == "ptr":
            return [self.set1(st, loc, NULL)]
        if ty.get("k") in ("bi", "enum", "ptr"):
            return [self.set1(st, loc, typed(T("undef", loc), ty))]
        if is_rec(ty):
            r = self.prog.recs.get(ty["n"])
            cf = [f for f in self.prog.fn(ty["n"] + "::" + ty["n"].split("::")[-1], 0)]
            if cf:
                return [s for s, _ in self.inline(cf[0], st, loc, [], [], K, fdef)]
            sts = [st]
            for f2 in r["fields"]:
                sts = [s3 for s2 in sts for s3 in self.default_init(f2, fld(loc, f2["n"]), s2, K, zero)]
            return sts
        return [self.set1(st, loc, T("newobj", c or "?"))]

    def ctor_value(self, n, st, K):
        """Value of a library-class construction."""
        fn = n["fn"]
        out = []
        if n.get("elid") or fn.get("lambda") or (unref(n.get("t")) or {}).get("lambda"):
            if len(n["args"]) == 1:
                return self.rval(n["args"][0], st, K)
        for s, vs in self.evs(n["args"], st, K):
            c = Call(self, n, fn, None, vs, n["args"], K)
            out += self.dispatch(s, c)
        return out

    # -------------------------------------------------------------- calls
    def e_call(self, n, st, K):
        fn = n.get("fn")
        out = []
        if fn is None:
            # call through a value
            for s, f in self.rval(n["callee"], st, K):
                for s2, vs in self.evs(n["args"], s, K):
                    out += self.call_value(s2, f, vs, n["args"], K, n)
            return out
        objs = [(st, None)]
        if "obj" in n:
            objs = []
            ob = n["obj"]
            for s, o in self.ev(ob, st, K):
                if n.get("arrow"):
                    if ob.get("vc") in ("l", "x"):
                        o = self.read(s, o, ob.get("t"))
                    o = self.deref(o)
                elif ob.get("vc") == "p":
                    if ob.get("t", {}).get("k") == "ptr":
                        o = self.deref(o)
                    else:
                        s = s.copy()
                        tl = T("tmp", self.frame.ctx, ob["sid"])
                        self.kill(s, tl)
                        self.write(s, tl, o, ob.get("t"))
                        o = tl
                objs.append((s, o))
        for s, o in objs:
            for s2, vs in self.evs(n["args"], s, K):
                c = Call(self, n, fn, o, vs, n["args"], K)
                out += self.dispatch(s2, c)
        return out

    def dispatch(self, st, c):
        self.ncalls += 1
        q = c.q
        fn = c.fn
        h = self.opaque.get(q) or self.opaque.get(c.nq)
        if h is not None:
            return h(self, st, c)
        # lambda call operator
        if fn.get("lambda") and fn.get("op") == "()":
            v = self.read(st, c.obj)
            return self.call_value(st, v, c.args, c.argn, c.K, c.node)
        if fn.get("repo") and fn["m"] in self.prog.fns and self.prog.fns[fn["m"]].get("body") is not None:
            f = self.prog.fns[fn["m"]]
            if fn.get("dflt") and (fn.get("copyasg") or fn.get("moveasg")):
                st = st.copy()
                ty = {"k": "rec", "repo": True, "n": fn["cls"]}
                v = c.v(st, 0)
                self.write(st, c.obj, v, ty)
                return [(st, c.obj)]
            return self.inline(f, st, c.obj, c.args, c.argn, c.K, c.node)
        if fn.get("dflt") and (fn.get("copyasg") or fn.get("moveasg")) and fn.get("repo"):
            st = st.copy()
            ty = {"k": "rec", "repo": True, "n": fn["cls"]}
            self.write(st, c.obj, c.v(st, 0), ty)
            return [(st, c.obj)]
        m = self.models.get(c.nq)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        return self.model_fallback(self, st, c)

    def inline(self, f, st, this, vs, argn, K, node):
        """Analyse a repository function in the calling context."""
        if len(self.frames) >= self.max_depth or sum(1 for fr in self.frames if fr.fn.get("m") == f["m"]) >= 2:
            return self.recursive(f, st, this, vs, argn, K, node)
        ctx = self.frame.ctx + "/" + str(node.get("sid", "?")).split("#")[-1] + "." + f["q"].split("::")[-1]
        fr = Frame(f, ctx, this=this)
        st = st.copy()
        self.frames.append(fr)
        plocs = []
        try:
            for p, v, a in zip(f["params"], vs, argn):
                loc = self.varloc(p["d"])
                plocs.append((loc, p))
                t = p["t"]
                self.loctype[loc] = t
                if t.get("k") in ("ref", "rref"):
                    if a.get("vc") in ("l", "x"):
                        st.store[loc] = T("alias", v)
                    else:
                        tl = fld(loc, "#tmp")
                        self.write(st, tl, v, t)
                        st.store[loc] = T("alias", tl)
                else:
                    if a.get("vc") in ("l", "x"):
                        v = self.read(st, v, a.get("t"))
                    if isinstance(v, T) and v.op != "int" and self.intlike(v) and rng(t) is not None:
                        v = self.intcast(st, v, t)
                    self.write(st, loc, v, t)
            if len(vs) > len(f["params"]):
                st.store[T("va", ctx)] = T("vargs", tuple(self.read(st, v, a.get("t")) if a.get("vc") in ("l", "x") else v
                                                       for v, a in list(zip(vs, argn))[len(f["params"]):]))
            K2 = Coll(None, throws=[], rets=[], brks=[], conts=[], gotos=[])
            self.enter(f, fr, [st], K2, node)
            rets = self.cleanup(K2.rets, ctx, f, K2, True)
            for s, e in self.cleanup(K2.throws, ctx, f, K2, False):
                K.throws.append((s, e))
        finally:
            self.frames.pop()
        return self.dedupe_rv(rets)

    def cleanup(self, outs, ctx, f, K, isret):
        res = []
        for s, v in outs:
            ks = [k for k in s.store if (root(k).op in ("v",) and root(k).a[0] == ctx) or (k.op == "va" and k.a[0] == ctx)]
            tmpk = [k for k in s.store if root(k).op == "tmp" and root(k).a[0] == ctx]
            if isret and isinstance(v, T) and v.op in ("v", "tmp", "fld", "el", "at", "chr"):
                r = root(v)
                if r.op in ("v", "tmp") and r.a[0] == ctx:
                    # reference to a dying local/temporary: keep it alive
                    ks = [k for k in ks if root(k) is not r]
                    tmpk = [k for k in tmpk if root(k) is not r]
            if ks or tmpk:
                s = s.copy()
                for k in ks + tmpk:
                    del s.store[k]
            res.append((s, v))
        return res

    def dedupe_rv(self, rs):
        if len(rs) < 2:
            return rs
        seen = set()
        out = []
        for s, v in rs:
            k = (s.sig(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > self.cap:
            raise AnalysisError("state explosion in a call (%d)" % len(out))
        return out

    def recursive(self, f, st, this, vs, argn, K, node):
        """Recursive call: opaque result, reference arguments forgotten; may throw."""
        st = st.copy()
        for p, v, a in zip(f["params"], vs, argn):
            t = p["t"]
            if t.get("k") in ("ref", "rref") and not t["to"].get("const") and a.get("vc") in ("l", "x"):
                self.havoc(st, v, t, f["q"], node)
        args = tuple(self.read(st, v, a.get("t")) if a.get("vc") in ("l", "x") else v for v, a in zip(vs, argn))
        K.throws.append((st, Exc("DKIM::PermanentError", None, node, f["q"], extra="recursion")))
        return [(st, typed(T("rcall", f["q"], args), f.get("ret")))]

    def call_value(self, st, f, vs, argn, K, node):
        """Call a closure, bind expression, function pointer or std::function value."""
        if f.op == "alias":
            f = self.read(st, f.a[0])
        if f.op in ("ptr",) and f.a[0].op == "v":
            f = self.read(st, f.a[0])
        if f.op == "addr":
            f = self.read(st, f.a[0])
        if f.op == "lam":
            tu, cid, caps = f.a
            ln = self.prog.lambdas.get((tu, cid))
            if ln and ln.get("fn"):
                fn = ln["fn"]
                ctx = self.frame.ctx + "/" + str(node.get("sid", "?")).split("#")[-1] + ".lambda%d" % cid
                cm = {}
                this = None
                st = st.copy()
                for d, v in caps:
                    if d == "this":
                        this = self.deref(v)
                    elif v.op == "alias":
                        cm[d] = v.a[0]
                    else:
                        # captured by value
                        l = T("v", ctx, "#cap", d)
                        st.store[l] = v
                        cm[d] = l
                fr = Frame(fn, ctx, this=this, caps=cm)
                self.frames.append(fr)
                try:
                    for p, v, a in zip(fn["params"], vs, argn):
                        loc = self.varloc(p["d"])
                        t = p["t"]
                        self.loctype[loc] = t
                        if t.get("k") in ("ref", "rref"):
                            if a.get("vc") in ("l", "x"):
                                st.store[loc] = T("alias", v)
                            else:
                                tl = fld(loc, "#tmp")
                                self.write(st, tl, v, t)
                                st.store[loc] = T("alias", tl)
                        else:
                            if a.get("vc") in ("l", "x"):
                                v = self.read(st, v, a.get("t"))
                            if self.intlike(v):
                                v = self.intcast(st, v, t)
                            self.write(st, loc, v, t)
                    K2 = Coll(None, throws=[], rets=[], brks=[], conts=[], gotos=[])
                    self.enter(fn, fr, [st], K2, node)
                    rets = self.cleanup(K2.rets, ctx, fn, K2, True)
                    K.throws += self.cleanup(K2.throws, ctx, fn, K2, False)
                finally:
                    self.frames.pop()
                return self.dedupe_rv(rets)
        if f.op == "bind":
            target, bargs = f.a
            nv, na = [], []
            for b in bargs:
                if b.op == "ph":
                    i = b.a[0] - 1
                    if i < len(vs):
                        nv.append(vs[i])
                        na.append(argn[i])
                        continue
                nv.append(b)
                na.append({"vc": "p", "t": None, "sid": node.get("sid"), "l": node.get("l")})
            return self.call_value(st, target, nv, na, K, node)
        if f.op == "fnref":
            fn = self.prog.fns.get(f.a[0])
            if fn and fn.get("body"):
                this = None
                if fn.get("cls") and not fn.get("static"):
                    o = vs[0]
                    if argn[0].get("vc") in ("l", "x"):
                        this = o if o.op != "alias" else o.a[0]
                        ov = st.store.get(this)
                        if ov is not None and ov.op == "addr":
                            this = ov.a[0]
                    else:
                        this = self.deref(o)
                    vs, argn = vs[1:], argn[1:]
                info = {"q": fn["q"], "m": fn["m"], "repo": True, "ps": [p["t"] for p in fn["params"]]}
                if fn["q"] in self.opaque:
                    c = Call(self, node, fn, this, vs, argn, K)
                    return self.opaque[fn["q"]](self, st, c)
                return self.inline(fn, st, this, vs, argn, K, node)
            # library function by pointer
            q = f.a[1]
            c = Call(self, node, {"q": q, "m": f.a[0], "ps": []}, None, vs, argn, K)
            h = self.opaque.get(q) or self.models.get(nq(q))
            if h:
                return h(self, st, c)
            return self.model_fallback(self, st, c)
        # unknown callable
        h = self.opaque.get("#callback")
        if h is not None:
            return h(self, st, f, vs, argn, K, node)
        st = st.copy()
        st.note("call through an unknown function value at %s:%s" % (self.frame.fn["q"], node.get("l")))
        return [(st, self.fresh("callback", node))]


class TooMany(Exception):
    pass


HOLE = T("hole")


def _ceil(a, b):
    return -((-a) // b)


def neg(v):
    if v.op == "int":
        return I(v.a[0] == 0)
    if v.op == "not":
        return v.a[0]
    return T("not", v)


def eqatom(a, b):
    if a is b:
        return TRUE
    if b.id < a.id:
        a, b = b, a
    return T("eq", a, b)


def mput(m, k, v):
    # overwriting the same key
    if m.op == "mput" and m.a[1] is k:
        m = m.a[0]
    return T("mput", m, k, v)


def below(k, loc):
    while k.op in ("fld", "at", "el", "mel", "chr") and isinstance(k.a[0], T):
        k = k.a[0]
        if k is loc:
            return True
    return False


def intop(op, x, y):
    try:
        if op == "mul":
            return x * y
        if op == "div":
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        if op == "mod":
            return x - intop("div", x, y) * y
        if op == "band":
            return x & y
        if op == "bor":
            return x | y
        if op == "bxor":
            return x ^ y
        if op == "shl":
            return x << y if 0 <= y < 128 else None
        if op == "shr":
            return x >> y if 0 <= y < 128 else None
    except ZeroDivisionError:
        return None
    return None


def ctype(f, x):
    if x < 0 or x > 127:
        return False
    c = chr(x)
    return {"isspace": c in " \t\n\v\f\r", "isdigit": c.isdigit(), "isalpha": c.isalpha(), "isalnum": c.isalnum(),
            "isupper": c.isupper(), "islower": c.islower(), "isxdigit": c in "0123456789abcdefABCDEF",
            "isprint": 32 <= x <= 126, "isgraph": 33 <= x <= 126, "isblank": c in " \t", "iscntrl": x < 32 or x == 127,
            "ispunct": 33 <= x <= 126 and not c.isalnum()}[f]
