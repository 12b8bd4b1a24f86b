"""C20: every acquired resource is released exactly once on every path."""
import re

from ..q import *
from ..roots import library
from ..contracts import contracts

# what each kind of acquisition is released with
PAIR = {"BIO": ("BIO", "BIO*"), "EVP_PKEY": ("EVP_PKEY",), "RSA": ("RSA",), "EVP_MD_CTX": ("EVP_MD_CTX",), "new": ("delete", "own"),
        "new[]": ("delete[]", "own"), "malloc": ("free", "own"), "res": ("res",)}
NOMEM = ("obj:BIO",)


def prims(prog):
    """Functions whose body acquires or releases something, itself or through functions analysed inside it."""
    direct, calls = set(), {}

    def rec(f, n):
        if isinstance(n, list):
            for x in n:
                rec(f, x)
            return
        if not isinstance(n, dict) or n.get("_ty"):
            return
        e = n.get("e")
        if e in ("new", "delete"):
            direct.add(f["m"])
        if e in ("call", "ctor"):
            g = n.get("fn") or {}
            q = g.get("q") or ""
            if q and not q.startswith(("std::", "DKIM::", "__gnu")) and (g.get("m") not in prog.fns or not prog.fns[g["m"]].get("body")):
                if re.search(r"(_free|_free_all|_new|_new_mem_buf|_create|_destroy|^d2i_|PEM_read|get1_|_up_ref|ninit|nclose|ndestroy|_dup|_set1_|_assign)", q) \
                        or q in ("free", "malloc", "calloc", "realloc", "strdup", "strndup", "vasprintf", "asprintf", "fopen", "fdopen", "fclose", "open", "close"):
                    direct.add(f["m"])
            if "unique_ptr" in q or "shared_ptr" in q and q.split("::")[-1] in ("reset", "shared_ptr", "make_shared"):
                direct.add(f["m"])
            if g.get("m") in prog.fns:
                calls.setdefault(f["m"], set()).add(g["m"])
        for k, v in n.items():
            if k not in ("t", "to", "ct", "at", "ret", "xt", "ps", "targs") and isinstance(v, (dict, list)):
                rec(f, v)
    for f in prog.fns.values():
        rec(f, [f.get("body"), f.get("inits")])
    con = contracts("")
    seen = set(direct)
    while True:
        more = {m for m, gs in calls.items() if m not in seen and any(g in seen and prog.fns[g]["q"] not in con for g in gs)}
        if not more:
            return seen
        seen |= more


def hooks(a_loops):
    def new(I_, st, p, how, node):
        st = st.copy()
        st.ghost = st.ghost + (("new", p, how, node.get("l"), I_.loopstack),)
        return st

    def free(I_, st, p, how, node):
        if p is T("null"):
            return [st]
        st = st.copy()
        st.ghost = st.ghost + (("free", p, how, node.get("l"), I_.loopstack),)
        return [st]

    def chain(I_, st, x, y, node):
        st = st.copy()
        st.ghost = st.ghost + (("chain", x, y, node.get("l"), I_.loopstack),)
        return st

    def own(I_, st, p, node):
        if p is T("null"):
            return st
        st = st.copy()
        st.ghost = st.ghost + (("free", p, "own", node.get("l"), I_.loopstack),)
        return st
    return {"#new": new, "#free": free, "#chain": chain, "#own": own}


def isnull(st, p):
    if p.op == "null" or p is I(0):
        return True
    v = st.facts.get(E.eqatom(p, T("null")))
    return v


def pval(f, a, i):
    """Value of parameter i on entry."""
    return a.ploc(i)


def raw(t):
    t = unref(t) or {}
    return t.get("k") == "ptr" and (t.get("to") or {}).get("k") in ("rec", None) and not (t.get("to") or {}).get("const")


class Obj:
    """One object of a class: locations of its own handles, how its destructor releases them."""

    def __init__(self, prog, cls):
        self.prog = prog
        self.cls = cls
        self.parts = []      # (class, location) of the objects destroyed with it
        self.pre = {}        # store the methods start with
        this = T("obj", "this")
        self.this = this
        self.parts.append((cls, this))
        # pointers into an object it holds (set by the constructor)
        for f in prog.fn(cls + "::" + cls.split("::")[-1]):
            if f["params"] or f.get("body") is None:
                continue
            a = An(prog, f, this=this)
            if len(a.rets) != 1:
                continue
            tgt = {}
            for k, v in a.rets[0][0].store.items():
                if k.op == "fld" and k.a[0] is this and v.op == "addr" and v.a[0].op == "fld" and v.a[0].a[0].op == "heap":
                    tgt.setdefault(v.a[0].a[0], []).append((k, v.a[0].a[1]))
            for i, (h, ks) in enumerate(tgt.items()):
                x = T("obj", "held%d" % i)
                own = None
                for c, r in prog.recs.items():
                    if all(any(g["n"] == n for g in r.get("fields", [])) for _, n in ks) and c != cls and prog.fn(c + "::~" + c.split("::")[-1]):
                        own = c
                if own:
                    self.parts.append((own, x))
                    for k, n in ks:
                        self.pre[k] = T("addr", fld(x, n))


def dtors(prog, c):
    return [x for x in prog.fn(c + "::~" + c.split("::")[-1]) if x.get("body") is not None]


def destroy(a, parts, st):
    """States behind the destructors of the objects in parts."""
    sts = [st]
    for c, loc in parts:
        q = c + "::~" + c.split("::")[-1]
        if dtors(a.prog, c):
            sts = [s2 for s in sts for s2, _ in a.call(s, q, loc)]
        r = a.prog.recs.get(c) or {}
        for f in r.get("fields", []):
            if E.cls(f["t"]) == "std::unique_ptr":
                nxt = []
                for s in sts:
                    v = a.I.read(s, fld(loc, f["n"]), f["t"])
                    if v.op == "up" and v.a[0].op != "null":
                        s = s.copy()
                        s.ghost = s.ghost + (("free", v.a[0], "any", None, ()),)
                    nxt.append(s)
                sts = nxt
    return sts


def temporaries(a, s):
    """Objects without a name that acquired something: the language destroys each once."""
    out = []
    for g in s.ghost:
        if g[0] == "new" and g[1].op == "addr" and g[1].a[0].op == "fld":
            b = g[1].a[0]
            n = b.a[1]
            while b.op == "fld":
                n, b = b.a[1], b.a[0]
            if b.op == "tmp":
                for c, r in a.prog.recs.items():
                    if any(x["n"] == n for x in r.get("fields", [])) and dtors(a.prog, c) and (c, b) not in out:
                        out.append((c, b))
    return out


def entry_cases(prog, parts, store):
    """Ways the handles of the objects can be owned: (facts, dom, handles the destructors would release)."""
    f = [x for c, _ in parts for x in dtors(prog, c)]
    if not f:
        return [({}, {}, ())]
    a = An(prog, f[0], this=T("obj", "dummy"), extra=hooks(None))
    out = []
    e = E.State()
    e.store.update(store)
    for s in destroy(a, parts, e):
        out.append((dict(s.facts), dict(s.dom), tuple(g[1] for g in s.ghost if g[0] == "free")))
    return out


def chained(ghost, p):
    out, todo = [], [p]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        todo += [g[2] for g in ghost if g[0] == "chain" and g[1] is x]
    return out


def tally(st):
    """Objects acquired and released on the way to st: {object: [acquired, released, [problems]]}."""
    t = {}
    kind = {}
    for g in st.ghost:
        if g[0] == "new":
            t.setdefault(g[1], [0, 0, []])[0] += 1
            kind[g[1]] = g[2]
        elif g[0] == "free":
            for x in chained(st.ghost, g[1]) if g[2] == "BIO*" else [g[1]]:
                r = t.setdefault(x, [0, 0, []])
                r[1] += 1
                k = kind.get(x)
                if k and g[2] not in PAIR.get(k, (g[2],)) and g[2] != "any":
                    r[2].append("acquired by %s, released by %s at line %s" % (k, g[2], g[3]))
    return t


def name(p):
    return sh(p)[:100]


def judge(prog, R, f, a, o, owned, params, s, how):
    """One way out (behind the destructors when the object has them)."""
    if any(t.op == "eq" and v is True and any(x.op in NOMEM for x in t.a if isinstance(x, T)) for t, v in s.facts.items()):
        return
    t = tally(s)
    objs = set(t) | set(owned) | {p for p, fl in params}
    for p in sorted(objs, key=str):
        if isnull(s, p) is True:
            continue
        # the same object under other names
        same_ = [q for q in objs if q is p or s.facts.get(E.eqatom(p, q)) is True]
        if min(same_, key=str) is not p:
            continue
        acq = sum(t.get(q, [0, 0])[0] for q in same_)
        rel = sum(t.get(q, [0, 0])[1] for q in same_)
        pr = [x for q in same_ for x in t.get(q, [0, 0, []])[2]]
        fl = [x for q, x in params if any(q is y for y in same_)]
        if fl:
            d = a.I.dom(s, fl[0]) if fl[0] is not None else None
            own = 0 if fl[0] is None or d == IS.of([0]) else 1 if d is not None and 0 not in d else None
            want = own
        else:
            want = acq + (1 if any(q in owned for q in same_) else 0)
        if want is None:
            R.test("caller", rel == 0 or None, a.where, "", notes=s.notes)
            continue
        rule = "caller" if fl else "owner" if not acq else "paired"
        R.test(rule, rel == want and not pr, a.where, "%s: %s is released %d times, should be %d%s" %
               (how, name(p), rel, want, "".join("; " + x for x in pr)), sample=name(p), notes=s.notes)


def check(prog, R):
    R.say("paired", "every object acquired in a library function is released exactly once, by the routine that belongs to it, when the function "
                    "has returned or thrown and the object it was called on has been destroyed")
    R.say("owner", "a key or resolver state an object owned before the call is released exactly once by the call and the destructor together, one it "
                   "did not own never")
    R.say("caller", "a key passed in is released exactly once if ownership was handed over and never otherwise, also when the object had the same key before")
    R.say("turn", "a turn of a loop releases what it acquired, and nothing it did not acquire")
    R.assumes("acquisitions fail only where the routine reports bad input (key parsing), not for lack of memory",
              "the list of signatures destroys each of its elements once")
    busy = prims(prog)
    objs = {}
    n = 0
    for f in library(prog):
        cls = f.get("cls")
        if cls and f["q"].split("::")[-1].startswith("~"):
            continue
        if cls and cls not in objs:
            objs[cls] = Obj(prog, cls) if cls in prog.recs else None
        o = objs.get(cls) if cls and not f.get("static") else None
        ctor = bool(cls) and f["q"].split("::")[-1] == cls.split("::")[-1]
        held = [] if o is None else [x for x in (o.parts[:1] if ctor else o.parts) if any(d["m"] in busy for d in dtors(prog, x[0]))]
        if f["m"] not in busy and not (held and not f.get("cm")):
            continue
        a0 = An.__new__(An)
        a0.fn = f
        args = []
        for i, p in enumerate(f["params"]):
            t = unref(p["t"]) or {}
            if t is not p["t"] and not t.get("const") and any(d["m"] in busy for d in dtors(prog, t.get("n") or "?")):
                args.append((t["n"], a0.ploc(i)))
        params = [i for i, p in enumerate(f["params"]) if raw(p["t"]) and o is not None]
        store = {} if o is None or ctor else o.pre
        cases = entry_cases(prog, ([] if ctor else held) + args, store)
        n += 1
        for facts, dom, owned in cases:
            flags = [i + 1 for i in params if i + 1 < len(f["params"]) and (f["params"][i + 1]["t"] or {}).get("bool")]
            for alias, flag in [(x, y) for x in ([None] if not params or not owned else [True, False]) for y in ([0, 1] if flags else [None])]:
                def pre(a, st):
                    for i in flags:
                        st.dom[pval(f, a, i)] = IS.of([flag])
                    st.facts.update(facts)
                    st.dom.update(dom)
                    st.store.update(store)
                    if alias is not None:
                        for i in params:
                            for w in owned:
                                st.facts[E.eqatom(w, pval(f, a, i))] = alias
                a = An(prog, f, extra=hooks(None), pre=pre)
                R.an(a)
                ps = []
                for i in params:
                    fl = None
                    if i + 1 in flags:
                        fl = pval(f, a, i + 1)
                    ps.append((pval(f, a, i), fl))
                for s, v in a.rets:
                    for s2 in destroy(a, held + args + temporaries(a, s), s):
                        judge(prog, R, f, a, o, owned, ps, s2, "return")
                for s, x in a.throws:
                    for s2 in destroy(a, ([] if ctor else held) + args + temporaries(a, s), s):
                        judge(prog, R, f, a, o, owned, ps, s2, "throw of %s" % x.ty)
                for L in a.I.loops.values():
                    for s in L.altst:
                        t, kind = {}, {}
                        for g in s.ghost:
                            if g[0] == "new":
                                kind[g[1]] = g[2]
                            if any(L.lid.split("^")[0].split("~")[0] == str(y[0] if isinstance(y, tuple) else y).split("^")[0].split("~")[0] for y in g[4]):
                                if g[0] == "new":
                                    t.setdefault(g[1], [0, 0])[0] += 1
                                elif g[0] == "free":
                                    t.setdefault(g[1], [0, 0])[1] += 1
                                    k = kind.get(g[1])
                                    R.test("paired", not k or g[2] in PAIR.get(k, (g[2],)) or g[2] == "any", "%s, line %s" % (a.where, g[3]),
                                           "%s is acquired by %s and released by %s" % (name(g[1]), k, g[2]), sample=name(g[1]), notes=s.notes)
                        for p, (x, y) in t.items():
                            if isnull(s, p) is True:
                                continue
                            R.test("turn", x == y, "%s, loop at line %s" % (a.where, L.node.get("l")), "%s is acquired %d times and released %d times in a turn" %
                                   (name(p), x, y), sample=name(p), notes=s.notes)
    if not n:
        raise ir.AnalysisError("no function that acquires or releases anything was found")
