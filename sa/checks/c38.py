"""C38: every turn of every loop makes progress: a ranking of each loop over the paths round it."""
from ..q import *
from ..roots import library
from ..linear import entails, lval, SIZE, norm, subst


def measures(a, L):
    """Quantities a loop changes: [(name, location, [(state, start, end)] per way round, always bounded)]."""
    out = []
    for loc in L.changed:
        ini = L.start.get(loc)
        if ini is None:
            continue
        if loc.op == "fld" and loc.a[1] == "#pos":
            out.append(("position", loc, ini, lambda v: v, True))
        elif ini.op == "it":
            out.append(("iterator", loc, ini.a[2], lambda v, c=ini: v.a[2] if v.op == "it" and v.a[3] == c.a[3] else None, False))
        elif ini.op == "ptr":
            out.append(("pointer", loc, ini.a[1], lambda v, c=ini: v.a[1] if v.op == "ptr" and v.a[0] is c.a[0] else None, False))
        elif a.I.intlike(ini) or ini.op == "int":
            out.append(("number", loc, ini, lambda v: v if v.op not in ("it", "ptr") else None, False))
        if ini.op in ("phi", "str", "cat") and E.is_str(unref(a.I.loctype.get(loc) or {}) or {}):
            out.append(("length", loc, SIZE(ini), lambda v: SIZE(v), False))
        elif ini.op == "phi" and not (loc.op == "fld" and loc.a[1].startswith("#")):
            out.append(("collection", loc, ini, None, True))
    return sorted(out, key=lambda m: ("iterator", "position", "number", "pointer", "collection", "length").index(m[0]))


def shorter(v, p):
    """Is a collection p without some of its elements?"""
    x = v
    while x.op in ("popb", "popf", "erased"):
        x = x.a[0]
    return True if x is p and v is not p else False if v is p else None


def depends(a, L, t, ways=None):
    """Does the value of t change from turn to turn (on the ways round given)?"""
    if L.lid not in t.loops():
        return False
    if ways is None:
        return True
    own = {p: loc for loc, p in L.start.items() if p.op == "phi"}
    for x in t.subs():
        if x.op in ("phi", "sym", "star") and L.lid in x.loops():
            loc = own.get(x)
            if loc is None or any(L.alts[i].get(loc, x) is not x for i in ways):
                return True
    return False


def entered(L, loc):
    """The number a quantity starts with, if it is a constant."""
    v = L.init.get(loc)
    v = v.a[2] if v is not None and v.op == "it" else v.a[1] if v is not None and v.op == "ptr" else v
    return v.a[0] if v is not None and v.op == "int" else None


def bounded(a, L, st, p, end, up, ways=None, first=None):
    """On this way round, is there a limit the quantity can not pass?"""
    d = a.I.dom(st, p)
    step = sub(end, p)
    if first is not None and step.op == "int" and abs(step.a[0]) == 1:
        # goes up one by one and ends at a number behind the first
        if up and IS.rng(first, d.hi()) - d or not up and IS.rng(d.lo(), first) - d:
            return True
    if up and d.hi() < 1 << 31 or not up and d.lo() > -(1 << 31) and d.lo() > -(1 << 62):
        if up:
            return True
        if d.lo() >= 0 and (p not in E.TR or E.TR[p].lo() < d.lo() or entails(a, st, mulc(end, -1))):
            return True
    for t, v in st.facts.items():
        e = None
        if t.op == "le0":
            e = t.a[0] if v else sub(I(1), t.a[0])
        elif t.op == "eq0" and v is False:
            # compared for equality and stepped by one: the bound is not stepped over
            e = t.a[0]
            c, ts = norm(e)
            k = ts.get(p)
            if k in (1, -1) and not any(depends(a, L, x, ways) for x in ts if x is not p):
                dl = sub(end, p)
                if dl.op == "int" and abs(dl.a[0]) == 1:
                    return True
            continue
        if e is None:
            continue
        c, ts = norm(e)
        k = ts.get(p)
        if k and (k > 0) == up and not any(depends(a, L, x, ways) for x in ts if x is not p):
            return True
    if up:
        # a place found in a text that stays as it is
        c, ts = norm(end)
        if len(ts) == 1:
            x = next(iter(ts))
            if x.op in ("find", "findset", "rfindset") and ts[x] == 1 and not depends(a, L, x.a[0], ways):
                return True
    return False


def outside(a, L, st):
    """A turn that got something from a source behind a library routine, which runs out."""
    for t, d in list(st.dom.items()):
        if t.op == "sym" and L.lid in t.a[0] and len(t.a) > 1 and t.a[1] in ("bioread", "getopt") and (d.lo() >= 1):
            return True
    return any(t.op == "sym" and L.lid in t.a[0] and t.a[1] == "bioread" and entails(a, st, sub(I(1), t)) for t in subs_of(st))


def subs_of(st):
    for t in list(st.facts) + list(st.dom):
        for x in t.subs():
            yield x


def latched(a, L, st, alt):
    """A turn behind which the loop can not take another: a value every turn starts with is gone."""
    for loc in L.changed:
        p, v = L.start.get(loc), alt.get(loc)
        if p is None or v is None or v is p or p.op in ("it", "ptr"):
            continue
        want = None
        for s in L.altst:
            d = a.I.dom(s, p) if p.op != "int" else IS.of([p.a[0]])
            if loc.op == "fld" and loc.a[1] == "#fail" and any(t.op == "strst" and t.a[3] is p and x == IS.of([int(t.a[0] == "good")]) for t, x in s.dom.items()):
                d = IS.of([0])      # good(), or not eof(): nothing has failed so far
            want = d if want is None else want | d
        if v.op in ("null", "addr", "str"):
            continue
        have = a.I.dom(st, v) if v.op != "int" else IS.of([v.a[0]])
        if loc.op == "fld" and loc.a[1] == "#fail" and v.op == "readfail" and not (want & IS.of([1])):
            # nothing read although something was asked for
            g = T("gcount", *v.a)
            if a.I.dom(st, g) == IS.of([0]) or st.facts.get(T("eq0", g)) is True:
                return True
        if not (have & want):
            return True
    return False


def gave_up(a, L, st, alt):
    """The case of the turn in which a read delivers nothing, where it has one: (state)."""
    for loc, v in alt.items():
        if loc.op == "fld" and loc.a[1] == "#fail" and v is not None and v.op == "readfail":
            return T("gcount", *v.a)
    return None


def onward(a, L, i, st):
    """The state at the end of a way round, if another follows: its values are such a turn starts with."""
    r = None
    for loc in L.changed:
        p, v = L.start.get(loc), L.alts[i].get(loc)
        if p is None or v is None or v is p or p.op in ("it", "ptr") or v.op in ("it", "ptr", "null", "addr", "str", "int", "cat", "+", "nil"):
            continue
        want = None
        for j, s in enumerate(L.altst):
            if L.edges[j][0] == L.edges[i][1]:
                d = a.I.dom(s, p) if p.op != "int" else IS.of([p.a[0]])
                want = d if want is None else want | d
        if want is None:
            continue
        have = a.I.dom(st, v)
        both = have & want
        if both and both != have:
            if r is None:
                r = st.copy()
            r.dom[v] = both
    return r or st


def cycles(nodes, edges):
    """Edges that lie on a cycle."""
    succ = {}
    for i, (x, y) in edges.items():
        succ.setdefault(x, set()).add(y)

    def reach(x):
        seen, todo = set(), [x]
        while todo:
            for z in succ.get(todo.pop(), ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return seen
    r = {x: reach(x) for x in succ}
    return {i: (x, y) for i, (x, y) in edges.items() if x in r.get(y, ()) or x == y}


def rank(a, L):
    """Ways round the loop no measure accounts for: [(index, state)], and the measures used."""
    n = len(L.altst)
    edges = {i: L.edges[i] for i in range(n)}
    states = {i: [L.altst[i]] for i in range(n)}
    # a read that delivered nothing is a case of its own
    for i in range(n):
        g = gave_up(a, L, L.altst[i], L.alts[i])
        if g is not None and not depends(a, L, g) is False:
            more = a.I.assume(L.altst[i].copy(), T("le0", sub(I(1), g)), True)
            none = a.I.assume(L.altst[i].copy(), T("eq0", g), True)
            states[i] = [s for s in (more, none) if s is not None]
    for i in range(n):
        states[i] = [onward(a, L, i, s) for s in states[i]]
    used = []
    todo = {(i, j): edges[i] for i in edges for j in range(len(states[i])) if not latched(a, L, states[i][j], L.alts[i]) and not outside(a, L, states[i][j])}
    if len(todo) < sum(len(x) for x in states.values()):
        used.append("left behind the turn")
    ms = measures(a, L)
    memo = {}
    ways = set(edges)

    def step(m, k):
        """1 strict, 0 unchanged or in the direction, None neither."""
        if (id(m), k) in memo:
            return memo[id(m), k]
        name, loc, p, get, free = m
        i, j = k
        st = states[i][j]
        v = L.alts[i].get(loc)
        if get is None:
            r = shorter(v, p) if v is not None else None
            res = {1: -1, 0: 0}.get(None if r is None else int(r))
            memo[id(m), k] = res
            return res
        e = get(v) if v is not None else None
        res = None
        if name == "length" and v is not None and v.op == "sub" and v.a[0] is L.start.get(loc) and v.a[2] is END_ and \
                entails(a, st, sub(I(1), v.a[1])) and entails(a, st, sub(I(1), T("size", v.a[0]))):
            # the text without its beginning
            memo[id(m), k] = -1
            return -1
        if e is p:
            res = 0
        elif e is not None:
            d = sub(e, p)
            if d.op == "int":
                up = d.a[0] > 0
                if name == "length" or up and free or bounded(a, L, st, p, e, up, ways, entered(L, loc)):
                    res = 1 if up else -1
                    if name == "length" and up:
                        res = "up"
                else:
                    res = "up" if up else "down"
            elif entails(a, st, sub(I(1), d)):
                if entails(a, st, d):
                    memo[id(m), k] = "no"
                    return "no"
                res = 1 if free or bounded(a, L, st, p, e, True, ways, entered(L, loc)) else "up"
            elif entails(a, st, add(d, I(1))):
                res = -1 if name == "length" or bounded(a, L, st, p, e, False, ways, entered(L, loc)) else "down"
                if name == "position":
                    res = "down" if not bounded(a, L, st, p, e, False, ways, entered(L, loc)) else -1
            elif entails(a, st, mulc(d, -1)):
                res = 0.5
            elif entails(a, st, d):
                res = -0.5
        memo[id(m), k] = res
        return res
    while True:
        todo = cycles(None, todo)
        now = {i for i, j in todo}
        if now != ways:
            ways = now
            memo.clear()
        if not todo:
            return [], used
        hit = False
        for m in ms:
            for sg in (1, -1):
                dirs = {k: step(m, k) for k in todo}
                ok = all(x == 0 or (isinstance(x, (int, float)) and x * sg > 0) or x == ("up" if sg > 0 else "down") for x in dirs.values())
                strict = [k for k, x in dirs.items() if x == sg]
                if ok and strict:
                    used.append("%s %s %s" % (m[0], sh(m[1])[:40], "up" if sg > 0 else "down"))
                    for k in strict:
                        del todo[k]
                    hit = True
                    break
            if hit:
                break
        if not hit:
            # ways round that are no ways at all
            no = [k for k in todo if any(step(m, k) == "no" for m in ms)]
            for k in no:
                del todo[k]
            if no:
                continue
            return [(i, states[i][j]) for i, j in todo], used


def calls_of(n):
    out = set()

    def f(x):
        c = x.get("fn")
        if isinstance(c, dict) and c.get("m"):
            out.add(c["m"])
    ir.walk(n, f)
    return out


def recursive(prog, lib):
    """Functions that may call themselves: [(function, directly)]."""
    succ = {f["m"]: calls_of(f.get("body")) for f in lib}

    def reach(x):
        seen, todo = set(), [x]
        while todo:
            for z in succ.get(todo.pop(), ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return seen
    r = {x: reach(x) for x in succ}
    return [(f, not any(z != f["m"] and f["m"] in r.get(z, ()) for z in r[f["m"]])) for f in lib if f["m"] in r[f["m"]]]


def possible(a, L, st, i):
    """Does the end of a turn agree with what is known of the next in st?"""
    s = L.altst[i]
    for loc, p in L.start.items():
        v = L.alts[i].get(loc)
        if v is None or v is p:
            continue
        if p in st.dom and v.op not in ("it", "ptr", "str", "null"):
            have = a.I.dom(s, v) if v.op != "int" else IS.of([v.a[0]])
            if not (have & st.dom[p]):
                return False
        n = T("size", p)
        if n in st.dom and v.op == "nil" and not (st.dom[n] & IS.of([0])):
            return False
    return True


def smaller(a, f, st, arg):
    """Is the text handed on shorter than the text the function was given? True, False or None (not known)."""
    for i in range(len(f["params"])):
        p = T("init", T("obj", f["q"], f["params"][i]["d"]["n"]))
        q = T("param", f["q"], f["params"][i]["d"]["n"])
        for x in (p, q):
            if any(y is x for y in arg.subs()) and arg.op in ("sub", "strip", "popf", "popb"):
                return entails(a, st, sub(add(SIZE(arg), I(1)), SIZE(x)))
            if arg is x:
                return False
    if arg.op == "cat":
        inner = [x for x in arg.subs() if x.op == "elv" and x.a[0].op == "phi" and a.I.dom(st, T("size", x.a[0])) == IS.of([1])]
        if len(set(inner)) == 1:
            return element(a, st, inner[0], SIZE(arg))
        return None
    if arg.op != "elv" or arg.a[0].op != "phi" or a.I.dom(st, T("size", arg.a[0])) != IS.of([1]):
        return None
    return element(a, st, arg, SIZE(arg))


def element(a, st, arg, size):
    """Is a size made of that of the only element of a list less than how far the input was read to make the list?"""
    p = arg.a[0]
    L = a.I.loops.get(p.a[0])
    if L is None:
        return None
    loc = p.a[1]
    got = False
    for i, v in enumerate(L.alts):
        v = v.get(loc)
        if not possible(a, L, st, i):
            continue
        if v is None or v is p:
            # the element is one of an earlier turn, which this holds for as well
            continue
        if v.op != "cat" or len(v.a) != 2 or v.a[0] is not p or v.a[1].op != "item":
            return None
        t = v.a[1].a[0]
        ok = None
        for l, e in L.alts[i].items():
            if l.op == "fld" and l.a[1] == "#pos":
                src = L.start.get(T("fld", l.a[0], "#src"))
                if src is None:
                    src = L.altst[i].store.get(T("fld", l.a[0], "#src"))
                if src is not None and src.op in ("init", "param"):
                    ok = bool(ok) or entails(a, L.altst[i], sub(add(subst(size, T("size", arg), SIZE(t)), I(1)), e))
        if not ok:
            return ok
        got = True
    return True if got else None


def recursion(prog, R, lib):
    for f, direct in recursive(prog, lib):
        where = "%s, recursion" % f["q"]
        if not direct:
            R.unsure("recursion", where, "functions that call each other are not followed")
            continue
        calls = []

        def h(I_, st, c):
            calls.append((st.copy(), [c.v(st, i) for i in range(len(c.args))]))
            return [(st, T("rcall", f["q"], tuple(c.args)))]
        a = An(prog, f, extra={f["q"]: h, "#notrack": True})
        R.an(a)
        if not calls:
            R.unsure("recursion", where, "no call was reached")
            continue
        # a mode handed on as a constant: no constant leads back to itself
        mode = None
        for i, p in enumerate(f["params"]):
            if all(len(args) > i and args[i].op == "int" for _, args in calls):
                x = T("param", f["q"], p["d"]["n"])
                e = {(c, args[i].a[0]) for st, args in calls for c in {y[i].a[0] for _, y in calls} if a.I.dom(st, x) & IS.of([c])}
                if not cycles(None, dict(enumerate(e))):
                    mode = p["d"]["n"]
        for st, args in calls:
            r = [smaller(a, f, st, x) for x in args]
            what = ", ".join(sh(x)[:120] for x in args)
            if mode or any(r):
                R.test("recursion", True, where, "", sample=what[:100])
            elif None in r:
                R.unsure("recursion", where, "what is handed on was not followed: %s" % what)
            else:
                R.test("recursion", False, where, "what the function hands to itself need not be shorter: %s" % what, notes=st.notes)


def check(prog, R):
    R.say("turn", "each way round a loop moves a measure strictly that no other way moves back, and the measure is limited (position in an input, "
                  "iterator, number compared with a limit, length of a text), or it is the last")
    R.say("recursion", "a function that calls itself hands itself a shorter text than it was given")
    R.assumes("a message, key or option list is finite and the stream that delivers it reports its end")
    lib = library(prog)
    n = 0
    for f in lib:
        a = An(prog, f)
        R.an(a)
        for lid, L in a.I.loops.items():
            if not L.altst or L.node.get("s") == "#native":
                continue
            if lid.split("^")[0].split("#")[0].rsplit(":", 1)[0] != f["q"] and any(g["q"] == lid.split("^")[0].split("#")[0].rsplit(":", 1)[0] for g in lib):
                continue    # judged where it is
            n += 1
            bad, used = rank(a, L)
            where = "%s, loop at line %s" % (a.where, L.node.get("l"))
            if not bad:
                R.test("turn", True, where, "", sample="; ".join(used)[:100])
                continue
            for i, s in bad[:1]:
                still = {sh(k)[:50]: sh(v)[:80] for k, v in L.alts[i].items()}
                R.test("turn", False, where, "a turn may leave the loop where it was: %s" % str(still)[:400], notes=s.notes)
    recursion(prog, R, lib)
    if not n:
        raise ir.AnalysisError("no loop was found")
