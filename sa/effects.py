"""Which globals, statics and fields are written, and where (whole program, on the resolved tree)."""


def lvalue_root(n):
    """The variable or field an lvalue expression designates: ('glob', mangled) / ('var', id) / ('field', rec, name) / None."""
    while True:
        e = n.get("e")
        if e == "ref":
            d = n["d"]
            if d.get("glob"):
                return ("glob", d["glob"], d["n"])
            return ("var", d["id"], d["n"])
        if e == "mem":
            b = n["b"]
            if n.get("arrow"):
                return ("field", n.get("rec"), n["f"], n)
            r = lvalue_root(b)
            if r and r[0] == "glob":
                return r
            return ("field", n.get("rec"), n["f"], n)
        if e == "idx":
            n = n["b"]
            continue
        if e == "cast":
            n = n["x"]
            continue
        if e == "un" and n.get("op") == "*":
            return None
        if e == "tmp":
            n = n["x"]
            continue
        if e == "call" and n.get("obj") is not None and not n.get("arrow") and n.get("vc") != "p" and \
                ((n.get("fn") or {}).get("q") or "").split("::")[-1] in ELEM_OPS:
            # an element belongs to the object it is taken from
            n = n["obj"]
            continue
        return None


ELEM_OPS = ("operator[]", "at", "front", "back")


def ptr_root(n):
    """Array variable a pointer expression decays from."""
    while n.get("e") == "cast":
        if n["ck"] == "ArrayToPointerDecay":
            return lvalue_root(n["x"])
        n = n["x"]
    return None


def const_param(pt):
    if pt is None:
        return False
    if pt.get("k") == "ref":
        return bool((pt.get("to") or {}).get("const"))
    if pt.get("k") == "ptr":
        return bool((pt.get("to") or {}).get("const"))
    return pt.get("k") not in ("rref",)


CONST_OPS = ("begin", "end", "rbegin", "rend", "find", "front", "back", "at", "operator[]", "data")


def uses(prog):
    """Yield (function, kind, root, node) for every write-like use of an lvalue."""
    for fn in prog.fns.values():
        for part in ("body", "inits"):
            b = fn.get(part)
            if b:
                yield from _walk(fn, b)


def _walk(fn, n):
    if isinstance(n, list):
        for x in n:
            yield from _walk(fn, x)
        return
    if not isinstance(n, dict) or n.get("_ty"):
        return
    e = n.get("e")
    if e in ("asg", "casg"):
        r = lvalue_root(n["x"])
        if r:
            yield fn, "assign", r, n
        r = ptr_root(n["x"]) if n["x"].get("e") == "cast" else None
    elif e == "un" and n.get("op") in ("++", "--"):
        r = lvalue_root(n["x"])
        if r:
            yield fn, "assign", r, n
    elif e == "un" and n.get("op") == "&":
        r = lvalue_root(n["x"])
        if r:
            yield fn, "address", r, n
    elif e in ("call", "ctor"):
        f = n.get("fn") or {}
        ps = f.get("ps") or []
        ob = n.get("obj")
        if ob is not None and not f.get("cm") and not f.get("static"):
            r = lvalue_root(ob)
            if r and not n.get("arrow"):
                yield fn, "method:" + (f.get("q") or "?"), r, n
        for i, a in enumerate(n.get("args", [])):
            pt = ps[i] if i < len(ps) else None
            if a.get("vc") in ("l", "x") and pt is not None and not const_param(pt):
                r = lvalue_root(a)
                if r:
                    yield fn, "refarg:" + (f.get("q") or "?"), r, n
            if pt is not None and pt.get("k") == "ptr" and not const_param(pt):
                r = ptr_root(a)
                if r:
                    yield fn, "ptrarg:" + (f.get("q") or "?"), r, n
            if pt is None and a.get("vc") == "p" and e == "call":
                r = ptr_root(a)
                if r and not (a.get("t") or {}).get("to", {}).get("const"):
                    yield fn, "ptrarg:" + (f.get("q") or "?"), r, n
    elif e == "cast" and n.get("ck") == "ArrayToPointerDecay":
        pass
    for k, v in n.items():
        if k in ("t", "to", "ct", "at", "ret", "xt", "ps", "targs"):
            continue
        if isinstance(v, (dict, list)):
            yield from _walk(fn, v)


def decl_refs(prog):
    """Non-const references bound to an lvalue: (function, root, node)."""
    out = []

    def rec(fn, n):
        if isinstance(n, list):
            for x in n:
                rec(fn, x)
            return
        if not isinstance(n, dict) or n.get("_ty"):
            return
        if n.get("s") == "decl":
            for v in n["vars"]:
                t = v.get("t") or {}
                if t.get("k") == "ref" and not (t.get("to") or {}).get("const") and v.get("init"):
                    r = lvalue_root(v["init"])
                    if r:
                        out.append((fn, r, v))
                elif t.get("k") == "ptr" and not (t.get("to") or {}).get("const") and v.get("init"):
                    r = ptr_root(v["init"])
                    if r:
                        out.append((fn, r, v))
        for k, v in n.items():
            if k in ("t", "to", "ct", "at", "ret", "xt", "ps", "targs"):
                continue
            if isinstance(v, (dict, list)):
                rec(fn, v)
    for fn in prog.fns.values():
        if fn.get("body"):
            rec(fn, fn["body"])
    return out


def inserts(kind):
    """operator[] of a map makes the entry it does not find."""
    return kind.endswith("::operator[]") and "map" in kind.split("::")[-2]


def written_globals(prog):
    w = getattr(prog, "_wglob", None)
    if w is None:
        w = {}
        for fn, kind, r, n in uses(prog):
            if r[0] == "glob":
                if kind.startswith("method:") and kind.split("::")[-1] in CONST_OPS and not inserts(kind):
                    # non-const overload of an observer: written only if its result is modified
                    w.setdefault(r[1], [])
                    w[r[1]].append((fn, "observer", n))
                    continue
                w.setdefault(r[1], []).append((fn, kind, n))
        for fn, r, v in decl_refs(prog):
            if r[0] == "glob":
                w.setdefault(r[1], []).append((fn, "reference", v))
        prog._wglob_all = w
        w = prog._wglob = {k: v for k, v in w.items() if any(x[1] != "observer" for x in v)}
    return w
