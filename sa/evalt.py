"""Values of terms over finite sets: what a turn of a loop appends for every octet it reads."""
from .terms import *
from .engine import intop, ctype


def ev(t, env):
    """The integer a term stands for, or None. env: {leaf term: int}."""
    if t in env:
        return env[t]
    op = t.op
    if op == "int":
        return t.a[0]
    if op == "lin":
        s = t.a[0]
        for k, x in t.a[1]:
            y = ev(x, env)
            if y is None:
                return None
            s += k * y
        return s
    if op == "cast":
        x = ev(t.a[2], env)
        if x is None:
            return None
        b, u = t.a[0], t.a[1]
        if b == 1:
            return 1 if x else 0
        x &= (1 << b) - 1
        return x - (1 << b) if not u and x >> (b - 1) else x
    if op in ("tolower", "toupper"):
        x = ev(t.a[0], env)
        if x is None:
            return None
        return x + 32 if op == "tolower" and 65 <= x <= 90 else x - 32 if op == "toupper" and 97 <= x <= 122 else x
    if op == "ctype":
        x = ev(t.a[1], env)
        return None if x is None else int(ctype(t.a[0], x))
    if op == "bnot":
        x = ev(t.a[0], env)
        return None if x is None else ~x
    if op == "tab":
        x = ev(t.a[1], env)
        arr = t.a[0].a[0]
        return arr[x].a[0] if x is not None and 0 <= x < len(arr) and arr[x].op == "int" else None
    if op == "atv" and t.a[0].op in ("strlit", "str"):
        x = ev(t.a[1], env)
        s = t.a[0].a[0]
        if x is None or not 0 <= x <= len(s):
            return None
        return sgn(ord(s[x])) if x < len(s) else 0
    if op == "chat" and t.a[0].op == "str":
        x = ev(t.a[1], env)
        return None if x is None or not 0 <= x < len(t.a[0].a[0]) else sgn(ord(t.a[0].a[0][x]))
    if op in ("band", "bor", "bxor", "shl", "shr", "mod", "div", "mul"):
        x, y = ev(t.a[0], env), ev(t.a[1], env)
        return None if x is None or y is None else intop(op, x, y)
    if op in ("eq0", "le0"):
        x = ev(t.a[0], env)
        return None if x is None else int(x == 0 if op == "eq0" else x <= 0)
    if op == "not":
        x = ev(t.a[0], env)
        return None if x is None else int(not x)
    if op in ("strtol", "strtoul"):
        s = evs(t.a[0], env)
        b = t.a[1] if isinstance(t.a[1], int) else ev(t.a[1], env)
        if s is None or b is None:
            return None
        return num(s, b)
    if op == "ovf":
        return 0 if ev(T(t.a[0], *t.a[1:]), env) is not None else None
    if op == "size":
        s = evs(t.a[0], env)
        return None if s is None else len(s)
    return None


def sgn(x):
    return x - 256 if x > 127 else x


def num(s, b):
    """Leading number of a short text in base b (no sign, no prefix)."""
    r, n = 0, 0
    for c in s:
        c = c & 255
        d = c - 48 if 48 <= c <= 57 else c - 55 if 65 <= c <= 90 else c - 87 if 97 <= c <= 122 else 99
        if d >= b:
            break
        r, n = r * b + d, n + 1
    else:
        if len(s) <= 8 and n:
            return r
    return None


def evs(t, env):
    """The octets (0..255) of a text, or None."""
    out = []
    for p in parts(t):
        if p.op == "str":
            out += [ord(c) & 255 for c in p.a[0]]
        elif p.op == "chs":
            x = ev(p.a[0], env)
            if x is None:
                return None
            out.append(x & 255)
        elif p.op == "fmt":
            x = ev(p.a[1], env)
            f = p.a[0].replace("hh", "").replace("l", "")
            if x is None or x < 0 and f[-1] not in "di":
                return None
            try:
                out += [ord(c) for c in f % x]
            except (TypeError, ValueError):
                return None
        elif p.op == "dec":
            x = ev(p.a[0], env)
            if x is None:
                return None
            out += [ord(c) for c in str(x)]
        else:
            return None
    return out


def possible(st, env):
    """Could the state be one with these leaf values? False only if not."""
    for k, d in st.dom.items():
        x = ev(k, env)
        if x is not None and x not in d:
            return False
    for k, v in st.facts.items():
        x = ev(k, env)
        if x is not None and bool(x) != v:
            return False
    return True
