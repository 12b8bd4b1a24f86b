"""Contracts of repository functions that have a property (and check) of their own.

A check that analyses a caller uses these instead of the callee's body; the callee's own check decides that the body
satisfies the contract.  A function that no longer exists under its public name is simply analysed inline."""
from .terms import *
from . import engine as E
from . import models as M
from .engine import TR, fld, unref


def perm(I_, st, c, why=None):
    c.K.throws.append((st, E.Exc("DKIM::PermanentError", None, c.node, c.q, extra=why)))


def pure(op, throws=True, nargs=None):
    """Result is a function of the argument values; may end in a permanent error."""
    def h(I_, st, c):
        vs = []
        for i in range(len(c.args) if nargs is None else min(nargs, len(c.args))):
            ty = unref(c.ty(i)) or {}
            v = c.v(st, i)
            vs.append(M.tostr(I_, st, v, ty) if ty.get("k") in ("rec", "ptr", "arr", None) else v)
        t = E.typed(T(op, *vs), c.node.get("t"))
        if throws:
            bad = T("bad" + op, *vs)
            out = []
            for s, b in I_.split_atom(st, bad):
                if b:
                    perm(I_, s, c, bad)
                else:
                    out.append((s, t))
            return out
        return [(st, t)]
    return h


def pred(op):
    def h(I_, st, c):
        t = T(op, *[c.v(st, i) for i in range(len(c.args))])
        TR.setdefault(t, IS.rng(0, 1))
        return [(st, t)]
    return h


def enum_name(c, i, st):
    v = c.v(st, i)
    ty = unref(c.ty(i)) or {}
    if ty.get("k") != "enum":
        # an enumerator converted to its underlying type
        return None, v
    if v.op == "int":
        for n, x in ty.get("consts", []):
            if x == v.a[0]:
                return n.split("::")[-1], v
    return None, v


WSP = IS.of([9, 32])
LOOSE = IS.of([9, 10, 13, 32])


def read_white_space(I_, st, c):
    loc = c.args[0]
    name, v = enum_name(c, 1, st)
    src, pos = M.s_src(I_, st, loc), M.s_pos(I_, st, loc)
    ch = M.ch_at(src, pos)
    out = []
    if I_.const(st, M.s_fail(I_, st, loc)) == 1 and name != "READ_FWS":
        return [(st, EMPTY)]

    def adv(s, n):
        return M.setl(s, fld(loc, M.POS), add(pos, n))
    if name in ("READ_WSP", "READ_WSP_LOOSE"):
        S_ = WSP if name == "READ_WSP" else LOOSE
        a = I_.refine(st, ch, S_)
        if a is not None:
            out.append((adv(a, I(1)), M.chs(ch)))
        b = I_.refine(st, ch, S_.compl())
        if b is not None:
            out.append((b, EMPTY))
        return out
    if name == "READ_CRLF":
        a = I_.refine(st, ch, IS.of([13]))
        if a is not None:
            c2 = M.ch_at(src, add(pos, I(1)))
            ok = I_.refine(a, c2, IS.of([10]))
            if ok is not None:
                out.append((adv(ok, I(2)), S("\r\n")))
            bad = I_.refine(a, c2, IS.of([10]).compl())
            if bad is not None:
                perm(I_, bad, c)
        b = I_.refine(st, ch, IS.of([13]).compl())
        if b is not None:
            out.append((b, EMPTY))
        return out
    if name == "READ_FWS":
        w = I_.refine(st, ch, IS.of([9, 13, 32]))
        if w is not None:
            t = T("fws", src, pos)
            n = T("size", t)
            g = I_.refine(w, n, IS.rng(1, 1 << 62))
            if g is not None:
                out.append((adv(g, n), t))
            perm(I_, w.copy(), c)
            # (white space that is no folding white space: remembered, so that callers can be asked whether they looked)
            w = w.copy()
            w.facts[T("nofws", src, pos)] = True
            out.append((w, EMPTY))
        b = I_.refine(st, ch, IS.of([9, 13, 32]).compl())
        if b is not None:
            out.append((b, EMPTY))
        return out
    st = st.copy()
    st.note("ReadWhiteSpace with unknown kind at %s" % c.where())
    return [(st, I_.fresh("ws", c.node))]


def taglist_parse(I_, st, c):
    """Fills the map of the object, or throws."""
    s = c.v(st, 0)
    bad = T("badtags", s)
    out = []
    for s2, b in I_.split_atom(st, bad):
        if b:
            perm(I_, s2, c, bad)
            continue
        rec = I_.prog.recs.get("DKIM::TagList")
        fs = [f for f in (rec or {}).get("fields", []) if E.cls(f["t"]) in E.MAPCLS]
        s2 = s2.copy()
        if len(fs) == 1 and len(rec["fields"]) == 1:
            l = fld(c.obj, fs[0]["n"])
            old = I_.read(s2, l)
            s2.store[l] = T("tags", s) if old.op == "nil" else T("tagsadd", old, s)
        else:
            s2.note("shape of TagList not understood")
        out.append((s2, T("void")))
    return out


def filter_header(I_, st, c):
    v = I_.read(st, c.obj, {"k": "rec", "repo": True, "n": "DKIM::Conversion::CanonicalizationHeader"})
    ty = None
    if v.op == "rec" and len(v.a[1]) == 1:
        ty = v.a[1][0][1]
    if ty is None:
        ty = v
    h = c.v(st, 0)
    bad = T("badhdr", ty, h)
    out = []
    for s, b in I_.split_atom(st, bad):
        if b:
            perm(I_, s, c, bad)
        else:
            out.append((s, T("chdr", ty, h)))
    return out


def canon_body(I_, st, c):
    """Calls back with the canonical body in pieces; says whether it was long enough."""
    loc = c.args[0]
    src = M.s_src(I_, st, loc)
    ty, off, lim, size = (c.v(st, i) for i in range(1, 5))
    f = c.v(st, 5)
    key = (src, ty, off, lim, size)
    n = {"vc": "p", "t": None, "sid": c.node.get("sid"), "l": c.node.get("l")}
    sts = [st]
    for k in (0, 1):
        t = T("cbody", I(k), *key)
        nxt = []
        for s in sts:
            nxt += [x for x, _ in I_.call_value(s, f, [T("ptr", T("data", t), I(0)), T("size", t)], [n, n], c.K, c.node)]
        sts = nxt
    ok = T("cbody_ok", *key)
    TR.setdefault(ok, IS.rng(0, 1))
    out = []
    for s in sts:
        s = s.copy()
        p = I_.fresh("bodypos", c.node)
        TR.setdefault(p, IS.rng(0, 1 << 62))
        fl = I_.fresh("bodyfail", c.node)
        TR.setdefault(fl, IS.rng(0, 1))
        s.store[fld(loc, M.POS)] = p
        s.store[fld(loc, M.FAIL)] = fl
        out.append((s, ok))
    return out


def sig_parse(I_, st, c):
    """Fills every field of the object from the header, or throws."""
    h = c.v(st, 0)
    bad = T("badsig", h)
    out = []
    for s, b in I_.split_atom(st, bad):
        if b:
            perm(I_, s, c, bad)
            continue
        s = s.copy()
        I_.kill(s, c.obj)
        fill(I_, s, c.obj, "DKIM::Signature", T("parsed", h))
        out.append((s, T("void")))
    return out


def key_parse(I_, st, c):
    t = c.v(st, 0)
    bad = T("badkey", t)
    out = []
    for s, b in I_.split_atom(st, bad):
        if b:
            perm(I_, s, c, bad)
            continue
        s = s.copy()
        I_.kill(s, c.obj)
        fill(I_, s, c.obj, "DKIM::PublicKey", T("parsed", t))
        out.append((s, T("void")))
    return out


def fill(I_, s, loc, rec, v):
    for f in (I_.prog.recs.get(rec) or {}).get("fields", []):
        l = fld(loc, f["n"])
        if E.is_rec(unref(f["t"])):
            fill(I_, s, l, unref(f["t"])["n"], T("fldof", v, f["n"]))
        else:
            s.store[l] = E.typed(T("fldof", v, f["n"]), f["t"])


def string_format(I_, st, c):
    vs = tuple(c.v(st, i) for i in range(1, len(c.args)))
    f = M.sarg(c, st, 0)
    r = M.c_format(f.a[0], vs, I_, st) if f.op == "str" else None
    return [(st, r if r is not None else T("format", f, T("vargs", vs)))]


def namefn(op):
    """A name looked up from enumerators; the table is tabulated by its own check."""
    def h(I_, st, c):
        return [(st, T(op, *[c.v(st, i) for i in range(len(c.args))]))]
    return h


CONTRACTS = {
    "DKIM::Util::Algorithm2String": namefn("algname"),
    "DKIM::Util::CanonMode2String": namefn("modename"),
    "DKIM::Tokenizer::ReadWhiteSpace": read_white_space,
    "DKIM::Tokenizer::ValueList": pure("vlist"),
    "DKIM::Tokenizer::ParseAddressList": pure("alist"),
    "DKIM::Conversion::Base64_Decode": pure("b64dec", False),
    "DKIM::Conversion::Base64_Encode": pure("b64enc", False),
    "DKIM::Conversion::QuotedPrintable::Decode": pure("qpdec"),
    "DKIM::Conversion::QuotedPrintable::Encode": pure("qpenc", False),
    "DKIM::Conversion::EncodedWord::Decode": pure("ewdec", False),
    "DKIM::Conversion::CanonicalizationHeader::FilterHeader": filter_header,
    "DKIM::Conversion::CanonicalizationBody": canon_body,
    "DKIM::TagList::Parse": taglist_parse,
    "DKIM::Util::StringFormat": string_format,
    "DKIM::Util::ValidateDomain": pred("validdomain"),
}


def contracts(*without, **extra):
    d = dict(CONTRACTS)
    for w in without:
        d.pop(w, None)
    d.update(extra)
    return d
