"""C31: the body length limit is honoured exactly."""
from .bodycanon import *
from . import signer


def check(prog, R):
    R.say("deliver", "with a limit, each turn delivers as many octets as are available and the limit allows, and reduces what is left of it by that number")
    R.say("stop", "reading stops early only when there is a limit and it is used up")
    R.say("end", "the last line end is delivered as far as the limit allows")
    R.say("result", "the result is true exactly when there is no limit or the limit was reached")
    R.say("signer", "a signature is made only when the body was long enough for the limit of the options, otherwise a permanent error leaves the signer")
    B = Body(prog)
    R.an(B.a)
    for g, rule, cond, w, what, notes in B.obs:
        if g == "l":
            R.test(rule, cond, w, what, sample=what or None, notes=notes)
    for n, a in signer.runs(prog, R):
        on, size = signer.option(a, "GetBodySignLength"), signer.option(a, "GetBodyLength")
        for st, v in a.rets:
            oks = [(t, d) for t, d in st.dom.items() if t.op == "cbody_ok"]
            if on is not None and a.I.dom(st, on) == IS.of([0]):
                R.ok("signer", a.where, "no limit is asked for")
                continue
            mine = [d for t, d in oks if (on is None or t.a[3] is on or same(a, st, t.a[3], on) is True) and (size is None or t.a[4] is size)]
            R.test("signer", any(0 not in d for d in mine), a.where, "a signature can be made although the body was not found to be as long as the limit asked for",
                   sample=repr(oks)[:200], notes=st.notes)
        for st, e in a.throws:
            if any(t.op == "cbody_ok" and d == IS.of([0]) for t, d in st.dom.items()):
                R.test("signer", a.err(st, e)[0] == "permanent", "%s thrown at %s" % (a.where, e.where()), "too short a body leads to %s" % e.ty, notes=st.notes)
