"""C30: body canonicalization is character-exact and independent of chunking."""
from .bodycanon import *


def check(prog, R):
    R.say("start", "reading starts at the body offset on a stream that is not in a failed state, whenever there is a body")
    R.say("every", "every octet up to the end of the stream is looked at once, in order: a turn looks at all octets the read delivered, and "
                   "reading ends only at the end of the stream (or when the limit is used up)")
    R.say("octet", "every path through the handling of an octet makes the step of the definition: CR nothing, LF a pending line end, in relaxed "
                   "mode SP and TAB pending white space, any other octet appends the pending line ends, one space if pending, and itself")
    R.say("chunk", "pending line ends and white space are none at the start and carried unchanged from one read buffer to the next")
    R.say("deliver", "without a limit, all text appended for a buffer is delivered, in order, once")
    R.say("end", "the body ends with one CRLF, except an empty body in relaxed mode")
    R.assumes("the length of the body fits the counters", "the stream delivers the same octets whenever it is read")
    B = Body(prog)
    R.an(B.a)
    for g, rule, cond, w, what, notes in B.obs:
        if g == "u":
            R.test(rule, cond, w, what, sample=what or None, notes=notes)
