"""The functions client code can call, each analysed from an unknown caller."""
from .q import *


def library(prog):
    """Functions with a body that other code can call: declared in a header of the library, not private."""
    out = []
    for f in prog.fns.values():
        if f.get("body") is None or not f["file"].startswith("src/") or not f.get("hdr"):
            continue
        if f["access"] in ("private", "protected") or f.get("lambda"):
            continue
        out.append(f)
    return sorted(out, key=lambda f: (f["file"], f["line"], f["m"]))


def helpers(prog):
    """Functions with a body only the library itself can call."""
    lib = {f["m"] for f in library(prog)}
    return [f for f in prog.fns.values() if f.get("body") is not None and f["file"].startswith("src/") and f["m"] not in lib and not f.get("lambda")]
