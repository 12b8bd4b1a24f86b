"""C19: no hidden shared mutable state."""
from ..q import *
from ..effects import lvalue_root, written_globals

# Routines POSIX (XSH 2.9.1) does not require to be thread-safe, and the resolver routines that use the shared resolver state.
HIDDEN = set("""asctime catgets crypt ctime dbm_clearerr dbm_close dbm_delete dbm_error dbm_fetch dbm_firstkey dbm_nextkey dbm_open dbm_store
dirname basename dlerror drand48 encrypt endgrent endpwent endutxent ecvt fcvt gcvt ftw getdate getgrent getgrgid getgrnam gethostent getlogin getnetbyaddr
getnetbyname getnetent getopt getopt_long getprotobyname getprotobynumber getprotoent getpwent getpwnam getpwuid getservbyname getservbyport getservent getutxent
getutxid getutxline gmtime hcreate hdestroy hsearch inet_ntoa l64a lgamma lgammaf lgammal localeconv localtime lrand48 mrand48 nftw nl_langinfo
ptsname putenv pututxline rand readdir setenv setgrent setkey setlocale setpwent setutxent strerror strsignal strtok system ttyname unsetenv wcstombs wctomb
mblen mbtowc gethostbyname gethostbyname2 gethostbyaddr srand random srandom initstate setstate srand48 seed48 lcong48 jrand48 tmpnam tempnam mktemp
res_init res_query res_search res_querydomain res_mkquery res_send __res_init __res_query __res_search __res_querydomain __res_mkquery __res_send
umask chdir fchdir clearenv tzset signal sigaction alarm setitimer""".split())


def walk(n, up=None):
    if isinstance(n, list):
        for x in n:
            yield from walk(x, up)
    elif isinstance(n, dict):
        if n.get("_ty"):
            return
        yield n, up
        for k, v in n.items():
            if k not in ("t", "to", "ct", "at", "ret", "xt", "ps", "targs") and isinstance(v, (dict, list)):
                yield from walk(v, n if n.get("e") in ("call", "ctor") else up)


def shares(t):
    """Does a value of type t designate an object that can be changed through it?"""
    t = unref(t) or {}
    while t.get("k") == "arr":
        t = unref(t.get("of") or t.get("to")) or {}
    if t.get("k") == "ptr":
        to = t.get("to") or {}
        return to.get("k") not in ("fn", "func", None) and not to.get("const")
    return E.cls(t) in ("std::unique_ptr", "std::shared_ptr") and not any((x or {}).get("const") for x in t.get("targs") or [] if isinstance(x, dict))


def check(prog, R):
    R.say("globals", "no library function assigns a global, file-static or function-static object, calls a method on one that can change it, or binds "
                     "a reference or pointer to one through which it can be changed")
    R.say("pointees", "no global or static object is a pointer (plain or smart) to something that can be changed through it")
    R.say("routines", "no library function calls a C routine that POSIX lists as keeping state shared between threads, nor a resolver routine that "
                      "uses the shared resolver state")
    glob = written_globals(prog)
    lib = [f for f in prog.fns.values() if f["file"].startswith("src/") and f.get("body") is not None]
    if not lib:
        raise ir.AnalysisError("no library function found")
    seen = set()
    for name, ws in sorted(getattr(prog, "_wglob_all", glob).items()):
        for fn, kind, node in ws:
            if not fn["file"].startswith("src/"):
                continue
            w = "%s:%s %s" % (fn["file"], node.get("l"), fn["q"])
            short = name.split("@")[0]
            if kind == "observer" or not ((prog.globs.get(name) or {}).get("d") or {}).get("repo"):
                # an object of another library (a standard stream, say): what it guarantees is its own business
                continue
            seen.add(name)
            R.bad("globals", w, "changes the global or static object %s (%s)" % (short, kind))
    n = 0
    for f in lib:
        for nd, up in walk([f.get("body"), f.get("inits")]):
            e = nd.get("e")
            if e == "ref" and nd["d"].get("glob") and nd["d"].get("dk") == "var" and nd["d"].get("repo"):
                n += 1
                w = "%s:%s %s" % (f["file"], nd.get("l"), f["q"])
                R.test("globals", nd["d"]["glob"] not in seen, w, "uses %s, which library functions change" % nd["d"]["n"], sample=nd["d"]["n"])
                R.test("pointees", not shares(nd.get("t")), w, "%s designates a changeable object every caller shares" % nd["d"]["n"], sample=nd["d"]["n"])
            if e == "call":
                q = (nd.get("fn") or {}).get("q") or ""
                b = q[5:] if q.startswith("std::") else q
                if q and ("::" not in b):
                    R.test("routines", b not in HIDDEN or len((nd.get("fn") or {}).get("ps") or []) == 0 and b not in ("rand", "random", "res_init", "__res_init"),
                           "%s:%s %s" % (f["file"], nd.get("l"), f["q"]), "calls %s, which keeps hidden state" % q, sample=q)
            if nd.get("s") == "return":
                x = nd.get("x")
                g = lvalue_root(x) if isinstance(x, dict) and x.get("vc") == "l" and not (x.get("t") or {}).get("const") else None
                if g and g[0] == "glob":
                    R.bad("globals", "%s:%s %s" % (f["file"], nd.get("l"), f["q"]), "hands out the static object %s for change" % g[2])
    R.test("globals", True, "library", "", sample="%d functions, %d uses of globals" % (len(lib), n))
