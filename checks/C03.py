import z3

from vt import engine as E, expand as X, load, script, symstr as S
from vt.run import Job

ASSUMPTIONS = [
    "scripts/owlrl and the standard library's optparse are executed on symbolic argument strings (vt/script.py, vt/symstr.py); convert_graph, print and "
    "sys are recorded; sampled paths are replayed by running the real script with the same arguments",
    "the table of flags below was written down from the help texts of the script and the package documentation",
]
BOUNDS = {
    "quick": "up to 3 short flags of one arbitrary printable character each, clusters of up to 3 arbitrary characters, every long flag with an attached or "
             "separate value of up to 7 arbitrary printable characters, every pair of spelled flags followed by an arbitrary short one, up to 3 "
             "arguments of up to 3 arbitrary characters",
    "thorough": "4 short flags, clusters of 4 characters, every triple of spelled flags, every long flag with values of up to 9 characters",
}
OUTSIDE = "abbreviated long flags (a convenience of optparse, undocumented here); -h; characters outside printable ASCII"
PRINT = ((32, 126),)
FORMATS, IFORMATS = ["turtle", "json", "xml"], ["auto", "turtle", "xml", "rdfa", "json"]
YESNO = ["yes", "no"]
# name -> (option, constant value) or (option, allowed values)
CONST = {"-w": ("owlClosure", "yes"), "-r": ("rdfsClosure", "yes"), "-e": ("owlExtras", "yes"), "-a": ("axioms", "yes"), "-d": ("daxioms", "yes"),
         "-t": ("trimming", "yes"), "-m": ("maximal", "yes"), "--maximal": ("maximal", "yes")}
VALUED = {"-f": ("source", None), "--file": ("source", None), "--owlrl": ("owlClosure", YESNO), "--rdfs": ("rdfsClosure", YESNO),
          "--extras": ("owlExtras", YESNO), "--axioms": ("axioms", YESNO), "--daxioms": ("daxioms", YESNO), "--trimming": ("trimming", YESNO),
          "-o": ("format", FORMATS), "-s": ("format", FORMATS), "--serialization": ("format", FORMATS), "--syntax": ("format", FORMATS),
          "-i": ("iformat", IFORMATS), "--input_syntax": ("iformat", IFORMATS)}
LONG = [n for n in list(CONST) + list(VALUED) if n.startswith("--")] + ["--help"]
DEFAULT = {"format": "turtle", "owlClosure": "no", "rdfsClosure": "no", "owlExtras": "no", "axioms": "no", "daxioms": "no", "iformat": "auto",
           "trimming": "no", "maximal": "no", "source": None}
FLAGS = ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms", "trimming")


class Bad(Exception):
    """The arguments are to be refused (or help is asked for)."""


def lookup(name, table):
    for k in table:
        if S.lift(name) == k:
            return k
    return None


def expected(tokens):
    """The documented meaning of the arguments."""
    v = dict(DEFAULT)
    rest = list(tokens)

    def put(k, val):
        opt, allowed = VALUED[k]
        if allowed is not None:
            a = lookup(val, allowed)
            if a is None:
                raise Bad("value")
            val = a
        v[opt] = val
    while rest:
        t = S.lift(rest[0])
        if not t.startswith("-") or t == "-":
            break
        rest.pop(0)
        if t == "--":
            break
        if t.startswith("--"):
            i = t.find("=")
            name, val = (t, None) if i < 0 else (S.lift(t[:i]), t[i + 1:])
            k = lookup(name, LONG)
            if k is None:
                for w in LONG:
                    if len(name) < len(w) and S.lift(w).startswith(name):
                        raise E.Infeasible()  # abbreviation: outside
                raise Bad("unknown flag")
            if k in CONST:
                if val is not None:
                    raise Bad("a value for a flag without one")
                v[CONST[k][0]] = CONST[k][1]
            elif k == "--help":
                raise Bad("help")
            else:
                if val is None:
                    if not rest:
                        raise Bad("value missing")
                    val = rest.pop(0)
                put(k, val)
            continue
        i = 1
        while i < len(t):
            k = lookup(S.lift("-") + S.lift(t[i]), [x for x in list(CONST) + list(VALUED) if len(x) == 2])
            i += 1
            if k is None:
                raise Bad("unknown flag")
            if k in CONST:
                v[CONST[k][0]] = CONST[k][1]
                continue
            if i < len(t):
                val = t[i:]
            elif rest:
                val = rest.pop(0)
            else:
                raise Bad("value missing")
            put(k, val)
            break
    v["sources"] = ([v["source"]] if v["source"] is not None else []) + rest or ["-"]
    if v["maximal"] == "yes":
        for k in ("owlClosure", "rdfsClosure", "owlExtras", "trimming"):
            v[k] = "yes"
    return v


def on(x):
    return x is True or any(S.lift(x) == y for y in YES) if x is not None and x is not False and x is not True else x is True


YES = ("yes", "Yes", "True", "true")


def path_of(build):
    def path(ctx):
        tokens = build(ctx)

        def scen():
            m = ctx.model()
            if m is None:
                raise E.Infeasible()
            return {"scenario": "cli", "args": [S.evalstr(t, m) for t in tokens]}
        ctx.notes["scen"] = lambda: dict(scen(), why="sampled path")
        end, rec, printed = script.command_line(tokens)
        bad = None
        try:
            want = expected(tokens)
        except Bad as e:
            want, bad = None, str(e)

        def fail(why):
            raise E.Candidate(dict(scen(), why=why))
        E.STATS.obligations += 1
        if want is None:
            if not isinstance(end, SystemExit) or rec.calls:
                fail("%s: not refused" % bad)
            return
        E.STATS.witness += 1
        if end is not None:
            fail("ends with %s" % repr(end)[:80])
        if len(rec.calls) != 1 or rec.calls[0][1] is not None:
            fail("convert_graph is called %d times" % len(rec.calls))
        o = rec.calls[0][0]
        E.STATS.obligations += len(FLAGS) + 5
        for k in FLAGS:
            if on(getattr(o, k, None)) != (want[k] == "yes"):
                fail("%s is %r, not %s" % (k, getattr(o, k, None), want[k]))
        for k in ("format", "iformat"):
            x = getattr(o, k, None)
            if x is None or not S.lift(x) == want[k]:
                fail("%s is %r, not %s" % (k, x, want[k]))
        if o.text is not None:
            fail("there is a text")
        got = list(o.sources) + ([o.source] if getattr(o, "source", None) is not None else [])
        for a, b, why in ((got, want["sources"], "%s is read"), (want["sources"], got, "%s is not read")):
            for x in a:
                if not any(S.lift(x) == y for y in b):
                    fail(why % x)
        out = [x for a, k in printed if not k.get("file") for x in a]
        if len(out) != 1 or out[0] is not rec.result:
            fail("the result is not printed: %r" % (out,))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def setup():
    load.load_strings()


def sym(ctx, name, n):
    return S.SymStr([S.newchar(ctx, "%s!%d" % (name, i), PRINT) for i in range(n)])


# ------------------------------------------------------------------ argument lists
def spelled(ctx):
    """One of the documented flags, with one of its documented values (or a value not among them)."""
    names = list(CONST) + list(VALUED)
    k = names[ctx.choose(len(names))]
    if k in CONST:
        return [k]
    allowed = VALUED[k][1] or ["in.ttl"]
    val = allowed[ctx.choose(len(allowed))]
    if k.startswith("--"):
        return [k + "=" + val] if ctx.choose(2) else [k, val]
    return [k + val] if ctx.choose(2) else [k, val]


def shorts(n, tail=()):
    def build(ctx):
        return [S.SymStr([45] + sym(ctx, "f%d" % i, 1).chars) for i in range(n)] + list(tail)
    return build


def cluster(n, tail=()):
    return lambda ctx: [S.SymStr([45] + sym(ctx, "c", n).chars)] + list(tail)


def long_(name, n, attached, tail):
    def build(ctx):
        v = sym(ctx, "v", n)
        return ([S.lift(name + "=") + v] if attached else [name, v]) + list(tail)
    return build


def spelledjob(n):
    def build(ctx):
        return [x for _ in range(n) for x in spelled(ctx)] + [S.SymStr([45] + sym(ctx, "f", 1).chars), "x.rdf"]
    return build


def arguments(lens, pre=()):
    return lambda ctx: list(pre) + [sym(ctx, "a%d" % i, n) for i, n in enumerate(lens)]


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(name, build, witness=True):
        out.append(Job(name, path_of(build), name, sample, setup=setup, witness=witness))
    job("no argument", lambda ctx: [])
    for n in range(1, 4 if q else 5):
        job("%d short flags" % n, shorts(n))
        job("%d short flags and a file" % n, shorts(n, ["x.ttl"]))
    for n in range(2, 4 if q else 5):
        job("a cluster of %d characters" % n, cluster(n), witness=True)
        job("a cluster of %d characters and arguments" % n, cluster(n, ["turtle", "y"]))
    for name in LONG[:-1]:
        top = max([len(x) for x in (VALUED.get(name, (0, None))[1] or ["abc"])])
        for n in range(0, (top + 2) if q else 10):
            if name in CONST and n > 2:
                continue
            may = name in CONST or VALUED[name][1] is None or any(len(x) == n for x in VALUED[name][1])
            job("%s, attached value of %d characters" % (name, n), long_(name, n, True, ["z.rdf"]), witness=may and name not in CONST)
            job("%s, separate value of %d characters" % (name, n), long_(name, n, False, ["z.rdf"]), witness=may)
    job("two spelled flags and a short one", spelledjob(2))
    if not q:
        job("three spelled flags and a short one", spelledjob(3))
    for lens in ((0,), (1,), (2,), (3,), (1, 1), (1, 2), (2, 2), (1, 1, 1), (2, 1, 2)) if q else ((4,), (3, 3), (2, 3, 2), (1, 1, 1, 1), (2, 2, 2, 2)):
        job("arguments of %s characters" % (lens,), arguments(lens))
        job("-f and arguments of %s characters" % (lens,), arguments(lens, ["-f", "q"]))
        job("-- and arguments of %s characters" % (lens,), arguments(lens, ["-w", "--"]))
    return out
