import sys
import types

import z3

from vt import engine as E, expand as X, load, stub, symstr as S
from vt.run import Job

ASSUMPTIONS = [
    "parsing, serialization and the closure of rdflib's graph are recorders (vt/stub.py); everything between them is the code of convert_graph executed "
    "on symbolic option strings; sampled paths are replayed on the real convert_graph with the same recorders",
]
BOUNDS = {
    "quick": "every combination of six boolean options with one of them at a time an arbitrary string of up to 5 characters, with and without an explicit "
             "class; 1 or 2 sources of up to 9 arbitrary characters each with an arbitrary input format of up to 7 characters, given as list or single "
             "source, text missing, blank or not; output formats of up to 7 arbitrary characters; absent optional attributes",
    "thorough": "two options at a time arbitrary strings; 3 sources",
}
OUTSIDE = "option strings that are neither yes nor no in one of the accepted spellings; output formats other than the documented ones"
PRINT = ((32, 126),)
YES, NO = ("yes", "Yes", "True", "true"), ("no", "No", "False", "false")
NAMES = ("owlClosure", "rdfsClosure", "owlExtras", "trimming", "axioms", "daxioms")
KIND = {"turtle": "turtle", "ttl": "turtle", "n3": "turtle", "text/turtle": "turtle", "xml": "xml", "application/rdf+xml": "xml", "pretty-xml": "xml",
        "json-ld": "json", "application/ld+json": "json", "rdfa1.1": "rdfa", "rdfa": "rdfa", "html": "rdfa"}
U = stub.mk_uri
DOC = lambda i: (X.uri("doc%d" % i), X.uri("read"), X.uri("once"))
MARK = (X.uri("inferred"), X.uri("by"), X.uri("closure"))


class Str(S.SymStr):
    """A symbolic string that may be in sets: one hash for all."""
    __slots__ = ()

    def __hash__(self):
        return 7


def sym(ctx, name, n):
    return Str([S.newchar(ctx, "%s!%d" % (name, i), PRINT) for i in range(n)])


def lookup(x, table):
    for k in table:
        if S.lift(x) == k:
            return k
    return None


def truth(v):
    """What a yes/no option means; None if it is outside."""
    if isinstance(v, bool):
        return v
    if lookup(v, YES):
        return True
    return False if lookup(v, NO) else None


def informat(inp, iformat):
    """The documented input format."""
    k = lookup(iformat, ("auto", "turtle", "rdfa", "xml", "rdfxml", "json"))
    if k is None:
        return None
    if k != "auto":
        return {"turtle": "turtle", "rdfa": "rdfa", "xml": "xml", "rdfxml": "xml", "json": "json"}[k]
    s = S.lift(inp)
    if s == "-":
        return "turtle"
    for suf, f in ((".ttl", "turtle"), (".n3", "turtle"), (".json", "json"), (".jsonld", "json"), (".html", "rdfa")):
        if s.endswith(suf):
            return f
    return "xml"


class World:
    """Recorders for parse, closure and serialize."""

    def __init__(self, imports):
        self.parses, self.closures, self.outs, self.imports = [], [], [], imports
        self.result = "the document"

    def parse(self, graph, source=None, format=None, data=None, **k):
        for x in ("publicID", "location", "file"):
            if k.get(x) is not None:
                if x == "file" or source is None:
                    source = k[x]
        self.parses.append((source, format, data))
        graph.add(DOC(len(self.parses)))
        if self.imports and len(self.parses) == 1:
            graph.add((X.uri("onto"), stub.OWL.imports, X.uri("imported.ttl")))
        return graph

    def closure(self, core):
        table, alt = sys.modules["rdflib.term"]._toPythonMapping, sys.modules["owlrl.DatatypeHandling"].AltXSDToPYTHON
        k = U(X.X + "integer")
        self.closures.append((type(core), bool(core.axioms), bool(core.daxioms), bool(core.rdfs), len(self.parses), table.get(k) is alt[k]))
        core.destination.add(MARK)

    def serialize(self, graph, destination=None, format="turtle", **k):
        self.outs.append((format, [t for t, g in graph.store.quads]))
        return self.result


def want_class(o, r, e, t, explicit):
    if explicit:
        return "Custom"
    if o:
        return ("OWLRL_Extension_Trimming" if t else "OWLRL_Extension") if e else "RDFS_OWLRL_Semantics" if r else "OWLRL_Semantics"
    return "RDFS_Semantics" if r else None


def path_of(build, outside=None):
    """build(ctx) -> (attributes of the options object, explicit class?, imports?)"""
    def path(ctx):
        opts, explicit, imports = build(ctx)
        opts0 = {k: list(v) if isinstance(v, list) else v for k, v in opts.items()}

        def scen():
            m = ctx.model()
            if m is None:
                raise E.Infeasible()
            c = lambda v: v if v is None or isinstance(v, bool) else [c(x) for x in v] if isinstance(v, list) else S.evalstr(S.lift(v), m)
            return {"scenario": "convert", "opts": {k: c(v) for k, v in opts0.items()}, "explicit": explicit, "imports": imports}
        ctx.notes["scen"] = lambda: dict(scen(), why="sampled path")

        def fail(why):
            raise E.Candidate(dict(scen(), why=why))
        import owlrl
        w = World(imports)
        custom = type.__new__(type, "Custom", (X.cls("Core"),), {})
        core = X.cls("Core")
        real, hooks = core.closure, (stub.PARSE_HOOK, stub.SERIALIZE_HOOK)
        core.closure = lambda self: w.closure(self)
        stub.PARSE_HOOK, stub.SERIALIZE_HOOK = w.parse, w.serialize
        end = ret = None
        try:
            ret = owlrl.convert_graph(types.SimpleNamespace(**opts), *([custom] if explicit else []))
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            end = e
        finally:
            core.closure = real
            stub.PARSE_HOOK, stub.SERIALIZE_HOOK = hooks
        # ---- the documented behaviour
        v = {k: truth(opts0[k]) if k in opts0 else False for k in NAMES}
        if any(x is None for x in v.values()):
            raise E.Infeasible()
        sources = []
        for s in list(opts0["sources"]) + ([opts0["source"]] if opts0.get("source") is not None else []):
            if not any(S.lift(s) == y for y in sources):
                sources.append(s)
        text = opts0["text"]
        blank = text is None or len(S.lift(text).strip()) == 0
        iformat = opts0.get("iformat", "auto")
        forms = [informat(s, iformat) for s in sources]
        E.STATS.obligations += 1
        if not opts0["sources"] and blank and not sources or any(f is None for f in forms):
            if not isinstance(end, Exception) or w.outs:
                fail("not refused")
            return
        if not opts0["sources"] and blank:
            raise E.Infeasible()  # only the older `source` attribute: outside
        fmt = lookup(opts0["format"], ("turtle", "xml", "rdfxml", "json"))
        if fmt is None:
            raise E.Infeasible()
        E.STATS.witness += 1
        if end is not None:
            fail("fails with %s: %s" % (type(end).__name__, end))
        E.STATS.obligations += 4 + len(w.parses)
        # reading
        todo = list(zip(sources, forms))
        texts = 0
        for source, format, data in w.parses:
            if data is not None:
                if text is None or not S.lift(data) == text:
                    fail("%r is parsed" % data)
                if KIND.get(format) != "turtle":
                    fail("the text is parsed as %s" % format)
                texts += 1
                continue
            if source is not None and type(source) is E.Term:
                if not (imports and v["owlClosure"] and source is X.uri("imported.ttl")):
                    fail("an import is read")
                E.STATS.obligations += 1
                want = informat("imported.ttl", iformat)
                if KIND.get(format) != want:
                    fail("an imported document is parsed as %s" % format)
                imports = None
                continue
            hit = None
            for x in todo:
                if (S.lift(x[0]) == "-") if source is sys.stdin else isinstance(source, (str, S.SymStr)) and S.lift(x[0]) == source and not S.lift(source) == "-":
                    hit = x
                    break
            if hit is None:
                fail("%s is read, again" % (source,))
            todo = [x for x in todo if x is not hit]
            if KIND.get(format) != hit[1]:
                fail("%s is parsed as %s, not %s" % (hit[0], format, hit[1]))
        if todo:
            fail("%s is not read" % todo[0][0])
        if texts != 1 and not blank or texts > 1:
            fail("the text is parsed %d times" % texts)
        # closure
        cls = want_class(v["owlClosure"], v["rdfsClosure"], v["owlExtras"], v["trimming"], explicit)
        if cls is None:
            if w.closures:
                fail("expanded although nothing is asked for")
        else:
            if len(w.closures) != 1:
                fail("%d expansions" % len(w.closures))
            c, ax, dax, rdfs, n, alt = w.closures[0]
            if c is not (custom if explicit else X.cls(cls)):
                fail("%s is used, not %s" % (c.__name__, cls))
            if (ax, dax) != (v["axioms"], v["daxioms"]):
                fail("axioms %s, datatype axioms %s" % (ax, dax))
            if (cls.startswith("OWLRL_Ext") or explicit) and rdfs != v["rdfsClosure"]:
                fail("RDFS is %s" % rdfs)
            if n != len(w.parses):
                fail("read after the expansion")
            if not alt:
                fail("the expansion does not use the improved datatype conversions")
        # writing
        if len(w.outs) != 1 or ret is not w.result:
            fail("%d documents written" % len(w.outs))
        format, triples = w.outs[0]
        if KIND.get(format) != {"turtle": "turtle", "json": "json"}.get(fmt, "xml"):
            fail("written as %s" % format)
        want = [DOC(i + 1) for i in range(len(w.parses))] + ([MARK] if cls else [])
        if imports:
            if v["owlClosure"]:
                fail("the import is not followed")
            want.append((X.uri("onto"), stub.OWL.imports, X.uri("imported.ttl")))
        ids = lambda ts: sorted(tuple(x.tid for x in t) for t in ts)
        if ids(triples) != ids(want):
            fail("the document written does not hold what was read and inferred")
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def setup():
    load.load_strings()
    X.RULESFREE.clear()


BASE = {"sources": ["in.ttl"], "text": None, "iformat": "auto", "format": "turtle", "owlClosure": False, "rdfsClosure": False, "owlExtras": False,
        "trimming": False, "axioms": False, "daxioms": False}


def options(free):
    """free: option -> length of its string"""
    def build(ctx):
        o = dict(BASE, sources=list(BASE["sources"]))
        for k in NAMES:
            if k in free:
                o[k] = sym(ctx, k, free[k])
            elif k == "trimming" and ctx.choose(3) == 2:
                del o[k]
            else:
                o[k] = ctx.choose(2) == 1
        return o, ctx.choose(2) == 1, False
    return build


def imported(ctx):
    o = dict(BASE, sources=["in.ttl"])
    for k in NAMES[:2]:
        o[k] = ["yes", "no"][ctx.choose(2)]
    o["iformat"] = ["auto", "xml", "turtle", "json"][ctx.choose(4)]
    return o, ctx.choose(2) == 1, True


def inputs(lens, fixed=None, how="list", text=None, dup=False):
    """fixed: length of an arbitrary input format, or the format itself, or None for no such attribute"""
    def build(ctx):
        o = dict(BASE)
        names = [sym(ctx, "s%d" % i, n) for i, n in enumerate(lens)]
        o["sources"] = names + ([names[0]] if dup else [])
        if how == "source":
            o["source"] = o["sources"].pop()
            o["sources"] = o["sources"] + ["other.rdf"]
        elif how == "none":
            o["source"] = None
        if isinstance(fixed, int):
            o["iformat"] = sym(ctx, "iformat", fixed)
        elif fixed is None:
            del o["iformat"]
        else:
            o["iformat"] = fixed
        if text is not None:
            o["text"] = sym(ctx, "text", text)
        o["rdfsClosure"] = ctx.choose(2) == 1
        return o, False, False
    return build


def output(n):
    def build(ctx):
        o = dict(BASE, sources=["in.ttl"], format=sym(ctx, "format", n), owlClosure=[True, False][ctx.choose(2)])
        return o, False, False
    return build


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(name, build, witness=True):
        out.append(Job(name, path_of(build), name, sample, setup=setup, witness=witness))
    job("boolean options", options({}))
    for k in NAMES:
        for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6):
            job("%s a string of %d characters" % (k, n), options({k: n}), witness=n < 6)
    job("imports", imported)
    if not q:
        for i, a in enumerate(NAMES):
            for b in NAMES[i + 1:]:
                for n, m in ((2, 3), (3, 3), (3, 2), (4, 5)):
                    job("%s and %s strings of %d and %d characters" % (a, b, n, m), options({a: n, b: m}))
    for n in range(1, 10):
        for f in ("auto", None):
            job("a source of %d characters, input format %s" % (n, f), inputs((n,), f))
    for f in range(0, 8):
        job("a source of 4 characters, input format of %d" % f, inputs((4,), f), witness=f in (3, 4, 6))
        job("a source of 1 character, input format of %d" % f, inputs((1,), f), witness=f in (3, 4, 6))
    for n in (1, 2, 4):
        job("two sources of %d characters" % n, inputs((n, n), "auto"))
        job("two sources of %d characters, one twice, and a text" % n, inputs((n, n), "turtle", text=2, dup=True))
        job("two sources of %d characters, one as single source" % n, inputs((n, n), "xml", how="source"))
    job("three sources of 1 character", inputs((1, 1, 1), "auto"))
    if not q:
        job("three sources of 4 characters", inputs((4, 4, 4), "auto"))
        job("a source of 5 characters and a single one of 5", inputs((5, 5), "auto", how="source"))
    job("no source, no text", inputs((), "auto"), witness=False)
    for n in (0, 1, 2, 3):
        job("no source, a text of %d characters" % n, inputs((), "auto", text=n), witness=n > 0)
        job("a source and a text of %d characters" % n, inputs((2,), "auto", text=n, how="none"))
    for n in range(3, 8):
        job("output format of %d characters" % n, output(n), witness=n in (3, 4, 6))
    return out
