import sys

import z3

from vt import engine as E, expand as X, load, stub
from vt.run import Job

ASSUMPTIONS = [
    "rdflib's graph and its conversion table are replaced by the symbolic environment vt/stub.py (the table is a dictionary with the same entries); "
    "sampled paths are replayed on the real one",
]
BOUNDS = {
    "quick": "one table entry for an arbitrary datatype (so any supported one, too) and typical entries of RDFLib; histories of 2 operations out of "
             "switching on, switching off, expansions with improved conversions on or off that succeed or raise in the constructor, in "
             "pre-processing, in a rule or in post-processing, or that run another expansion; histories of 3 and 4 with failures in the constructor or in a rule; "
             "expansions of a small graph (with a restricted datatype that has an entry) under the five semantics that raise at any of the "
             "first 60 graph operations, or not at all",
    "thorough": "histories of 4 and 5 operations; 300 graph operations",
}
OUTSIDE = "switching off what was not switched on; changes of the table by the application in between; concurrent expansions"
WHERE = ("init", "pre_process", "rules", "post_process")


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


def entries():
    """What RDFLib's own table looks like: functions, None as value, None as key."""
    f = {n: (lambda v, n=n: ("rdflib", n, v)) for n in ("integer", "date", "gYear", "duration", "double")}
    d = {stub.mk_uri(X.X + n): f[n] for n in f}
    d[None] = None
    d[stub.mk_uri(X.X + "string")] = None
    d[stub.mk_uri(X.R + "XMLLiteral")] = lambda v: ("xml", v)
    return d


def fresh(ctx, mask):
    """The package loaded anew, the host's table with an entry for an arbitrary datatype."""
    load.load()
    X.RULESFREE.clear()
    term = sys.modules["rdflib.term"]
    base = entries()
    term.XSDToPython.update(base)
    tab = term._toPythonMapping
    tab.update(base)
    key = ctx.var("key", mask) if mask else X.uri("datatype")
    custom = lambda v: ("custom", v)
    if ctx.choose(2):
        tab[key] = custom
    return tab, key, custom


def items(tab):
    return list(tab.items())


def differ(ctx, a, b):
    """A key whose entry differs, or None; the keys of one table are pairwise different."""
    def index(l):
        return {None if k is None else ctx.find(k): v for k, v in l}
    x, y = index(a), index(b)
    for k in list(x) + list(y):
        if (k in x) != (k in y) or k in x and x[k] is not y[k]:
            return True, k
    return False, None


def plugged(where, exc, seen, nested=None):
    B = X.cls("Core")

    def at(w):
        def f(self, *a):
            seen(w)
            if nested and w == "rules":
                nested()
            if where == w:
                raise exc()
        return f

    def init(self, *a, **k):
        B.__init__(self, *a, **k)
        at("init")(self)
    return type.__new__(type, "Plugged", (B,), {"__init__": init, "rules": at("rules"), "pre_process": at("pre_process"),
                                               "post_process": at("post_process"), "add_axioms": lambda s: None, "add_d_axioms": lambda s: None})


OPS = ["on", "off", "good", "fault", "plain", "plainfault", "nested"]


def fail(ctx, script, key, had, why, **k):
    raise E.Candidate(scen(ctx, script, key, had, why, **k))


def scen(ctx, script, key, had, why, **k):
    c, gr = X.scenario(ctx, [(key, key, key)])
    return dict({"scenario": "table", "key": c(key).const, "had": had, "script": script, "why": why}, **k)


def history(n, mask, ops, full):
    def path(ctx):
        tab, key, custom = fresh(ctx, mask)
        had = any(v is custom for v in tab.values())
        import owlrl
        import owlrl.DatatypeHandling as D
        DC = owlrl.DeductiveClosure
        start = items(tab)
        on = False
        script = []
        ctx.notes["scen"] = lambda: scen(ctx, script, key, had, "sampled path")
        for _ in range(n):
            op = ops[ctx.choose(len(ops))]
            if op == "off" and not on:
                raise E.Infeasible()
            before = items(tab)
            w = exc = None
            if op in ("fault", "plainfault"):
                w = WHERE[ctx.choose(len(WHERE))] if full else ("init", "rules")[ctx.choose(2)]
                exc = [Fault, Stop][ctx.choose(2)] if full else Stop
            script.append([op, w, exc.__name__ if exc else None])
            E.STATS.obligations += 1
            if op == "on":
                DC.use_improved_datatypes_conversions()
                on = True
                now = items(tab)
                alt = items(D.AltXSDToPYTHON)
                want = [(k, v) for k, v in before if not any(a is not None and k is not None and ctx.find(a) is ctx.find(k) for a, f in alt)] + alt
                if differ(ctx, now, want)[0]:
                    fail(ctx, script, key, had, "switching on does not just register the improved conversions")
                continue
            if op == "off":
                DC.use_rdflib_datatypes_conversions()
                on = False
                if differ(ctx, items(tab), start)[0]:
                    fail(ctx, script, key, had, "switching off does not restore the original table")
                E.STATS.witness += 1
                continue
            improved = not op.startswith("plain")
            during = []

            def nested():
                DC(plugged(None, None, lambda w: None)).expand(graph())
            cls = plugged(w, exc, lambda w: during.append(items(tab)), nested if op == "nested" else None)
            try:
                DC(cls, **({} if improved else {"improved_datatypes": False})).expand(graph())
            except (E.Steer, E.Inconclusive, E.Candidate):
                raise
            except (Fault, Stop):
                if not w:
                    fail(ctx, script, key, had, "the expansion raises")
            except Exception as e:
                fail(ctx, script, key, had, "the expansion fails with %s: %s" % (type(e).__name__, e))
            else:
                if w:
                    fail(ctx, script, key, had, "the failure is swallowed")
            E.STATS.witness += 1
            if differ(ctx, items(tab), before)[0]:
                fail(ctx, script, key, had, "the expansion changes the table")
            alt = items(D.AltXSDToPYTHON)
            for d in during:
                E.STATS.obligations += 1
                if not improved and differ(ctx, d, before)[0]:
                    fail(ctx, script, key, had, "an expansion without improved conversions changes the table while it runs")
                if improved:
                    now = {None if k is None else ctx.find(k): v for k, v in d}
                    if any(now.get(ctx.find(k)) is not v for k, v in alt):
                        fail(ctx, script, key, had, "an expansion runs without the improved conversions")
    return path


def graph():
    g = stub.Graph(identifier="urn:g")
    g.store.raw((X.uri("a"), X.uri("p"), X.uri("b")), g.identifier)
    return g


FAULT = [None]


def semantics(cls, ops):
    def path(ctx):
        tab, key, custom = fresh(ctx, None)
        had = any(v is custom for v in tab.values())
        import owlrl
        DC = owlrl.DeductiveClosure
        mode = ["good", "plain", "on"][ctx.choose(3)]
        at = ctx.choose(ops + 1)
        exc = [Fault, Stop][ctx.choose(2)] if at else None
        g = graph()
        trs = [(X.uri("a"), X.uri("p"), stub.mk_literal("1", None, stub.mk_uri(X.X + "integer")))]
        if cls.startswith("OWLRL_Ext"):
            l, b = X.uri("list"), X.uri("facet")
            O = lambda n: stub.mk_uri(X.O + n)
            trs += [(key, stub.RDF.type, stub.RDFS.Datatype), (key, O("onDatatype"), stub.mk_uri(X.X + "integer")), (key, O("withRestrictions"), l),
                    (l, stub.RDF.first, b), (l, stub.RDF.rest, stub.RDF.nil), (b, stub.mk_uri(X.X + "minInclusive"), stub.mk_literal("0", None, stub.mk_uri(X.X + "integer")))]
        for t in trs:
            g.store.raw(t, g.identifier)
        if mode == "on":
            DC.use_improved_datatypes_conversions()
        before = items(tab)

        def sc(why):
            c, gr = X.scenario(ctx, [(X.uri("a"), X.uri("p"), X.uri("b"))] + trs)
            return {"scenario": "table", "class": cls, "key": c(key).const, "had": had, "script": [["on", None, None]] * (mode == "on") +
                    [["plain" if mode == "plain" else "good", at, exc.__name__ if exc else None]], "graph": gr, "why": why}
        ctx.notes["scen"] = lambda: sc("sampled path")
        n = [0]

        def hook(op, gr, arg):
            n[0] += 1
            if at and n[0] == at:
                raise exc()
        E.STATS.obligations += 1
        stub.GRAPH_HOOK = hook
        try:
            DC(X.norules(cls) if not at else X.cls(cls), **({"improved_datatypes": False} if mode == "plain" else {})).expand(g)
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except (Fault, Stop):
            E.STATS.witness += 1
        except Exception as e:
            raise E.Candidate(sc("the expansion fails with %s: %s" % (type(e).__name__, e)))
        finally:
            stub.GRAPH_HOOK = None
        E.STATS.witness += not at
        if differ(ctx, items(tab), before)[0]:
            raise E.Candidate(sc("the expansion changes the table"))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(n, mask, ops, what, full=False):
        name = "%d operations, %s" % (n, what)
        out.append(Job(name, history(n, mask, ops, full), name, sample, setup=X.setup))
    job(1, E.URI, OPS, "any datatype", True)
    job(2, E.URI_USER, OPS, "an unknown datatype", True)
    job(2, E.URI_VOCAB, OPS, "a vocabulary datatype", not q)
    job(3, E.URI_USER, OPS, "an unknown datatype")
    job(3, E.URI_VOCAB, ["on", "off", "fault"] if q else ["on", "off", "good", "plainfault", "nested"], "a vocabulary datatype")
    job(4, E.URI_USER, ["on", "off", "good", "fault"], "an unknown datatype")
    if not q:
        job(5, E.URI_USER, ["on", "off", "good", "fault"], "an unknown datatype")
    for cls in ("RDFS_Semantics", "OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension", "OWLRL_Extension_Trimming"):
        out.append(Job(cls, semantics(cls, 60 if q else 300), "%s, a failure at each graph operation" % cls, sample, setup=X.setup))
    return out
