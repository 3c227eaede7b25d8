import sys

import z3

from vt import engine as E, expand as X, load, stub
from vt.run import Job

ASSUMPTIONS = [
    "rdflib's graph is replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real one",
    "a second expansion in the process that ran the first one is compared with the same expansion in a freshly loaded package; the lexical forms are "
    "concrete, the datatypes, types and other terms are symbolic; the rounds are switched off except in the jobs on rounds",
]
BOUNDS = {
    "quick": "first graph: a datatype restriction named by any user IRI or xsd:byte (of a known or unknown base), a literal of an unknown datatype or one of four, a node with any user type and "
             "the same as a literal, an inconsistency and a blank node (rounds on), or nothing; second graph: a literal of any datatype, a node "
             "with any type, an inconsistency or an arbitrary triple (rounds on), or nothing; pairs of the five semantics; with and without the axioms; two graphs with the "
             "same names for a class or property description and its list, but different members, with the closure object new or used again",
    "thorough": "vocabulary as name of the restriction and as type; all 25 pairs for all combinations, also with two expansions before",
}
OUTSIDE = "larger graphs; expansions with a closure class of the user's"
ALL = ("RDFS_Semantics", "OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension", "OWLRL_Extension_Trimming")
OW = lambda n: stub.mk_uri(X.O + n)
XS = lambda n: stub.mk_uri(X.X + n)


def first(ctx, kind, i=0, q=False):
    """(triples, rounds on)"""
    v = lambda n, m: ctx.var("%s%d" % (n, i), m)
    if kind == "restriction":
        known = ctx.choose(2) if q else 0
        d = XS("byte") if known else v("d", E.URI_USER if q else E.URI)
        l, f = X.uri("l%d" % i), X.uri("f%d" % i)
        base = XS("string") if known else [XS("integer"), X.uri("base"), XS("string")][ctx.choose(2 if q else 3)]
        return [(d, stub.RDF.type, stub.RDFS.Datatype), (d, OW("onDatatype"), base), (d, OW("withRestrictions"), l),
                (l, stub.RDF.first, f), (l, stub.RDF.rest, stub.RDF.nil), (f, XS("minInclusive"), stub.mk_literal("5", None, XS("integer")))], False
    if kind == "literal":
        few = ["integer", "byte", "gYear", "boolean"] if q and i != 9 else []
        k = ctx.choose(len(few) + 1)
        d = XS(few[k - 1]) if k else v("d", E.URI_USER if few else E.URI)
        return [(v("s", E.URI_USER), v("p", E.URI_USER), stub.mk_literal(["7", "x"][ctx.choose(2)] if i == 9 else "7", None, d))], False
    if kind == "typed":
        return [(X.uri("n"), stub.RDF.type, v("d", E.URI_USER) if q else v("d", E.URI)), (X.uri("n"), stub.OWL.sameAs, stub.mk_literal("2000", None, XS("gYear")))], False
    if kind == "rounds":
        a, b = v("s", E.URI_USER), v("o", E.URI_USER)
        return [(a, stub.OWL.sameAs, b), (a, OW("differentFrom"), b), (stub.BNode("x"), X.uri("p"), a)], True
    if kind == "triple":
        return [(v("s", E.URI_USER), [v("p", E.URI_USER), stub.RDF.type, stub.RDFS.subPropertyOf, OW("differentFrom")][ctx.choose(4)], v("o", E.URI_USER | E.BNODE)),
                (X.uri("a"), OW("differentFrom"), X.uri("b"))], True
    if kind in AXIOMS:
        return axiom(ctx, kind, v("m", E.URI_USER) if i == 9 else X.uri("m")), True
    if kind == "type":
        return [(X.uri("m"), stub.RDF.type, v("d", E.URI))], False
    return [(X.uri("a"), X.uri("p"), X.uri("b"))], False


AXIOMS = ("intersection", "union", "enumeration", "chain", "key", "different", "disjoint", "some values", "self", "domain", "sub-class")


def axiom(ctx, kind, m):
    """An axiom about ex:c, its list (if any) headed ex:l, that involves m, and a situation in which it applies."""
    u, T = X.uri, stub.RDF.type
    c, l, n, x, y = u("c"), u("l"), u("k"), u("x"), u("y")

    def lst(*ms):
        out, at = [], l
        for j, e in enumerate(ms):
            nx = u("l%d" % (j + 2)) if j + 1 < len(ms) else stub.RDF.nil
            out += [(at, stub.RDF.first, e), (at, stub.RDF.rest, nx)]
            at = nx
        return out
    if kind == "intersection":
        return [(c, OW("intersectionOf"), l), (x, T, m)] + lst(m)
    if kind == "union":
        return [(c, OW("unionOf"), l), (x, T, m)] + lst(n, m)
    if kind == "enumeration":
        return [(c, OW("oneOf"), l)] + lst(n, m)
    if kind == "chain":
        return [(c, OW("propertyChainAxiom"), l), (x, m, y), (y, n, x)] + lst(m, n)
    if kind == "key":
        return [(c, OW("hasKey"), l), (x, T, c), (y, T, c), (x, m, n), (y, m, n)] + lst(m)
    if kind == "different":
        return [(c, T, OW("AllDifferent")), (c, OW("members"), l), (x, stub.OWL.sameAs, m)] + lst(x, m)
    if kind == "disjoint":
        return [(c, T, OW("AllDisjointClasses")), (c, OW("members"), l), (x, T, m), (x, T, n)] + lst(n, m)
    if kind == "some values":
        return [(c, OW("someValuesFrom"), n), (c, OW("onProperty"), m), (x, m, y), (y, T, n)]
    if kind == "self":
        return [(c, OW("hasSelf"), stub.mk_literal("true", None, XS("boolean"))), (c, OW("onProperty"), m), (x, m, x)]
    if kind == "domain":
        return [(c, stub.RDFS.domain, m), (x, c, y)]
    return [(c, stub.RDFS.subClassOf, m), (x, T, c)]


def named(term, end):
    return type(term.const) is str and term.const.endswith(end)


def run(ctx, cls, trs, rounds, opts, keep=None):
    """keep: where the DeductiveClosure object is kept for further expansions"""
    g = stub.Graph(identifier="urn:g")
    for t in trs:
        g.store.raw(t, g.identifier)
    dc = (keep or {}).get(cls)
    if dc is None:
        c = type.__new__(type, cls, (X.cls(cls),), {"one_time_rules": lambda self: None}) if rounds else X.norules(cls)
        dc = X.cls("DeductiveClosure")(c, **opts)
        if keep is not None:
            keep[cls] = dc
    dc.expand(g)
    out, msgs = [], []
    for t, gs in g.store.quads:
        if named(t[1], "agent-ont#error"):
            msgs.append(str(t[2].lit[0]))
        elif not named(t[2], "agent-ont#ErrorMessage"):
            out.append(t)
    return out, sorted(msgs)


def path_of(pairs, kinds1, kinds2, axioms=False, q=False):
    def path(ctx):
        c1, c2 = pairs[ctx.choose(len(pairs))]
        steps = []
        for i, k in enumerate(kinds1):
            steps.append((c1,) + first(ctx, k, i, q) + ({"axiomatic_triples": True, "datatype_axioms": True} if axioms else {},))
        t2, r2 = first(ctx, kinds2, 9)
        o2 = {}
        keep = None
        if kinds1[0] in AXIOMS and ctx.choose(2):
            keep = {}
        if axioms:
            o2 = [{}, {"axiomatic_triples": True, "datatype_axioms": True}][ctx.choose(2)]

        def scen(why):
            every = [t for s in steps for t in s[1]] + t2
            c, gr = X.scenario(ctx, every)
            sers, at = [], 0
            for cl, trs, r, o in steps + [(c2, t2, r2, o2)]:
                sers.append({"class": cl, "graph": gr[at:at + len(trs)], "opts": o})
                at += len(trs)
            return {"scenario": "independent", "steps": sers, "why": why, "reuse": keep is not None}
        ctx.notes["scen"] = lambda: scen("sampled path")
        load.load()
        X.RULESFREE.clear()
        try:
            for cl, trs, r, o in steps:
                run(ctx, cl, trs, r, o, keep)
            dirty, m1 = run(ctx, c2, t2, r2, o2, keep)
            load.load()
            X.RULESFREE.clear()
            clean, m2 = run(ctx, c2, t2, r2, o2)
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except Exception as e:
            raise E.Candidate(scen("an expansion fails with %s: %s" % (type(e).__name__, e)))
        E.STATS.obligations += len(dirty) + len(clean) + 1
        E.STATS.witness += 1
        if m1 != m2:
            raise E.Candidate(scen("errors %s after another expansion, %s without" % (m1, m2)))
        for a, b, what in ((dirty, clean, "is only there after another expansion"), (clean, dirty, "is only there without another expansion")):
            index = {tuple(x.tid for x in t) for t in b}
            for t in a:
                if tuple(x.tid for x in t) in index:
                    continue
                c = X.present(ctx, t, b)
                if c is True:
                    continue
                if ctx.model(z3.BoolVal(True) if c is False else z3.Not(c)) is not None:
                    raise E.Candidate(scen("%s %s" % (t, what)))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(pairs, k1, k2, axioms=False):
        name = "%s then %s, %s" % (" and ".join(k1), k2, "%s to %s" % pairs[0] if len(pairs) == 1 else "%d pairs" % len(pairs)) + (", axioms" if axioms else "")
        out.append(Job(name, path_of(pairs, k1, k2, axioms, q), name, sample, setup=X.setup))
    every = [(a, b) for a in ALL for b in ALL]
    ext = ["OWLRL_Extension", "OWLRL_Extension_Trimming"]
    pairs = [("OWLRL_Extension", "OWLRL_Extension"), ("OWLRL_Extension", "OWLRL_Semantics"), ("OWLRL_Extension_Trimming", "RDFS_OWLRL_Semantics"),
             ("OWLRL_Extension", "RDFS_Semantics"), ("OWLRL_Semantics", "OWLRL_Extension")] if q else every
    for k in AXIOMS:
        ps = [("OWLRL_Extension", "OWLRL_Extension"), ("RDFS_OWLRL_Semantics", "RDFS_OWLRL_Semantics")] if k in ("self", "some values") else \
            [("OWLRL_Semantics", "OWLRL_Semantics")] + ([("RDFS_Semantics", "RDFS_Semantics")] if k in ("domain", "sub-class") else [])
        for p in ps if q else [(a, b) for a, b in every if a == b]:
            job([p], (k,), k)
    for p in (pairs[:3] if q else pairs):
        job([p], ("restriction",), "literal")
        job([p], ("restriction",), "type")
    job([(a, b) for a, b in every if "Ext" in b][:4] if q else every, ("empty",), "literal")
    job([("OWLRL_Extension", b) for b in ALL] + [("RDFS_OWLRL_Semantics", "RDFS_OWLRL_Semantics")], ("empty",), "literal")
    job([("OWLRL_Semantics", "OWLRL_Semantics"), ("OWLRL_Extension", "OWLRL_Semantics")], ("literal",), "type")
    job([("OWLRL_Semantics", "OWLRL_Semantics"), ("OWLRL_Extension", "OWLRL_Extension")], ("typed",), "type")
    job([("OWLRL_Semantics", "OWLRL_Semantics")], ("typed",), "literal")
    rp = [("OWLRL_Semantics", "OWLRL_Semantics"), ("RDFS_OWLRL_Semantics", "OWLRL_Extension"), ("RDFS_Semantics", "RDFS_Semantics")]
    for p in rp if q else every:
        job([p], ("rounds",), "triple")
        job([p], ("triple",), "rounds")
    for p in every:
        job([p], ("empty",), "empty", True)
    if not q:
        for b in ALL:
            job([("OWLRL_Extension", b)], ("restriction", "empty"), "literal")
            job([("OWLRL_Extension", b)], ("restriction", "restriction"), "type")
    return out
