import z3

from vt import axioms as A, engine as E, expand as X, load, stub
from vt.run import Job
from checks.E02 import dataset, destination, gid_of, GRAPHS

ASSUMPTIONS = [
    "rdflib's graph and dataset are replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real one",
    "the list of trivial triples below was written down from the documentation of the trimming class",
    "the extended semantics of the same run is the reference for what trimming may start from",
]
BOUNDS = {
    "quick": "graphs of one arbitrary triple (any IRI, blank node or literal, vocabulary included), of two triples whose predicates range over the six the "
             "trimming looks at and a user predicate, with every combination of the flags, no rounds; the same with the package's own rounds for one "
             "arbitrary triple of user terms and vocabulary predicates; datasets with a destination graph; restricted datatypes in the graph",
    "thorough": "all flag combinations for two triples, two triples with the real rounds",
}
OUTSIDE = "larger graphs (trimming looks at one triple at a time, or asks whether some triple types a datatype)"
T, C = "OWLRL_Extension_Trimming", "OWLRL_Extension"
U = stub.mk_uri
TYPE, SUB, SUBP, SAME, EQV, DISJ = (U(X.R + "type"), U(X.S + "subClassOf"), U(X.S + "subPropertyOf"), U(X.O + "sameAs"),
                                    U(X.O + "equivalentClass"), U(X.O + "disjointWith"))
THING, NOTHING, RES, OC, RC = U(X.O + "Thing"), U(X.O + "Nothing"), U(X.S + "Resource"), U(X.O + "Class"), U(X.S + "Class")
DTT, DR, ANNP = U(X.S + "Datatype"), U(X.O + "DataRange"), U(X.O + "AnnotationProperty")
ANN = [U(X.S + n) for n in ("label", "comment", "seeAlso", "isDefinedBy")] + [
    U(X.O + n) for n in ("deprecated", "versionInfo", "priorVersion", "backwardCompatibleWith", "incompatibleWith")]
FIXED = [(NOTHING, TYPE, OC), (NOTHING, TYPE, RC), (THING, TYPE, OC), (THING, TYPE, RC), (THING, EQV, RES), (RES, EQV, THING),
         (OC, EQV, RC), (RC, EQV, OC), (OC, SUB, RC), (RC, SUB, OC), (DTT, SUB, DR), (DTT, EQV, DR), (DR, SUB, DTT), (DR, EQV, DTT)]
# the datatypes of OWL 2 RL and the extension
XSD = ["anyURI", "base64Binary", "boolean", "byte", "date", "dateTime", "dateTimeStamp", "decimal", "double", "float", "hexBinary", "int", "integer",
       "language", "long", "Name", "NCName", "negativeInteger", "NMTOKEN", "nonNegativeInteger", "nonPositiveInteger", "normalizedString",
       "positiveInteger", "short", "string", "time", "token", "unsignedByte", "unsignedInt", "unsignedLong", "unsignedShort"]
KNOWN = [U(X.X + n) for n in XSD] + [U(X.R + "XMLLiteral"), U(X.R + "PlainLiteral"), U(X.S + "Literal"), U(X.O + "rational"),
                                        U(X.R + "HTML"), U(X.R + "langString")]


def conj(*cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return z3.And(cs) if cs else True


def neg(c):
    return (not c) if type(c) is bool else z3.Not(c)


def is_(ctx, a, b):
    d = ctx.decide(a, b)
    return a.z == b.z if d is None else d


def trivial(ctx, t, full, known):
    """Is t one of the trivial triples, given the untrimmed result?"""
    s, p, o = t
    i = lambda a, b: is_(ctx, a, b)
    some = X.anyof
    out = [conj(i(s, o), some([i(p, q) for q in (SAME, EQV, SUB, SUBP)])),
           conj(i(p, SUB), some([i(o, THING), i(o, RES), i(s, NOTHING)])),
           conj(i(p, TYPE), i(o, RES)),
           conj(i(p, TYPE), i(o, ANNP), some([i(s, a) for a in ANN]))]
    out += [X.teq(ctx, t, f) for f in FIXED]
    if any(c is True for c in out):
        return True
    decl, dis = conj(i(p, TYPE), some([i(o, DTT), i(o, DR)])), i(p, DISJ)
    if decl is not False or dis is not False:
        for dt in known:
            a, b = i(s, dt), i(o, dt)
            c = some([conj(decl, a), conj(dis, some([a, b]))])
            if c is False:
                continue
            used = some([conj(i(u[1], TYPE), i(u[2], dt)) for u in full])
            out.append(conj(c, neg(used)))
    return some(out)


def compare(ctx, full, result, before, known, scen):
    """full: triples of the untrimmed expansion; result/before: what the result graph holds with and without trimming."""
    index = {tuple(x.tid for x in t) for t in result}
    for t in before:
        E.STATS.obligations += 2
        triv = trivial(ctx, t, full, known)
        here = True if tuple(x.tid for x in t) in index else X.present(ctx, t, result)
        E.STATS.witness += triv is not False
        for bad, why in ((conj(triv, here), "the trivial %s is not removed"), (conj(neg(triv), neg(here)), "%s is removed")):
            if bad is False:
                continue
            m = ctx.model(*([] if bad is True else [bad]))
            if m is not None:
                raise E.Candidate(dict(scen(() if bad is True else (bad,)), why=why % (t,)))
    index = {tuple(x.tid for x in t) for t in before}
    for t in result:
        E.STATS.obligations += 1
        if tuple(x.tid for x in t) in index:
            continue
        here = X.present(ctx, t, before)
        if here is True:
            continue
        if ctx.model(neg(here)) is not None or here is False:
            raise E.Candidate(dict(scen(() if here is False else (neg(here),)), why="%s appears" % (t,)))


ERRNS = "http://www.daml.org/2002/03/agents/agent-ont#"


def reports(triples):
    """(triples without the error nodes, the messages)"""
    msgs = sorted(o.tid for s, p, o in triples if p.const == ERRNS + "error")
    return [t for t in triples if not (t[1].const == ERRNS + "error" or t[2].const == ERRNS + "ErrorMessage")], msgs


def run(cls, trs, places, dest, kind, ax, dax, rdfs, scen):
    g = dataset(kind) if kind else stub.Graph(identifier="urn:g")
    for t, w in zip(trs, places):
        gid = gid_of(g, w) if kind else g.identifier
        g.store.raw(t, gid)
    arg, dgid = destination(g, dest) if kind else (None, g.identifier)
    k = {} if arg is None else {"destination": arg}
    try:
        X.cls("DeductiveClosure")(cls, axiomatic_triples=ax, datatype_axioms=dax, rdfs_closure=rdfs).expand(g, **k)
    except (E.Steer, E.Inconclusive):
        raise
    except Exception as e:
        raise E.Candidate(dict(scen(()), why="the expansion fails with %s: %s" % (type(e).__name__, e)))
    return g, dgid


def path_of(build, flags, kind="", dests=(None,), rules=False, known=()):
    def path(ctx):
        trs = build(ctx)
        ax, dax, rdfs = flags[ctx.choose(len(flags))]
        places = [GRAPHS[ctx.choose(3)] if kind else None for _ in trs]
        dest = dests[ctx.choose(len(dests))]

        def scen(extra):
            c, gr = X.scenario(ctx, trs, *extra)
            return {"scenario": "trimming", "norules": not rules, "opts": {"axiomatic_triples": ax, "datatype_axioms": dax, "rdfs_closure": rdfs},
                    "graph": gr, "dataset": kind, "places": places, "dest": list(dest) if dest else None}
        ctx.notes["scen"] = lambda: dict(scen(()), why="sampled path")
        mk = (lambda n: X.cls(n)) if rules else X.norules
        gt, gid = run(mk(T), trs, places, dest, kind, ax, dax, rdfs, scen)
        ge, gid0 = run(mk(C), trs, places, dest, kind, ax, dax, rdfs, scen)
        full, _ = reports([t for t, gs in ge.store.quads])
        result, m1 = reports([t for t, gs in gt.store.quads if gid in gs])
        before, m0 = reports([t for t, gs in ge.store.quads if gid0 in gs])
        E.STATS.obligations += 1
        if m0 != m1:
            raise E.Candidate(dict(scen(()), why="the errors reported differ"))
        compare(ctx, full, result, before, KNOWN + list(known), scen)
        # the other graphs are not touched
        if kind:
            for (t, w) in zip(trs, places):
                g2 = gid_of(gt, w)
                E.STATS.obligations += 1
                if g2 != gid and not any(g2 in gs and all(x is y for x, y in zip(t, u)) for u, gs in gt.store.quads):
                    raise E.Candidate(dict(scen(()), why="%s is removed from another graph" % (t,)))
    return path


def sample(ctx):
    return ctx.notes["scen"]()


NODE = E.URI | E.BNODE
USER = E.URI_USER | E.BNODE
FLAGS = [(a, d, r) for a in (False, True) for d in (False, True) for r in (False, True)]


def any1(smask, pmask, omask):
    return lambda ctx: [(ctx.var("s", smask), ctx.var("p", pmask), ctx.var("o", omask))]


def fixedp(preds, smask, omask):
    def build(ctx):
        return [(ctx.var("s%d" % i, smask), p, ctx.var("o%d" % i, omask)) for i, p in enumerate(preds)]
    return build


def literal(ctx):
    dt = [X.X + "integer", X.X + "token", X.O + "rational", "http://ex.org/dt", None][ctx.choose(5)]
    lex = "1" if dt and dt.endswith("rational") else X.lexical(dt, 1) if dt and dt.startswith(X.X) else "a"
    return [(ctx.var("s", USER), ctx.var("p", E.URI_USER), stub.mk_literal(lex, None, U(dt) if dt else None)),
            (ctx.var("s2", USER), TYPE, ctx.var("o2", E.URI))]


def restricted(ctx):
    """A restricted datatype is a known one too."""
    r, b, f = X.uri("dt"), stub.mk_uri("http://ex.org/f"), stub.mk_uri("http://ex.org/l")
    NIL = U(X.R + "nil")
    out = [(r, TYPE, DTT), (r, U(X.O + "onDatatype"), U(X.X + "integer")), (r, U(X.O + "withRestrictions"), f),
           (f, U(X.R + "first"), b), (f, U(X.R + "rest"), NIL), (b, U(X.X + "minInclusive"), stub.mk_literal("1", None, U(X.X + "integer"))),
           (r, DISJ, ctx.var("o", E.URI_USER))]
    if ctx.choose(2):
        out.append((X.uri("a"), U("http://ex.org/q"), stub.mk_literal(["0", "2"][ctx.choose(2)], None, U(X.X + "integer"))))
    return out


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(name, build, flags, **k):
        out.append(Job(name, path_of(build, flags, **k), name, sample, setup=X.setup, witness=k.get("rules") is not True or True))
    some = [(False, False, False), (True, True, True)]
    for f in FLAGS:
        job("one triple of user terms, vocabulary predicate, flags %d%d%d" % f, any1(USER, E.URI_VOCAB, USER), [f])
    job("one triple, user predicate", any1(NODE, E.URI_USER, NODE), some)
    job("one triple, user subject and predicate, literal", any1(USER, E.URI, E.LITERAL), some[:1])
    for p in (SAME, EQV, SUB, SUBP, TYPE, DISJ):
        n = p.const.rsplit("#")[-1]
        job("one %s triple of any nodes, flags 000" % n, fixedp([p], NODE, NODE), some[:1])
        if q and p in (TYPE, DISJ):
            job("one %s triple of any object, flags 111" % n, fixedp([p], USER, NODE), some[1:])
            job("one %s triple of any subject, flags 111" % n, fixedp([p], NODE, USER), some[1:])
        else:
            job("one %s triple of any nodes, flags 111" % n, fixedp([p], NODE, NODE), some[1:])
    job("one literal and one type", literal, [(False, False, False), (False, True, False)])
    job("a restricted datatype", restricted, some, known=[X.uri("dt")])
    ps = (SAME, EQV, SUB, SUBP, TYPE, DISJ, X.uri("q"))
    two = [(TYPE, DISJ), (TYPE, TYPE), (SUB, SUB)] if q else [(a, b) for i, a in enumerate(ps) for b in ps[i:]]
    for a, b in two:
        mask = E.URI if a in (TYPE, DISJ) and b in (TYPE, DISJ) else NODE
        job("two triples, %s and %s" % (a.const.rsplit("#")[-1], b.const.rsplit("#")[-1]), fixedp([a, b], E.URI_USER, mask), some[:1])
    for p in (SAME, SUB, TYPE, DISJ):
        n = p.const.rsplit("#")[-1]
        for kind in ("dataset", "conjunctive"):
            job("%s with a destination, %s" % (kind, n), fixedp([p], USER, NODE), some[:1], kind=kind,
                dests=(None, ("graph", "g1"), ("uri", "g3")))
    job("dataset, axioms", fixedp([SUB], USER, USER), some[1:], kind="dataset", dests=(None, ("graph", "g1")))
    for p in (SAME, EQV, SUB, SUBP, TYPE, X.uri("q")):
        n = p.const.rsplit("#")[-1]
        job("own rounds, %s" % n, fixedp([p], USER, USER), some[:1] if q else FLAGS[:4], rules=True)
    return out
