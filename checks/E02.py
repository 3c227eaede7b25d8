import itertools

from vt import engine as E, expand as X, plug, stub
from vt.run import Job

ASSUMPTIONS = [
    "rdflib's graph and dataset are replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real one",
    "rules are plugged in by a subclass of Core; for the package's own semantics the one-time parts are run on symbolic triples and the rounds are "
    "switched off (every rule stores through store_triple, R01-R09)",
]
BOUNDS = {
    "quick": "up to 2 initial triples in any of 3 graphs of a Dataset or ConjunctiveGraph, up to 3 arbitrary rules (one or two premises, reports, one-time, "
             "axioms); destinations: none, a graph of the dataset, a new one, the default graph, by object, IRI or string, the dataset itself; rejected "
             "kinds; the five semantics on 1 literal triple and 1 arbitrary triple in any graphs",
    "thorough": "up to 3 initial triples and 3 rules",
}
OUTSIDE = "destinations of a plain graph other than rejected ones; stores other than the in-memory one"
GRAPHS = ("default", "g1", "g2")


def U(w):
    return stub.mk_uri("http://ex.org/" + w)


def dataset(kind):
    return stub.ConjunctiveGraph() if kind == "conjunctive" else stub.Dataset()


def gid_of(g, w):
    return g.default_context.identifier if w == "default" else U(w)


def destination(g, dest):
    """(argument, gid of the results)"""
    if dest is None:
        return None, g.default_context.identifier
    how, w = dest
    gid = gid_of(g, w)
    if how == "graph":
        return (g.default_context if w == "default" else g.get_context(U(w))), gid
    if how == "new":
        return stub.Graph(store=g.store, identifier=U(w)), gid
    if how == "uri":
        return U(w), gid
    if how == "str":
        return "http://ex.org/" + w, gid
    if how == "self":
        return g, g.default_context.identifier


DESTS = [None, ("graph", "g1"), ("graph", "default"), ("new", "g3"), ("uri", "g1"), ("uri", "g3"), ("str", "g2"), ("str", "g3"), ("self", "default")]


def path_of(kinds, m, kind, dests, spread=True):
    def path(ctx):
        dest = dests[ctx.choose(len(dests))]
        places = [GRAPHS[ctx.choose(3)] if spread else "g2" for _ in range(m)]
        init = [ctx.var("t%d" % i, E.URI_USER) for i in range(m)]
        for i in range(m):
            for j in range(i):
                if places[i] == places[j]:
                    ctx.set_ne(init[i], init[j])
        rules = plug.Rules(ctx, kinds)
        ax = any(k.startswith("axiom") for k in kinds)
        g = dataset(kind)
        for t, w in zip(init, places):
            g.store.add(plug.tr(t), gid_of(g, w))
        arg, dgid = destination(g, dest)

        def scen(model):
            nm = plug.concretise(ctx, model, init, rules)
            return dict(plug.ser(nm, init, rules), scenario="engine", axioms=ax, daxioms=False, dataset=kind, places=places,
                        dest=list(dest) if dest else None)
        ctx.notes["scen"] = scen
        run(g, plug.subclass(rules), arg, scen, ax)
        plug.check(ctx, init, [gid_of(g, w) for w in places], rules, g.store, dgid, ax, False, scen)
    return path


def run(g, cls, arg, scen, ax, dax=False):
    k = {} if arg is None else {"destination": arg}
    try:
        X.cls("DeductiveClosure")(cls, axiomatic_triples=ax, datatype_axioms=dax).expand(g, **k)
    except E.Candidate:
        raise E.Candidate(dict(scen(None), why="the expansion does not end"))
    except (E.Steer, E.Inconclusive):
        raise
    except Exception as e:
        raise E.Candidate(dict(scen(None), why="the expansion fails with %s: %s" % (type(e).__name__, e)))


def reject(ctx):
    """Unusable destinations: a graph of another store, a name although the graph is a plain one."""
    kind = ["", "dataset", "conjunctive"][ctx.choose(3)]
    how = (["foreign", "uri", "str"] if not kind else ["foreign"])
    how = how[ctx.choose(len(how))]
    init = [ctx.var("t%d" % i, E.URI_USER) for i in range(2)]
    ctx.set_ne(init[0], init[1])
    rules = plug.Rules(ctx, ("round", "axiom", "pre"))
    g = dataset(kind) if kind else stub.Graph(identifier="urn:g")
    gid = g.default_context.identifier if kind else g.identifier
    for t in init:
        g.store.raw(plug.tr(t), gid)
    arg = stub.Graph(identifier="urn:other") if how == "foreign" else U("g1") if how == "uri" else "http://ex.org/g1"

    def scen(model):
        nm = plug.concretise(ctx, model, init, rules)
        return dict(plug.ser(nm, init, rules), scenario="engine", axioms=True, daxioms=False, dataset=kind, places=["default"] * 2,
                    dest=[how, "g1"], reject=True)
    ctx.notes["scen"] = scen
    E.STATS.witness += 1
    E.STATS.obligations += 2
    why = "an unusable destination is not rejected"
    try:
        X.cls("DeductiveClosure")(plug.subclass(rules), axiomatic_triples=True).expand(g, destination=arg)
    except (E.Steer, E.Inconclusive):
        raise
    except ValueError:
        same = len(g.store.quads) == 2 and all(q[1] == [gid] for q in g.store.quads)
        if same and not (how == "foreign" and arg.store.quads):
            return
        why = "the rejected expansion changed the graph"
    except E.Candidate:
        why = "an unusable destination is accepted"
    except Exception as e:
        why = "an unusable destination is rejected with %s: %s" % (type(e).__name__, e)
    raise E.Candidate(dict(scen(None), why=why))


def sample(ctx):
    return dict(ctx.notes["scen"](None), why="sampled path")


# ------------------------------------------------------------------ the package's own semantics
SEMANTICS = ("RDFS_Semantics", "OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension", "OWLRL_Extension_Trimming")


def own_path(cls, kind, dests, two):
    def path(ctx):
        n = 1 + two
        ax, dax = [(False, False), (True, True), (False, True)][ctx.choose(3)] if not two else (False, False)
        dest = dests[ctx.choose(len(dests) if not dax else 2)]
        places = [GRAPHS[ctx.choose(3) if not dax else 2] for _ in range(n)]
        s = ctx.var("s", E.URI_USER | E.BNODE)
        p = ctx.var("p", E.URI_USER)
        lt = ctx.var("l", E.LITERAL)
        trs = [(s, p, lt)]
        if dax:
            ctx.attr(lt, "datatype", lambda: stub.mk_uri(X.X + "integer"))
        if two:
            lit2 = ctx.choose(2)
            trs.append((ctx.var("s2", E.URI_USER), ctx.var("p2", E.URI), ctx.var("o2", E.LITERAL if lit2 else E.URI_USER | E.BNODE)))
        g = dataset(kind)
        for t, w in zip(trs, places):
            g.store.add(t, gid_of(g, w))
        start = [(q[0], list(q[1])) for q in g.store.quads]
        arg, dgid = destination(g, dest)

        def scen(model):
            c, gr = X.scenario(ctx, trs)
            return {"scenario": "placement", "class": cls, "opts": {"axiomatic_triples": ax, "datatype_axioms": dax}, "dataset": kind, "graph": gr, "places": places, "dest": list(dest) if dest else None}
        ctx.notes["scen"] = scen
        run(g, X.norules(cls), arg, scen, ax, dax)
        E.STATS.obligations += len(g.store.quads)
        E.STATS.witness += len(g.store.quads) > len(start)
        for t, gs in g.store.quads:
            old = next((x for u, x in start if all(a is b for a, b in zip(u, t))), None)
            if old is not None:
                if gs != old:
                    raise E.Candidate(dict(scen(None), why="an initial triple is in %s, not %s" % (gs, old)))
            elif gs != [dgid]:
                raise E.Candidate(dict(scen(None), why="an inferred triple is in %s, not in %s" % (gs, dgid)))
    return path


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(kinds, m, kind, dests, spread=True):
        name = "%s, %d initial, %s, %s" % (" ".join(kinds), m, kind, "%d destinations" % len(dests))
        out.append(Job(name, path_of(kinds, m, kind, dests, spread), name, sample, setup=X.setup))
    main = [None, ("graph", "g1"), ("uri", "g1"), ("new", "g3")]
    for kind in ("dataset", "conjunctive"):
        job(("round",), 2, kind, DESTS)
        job(("round2",), 2, kind, DESTS)
        job(("round", "rounde"), 1, kind, DESTS)
        job(("once", "round"), 1, kind, DESTS)
        job(("axiom", "pre", "post"), 1, kind, DESTS)
        job(("round", "round"), 2, kind, main if not q else main[:2])
        if not q:
            job(("round", "round", "round"), 1, kind, main)
            job(("round2", "round"), 2, kind, main)
            job(("round2", "rounde"), 3, kind, main[:2])
    out.append(Job("rejected destinations", reject, "rejected destinations", sample, setup=X.setup))
    for cls in SEMANTICS:
        for two in ((0, 1) if q and cls == "RDFS_Semantics" or not q else (0,)):
            name = "%s, %d triples" % (cls, 1 + two)
            out.append(Job(name, own_path(cls, "dataset", main, two), name, sample, setup=X.setup, witness=bool(two) or cls != "RDFS_Semantics"))
    return out
