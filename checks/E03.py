import z3

from vt import engine as E, expand as X, stub
from vt.run import Job
from checks.E02 import U, dataset, destination, gid_of

ASSUMPTIONS = [
    "rdflib's graph and dataset are replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real one",
    "full expansions with the real rules, to the fixpoint; the one-time rules (datatypes, D01) are switched off in the symbolic run, not in the replays",
]
BOUNDS = {
    "quick": "graphs of one arbitrary triple and one triple about a property (sub-property, equivalent, inverse, sameAs, domain, user-defined), subjects, "
             "predicates and objects any user terms: IRIs, blank nodes (also as predicates) or, as objects, literals, in any coincidence; plain graph, "
             "and a dataset with a destination and the triples in any graphs; OWL 2 RL and, for one triple, the combined and extended semantics",
    "thorough": "also with a further arbitrary triple",
}
OUTSIDE = "larger graphs; vocabulary terms as subjects or objects of the arbitrary triple"
USER = E.URI_USER | E.BNODE
MAKERS = ["subPropertyOf", "equivalentProperty", "inverseOf", "sameAs", "domain", "user"]


def maker(v):
    return {"subPropertyOf": stub.RDFS.subPropertyOf, "equivalentProperty": stub.OWL.equivalentProperty, "inverseOf": stub.OWL.inverseOf,
            "sameAs": stub.OWL.sameAs, "domain": stub.RDFS.domain, "user": stub.mk_uri("http://ex.org/q")}[v]


def noonce(name):
    return type.__new__(type, name, (X.cls(name),), {"one_time_rules": lambda self: None})


def path_of(cls, n, v, ds):
    def path(ctx):
        s, p = ctx.var("s", USER), ctx.var("p", E.URI_USER | E.BNODE)
        o = ctx.var("o", USER | E.LITERAL)
        trs = [(s, p, o)]
        if v:
            trs.append((ctx.var("m", USER), maker(v), ctx.var("n", USER)))
        if n > 1:
            trs.append((ctx.var("s2", USER), ctx.var("p2", E.URI_USER | E.BNODE), ctx.var("o2", USER)))
        if not (ctx.mask(o) & ~E.LITERAL):
            ctx.attr(o, "datatype", lambda: None)
        dest, places = None, ["default"] * len(trs)
        if ds:
            g = dataset("dataset")
            dest = [("graph", "g1"), None][ctx.choose(2)]
            places = [["default", "g2", "g1"][ctx.choose(3)] for _ in trs]
            arg, dgid = destination(g, dest)
            for t, w in zip(trs, places):
                g.store.add(t, gid_of(g, w))
        else:
            g = stub.Graph(identifier="urn:g")
            arg, dgid = None, g.identifier
            for t in trs:
                g.store.raw(t, g.identifier)
        start = [(t, gid_of(g, w) if ds else dgid) for t, w in zip(trs, places)]

        def scen(*extra):
            c, gr = X.scenario(ctx, trs, *extra)
            ctx.notes["conc"] = c
            return {"scenario": "kept", "class": cls, "opts": {}, "dataset": "dataset" if ds else "", "graph": gr, "places": places,
                    "dest": list(dest) if dest else None}
        ctx.notes["scen"] = scen
        try:
            X.cls("DeductiveClosure")(noonce(cls)).expand(g, **({} if arg is None else {"destination": arg}))
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except Exception as e:
            raise E.Candidate(dict(scen(), why="the expansion fails with %s: %s" % (type(e).__name__, e)))
        final = [(t, h) for t, gs in g.store.quads for h in gs]
        B = lambda x: E.Kind(x.z) == E.BNODE
        isb = lambda x: z3.BoolVal(False) if not ctx.mask(x) & E.BNODE else z3.BoolVal(True) if not ctx.mask(x) & ~E.BNODE else B(x)
        obl = []
        for t, h in start:
            obl.append(("an input triple is lost", z3.Or([isb(t[1])] + [zb(X.teq(ctx, t, u)) for u, k in final if k is h])))
        for u, h in final:
            obl.append(("a triple with a blank predicate remains", z3.Not(isb(u[1]))))
        pool = [u for u, h in final]
        if v in ("subPropertyOf", "equivalentProperty", "sameAs", "inverseOf"):
            m, nn = trs[1][0], trs[1][2]
            want = (s, nn, o) if v != "inverseOf" else (o, nn, s)
            obl.append(("an inference from the triple is missing", z3.Implies(z3.And(zb(eq(ctx, m, p)), z3.Not(isb(nn))), zb(X.present(ctx, want, pool)))))
            E.STATS.witness += ctx.decide(m, p) is not False
        if v == "domain":
            obl.append(("an inference from the triple is missing", z3.Implies(zb(eq(ctx, trs[1][0], p)), zb(X.present(ctx, (s, stub.RDF.type, trs[1][2]), pool)))))
            E.STATS.witness += ctx.decide(trs[1][0], p) is not False
        E.STATS.witness += not v or v == "user"
        E.STATS.obligations += len(obl)
        live = [(w, z3.simplify(f)) for w, f in obl]
        live = [(w, f) for w, f in live if not z3.is_true(f)]
        if not live:
            return
        known = {x for t in trs + pool for x in t if x.const is not None} | set(ctx.touched)
        neg = z3.Not(z3.And([f for _, f in live]))
        m = ctx.model(*ctx.const_kind_facts(known), neg)
        if m is None:
            return
        why = next(w for w, f in live if not z3.is_true(m.eval(f, model_completion=True)))
        raise E.Candidate(dict(scen(neg), why=why))
    return path


def eq(ctx, a, b):
    d = ctx.decide(a, b)
    return d if d is not None else a.z == b.z


def zb(c):
    return c if not isinstance(c, bool) else z3.BoolVal(c)


def sample(ctx):
    return dict(ctx.notes["scen"](), why="sampled path")


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(cls, n, v, ds):
        name = "%s, %d arbitrary%s%s" % (cls, n, ", one %s" % v if v else "", ", dataset" if ds else "")
        out.append(Job(name, path_of(cls, n, v, ds), name, sample, setup=X.setup))
    job("OWLRL_Semantics", 1, None, False)
    job("OWLRL_Semantics", 1, None, True)
    for c in ("RDFS_OWLRL_Semantics", "OWLRL_Extension", "OWLRL_Extension_Trimming"):
        job(c, 1, None, False)
    for v in MAKERS:
        job("OWLRL_Semantics", 1, v, False)
        job("OWLRL_Semantics", 1, v, True)
    return out
