from vt import engine as E, expand as X, plug, stub
from vt.run import Job

ASSUMPTIONS = [
    "rdflib's graph and dataset are replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real one",
    "rules are plugged in by a subclass of Core, as the package's own semantics are; a rule has one or two premises and one conclusion",
]
BOUNDS = {
    "quick": "a chain of 30 rounds with an arbitrary rule, and rule sets of up to 4 rules (chains of 4 rounds; one or two premises; reports; one-time rules, axioms, pre- and post-processing), "
             "1 or 2 initial triples, the premises and conclusions any terms (so any coincidence between them); plain graph and dataset",
    "thorough": "a chain of 120 rounds; up to 5 rules, 3 initial triples",
}
OUTSIDE = "more rules or rounds at once; rules that depend on anything but the graph"


def path_of(kinds, m, dataset, chain=0):
    def path(ctx):
        init = [ctx.var("t%d" % i, E.URI_USER) for i in range(m)]
        for i in range(m):
            for j in range(i):
                ctx.set_ne(init[i], init[j])
        rules = plug.Rules(ctx, kinds, chain=(init[0], chain) if chain else None)
        ax = ctx.choose(2) == 1 if any(k.startswith("axiom") for k in kinds) else False
        dax = ctx.choose(2) == 1 if any(k.startswith("daxiom") for k in kinds) else False
        g = stub.Dataset() if dataset else stub.Graph(identifier="urn:g")
        gid = g.default_context.identifier if dataset else g.identifier
        for t in init:
            g.store.raw(plug.tr(t), gid)

        def scen(model):
            nm = plug.concretise(ctx, model, init, rules)
            return dict(plug.ser(nm, init, rules), scenario="engine", axioms=ax, daxioms=dax, dataset=dataset, places=["default"] * m, dest=None)
        ctx.notes["scen"] = scen
        try:
            X.cls("DeductiveClosure")(plug.subclass(rules), axiomatic_triples=ax, datatype_axioms=dax).expand(g)
        except E.Candidate:
            raise E.Candidate(dict(scen(None), why="the expansion does not end"))
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            raise E.Candidate(dict(scen(None), why="the expansion fails with %s: %s" % (type(e).__name__, e)))
        plug.check(ctx, init, [gid] * m, rules, g.store, gid, ax, dax, scen)
    return path


def sample(ctx):
    return dict(ctx.notes["scen"](None), why="sampled path")


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(kinds, m, dataset=False):
        name = "%s, %d initial%s" % (" ".join(kinds), m, ", dataset" if dataset else "")
        out.append(Job(name, path_of(kinds, m, dataset), name, sample, setup=X.setup))
    n = 30 if q else 120
    out.append(Job("a chain of %d and a rule" % n, path_of(("rounde",), 1, False, n), "a chain of %d rules and an arbitrary one" % n, sample, setup=X.setup))
    job(("round",) * 4, 1)
    job(("round",) * 3, 2)
    job(("round2", "round", "round"), 1)
    job(("round2", "round2"), 2)
    job(("round", "round2", "round"), 1, True)
    job(("round", "round", "rounde"), 1)
    job(("round", "rounde", "round", "rounde"), 1)
    job(("round2e", "round"), 2)
    job(("once", "round", "once"), 1)
    job(("once", "round", "round"), 2)
    job(("axiom", "once", "round"), 1)
    job(("axiom", "daxiom", "round", "once2"), 1)
    job(("axiom", "daxiom", "rounde", "oncee"), 1)
    job(("pre", "round", "post"), 1)
    job(("round", "post", "poste"), 1)
    if not q:
        job(("round",) * 5, 1)
        job(("round",) * 4, 2)
        job(("round2", "round", "round", "round"), 1)
        job(("round2", "round2", "round"), 2)
        job(("round", "round", "round"), 3)
        job(("once", "axiom", "round2", "rounde", "post"), 1)
    return out
