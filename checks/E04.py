import z3

from vt import axioms as A, engine as E, expand as X, load, stub, symstr as S
from vt.run import Job

ASSUMPTIONS = [
    "rdflib's graph is replaced by the symbolic environment vt/stub.py, Python's strings and `re` by vt/symstr.py; sampled paths are replayed on the real code",
    "the axiom lists of vt/axioms.py were written down once and reviewed against the W3C documents",
    "the rounds are switched off, so that what is seen are the axioms and the one-time rules (the rounds are R01-R09)",
]
BOUNDS = {
    "quick": "RDFS, OWL 2 RL, combined and extended semantics with every combination of the three flags, on a graph of one arbitrary triple and one "
             "literal of a known, unknown or no datatype; under RDFS also any triple of vocabulary terms; up to 2 predicates (and an object) made of the "
             "RDF namespace with one arbitrary character changed or not, and up to 4 characters out of underscore, digits, a letter, a dot, a non-ASCII digit",
    "thorough": "up to 3 predicates; 6 characters",
}
OUTSIDE = "datasets (E02); longer predicates; characters outside the stated class in the local part"
RDFNS = A.NS["rdf"]
CLASSES = ("RDFS_Semantics", "OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension")
USER = E.URI_USER | E.BNODE


def wanted(cls, ax, dax, rdfs):
    """The axioms due."""
    r = cls in ("RDFS_Semantics", "RDFS_OWLRL_Semantics") or cls == "OWLRL_Extension" and rdfs
    o = cls != "RDFS_Semantics"
    out = []
    if ax:
        out += (A.rdfs() if r else []) + (A.owl() if o else []) + (A.parse(A.SELF) if cls == "OWLRL_Extension" else [])
    if dax:
        out += A.owl_d() if o else A.rdfs_d()
    if o:
        out += A.parse(A.ALWAYS)
    if cls in ("RDFS_OWLRL_Semantics", "OWLRL_Extension"):
        out += A.parse(A.BINDING)
    return list(dict.fromkeys(A.terms(out))), r


def onetime(cls, t, used):
    """May t be there because of the one-time rules (D01)?"""
    s, p, o = t
    if cls == "RDFS_Semantics":
        return False
    if p.const == X.O + "sameAs":
        return True
    if s.mask == E.LITERAL and p.const == X.R + "type":
        # only the datatypes of the profile
        return o.const is None or not o.const.startswith("http://ex.org/")
    if p.const == X.R + "type" and o.const == X.S + "Datatype":
        return True
    if p.const == X.O + "disjointWith":
        return bool(used)
    if p.const == X.S + "subClassOf" and s.const and s.const.startswith(X.X):
        return bool(used)
    return False


ALLAX = []


def setup():
    X.setup()
    ALLAX[:] = A.terms(list(dict.fromkeys(A.rdfs() + A.owl() + A.rdfs_d() + A.owl_d() + A.parse(A.SELF))))


def path_of(cls, shape, both=True):
    def path(ctx):
        ax, dax, rdfs = ctx.choose(2) == 1, ctx.choose(2) == 1, ctx.choose(2) == 1
        if shape == "vocab":
            # any triple of vocabulary terms, so also an axiom that is there already
            trs = [(ctx.var("s", E.URI_VOCAB), ctx.var("p", E.URI_VOCAB), ctx.var("o", E.URI_VOCAB))]
        else:
            trs = [(ctx.var("s", USER), ctx.var("p", E.URI_USER), ctx.var("o", E.URI | E.BNODE))]
        if shape == "literal":
            dt = [X.X + "integer", X.X + "token", "http://ex.org/dt", None][ctx.choose(4)]
            lt = stub.mk_literal(X.lexical(dt, 1) if dt and dt.startswith(X.X) else "a", None, stub.mk_uri(dt) if dt else None)
            trs.append((ctx.var("s2", USER), stub.mk_uri("http://ex.org/q"), lt))
        want, r = wanted(cls, ax, dax, rdfs)
        if shape == "literal" and r and dax and dt:
            want.append((lt, stub.RDF.type, stub.mk_uri(dt)))
        g = stub.Graph(identifier="urn:g")
        for t in trs:
            g.store.raw(t, g.identifier)

        def scen(extra=(), must=(), mustnot=()):
            c, gr = X.scenario(ctx, trs, *extra)
            return {"scenario": "expand", "class": cls, "norules": True, "opts": {"axiomatic_triples": ax, "datatype_axioms": dax, "rdfs_closure": rdfs},
                    "graph": gr, "must": [[X.ser(c(x)) for x in t] for t in must], "mustnot": [[X.ser(c(x)) for x in t] for t in mustnot]}
        off = [t for t in ALLAX if t not in want and not onetime(cls, t, shape == "literal")] if shape != "vocab" else []
        ctx.notes["scen"] = lambda: dict(scen((), want + [t for t in trs], off), why="sampled path")
        try:
            X.cls("DeductiveClosure")(X.norules(cls), axiomatic_triples=ax, datatype_axioms=dax, rdfs_closure=rdfs).expand(g)
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            raise E.Candidate(dict(scen(), why="the expansion fails with %s: %s" % (type(e).__name__, e)))
        judge(ctx, cls, [t for t, gs in g.store.quads], trs, want, shape == "literal", scen)
        E.STATS.witness += ax and dax
    return path


def judge(ctx, cls, final, trs, want, used, scen):
    index = {tuple(x.tid for x in t) for t in final}
    for t in want + trs:
        E.STATS.obligations += 1
        if tuple(x.tid for x in t) in index:
            continue
        c = X.present(ctx, t, final)
        if c is True:
            continue
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        if ctx.model(neg) is not None:
            raise E.Candidate(dict(scen((neg,), must=[t]), why="missing: %s" % (t,)))
    due = {tuple(x.tid for x in t) for t in want + trs}
    for t in final:
        E.STATS.obligations += 1
        if tuple(x.tid for x in t) in due or onetime(cls, t, used):
            continue
        c = X.present(ctx, t, want + trs)
        if c is True:
            continue
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        if ctx.model(neg) is not None:
            raise E.Candidate(dict(scen((neg,), mustnot=[t]), why="not due: %s" % (t,)))


def sample(ctx):
    return ctx.notes["scen"]()


# ------------------------------------------------------------------ container membership
LOCAL = S.norm([(ord(c), ord(c)) for c in "_a.\u0663"] + [(48, 57)])
DIGIT, FIRST, ONE = ((48, 57),), ((49, 57),), ((95, 95),)


def csetup():
    load.load_strings()
    X.RULESFREE.clear()


def member(s):
    """oracle: rdf:_n with a decimal n >= 1 without leading zeros"""
    c = s.chars
    k = len(RDFNS)
    for x, y in zip(c[:k], RDFNS):
        if not S.chareq(x, ord(y)):
            return False
    return len(c) >= k + 2 and S.isin(c[k], ONE) and S.isin(c[k + 1], FIRST) and all(S.isin(x, DIGIT) for x in c[k + 2:])


def named(ctx, name, n, odd):
    """A term made of the namespace (with one character arbitrary, if odd) and n characters."""
    pre = [ord(c) for c in RDFNS]
    if odd is not None:
        pre[odd] = S.newchar(ctx, "ns!" + name, S.norm([(33, 126)]))
    s = S.SymStr(pre + [S.newchar(ctx, "ch!%s%d" % (name, i), LOCAL) for i in range(n)])
    t = ctx.var(name, E.URI_USER)
    return t, s


def container(cls, lens, odd):
    """lens: characters of the predicates; the last entry is for an object, which is not a predicate."""
    def path(ctx):
        rdfs = cls != "OWLRL_Extension" or ctx.choose(2) == 1
        ax = ctx.choose(2) == 1
        ts = [named(ctx, "p%d" % i, n, odd) for i, n in enumerate(lens)]
        names = {}
        for i, (t, s) in enumerate(ts):
            names[t.tid] = s
            for j in range(i):
                u, v = ts[j]
                if len(s.chars) == len(v.chars) and i < len(ts) - 1 and ctx.choose(2) == 1:
                    # the same predicate twice
                    ctx.set_eq(t, u)
                    for a, b in zip(s.chars, v.chars):
                        ctx.assume(S.zchar(a) == S.zchar(b))
                    s = v
                    names[t.tid] = v
                    break
                ctx.set_ne(t, u)
                if len(s.chars) == len(v.chars):
                    ctx.assume(z3.Or([S.zchar(a) != S.zchar(b) for a, b in zip(s.chars, v.chars)]))
        preds, ob = [t for t, s in ts[:-1]], ts[-1][0]
        trs = [(X.uri("a%d" % i), p, X.uri("b")) for i, p in enumerate(preds)]
        trs.append((X.uri("c"), X.uri("q"), ob))
        S.STR_OF = lambda t: names.get(t.tid) if t.const is None else t.const if t.mask & E.URI else None

        def conc(m):
            def c(t):
                if t.const is not None:
                    return X.ser(t)
                return ["U", S.evalstr(names[t.tid], m)]
            return c

        def scen(extra=(), must=(), mustnot=()):
            m = ctx.model(*extra)
            if m is None:
                raise E.Infeasible()
            c = conc(m)
            return {"scenario": "expand", "class": cls, "norules": True, "opts": {"axiomatic_triples": ax, "datatype_axioms": False, "rdfs_closure": rdfs},
                    "graph": [[c(x) for x in t] for t in trs], "must": [[c(x) for x in t] for t in must], "mustnot": [[c(x) for x in t] for t in mustnot]}
        g = stub.Graph(identifier="urn:g")
        for t in trs:
            g.store.raw(t, g.identifier)
        try:
            try:
                X.cls("DeductiveClosure")(X.norules(cls), axiomatic_triples=ax, rdfs_closure=rdfs).expand(g)
            except (E.Steer, E.Inconclusive):
                raise
            except Exception as e:
                raise E.Candidate(dict(scen(), why="the expansion fails with %s: %s" % (type(e).__name__, e)))
            want, r = wanted(cls, ax, False, rdfs)
            off = []
            done = set()
            for t in preds + [ob]:
                if ctx.find(t) in done:
                    continue
                done.add(ctx.find(t))
                cs = [(t, stub.RDF.type, stub.RDF.Property), (t, stub.RDFS.domain, stub.RDFS.Resource), (t, stub.RDFS.range, stub.RDFS.Resource),
                      (t, stub.RDF.type, stub.RDFS.ContainerMembershipProperty)]
                if t is not ob and ax and r and member(S.lift(names[t.tid])):
                    want += cs
                    E.STATS.witness += 1
                else:
                    off += cs
            ctx.notes["scen"] = lambda: dict(scen((), want, off), why="sampled path")
            judge(ctx, cls, [t for t, gs in g.store.quads], trs, want, False, scen)
        finally:
            S.STR_OF = None
    return path


def jobs(tier):
    q = tier == "quick"
    out = []
    for cls in CLASSES:
        for shape in ("plain", "literal"):
            out.append(Job("%s, %s" % (cls, shape), path_of(cls, shape), "%s, every combination of flags" % cls, sample, setup=setup))
    out.append(Job("RDFS_Semantics, any vocabulary", path_of("RDFS_Semantics", "vocab"), "any triple of vocabulary terms", sample, setup=setup))
    NSODD = RDFNS.index(".")

    def job(cls, lens, odd=None):
        name = "%s, predicates of %s characters, object of %d%s" % (cls, lens[:-1], lens[-1], ", one of the namespace arbitrary" if odd is not None else "")
        out.append(Job(name, container(cls, lens, odd), name, sample, setup=csetup, witness=any(n > 1 for n in lens[:-1]) and cls != "OWLRL_Semantics"))
    for n in range(0, 5 if q else 7):
        job("RDFS_Semantics", (n, 2))
    job("RDFS_Semantics", (2, 2, 2))
    job("RDFS_Semantics", (3, 2, 3))
    job("RDFS_Semantics", (3, 3, 2))
    for odd in (NSODD, len(RDFNS) - 1, len(RDFNS) - 3):
        job("RDFS_Semantics", (2, 2), odd)
    job("RDFS_OWLRL_Semantics", (2, 2))
    job("OWLRL_Extension", (2, 3))
    job("OWLRL_Semantics", (2, 2))
    if not q:
        job("RDFS_Semantics", (2, 2, 3, 2))
        job("RDFS_Semantics", (4, 3, 2))
    return out
