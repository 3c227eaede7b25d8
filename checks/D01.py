import z3

from vt import engine as E, expand as X, spec, stub
from vt.run import Job

ASSUMPTIONS = [
    "rdflib is replaced by the symbolic environment vt/stub.py; sampled paths are replayed as full expansions on the real rdflib",
    "the rounds are switched off: the one-time rules are run by the real closure(), and their result is judged modulo sameAs, which the rounds "
    "close under (R02) to the fixpoint (E01)",
    "the conversions are replaced by ones that accept everything (which forms are accepted is D03-D06)",
    "no schema axioms about datatypes in the graph (subClassOf etc. between datatypes are R05), no sameAs between vocabulary terms",
]
BOUNDS = {
    "quick": "one literal, a typed node, a sameAs link, in all combinations: 1 and 2 arbitrary triples (type, sameAs or user predicate, terms any), "
             "literal datatypes and type objects any supported datatype, any other IRI or none; chains literal-sameAs-sameAs and typed-sameAs-sameAs; two literals",
    "thorough": "3 arbitrary triples with one literal; two literals with a link",
}
OUTSIDE = "more literals or longer chains at once"
SUP = {"dateTimeStamp": "dateTime", "integer": "decimal", "long": "integer", "int": "long", "short": "int", "byte": "short",
       "nonNegativeInteger": "integer", "positiveInteger": "nonNegativeInteger", "unsignedLong": "nonNegativeInteger",
       "unsignedInt": "unsignedLong", "unsignedShort": "unsignedInt", "unsignedByte": "unsignedShort", "nonPositiveInteger": "integer",
       "negativeInteger": "nonPositiveInteger", "normalizedString": "string", "token": "normalizedString", "language": "token",
       "Name": "token", "NCName": "Name", "NMTOKEN": "token"}
TYPES = ["integer", "decimal", "nonNegativeInteger", "nonPositiveInteger", "negativeInteger", "positiveInteger", "long", "int", "short", "byte",
         "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "float", "double", "string", "normalizedString", "token", "language",
         "Name", "NCName", "NMTOKEN", "boolean", "hexBinary", "base64Binary", "anyURI", "dateTimeStamp", "dateTime", "time", "date"]
SUPPORTED = [X.X + t for t in TYPES] + [X.S + "Literal", X.R + "XMLLiteral", X.R + "HTML", X.R + "langString", X.R + "PlainLiteral"]


def up(d):
    """d and everything above it"""
    out = [d]
    n = d[len(X.X):] if d.startswith(X.X) else None
    while n in SUP:
        n = SUP[n]
        out.append(X.X + n)
    return out


def setup():
    X.setup()
    from owlrl import DatatypeHandling as D
    for k in list(D.AltXSDToPYTHON):
        D.AltXSDToPYTHON[k] = lambda v: v


NODE = E.URI_USER | E.BNODE


def T():
    return stub.RDF.type


def conj(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    return z3.And(cs) if cs else True


def eq(ctx, a, b):
    d = ctx.decide(a, b)
    return d if d is not None else a.z == b.z


def path_of(build, name):
    def path(ctx):
        tr = build(ctx)
        ctx.notes["triples"] = tr
        g = stub.Graph(identifier="urn:g")
        for t in tr:
            g.store.raw(t, g.identifier)
        core = X.norules("OWLRL_Semantics")(g, False, False)
        try:
            core.closure()
        except (E.Steer, E.Inconclusive, E.Candidate):
            raise
        except Exception as e:
            c, gr = X.scenario(ctx, tr)
            raise E.Candidate(dict(base(), graph=gr, why="the expansion fails with %s: %s" % (type(e).__name__, e)))
        final = [q[0] for q in g.store.quads]
        if any("ErrorMessage" in x.name for t in final for x in t if x.const is not None):
            c, gr = X.scenario(ctx, tr)
            raise E.Candidate(dict(base(), graph=gr, noerrors=True, why="a well-formed literal is reported"))
        judge(ctx, tr, final)
    return path


def base():
    return {"scenario": "expand", "class": "OWLRL_Semantics", "opts": {}}


_C = {}


def C(d):
    t = _C.get(d)
    if t is None:
        t = _C[d] = stub.mk_uri(d)
    return t


def named(ctx, dt):
    """The supported datatypes dt may be, with the condition."""
    k = dt if dt.const is not None else ctx.info[ctx.find(dt)][0]
    if k is not None:
        return [(k.const, True)] if k.const in SUPPORTED and k.mask != E.LITERAL else []
    return [(d, c) for d in SUPPORTED for c in (eq(ctx, dt, C(d)),) if c is not False]


def static():
    """what is stated of the vocabulary in any case"""
    o = stub.OWL
    yield o.Thing, o.Class
    yield o.Nothing, o.Class
    for x in spec.AXIOM_PROPS:
        yield spec._tok(x), o.AnnotationProperty


def judge(ctx, tr, final):
    # literals get their attributes decided: the code has asked for them if they matter
    nodes = []
    for s, p, o in tr:
        for x in (s, o):
            if not any(x is y for y in nodes):
                nodes.append(x)
    n = len(nodes)
    sa = [t for t in tr if ctx.decide(t[1], stub.OWL.sameAs) is not False]
    rel = [[eq(ctx, a, b) for b in nodes] for a in nodes]
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            cs = [rel[i][j]]
            for s, p, o in sa:
                cs.append(conj(eq(ctx, p, stub.OWL.sameAs), eq(ctx, a, s), eq(ctx, b, o)))
                cs.append(conj(eq(ctx, p, stub.OWL.sameAs), eq(ctx, b, s), eq(ctx, a, o)))
            rel[i][j] = X.anyof(cs)
    for k in range(n):
        for i in range(n):
            if rel[i][k] is False:
                continue
            for j in range(n):
                if rel[i][j] is not True:
                    rel[i][j] = X.anyof([rel[i][j], conj(rel[i][k], rel[k][j])])

    def has(i):
        """(datatype IRI, condition) pairs: node i is a literal of that type or explicitly typed"""
        a = nodes[i]
        if any(a is t[2] for t in tr) and (ctx.mask(a) & E.LITERAL):
            dt = ctx.info[ctx.find(a)][3].get("datatype", 0)
            lit = True if not (ctx.mask(a) & ~E.LITERAL) else E.Kind(a.z) == E.LITERAL
            if dt == 0 and type(dt) is int:
                yield None, lit  # never looked at
            elif dt is not None:
                yield dt, lit
        for s, p, o in tr:
            c = conj(eq(ctx, p, T()), eq(ctx, s, a))
            if c is not False:
                yield o, c

    obl = []
    fin = [t for t in final if ctx.decide(t[1], T()) is not False]
    for i in range(n):
        for dt, c in list(has(i)):
            if dt is None:
                raise E.Unsupported("the datatype of a literal is not looked at")
            for d, cd in named(ctx, dt):
                cd = conj(c, cd)
                if cd is False:
                    continue
                E.STATS.witness += 1
                for j in range(n):
                    cj = conj(cd, rel[i][j])
                    if cj is False:
                        continue
                    for e in up(d):
                        ok = X.anyof(conj(rel[j][k], X.present(ctx, (nodes[k], T(), C(e)), fin)) for k in range(n))
                        obl.append(("missing", (nodes[j], T(), C(e)), z3.Implies(cj if cj is not True else z3.BoolVal(True), zb(ok))))
    added = [t for t in final if not any(t[0] is u[0] and t[1] is u[1] and t[2] is u[2] for u in tr)]
    below = {}
    for d in SUPPORTED:
        for e in up(d):
            below.setdefault(e, []).append(d)
    used = []
    for i in range(n):
        used += [(dt, c) for dt, c in has(i) if dt is not None]
    for t in added:
        if ctx.decide(t[1], T()) is not False:
            old = X.present(ctx, t, tr)
            if t[2].const == X.S + "Datatype" and t[2].mask != E.LITERAL:
                ok = X.anyof([old] + [t[0].const in SUPPORTED if t[0].const is not None else z3.Or([t[0].z == C(d).z for d in SUPPORTED])]
                             + [conj(c, eq(ctx, dt, t[0])) for dt, c in used]
                             + [conj(c, cd, eq(ctx, t[0], C(e))) for dt, c in used for d, cd in named(ctx, dt) for e in up(d)])
                obl.append(("unsound", t, zb(ok)))
                continue
            for e, ce in named(ctx, t[2]):
                ok = [old]
                for i in range(n):
                    for dt, c in has(i):
                        if dt is None:
                            continue
                        for d, cd in named(ctx, dt):
                            cd = conj(c, cd)
                            if cd is not False and d in below[e]:
                                for j in range(n):
                                    ok.append(conj(cd, rel[i][j], eq(ctx, nodes[j], t[0])))
                obl.append(("unsound", t, z3.Implies(zb(ce), zb(X.anyof(ok)))))
            oks = [old] + [c for d, c in named(ctx, t[2])] + [conj(eq(ctx, t[0], x), eq(ctx, t[2], y)) for x, y in static()]
            obl.append(("unsound", t, zb(X.anyof(oks))))
            continue
        if ctx.decide(t[1], stub.OWL.disjointWith) is not False:
            both = []
            for x in (t[0], t[2]):
                both.append(X.anyof(conj(c, cd, eq(ctx, x, C(e))) for dt, c in used for d, cd in named(ctx, dt) for e in up(d)))
            obl.append(("unsound", t, zb(X.anyof([X.present(ctx, t, tr), conj(*both)]))))
            continue
        obl.append(("unsound", t, zb(X.present(ctx, t, tr))))
    inuse = {}
    for dt, c in used:
        for d, cd in named(ctx, dt):
            cd = conj(c, cd)
            if cd is not False:
                for e in up(d):
                    inuse.setdefault(e, []).append(cd)
    inuse = {e: X.anyof(cs) for e, cs in inuse.items()}
    dis = [t for t in final if ctx.decide(t[1], stub.OWL.disjointWith) is not False]
    from owlrl.AxiomaticTriples import OWLRL_Datatypes_Disjointness as pairs
    for l, _, r in pairs:
        both = conj(inuse.get(str(l.const), False), inuse.get(str(r.const), False))
        if both is not False:
            obl.append(("missing", (l, stub.OWL.disjointWith, r), z3.Implies(zb(both), zb(X.anyof([X.present(ctx, x, dis) for x in ((l, _, r), (r, _, l))])))))
    E.STATS.obligations += len(obl)
    live = [(k, p, f) for k, p, f in obl if not z3.is_true(f)]
    if not live:
        return
    known = {x for t in tr + final for x in t if x.const is not None} | set(ctx.touched) | {stub.mk_uri(d) for d in SUPPORTED}
    m = ctx.model(*ctx.const_kind_facts(known), z3.Not(z3.And([f for _, _, f in live])))
    if m is None:
        return
    kind, t = next((k, p) for k, p, f in live if not z3.is_true(m.eval(f, model_completion=True)))
    c = X.Concrete(ctx, m, known)
    sc = dict(base(), graph=[[X.ser(c(x)) for x in u] for u in tr])
    tt = [X.ser(c(x)) for x in t]
    if kind == "missing":
        raise E.Candidate(dict(sc, must=[tt], why="a datatype or a disjointness of datatypes is missing"))
    raise E.Candidate(dict(sc, mustnot=[tt], why="a datatype statement without ground"))


def zb(c):
    return c if not isinstance(c, bool) else z3.BoolVal(c)


def sample(ctx):
    tr = ctx.notes.get("triples")
    if tr is None:
        return None
    c, g = X.scenario(ctx, tr)
    must = []
    for t in tr:
        o = c(t[2])
        if o.mask == E.LITERAL and o.lit[2] is not None and o.lit[2].const in SUPPORTED:
            must += [[X.ser(o), X.ser(T()), ["U", d]] for d in up(o.lit[2].const)]
        if c(t[1]) is T() and o.mask != E.LITERAL and o.const in SUPPORTED:
            must += [[X.ser(c(t[0])), X.ser(T()), ["U", d]] for d in up(o.const)]
    return dict(base(), graph=g, must=must, why="sampled path")


REP = ["short", "NCName", "double", "dateTimeStamp"]


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(name, build):
        out.append(Job(name, path_of(build, name), name, sample, setup=setup))

    def lit(ctx, n, second=False):
        t = ctx.var(n, E.LITERAL)
        if second and q:
            ctx.attr(t, "datatype", lambda: rep(ctx))
        return t

    def rep(ctx):
        k = ctx.choose(len(REP) + 2)
        return stub.mk_uri(X.X + REP[k]) if k < len(REP) else None if k == len(REP) else stub.mk_uri("http://ex.org/dt")

    def v(ctx, n):
        return ctx.var(n, NODE)

    def typ(ctx, n, second=False):
        return (rep(ctx) or stub.mk_uri("http://ex.org/C")) if second and q else ctx.var(n, E.URI | E.BNODE)

    def triple(ctx, i):
        s = ctx.var("s%d" % i, NODE)
        k = ctx.choose(3)
        if k == 0:
            return (s, T(), typ(ctx, "c%d" % i, i))
        pr = stub.OWL.sameAs if k == 1 else p
        return (s, pr, lit(ctx, "o%d" % i, i) if ctx.choose(2) == 0 else v(ctx, "o%d" % i))
    p, sa = stub.mk_uri("http://ex.org/p"), stub.OWL.sameAs
    for k in (1, 2) if q else (1, 2, 3):
        job("%d arbitrary triples" % k, lambda ctx, k=k: [triple(ctx, i) for i in range(k)])
    job("typed node with a link", lambda ctx: [(v(ctx, "x"), T(), typ(ctx, "D")), (v(ctx, "y"), sa, v(ctx, "z"))])
    job("typed node with a link, link first", lambda ctx: [(v(ctx, "y"), sa, v(ctx, "z")), (v(ctx, "x"), T(), typ(ctx, "D"))])
    job("literal with a link", lambda ctx: [(v(ctx, "x"), p, lit(ctx, "L")), (v(ctx, "y"), sa, ctx.var("z", NODE | E.LITERAL))])
    job("typed node, two links", lambda ctx: [(v(ctx, "x"), T(), typ(ctx, "D")), (v(ctx, "y"), sa, v(ctx, "z")), (v(ctx, "u"), sa, v(ctx, "w"))])
    job("typed node, two links, links first", lambda ctx: [(v(ctx, "y"), sa, v(ctx, "z")), (v(ctx, "u"), sa, v(ctx, "w")), (v(ctx, "x"), T(), typ(ctx, "D"))])
    job("literal, two links", lambda ctx: [(v(ctx, "y"), sa, lit(ctx, "L")), (v(ctx, "u"), sa, v(ctx, "w"))])
    job("literal, typing and link", lambda ctx: [(v(ctx, "x"), p, lit(ctx, "L")), (v(ctx, "y"), T(), typ(ctx, "F", True)), (v(ctx, "u"), sa, v(ctx, "w"))])
    job("two literals", lambda ctx: [(v(ctx, "x"), p, lit(ctx, "L")), (v(ctx, "y"), p, lit(ctx, "M"))])
    return out
