import z3

from vt import engine as E, expand as X, load, stub
from vt.run import Job
from checks import F01

ASSUMPTIONS = [
    "rdflib's graph is replaced by the symbolic environment vt/stub.py; sampled paths are replayed on the real one",
    "the conversions of integers are D04's and are replaced by ones that give symbolic integers, one for every literal and facet of the graph",
    "in the jobs on allValuesFrom the rounds apply the rules to the allValuesFrom triple alone (the others are R01-R09); the replay applies all rules",
    "list cells and facet nodes are used as nothing else",
]
BOUNDS = {
    "quick": "up to two restrictions with names of any user IRI (equal or not), of xsd:integer, xsd:string, xsd:boolean (no facets) or an unknown base, with no facet list (not a restriction then), one (up to "
             "two facets) or two, in either order; facets: the four bounds, the three lengths, a pattern given with and without type; literals of xsd:integer, xsd:byte, xsd:string and an unknown datatype and ill-typed ones next to the facet values; any integer "
             "values; allValuesFrom on one or two restrictions with one or two values",
    "thorough": "three restrictions",
}
OUTSIDE = "facet values that are ill-typed or not literals; an allValuesFrom value of another type than the base; more restrictions"
XS = lambda n: stub.mk_uri(X.X + n)
OW = lambda n: stub.mk_uri(X.O + n)
BOUND = ("minInclusive", "minExclusive", "maxInclusive", "maxExclusive")
VAL = {}


def setup():
    load.load()
    import owlrl.DatatypeHandling as D
    for n in ("integer", "byte", "nonNegativeInteger"):
        D.AltXSDToPYTHON[XS(n)] = lambda v: VAL[v] if v in VAL else int(v)


class World:
    def __init__(self, ctx):
        self.ctx, self.triples, self.n, self.literals, self.rs = ctx, [], 0, [], []
        VAL.clear()

    def cell(self, items):
        head = stub.RDF.nil
        for x in reversed(items):
            self.n += 1
            c = stub.BNode("c%d" % self.n)
            self.triples += [(c, stub.RDF.first, x), (c, stub.RDF.rest, head)]
            head = c
        return head

    def number(self, dt, lim=None):
        """A literal of this type with any value."""
        self.n += 1
        lex = "N%dN" % self.n
        z = z3.Int("z" + lex)
        if lim:
            F01.bounded(self.ctx, z, lim)
        VAL[lex] = F01.Ordered(z)
        t = stub.mk_literal(lex, None, XS(dt))
        self.literals.append((t, "integer", z))
        return t

    def facet(self, base):
        """(facet node, condition on the rank or length)"""
        self.n += 1
        f = stub.BNode("f%d" % self.n)
        pat = self.ctx.choose(3) if base == "string" else 0
        if pat:
            # as it is usually written, and with its type
            t = stub.mk_literal("[a-c]*b", None, None if pat == 1 else XS("string"))
            if pat == 2:
                self.literals.append((t, "string", z3.IntVal(7)))
            self.triples.append((f, XS("pattern"), t))
            return f, lambda v: v == 2
        if base == "string":
            k = ["length", "minLength", "maxLength"][self.ctx.choose(3)]
            lit = self.number("nonNegativeInteger", (0, 3))
            # the code compares lengths with the number: realised by the engine
            z = VAL[lit.lit[0]].z
            VAL[lit.lit[0]] = E.SymInt(z)
            cond = {"length": lambda v: z == v, "minLength": lambda v: z <= v, "maxLength": lambda v: v <= z}[k]
        else:
            k = BOUND[self.ctx.choose(4)]
            lit = self.number("integer")
            z = VAL[lit.lit[0]].z
            cond = {"minInclusive": lambda v: z <= v, "minExclusive": lambda v: z < v, "maxInclusive": lambda v: v <= z, "maxExclusive": lambda v: v < z}[k]
        self.triples.append((f, XS(k), lit))
        return f, cond

    def restriction(self, d, bases, lists):
        """lists: numbers of facets"""
        self.triples.append((d, stub.RDF.type, stub.RDFS.Datatype))
        for b in bases:
            self.triples.append((d, OW("onDatatype"), X.uri("base") if b == "unknown" else XS(b)))
        conds = []
        for n in lists:
            fs = [self.facet(bases[0]) for _ in range(n)]
            self.triples.append((d, OW("withRestrictions"), self.cell([f for f, c in fs])))
            conds.append([c for f, c in fs])
        self.rs.append((d, bases, conds))

    def plain(self):
        """One literal of each kind as value of some property."""
        a, p = X.uri("a"), X.uri("p")
        self.string = [stub.mk_literal(s, None, XS("string")) for s in ("", "ab")]
        self.literals += [(t, "string", z3.IntVal(len(t.lit[0]))) for t in self.string]
        other = stub.mk_literal("7", None, X.uri("dt"))
        self.literals.append((other, "other", None))
        ill = [stub.mk_literal(x, None, XS("integer")) for x in ("bad", "worse")]
        self.literals += [(t, "ill", None) for t in ill]
        for t in ill[:1] + [self.number("integer"), self.number("byte", (-128, 127)), other] + self.string + ill[1:]:
            self.triples.append((a, p, t))

    # ------------------------------------------------------------ what has to come out
    def groups(self):
        """Restrictions by name: (name, set of bases, lists)"""
        out = []
        for d, bases, conds in self.rs:
            for g in out:
                if self.ctx.eq(g[0], d):
                    g[1].update(bases)
                    g[2].extend(c for c in conds if c or c not in g[2])  # the empty list is one list
                    break
            else:
                out.append([d, set(bases), list(conds)])
        return out

    def wellformed(self, g):
        return len(g[1]) == 1 and g[1] <= {"integer", "string"} and len(g[2]) == 1

    def reported(self, g):
        return len(g[1]) > 1 or (g[1] <= {"integer", "string"} and len(g[2]) > 1)

    def member(self, g, kind, z):
        """Condition for a literal to be of the restricted datatype"""
        if not self.wellformed(g) or {kind} != g[1]:
            return z3.BoolVal(False)
        return z3.And([c(z) for cs in g[2] for c in cs] or [z3.BoolVal(True)])

    # ------------------------------------------------------------ concretisation
    def scenario(self, cls, norules, extra=(), must=(), mustnot=(), must_errors=(), mustnot_errors=(), why="sampled path"):
        ctx = self.ctx
        must, mustnot = list(must), list(mustnot)
        m, known = X.model(ctx, self.triples, *extra)
        if m is None:
            raise E.Infeasible()
        c = X.Concrete(ctx, m, known)
        forms, used = {}, set()
        for lex, v in VAL.items():
            i = m.eval(v.z, model_completion=True).as_long()
            s = str(i)
            while s in used:
                s = ("-0" + s[1:]) if i < 0 else "0" + s
            used.add(s)
            forms[lex] = s

        def ser(t):
            x = X.ser(c(t))
            if x[0] == "L" and x[1] in forms:
                x[1] = forms[x[1]]
            return x
        # what the literals have to be and must not be, for these values
        for g in self.groups():
            for t, kind, z in self.literals:
                (must if z3.is_true(m.eval(self.member(g, kind, z), model_completion=True)) else mustnot).append((t, stub.RDF.type, g[0]))
        part = lambda ps: [{"word": forms.get(p.lit[0], p.lit[0])} if p.mask == E.LITERAL else c(p).const for p in ps]
        return {"scenario": "expand", "class": cls, "opts": {}, "norules": norules, "graph": [[ser(x) for x in t] for t in self.triples],
                "must": [[ser(x) for x in t] for t in must], "mustnot": [[ser(x) for x in t] for t in mustnot],
                "must_errors": [part(p) for p in must_errors], "mustnot_errors": [part(p) for p in mustnot_errors], "why": why}

    def run(self, cls, norules=True):
        ctx = self.ctx
        g = stub.Graph(identifier="urn:g")
        self.groups()  # decides which names are equal
        distinct = []
        for t in self.triples:
            if not any(X.teq(ctx, t, u) is True for u in distinct):
                distinct.append(t)
        for t in distinct:
            g.store.raw(t, g.identifier)
        ctx.notes["scen"] = lambda: self.scenario(cls, norules)
        try:
            X.cls("DeductiveClosure")(X.norules(cls) if norules else only(cls)).expand(g)
        except (E.Steer, E.Inconclusive):
            raise
        except Exception as e:
            raise E.Candidate(self.scenario(cls, norules, why="the expansion fails with %s: %s" % (type(e).__name__, e)))
        E.STATS.witness += 1
        out, msgs = [], []
        for t, gs in g.store.quads:
            if type(t[1].const) is str and t[1].const.endswith("agent-ont#error"):
                msgs.append(str(t[2].lit[0]))
            else:
                out.append(t)
        return out, msgs

    def check(self, cls, norules, cond, ok, why, **k):
        """cond: when the property requires what ok says; both are decided together."""
        E.STATS.obligations += 1
        wrong = z3.Not(cond) if ok else cond
        if self.ctx.model(wrong) is not None:
            raise E.Candidate(self.scenario(cls, norules, (wrong,), why=why, **k))

    def mentions(self, msg, *terms):
        return all(x.mask == E.LITERAL and str(x.lit[0]) in msg or x.const is not None and x.mask != E.LITERAL and x.const in msg
                   or any(self.ctx.decide(x, E.byid(int(i))) for i in tokens(msg)) for x in terms)

    def judge(self, cls, out, msgs, norules=True):
        groups = self.groups()
        for g in groups:
            for t, kind, z in self.literals:
                want = self.member(g, kind, z)
                typed = (t, stub.RDF.type, g[0])
                got = any(X.teq(self.ctx, typed, u) is True for u in out)
                if got:
                    self.check(cls, norules, want, True, "%s is typed with a datatype whose restrictions it violates" % t, mustnot=[typed])
                else:
                    self.check(cls, norules, want, False, "%s is not typed with a datatype whose restrictions it satisfies" % t, must=[typed])
            rep = any(self.mentions(m, g[0]) for m in msgs)
            E.STATS.obligations += 1
            if self.reported(g) and not rep:
                raise E.Candidate(self.scenario(cls, norules, must_errors=[[g[0]]], why="a malformed restriction is not reported"))
            if norules and not self.reported(g) and rep:
                raise E.Candidate(self.scenario(cls, norules, mustnot_errors=[[g[0]]], why="a well-formed restriction is reported"))


def only(name):
    """The class with rounds that look at the allValuesFrom triples alone."""
    base = X.cls(name)

    def rules(self, t, n):
        if t[1].const == X.O + "allValuesFrom":
            base.rules(self, t, n)
    return type.__new__(type, name, (base,), {"rules": rules})


def tokens(msg):
    import re
    return re.findall("⟦([0-9]+)⟧", msg)


CLASSES = ("OWLRL_Extension", "OWLRL_Extension_Trimming")
SHAPES = [(("integer",), (1,)), (("integer",), (0,)), (("integer",), ()), (("string",), (1,)), (("string",), ()), (("unknown",), ()), (("boolean",), ()),
          (("integer", "string"), ()), (("integer", "unknown"), (1,)), (("integer",), (1, 1)), (("string",), (1, 1))]


def path_of(cls, shapes):
    """shapes: for every restriction the choices"""
    def path(ctx):
        w = World(ctx)
        for i, ss in enumerate(shapes):
            bases, lists = ss[ctx.choose(len(ss))]
            w.restriction(ctx.var("d%d" % i, E.URI_USER), bases, lists)
        w.plain()
        for t in [X.uri(n) for n in ("a", "p", "dt", "base")]:
            for r in w.rs:
                if ctx.eq(r[0], t):
                    raise E.Infeasible()
        if len(shapes) > 1 and ctx.choose(2):
            w.triples.reverse()
        out, msgs = w.run(cls)
        w.judge(cls, out, msgs)
    return path


def avf_of(cls, shapes, values, declared=True):
    """x is in the restriction 'all values of p from d', with literal values of p"""
    def path(ctx):
        w = World(ctx)
        for i, ss in enumerate(shapes):
            bases, lists = ss[ctx.choose(len(ss))]
            w.restriction(X.uri("d" + "abc"[i]), bases, lists)
        x, p, c = X.uri("x"), X.uri("p"), X.uri("c")
        w.triples += [(x, stub.RDF.type, c), (c, OW("onProperty"), p), (c, OW("allValuesFrom"), X.uri("da"))]
        vs = [w.number("integer", None) if n == "integer" else w.number(n, (-128, 127)) for n in values]
        for v in vs:
            w.triples.append((x, p, v))
        out, msgs = w.run(cls, False)
        w.judge(cls, out, msgs, False)
        g = w.groups()[0]
        for t, kind, z in w.literals:
            rep = any(w.mentions(m, g[0], t) for m in msgs)
            bad = z3.Not(w.member(g, kind, z)) if t in vs else z3.BoolVal(False)
            if rep:
                w.check(cls, False, bad, True, "%s is reported and conforms" % t, mustnot_errors=[[g[0], t]])
            else:
                w.check(cls, False, bad, False, "%s violates the restriction and is not reported" % t, must_errors=[[g[0], t]])
    return path


def sample(ctx):
    return ctx.notes["scen"]()


def jobs(tier):
    q = tier == "quick"
    out = []

    def job(name, path):
        out.append(Job(name, path, name, sample, setup=setup))
    for s in [(("integer",), (2,)), (("string",), (2,))]:
        job("one restriction, %s" % (s,), path_of(CLASSES[0], [[s]]))
    for s in SHAPES:
        job("one restriction, %s" % (s,), path_of(CLASSES[0], [[s]]))
        job("one restriction, %s, trimming" % (s,), path_of(CLASSES[1], [[s]]))
        job("a restriction, then %s" % (s,), path_of(CLASSES[0], [SHAPES[:5] if q else SHAPES, [s]]))
    if not q:
        for s in SHAPES[:5]:
            job("two restrictions, then %s" % (s,), path_of(CLASSES[0], [SHAPES[:5], SHAPES[:4], [s]]))
    avf = [(("integer",), (1,)), (("integer",), (2,)), (("integer",), (0,))]
    for cls in CLASSES[:1] if q else CLASSES:
        for s in avf:
            job("allValuesFrom %s" % (s,), avf_of(cls, [[s]], ["integer", "byte"][: 1 if s[1] == (2,) else 2]))
        job("allValuesFrom, two restrictions", avf_of(cls, [avf[:1], avf[:1] + [SHAPES[3]]], ["integer"]))
    return out
